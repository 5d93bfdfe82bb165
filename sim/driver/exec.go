package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifsim/spec"
)

// Executing simulated processes.

// outcome of one simulated process.
type outcome struct {
	res   *spec.Result
	crash string // the process died: fatal error, escaped panic, exit, wall-clock limit
	errs  string // its standard error (race reports)
}

type env struct {
	plain, race string
	sites       []site
	missing     []string
	seed        uint64
	tier        string
	prop        string

	refMu sync.Mutex
	refs  map[string]*refEntry

	st stats
}

type refEntry struct {
	once sync.Once
	out  *refResult
	err  error
}

type refResult struct {
	op    spec.OpResult
	crash string
	hang  string
}

type stats struct {
	mu       sync.Mutex
	procs    int64 // simulated processes of scenarios
	refProcs int64
	yields   int64
	switches int64
	syscalls int64
	clock    float64 // seconds
	jumps    int
	fired    map[string]int
	capHits  int
	kills    int
	killBy   map[string]int
	hashes   map[string]bool
	scheds   map[uint64]bool
	sites    int
	unknown  map[int]bool
	races    int
}

func (s *stats) init() {
	s.fired, s.killBy = map[string]int{}, map[string]int{}
	s.hashes, s.scheds, s.unknown = map[string]bool{}, map[uint64]bool{}, map[int]bool{}
}

func (s *stats) add(p *spec.Plan, o *outcome) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.procs++
	r := o.res
	if r == nil {
		return
	}
	s.yields += r.Yields
	s.switches += r.Switches
	s.syscalls += int64(r.Sys)
	s.clock += float64(r.Elapsed) / 1e9
	s.jumps += r.Jumps
	for k, n := range r.Fired {
		s.fired[k] += n
	}
	s.capHits += r.CapHits
	if r.Killed {
		s.kills++
		s.killBy[p.Kill.Mode]++
	}
	for _, u := range r.Unknown {
		s.unknown[u] = true
	}
	if r.Sites > s.sites {
		s.sites = r.Sites
	}
	s.races += r.Races
	s.scheds[r.SchedHash] = true
	s.hashes[runHash(p, r)] = true
}

// runHash identifies an execution by its plan's operations and what happened.
func runHash(p *spec.Plan, r *spec.Result) string {
	h := sha256.New()
	j := json.NewEncoder(h)
	j.Encode(p.Threads)
	j.Encode(p.Disk)
	j.Encode(p.Inputs)
	j.Encode(p.Kill)
	j.Encode([]int64{p.Cap, int64(p.MapSeed)})
	j.Encode(r.Decs)
	j.Encode(r.Faults)
	return hex.EncodeToString(h.Sum(nil)[:12])
}

const wallLimit = 100 * time.Second

// errInfra is an ending of the worker that says nothing about the code under
// test.
var errInfra = errors.New("simulator error")

func (e *env) exec(p *spec.Plan, race bool) (*outcome, error) {
	in, err := json.Marshal(p)
	if err != nil {
		return nil, err
	}
	bin := e.plain
	if race {
		bin = e.race
	}
	ctx, cancel := context.WithTimeout(context.Background(), wallLimit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Env = []string{"GORACE=atexit_sleep_ms=0 exitcode=0 history_size=4", "PATH=/nonexistent", "HOME=/nonexistent", "GOTRACEBACK=single", "GOMAXPROCS=1", "GOGC=off", "GODEBUG=updatemaxprocs=0"}
	cmd.Dir = "/"
	cmd.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err = cmd.Run()
	o := &outcome{errs: se.String()}
	if i := bytes.Index(so.Bytes(), []byte("RESULT ")); i >= 0 && err == nil {
		o.res = &spec.Result{}
		if err := json.Unmarshal(so.Bytes()[i+7:], o.res); err != nil {
			return nil, fmt.Errorf("%w: bad result: %v", errInfra, err)
		}
		return o, nil
	}
	if ctx.Err() != nil {
		o.crash = "wall-clock limit"
		return o, nil
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Exited() && ws.ExitStatus() == 3 || strings.Contains(o.errs, "worker:") || strings.Contains(o.errs, "simrt:") {
			return nil, fmt.Errorf("%w: %s", errInfra, o.errs)
		}
		if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return nil, fmt.Errorf("%w: worker killed (out of memory?)", errInfra)
		}
		o.crash = firstLines(o.errs, 4)
		if o.crash == "" {
			o.crash = "exit " + ee.Error()
		}
		return o, nil
	}
	if err == nil { // the code under test called os.Exit
		o.crash = "exit status 0 without finishing"
		return o, nil
	}
	return nil, fmt.Errorf("%w: %v", errInfra, err)
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.TrimSpace(strings.Join(l, " | "))
}

// scenario is a complete, self-contained test case: successive simulated
// processes on one disk. Expectations are recomputed from it when it is judged.
type scenario struct {
	Prop   string
	Race   bool        `json:",omitempty"`
	Mode   string      `json:",omitempty"`
	Phases []spec.Plan // the disk of a phase is what the one before left, plus its own
	Docs   []*stepDoc  `json:",omitempty"`
	Aux    []int       `json:",omitempty"`
}

func (s *scenario) clone() *scenario {
	b, _ := json.Marshal(s)
	c := &scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// violation of the property under check.
type violation struct {
	Class string
	Msg   string
}

func bad(class, f string, a ...interface{}) *violation {
	return &violation{class, fmt.Sprintf(f, a...)}
}

// run executes all phases. counted: part of the exploration proper.
func (e *env) run(s *scenario, counted bool) ([]*outcome, error) {
	var outs []*outcome
	var disk []spec.File
	for i := range s.Phases {
		p := s.Phases[i]
		if i > 0 {
			p.Disk = mergeDisk(disk, p.Disk)
		}
		for _, d := range s.Docs {
			if d.Phase == i && !d.Off {
				p.Disk = mergeDisk(p.Disk, []spec.File{{Path: d.Path, Data: d.bytes(), Kind: d.Kind}})
			}
		}
		p.Threads = s.putDocs(p.Threads)
		if i < len(s.Phases)-1 {
			p.Files = true
		}
		o, err := e.exec(&p, s.Race)
		if err != nil {
			return nil, err
		}
		if counted {
			e.st.add(&p, o)
		}
		outs = append(outs, o)
		if o.res == nil {
			break
		}
		disk = o.res.Files
	}
	return outs, nil
}

// putDocs gives the operations that replace a file by a document its content.
func (s *scenario) putDocs(threads [][]spec.Op) [][]spec.Op {
	any := false
	for _, ops := range threads {
		for _, o := range ops {
			any = any || o.Doc > 0
		}
	}
	if !any {
		return threads
	}
	var out [][]spec.Op
	for _, ops := range threads {
		ops = append([]spec.Op{}, ops...)
		for k := range ops {
			if d := ops[k].Doc; d > 0 && d <= len(s.Docs) {
				ops[k].Data = s.Docs[d-1].bytes()
			}
		}
		out = append(out, ops)
	}
	return out
}

// docAt is the document at a path when operation k of thread t of a process
// begins.
func (s *scenario) docAt(ph, t, k int, path string) *stepDoc {
	var d *stepDoc
	for _, x := range s.Docs {
		if !x.Off && abs(x.Path) == abs(path) {
			d = x
			break
		}
	}
	if ph < len(s.Phases) && t < len(s.Phases[ph].Threads) {
		for j, o := range s.Phases[ph].Threads[t] {
			if j < k && o.Doc > 0 && o.K == "put" && abs(o.Path) == abs(path) {
				d = s.Docs[o.Doc-1]
			}
			if j < k && o.K == "rm" && abs(o.Path) == abs(path) {
				d = nil
			}
		}
	}
	return d
}

// isCall: the operation calls the code under test.
func isCall(k string) bool {
	return k != "nop" && k != "put" && k != "rm" && k != "closeout" && k != "closeerr"
}

func mergeDisk(a, b []spec.File) []spec.File {
	m := map[string]spec.File{}
	for _, f := range a {
		m[f.Path] = f
	}
	for _, f := range b {
		m[f.Path] = f
	}
	var out []spec.File
	for _, f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Path < out[j].Path })
	return out
}

// crashed turns the ending of a process that should not have ended into a
// violation.
func crashed(s *scenario, outs []*outcome) *violation {
	for i, o := range outs {
		if o.res == nil {
			return bad("crash", "simulated process %d died: %s", i, o.crash)
		}
	}
	return nil
}

// ref gives the outcome of an operation that is the only one of a fresh
// process with no faults.
func (e *env) ref(op spec.Op, in *spec.Input, disk []spec.File, full bool) (*refResult, error) {
	p := spec.Plan{Threads: [][]spec.Op{{op}}, MapSeed: 7, Clock: 1600000000e9, Cap: -1, Disk: disk, FullVal: full, Files: true}
	p.Threads[0][0].In = 0
	if in != nil {
		p.Inputs = []spec.Input{*in}
	}
	return e.refPlan(&p)
}

func (e *env) refPlan(p *spec.Plan) (*refResult, error) {
	b, err := json.Marshal(p)
	if err != nil {
		return nil, err
	}
	sum := sha256.Sum256(b)
	k := string(sum[:])
	e.refMu.Lock()
	r := e.refs[k]
	if r == nil {
		r = &refEntry{}
		e.refs[k] = r
	}
	e.refMu.Unlock()
	r.once.Do(func() {
		atomic.AddInt64(&e.st.refProcs, 1)
		o, err := e.exec(p, false)
		if err != nil {
			r.err = err
			return
		}
		r.out = &refResult{crash: o.crash}
		if o.res != nil {
			r.out.hang = o.res.Hang
			r.out.op = o.res.Ops[0][0]
		}
	})
	return r.out, r.err
}
