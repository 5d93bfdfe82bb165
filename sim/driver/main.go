// The driver builds simulated processes from /repo's working tree, generates
// and executes scenarios, judges them and reports.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/spec"
)

type check struct {
	id        string
	level     string
	note      string
	technique string
	race      bool // needs the race build
	quick     int  // generator calls
	thorough  int
	rule      string
	gen       func(e *env, r *rng, i int) ([]*scenario, error)
	judge     func(e *env, s *scenario, outs []*outcome) (*violation, error)
	// nontrivial says whether an execution counts
	nontrivial func(p *spec.Plan, r *spec.Result) bool
	real       string
}

func home() string {
	h, err := filepath.Abs(os.Getenv("VERIF_HOME"))
	if os.Getenv("VERIF_HOME") == "" || err != nil {
		return "/verif"
	}
	return h
}

func repoDir() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "error: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

var scratch string

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

// setup builds the workers.
func setup(race bool) *env {
	dir, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fail("%v", err)
	}
	scratch = dir
	gr, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fail("go env GOROOT: %v", err)
	}
	b := &builder{repo: repoDir(), home: filepath.Join(home(), "sim"), dir: dir, goroot: strings.TrimSpace(string(gr))}
	if err := b.prepare(); err != nil {
		fail("prepare: %v", err)
	}
	for _, m := range b.missing {
		fmt.Printf("note: no function %s in the code under test; operations that use it are left out\n", m)
	}
	e := &env{refs: map[string]*refEntry{}, sites: b.sites, missing: b.missing}
	e.st.init()
	var wg sync.WaitGroup
	var err2 error
	wg.Add(1)
	go func() {
		defer wg.Done()
		e.plain, err = b.build(false)
	}()
	if race {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.race, err2 = b.build(true)
		}()
	}
	wg.Wait()
	if err != nil {
		fail("build: %v", err)
	}
	if err2 != nil {
		fail("race build: %v", err2)
	}
	return e
}

func main() {
	if len(os.Args) < 2 {
		fail("usage: driver check <id> | replay <file> | selftest | list")
	}
	switch os.Args[1] {
	case "setup":
		setup(true)
		fmt.Println("workers built")
	case "list":
		for _, c := range checks {
			fmt.Println(c.id, c.level, c.technique)
		}
	case "manifest":
		doManifest()
	case "check":
		doCheck(os.Args[2])
	case "replay":
		doReplay(os.Args[2])
	case "selftest":
		doSelftest()
	default:
		fail("unknown command %s", os.Args[1])
	}
	cleanup()
}

func find(id string) *check {
	for _, c := range checks {
		if c.id == id {
			return c
		}
	}
	fail("no check %s", id)
	return nil
}

type found struct {
	idx, sub int
	s        *scenario
	v        *violation
	outs     []*outcome
}

type replayFile struct {
	Property string
	Class    string
	Msg      string
	Seed     uint64
	Index    int
	Form     string   // minimised, explicit or seeded
	Trace    []string // schedule and faults, for people
	Scenario *scenario
}

func doCheck(id string) {
	c := find(id)
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	e := setup(c.race)
	e.seed, e.tier, e.prop = seed, tier, id
	built := time.Since(start)

	n, limit := c.quick, 420*time.Second
	if tier == "thorough" {
		n, limit = c.thorough, 50*time.Minute
	}
	if v := os.Getenv("VERIF_RUNS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	deadline := time.Now().Add(limit)
	num := uint64(0)
	fmt.Sscanf(id, "C%d", &num)

	var next, scen int64
	if v := os.Getenv("VERIF_FROM"); v != "" { // skip the first scenarios
		next, _ = strconv.ParseInt(v, 10, 64)
		n += int(next)
	}
	var stop int32
	var mu sync.Mutex
	var best *found
	var firstErr error
	nontriv := map[string]bool{}
	var samples []string
	modes := map[string]int{}
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 && time.Now().Before(deadline) {
				i := int(atomic.AddInt64(&next, 1)) - 1
				if i >= n {
					return
				}
				r := newRng(seed, num, uint64(i))
				list, err := c.scenarios(e, r, i)
				for j := 0; err == nil && j < len(list); j++ {
					s := list[j]
					s.Prop = id
					atomic.AddInt64(&scen, 1)
					var outs []*outcome
					outs, err = e.run(s, true)
					if err != nil {
						break
					}
					var v *violation
					v, err = c.judge(e, s, outs)
					mu.Lock()
					modes[s.Mode]++
					for k, o := range outs {
						if o.res != nil && c.nontrivial(&s.Phases[k], o.res) {
							h := runHash(&s.Phases[k], o.res)
							nontriv[h] = true
						}
					}
					if len(samples) < 4 && i%7 == len(samples) {
						samples = append(samples, describe(s, outs))
					}
					mu.Unlock()
					if v != nil {
						mu.Lock()
						if best == nil || i < best.idx {
							best = &found{i, j, s, v, outs}
						}
						mu.Unlock()
						atomic.StoreInt32(&stop, 1)
						break
					}
				}
				if err != nil {
					mu.Lock()
					if firstErr == nil {
						firstErr = fmt.Errorf("scenario %d: %w", i, err)
					}
					mu.Unlock()
					atomic.StoreInt32(&stop, 1)
				}
			}
		}()
	}
	wg.Wait()
	if firstErr != nil && best == nil {
		fail("%v", firstErr)
	}
	explored := time.Since(start) - built
	nviol := 0
	var line string
	if best != nil {
		nviol = 1
		path := report(e, c, best, seed)
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", id, path)
	}
	writeEvidence(e, c, start, built, explored, int(scen), len(nontriv), samples, modes, nviol)
	fmt.Printf("%s %s: %d scenarios, %d simulated processes (%d reference), %d distinct non-trivial, %.1f s building, %.1f s exploring\n",
		id, tier, scen, e.st.procs, e.st.refProcs, len(nontriv), built.Seconds(), explored.Seconds())
	if line != "" {
		fmt.Println(line)
		cleanup()
		os.Exit(1)
	}
}

// report confirms, minimises and stores a violation.
func report(e *env, c *check, f *found, seed uint64) string {
	fmt.Printf("found (scenario %d.%d): %s: %s\n", f.idx, f.sub, f.v.Class, f.v.Msg)
	again := func(s *scenario) (*violation, []*outcome) {
		outs, err := e.run(s, false)
		if err != nil {
			fail("%v", err)
		}
		v, err := c.judge(e, s, outs)
		if err != nil {
			fail("%v", err)
		}
		return v, outs
	}
	rf := &replayFile{Property: c.id, Class: f.v.Class, Msg: f.v.Msg, Seed: seed, Index: f.idx, Form: "seeded", Scenario: f.s}
	if v, _ := again(f.s); v == nil || v.Class != f.v.Class {
		fail("scenario %d of seed %d does not reproduce: %s: %s", f.idx, seed, f.v.Class, f.v.Msg)
	}
	x := explicit(f.s, f.outs)
	if v, _ := again(x); v != nil && v.Class == f.v.Class {
		rf.Scenario, rf.Form, rf.Msg = x, "explicit", v.Msg
		execs, limit := 400, 45*time.Second
		m, msg := minimise(e, c, x, v, execs, limit)
		if v, _ := again(m); v != nil && v.Class == f.v.Class {
			rf.Scenario, rf.Form, rf.Msg = m, "minimised", msg
		}
	}
	s := rf.Scenario.clone()
	for i := range s.Phases {
		s.Phases[i].Trace = true
	}
	if _, outs := again(s); outs != nil {
		rf.Trace = trace(e, s, outs)
	}
	dir := filepath.Join(home(), "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-%d.json", c.id, seed, f.idx))
	b, err := json.MarshalIndent(rf, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0644)
	}
	if err != nil {
		fail("%v", err)
	}
	fmt.Printf("%s (%s): %s\n", rf.Class, rf.Form, rf.Msg)
	for i, l := range rf.Trace {
		if i >= 40 {
			fmt.Println("  ...")
			break
		}
		fmt.Println("  " + l)
	}
	return path
}

func describe(s *scenario, outs []*outcome) string {
	var b strings.Builder
	for i, o := range outs {
		p := &s.Phases[i]
		fmt.Fprintf(&b, "process %d:", i)
		for t, ops := range p.Threads {
			fmt.Fprintf(&b, " thread %d [", t)
			for k, op := range ops {
				if k > 0 {
					b.WriteString(", ")
				}
				b.WriteString(op.K)
				if op.Path != "" {
					b.WriteString(" " + op.Path)
				}
				if k > 6 {
					fmt.Fprintf(&b, ", ... (%d)", len(ops))
					break
				}
			}
			b.WriteString("]")
		}
		if p.Kill != nil {
			fmt.Fprintf(&b, " killed %s call %d", p.Kill.Mode, p.Kill.Sys)
		}
		if o.res == nil {
			b.WriteString(" died")
			continue
		}
		fmt.Fprintf(&b, " -> %d yields, %d switches, %d calls", o.res.Yields, o.res.Switches, o.res.Sys)
		for k, f := range o.res.Faults {
			if k >= 6 {
				fmt.Fprintf(&b, " ... (%d faults)", len(o.res.Faults))
				break
			}
			fmt.Fprintf(&b, " fault{thread %d op %d call %d %s errno %d n=%d}", f.T, f.Op, f.N, f.K, f.E, f.A)
		}
		b.WriteString("; ")
	}
	if len(s.Docs) > 0 {
		d := s.Docs[0].bytes()
		if len(d) > 300 {
			d = d[:300]
		}
		fmt.Fprintf(&b, " %s: %q", s.Docs[0].Path, d)
	}
	return b.String()
}

// trace is the schedule and the faults of an execution.
func trace(e *env, s *scenario, outs []*outcome) []string {
	var out []string
	for i, o := range outs {
		p := &s.Phases[i]
		out = append(out, fmt.Sprintf("process %d", i))
		for t, ops := range p.Threads {
			for k, op := range ops {
				if op.K == "nop" {
					continue
				}
				l := fmt.Sprintf("thread %d operation %d: %s", t, k, op.K)
				if op.Path != "" {
					l += " " + op.Path
				}
				if len(op.A) > 0 {
					l += fmt.Sprint(" ", op.A)
				}
				if o.res != nil {
					r := &o.res.Ops[t][k]
					switch {
					case r.Ret:
						l += " -> returned"
					case r.Done:
						l += " -> panicked: " + r.Panic
					case r.Started:
						l += " -> did not finish"
					default:
						l += " -> did not start"
					}
				}
				out = append(out, l)
			}
		}
		if o.res == nil {
			out = append(out, "the process died: "+o.crash)
			continue
		}
		for _, d := range o.res.Decs {
			switch d.Y {
			case 0:
				out = append(out, fmt.Sprintf("schedule: thread %d starts", d.To))
			case -1:
				out = append(out, fmt.Sprintf("schedule: thread %d ends, thread %d goes on", d.T, d.To))
			case -2:
				out = append(out, fmt.Sprintf("schedule: thread %d is blocked, thread %d goes on", d.T, d.To))
			case -3:
				out = append(out, fmt.Sprintf("schedule: thread %d before operation %d hands over to thread %d", d.T, d.Op+1, d.To))
			default:
				out = append(out, fmt.Sprintf("schedule: thread %d operation %d at step %d hands over to thread %d", d.T, d.Op, d.Y, d.To))
			}
		}
		for _, f := range o.res.Faults {
			out = append(out, fmt.Sprintf("fault: thread %d operation %d call %d: %s errno %d amount %d persistent %v", f.T, f.Op, f.N, f.K, f.E, f.A, f.P))
		}
		if p.Kill != nil {
			out = append(out, fmt.Sprintf("kill: %s call %d of the process, %d bytes", p.Kill.Mode, p.Kill.Sys, p.Kill.A))
		}
		if p.Cap >= 0 {
			out = append(out, fmt.Sprintf("disk: %d bytes free, then errno %d", p.Cap, p.CapErrno))
		}
		for k, l := range o.res.SysLog {
			if k > 200 {
				out = append(out, "...")
				break
			}
			out = append(out, "call: "+l)
		}
	}
	return out
}

func doReplay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fail("%v", err)
	}
	c := find(rf.Property)
	e := setup(c.race || rf.Scenario.Race)
	s := rf.Scenario
	outs, err := e.run(s, false)
	if err != nil {
		fail("%v", err)
	}
	v, err := c.judge(e, s, outs)
	if err != nil {
		fail("%v", err)
	}
	for _, l := range trace(e, s, outs) {
		fmt.Println("  " + l)
	}
	if v == nil {
		fmt.Printf("no violation on this tree (recorded: %s: %s)\n", rf.Class, rf.Msg)
		return
	}
	same := "the recorded violation"
	if v.Class != rf.Class || v.Msg != rf.Msg {
		same = fmt.Sprintf("another violation than recorded (%s: %s)", rf.Class, rf.Msg)
	}
	fmt.Printf("%s: %s\nthis is %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Msg, same, rf.Property, path)
	cleanup()
	os.Exit(1)
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
