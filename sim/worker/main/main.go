// The worker is one simulated process: it executes the plan it reads from
// standard input under the simulator and reports what happened.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"syscall"

	"verifsim/simrt"
	"verifsim/spec"
)

type opState struct {
	val     value
	ret     bool
	dig     string
	kept    bool
	started bool
	done    bool
}

var (
	plan       spec.Plan
	res        spec.Result
	states     [][]opState
	inDig      []string
	argDig     []string // the same without what is built from the arguments
	bufChanged []bool
	inputs     []*input
	maxSite    = 1 << 16
)

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 62)
	runtime.MemProfileRate = 0
	raw, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(raw, &plan)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: bad plan:", err)
		os.Exit(3)
	}
	run()
}

func conv(c []spec.Fault) (out []simrt.Fault) {
	for _, f := range c {
		k, ok := simrt.ParseKind(f.K)
		if !ok {
			fmt.Fprintln(os.Stderr, "worker: bad fault kind", f.K)
			os.Exit(3)
		}
		k.E = f.E
		out = append(out, simrt.Fault{T: f.T, Op: f.Op, N: f.N, FaultKind: k, A: f.A, P: f.P})
	}
	return
}

func run() {
	c := simrt.Config{
		Threads: len(plan.Threads), Explicit: plan.Explicit, KillSys: -1,
		StepLimit: plan.StepLimit, SysLimit: plan.SysLimit,
		Cap: plan.Cap, CapErrno: plan.CapErrno, MapSeed: plan.MapSeed, Clock: plan.Clock, Slow: plan.Slow,
		Trace: plan.Trace, MaxSites: maxSite, OnEnd: onEnd,
		Faults: conv(plan.Faults),
	}
	if c.StepLimit == 0 {
		c.StepLimit = 50e6
	}
	if c.SysLimit == 0 {
		c.SysLimit = 200e3
	}
	for _, d := range plan.Decs {
		c.Decs = append(c.Decs, simrt.Decision{T: d.T, Op: d.Op, Y: d.Y, To: d.To})
	}
	if c.Explicit {
		c.MaxSwap = len(plan.Decs) + 1024
	}
	if s := plan.Sched; s != nil {
		c.Seed, c.P, c.PFirst, c.PSys, c.PHot = s.Seed, s.P, s.PFirst, s.PSys, s.PHot
		c.HotMod, c.HotVal, c.Burst, c.PBurst = s.HotMod, s.HotVal, s.Burst, s.PBurst
		c.MaxSwap = s.MaxSwap
	}
	if j := plan.Jump; j != nil {
		c.JumpSeed, c.JumpP = j.Seed, j.P
	}
	if g := plan.FaultGen; g != nil {
		c.FaultSeed, c.FP, c.FShort, c.FEintr, c.FPers = g.Seed, g.P, g.PShort, g.PEintr, g.PPers
		c.FMax, c.FOps, c.MinLen, c.MaxLen = g.Max, g.Ops, g.MinLen, g.MaxLen
		for _, s := range g.Kinds {
			var name string
			var e int
			if _, err := fmt.Sscanf(s, "%s %d", &name, &e); err != nil {
				fmt.Fprintln(os.Stderr, "worker: bad fault kind", s)
				os.Exit(3)
			}
			k, ok := simrt.ParseKind(name)
			if !ok {
				fmt.Fprintln(os.Stderr, "worker: bad fault kind", s)
				os.Exit(3)
			}
			k.E = e
			c.FKinds = append(c.FKinds, k)
		}
	}
	if k := plan.Kill; k != nil {
		c.KillSys, c.KillA = k.Sys, k.A
		switch k.Mode {
		case "mid":
			c.KillMode = 1
		case "after":
			c.KillMode = 2
		}
	}
	bufChanged = make([]bool, len(plan.Inputs))
	simrt.Seed(plan.MapSeed) // hash seeds of the inputs' maps
	for i := range plan.Inputs {
		in := buildInput(&plan.Inputs[i])
		inputs = append(inputs, in)
		inDig = append(inDig, in.digest()+in.behind())
		argDig = append(argDig, in.argDigest(in))
	}
	states = make([][]opState, len(plan.Threads))
	res.Ops = make([][]spec.OpResult, len(plan.Threads))
	for t, ops := range plan.Threads {
		states[t] = make([]opState, len(ops))
		res.Ops[t] = make([]spec.OpResult, len(ops))
	}
	for range plan.Threads {
		buffers = append(buffers, newBuffer())
		lexers, asked, lexCount = append(lexers, nil), append(asked, ""), append(lexCount, 0)
	}
	simrt.Setup(c)
	for _, f := range plan.Disk {
		if f.Dir {
			simrt.AddDir(f.Path)
		} else {
			simrt.AddFile(f.Path, f.Data, f.Kind)
		}
	}
	for k := 0; k+1 < len(plan.Env); k += 2 {
		if plan.Env[k] == "*" {
			syscall.SimEnv = plan.Env[k+1]
			continue
		}
		os.Setenv(plan.Env[k], plan.Env[k+1])
	}
	if syscall.SimPid = plan.Pid; plan.Pid == 0 {
		syscall.SimPid = 4242
	}
	syscall.SimUid = plan.Uid
	if syscall.SimHost = plan.Host; plan.Host == "" {
		syscall.SimHost = "host"
	}
	if os.Args = []string{plan.Prog}; plan.Prog == "" {
		os.Args[0] = "prog"
	}
	if runtime.SimCPU = plan.CPUs; plan.CPUs == 0 {
		runtime.SimCPU = 1
	}
	var wg sync.WaitGroup
	for t := range plan.Threads {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			simrt.Enter(t)
			for o := range plan.Threads[t] {
				simrt.BeginOp(t, o)
				states[t][o].started = true
				runOp(t, o)
			}
			simrt.Leave(t)
		}(t)
	}
	runtime.Gosched()
	simrt.Go()
	wg.Wait()
	simrt.Stop()
	finish()
}

// runOp executes one operation and records its outcome.
func runOp(t, o int) {
	op := &plan.Threads[t][o]
	st := &states[t][o]
	r := &res.Ops[t][o]
	func() {
		defer func() {
			if e := recover(); e != nil {
				st.val = nil
				r.Panic = panicText(e)
			}
		}()
		st.val = execOp(t, op)
		st.ret = true
	}()
	out, errb, steps, sys := simrt.EndOp(t)
	if op.Reuse && op.In < len(inputs) && op.K != "lex" && op.K != "lexparse" {
		if in := inputs[op.In]; in.argDigest(buffers[t]) != argDig[op.In] {
			bufChanged[op.In] = true
		}
	}
	r.Started, r.Done, r.Ret = true, true, st.ret
	st.done = true
	r.Out, r.Err, r.Steps, r.Sys = out, errb, steps, sys
	if st.ret && st.val != nil {
		var full []byte
		r.Dig, full = st.val.digest(plan.FullVal)
		st.dig = r.Dig
		if plan.FullVal {
			r.Val = full
		}
		if op.Scrib && !op.Late {
			scribble(st.val)
			st.val = nil
		}
	}
	if o > 0 {
		if b := &states[t][o-1]; plan.Threads[t][o-1].Late && b.val != nil {
			if d, _ := b.val.digest(false); d == b.dig { // else it is reported as changed
				scribble(b.val)
				b.val = nil
			}
		}
	}
	r.FdLeak = simrt.OpenFiles(t, o)
	if writesFile(op.K) {
		if data, ok := simrt.Content(op.Path); ok {
			r.HasFile = true
			r.FileDig = hash(data)
			if plan.Files {
				r.File = data
			}
		}
		if plan.Files {
			for _, f := range simrt.Files() {
				if !f.Dir {
					r.Disk = append(r.Disk, spec.PathDig{P: f.Path, D: hash(f.Data)})
				}
			}
		}
	}
}

func panicText(e interface{}) string {
	switch x := e.(type) {
	case runtime.Error:
		return "runtime: " + x.Error()
	case error:
		return "error: " + x.Error()
	case string:
		return "string: " + x
	}
	return fmt.Sprintf("%T", e)
}

// onEnd runs on the goroutine that was killed or exceeded its budget.
func onEnd(kind string, t, op int) {
	simrt.Stop()
	res.Races = raceErrors()
	if kind == "kill" {
		res.Killed = true
	} else {
		res.Hang, res.HangT, res.HangOp = kind, t, op
	}
	for i := range states {
		for j := range states[i] {
			if states[i][j].started && !states[i][j].done {
				r := &res.Ops[i][j]
				r.Started = true
				r.Out, r.Err, r.Steps, r.Sys = simrt.Out(i)
			}
		}
	}
	finish()
}

func finish() {
	if !res.Killed && res.Hang == "" {
		res.Races = raceErrors()
		for i := range states {
			for j := range states[i] {
				if st := &states[i][j]; st.ret && st.val != nil {
					if d, _ := st.val.digest(false); d != st.dig {
						res.Ops[i][j].Changed = true
					}
				}
			}
		}
		for i, in := range inputs {
			if bufChanged[i] || in.digest()+in.behind() != inDig[i] {
				res.InputsChanged = append(res.InputsChanged, i)
			}
		}
	}
	res.Yields, res.Switches, res.Sites, res.ClockReads = simrt.Stats()
	res.Jumps, res.Elapsed = simrt.Elapsed()
	n, faults, caphits, tr, unk := simrt.KernelStats()
	res.Sys, res.CapHits, res.Unknown = n, caphits, unk
	if len(unk) == 0 {
		res.Unknown = nil
	}
	if tr != "" {
		for _, l := range bytes.Split([]byte(tr), []byte("\n")) {
			if len(l) > 0 {
				res.SysLog = append(res.SysLog, string(l))
			}
		}
	}
	for _, f := range faults {
		res.Faults = append(res.Faults, spec.Fault{T: f.T, Op: f.Op, N: f.N, K: f.Name(), E: f.E, A: f.A, P: f.P})
	}
	for _, d := range simrt.Decisions() {
		res.Decs = append(res.Decs, spec.Dec{T: d.T, Op: d.Op, Y: d.Y, To: d.To})
	}
	res.Fired = map[string]int{}
	simrt.Fired(func(n string, k int) { res.Fired[n] = k })
	if plan.Files {
		res.Touched = simrt.Touched
		res.Missed = simrt.Missed
		for _, f := range simrt.Files() {
			res.Files = append(res.Files, spec.File{Path: f.Path, Data: f.Data, Dir: f.Dir})
		}
	}
	out, err := json.Marshal(&res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: result:", err)
		os.Exit(3)
	}
	out = append([]byte("RESULT "), out...)
	out = append(out, '\n')
	// not through os.Stdout: a killed operation may hold its lock
	for len(out) > 0 {
		n, err := syscall.Write(1, out)
		if err == syscall.EINTR || err == syscall.EAGAIN {
			continue
		}
		if err != nil || n == 0 {
			os.Exit(3)
		}
		out = out[n:]
	}
	os.Exit(0)
}
