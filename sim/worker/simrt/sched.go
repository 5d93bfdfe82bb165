// Package simrt is the simulator inside a worker process: the seeded scheduler
// that decides which goroutine runs, and the simulated kernel. It is compiled
// without race instrumentation and uses no Go maps, channels, locks or append
// on shared data, so that it adds neither happens-before edges nor false
// reports when the code under test is built with the race detector.
package simrt

import (
	"runtime"
	"syscall"
	"time"
)

type Decision struct {
	T, Op int
	Y     int64
	To    int
}

type thread struct {
	idx     int
	g       uint64
	gp      uintptr
	owner   *thread // of a dynamic thread: the thread whose operation started it
	bornOp  int     // and that operation
	steps   int64   // steps of this operation, those of its dynamic threads included
	live    bool
	dynamic bool
	op      int
	y       int64 // yield points in this operation
	sysN    int   // system calls in this operation
	inOp    bool

	decs   []Decision // explicit decisions of this thread at yield points, in order
	negs   []Decision // its other explicit decisions
	decPos int
	nextY  int64 // yield point of the next explicit decision of this op

	out, err []byte
	persist  [nClass]int // errno of persistent faults
	partErr  [nClass]int // errno of the write after a partial one
	faults   []Fault     // explicit faults of this thread
}

// Config of a run.
type Config struct {
	Threads                                              int
	Explicit                                             bool
	Decs                                                 []Decision
	Faults                                               []Fault
	Seed                                                 uint64
	P, PFirst, PSys, PHot, HotMod, HotVal, Burst, PBurst uint32
	MaxSwap                                              int
	StepLimit                                            int64
	SysLimit                                             int64

	FaultSeed                 uint64
	FP, FShort, FEintr, FPers uint32
	FMax                      int
	FKinds                    []FaultKind
	FOps                      []int
	MinLen, MaxLen            int

	KillSys  int // <0: none
	KillMode int // 0 before, 1 mid, 2 after
	KillA    int

	Cap      int64
	CapErrno int
	MapSeed  uint64
	Clock    int64
	Slow     int64 // nanoseconds a statement takes
	JumpSeed uint64
	JumpP    uint32
	Trace    bool
	MaxSites int

	OnEnd func(kind string, t, op int) // the process ends here (kill, hang)
}

var (
	on      bool
	cfg     Config
	threads []*thread
	cur     *thread
	last    *thread // last registered, non-dynamic thread that was current
	rs      uint64  // scheduler PRNG
	fs      uint64  // fault PRNG
	burst   uint32

	siteHit  []uint8
	sites    int
	yields   int64
	switches int64

	decLog     []Decision
	nDec       int
	nano0      int64 // the monotonic clock of the runtime at the start
	clockReads int64
	wallOff    int64 // how far the wall clock was set
	jumps      int
	slow       int64 = 100
	streak     int   // yields since the last switch
)

const spinLimit = 64

func next(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Setup prepares a run; Go starts it.
func Setup(c Config) {
	cfg = c
	threads = make([]*thread, c.Threads, c.Threads+1024)
	for i := range threads {
		t := &thread{idx: i, live: true, op: -1, nextY: -1}
		t.out = make([]byte, 0, 1<<12)
		t.load()
		threads[i] = t
	}
	rs, fs = c.Seed, c.FaultSeed
	siteHit = make([]uint8, c.MaxSites+1)
	decLog = make([]Decision, c.MaxSwap+16384)
	nDec = 0
	wallOff, jumps = 0, 0
	slow = 100
	setupKernel()
}

// Seed seeds maps and the runtime's other randomness before the run; Go seeds
// them again.
//
//go:noinline
func Seed(s uint64) { runtime.SimSeed(s) }

// Go turns the simulation on. The thread that starts is chosen first.
//
//go:noinline
func Go() {
	runtime.SimSeed(cfg.MapSeed)
	nano0 = runtime.SimNano
	syscall.SimNow = now
	syscall.SimSys = hook
	runtime.SimExit = exited
	time.SimNow = simNow
	time.SimStart(nano0 - 20e6)
	// the first thread
	t := threads[0]
	if cfg.Explicit {
		for _, d := range cfg.Decs {
			if d.T == -1 && d.To >= 0 && d.To < len(threads) {
				t = threads[d.To]
			}
		}
	} else if len(threads) > 1 {
		t = threads[next(&rs)%uint64(len(threads))]
	}
	logDec(-1, 0, 0, t.idx)
	cur = t
	last = t
	on = true
}

// Stop turns the simulation off.
//
//go:noinline
func Stop() {
	on = false
	if !ended {
		ended, endG = true, runtime.SimG()
	}
	runtime.SimExit = nil
	time.SimNow = nil
	runtime.SimUnseed()
}

func simNow(sec int64, nsec int32, mono int64) (int64, int32, int64) {
	if !on {
		return sec, nsec, mono
	}
	clockReads++
	runtime.SimNano++
	w := cfg.Clock + passed() + wallOff
	return w / 1e9, int32(w % 1e9), runtime.SimNano
}

// Elapsed returns how often the clock jumped and the simulated time.
func Elapsed() (int, int64) { return jumps, passed() }

// passed is the simulated time since the start.
func passed() int64 { return runtime.SimNano - nano0 }

const second = 1000000000

// jump makes time pass, or the clock be set, at call n of operation op.
func jump(t, op, n int) bool {
	if cfg.JumpP == 0 {
		return false
	}
	s := cfg.JumpSeed + uint64(t)<<40 + uint64(op)<<20 + uint64(n)
	h := next(&s)
	if uint32(h&0xffff) >= cfg.JumpP || passed() > 1000*24*3600*second {
		return false
	}
	jumps++
	switch h >> 16 & 15 {
	case 0, 1, 2:
		runtime.SimNano += 5e6
	case 3, 4:
		runtime.SimNano += 300e6
	case 5, 6:
		runtime.SimNano += 2 * second
	case 7, 8:
		runtime.SimNano += 45 * second
	case 9, 10:
		runtime.SimNano += 11 * 60 * second
	case 11:
		runtime.SimNano += 25 * 3600 * second
	case 12:
		runtime.SimNano += 400 * 24 * 3600 * second
	case 13:
		wallOff -= second
	case 14:
		wallOff -= 3600 * second
	case 15:
		wallOff += 3600 * second
	}
	return true
}

func logDec(t, op int, y int64, to int) {
	if nDec < len(decLog) {
		decLog[nDec] = Decision{t, op, y, to}
		nDec++
	}
}

// Enter registers the calling goroutine as thread i and waits for its turn.
func Enter(i int) {
	t := threads[i]
	t.g, t.gp, _ = runtime.SimSelf()
	for !on {
		runtime.Gosched()
	}
	waitTurn(t)
}

// BeginOp and EndOp bracket operation op of thread i; EndOp returns what it
// wrote to standard output and error, and its counts.
func BeginOp(i, op int) {
	t := threads[i]
	if op > 0 {
		boundary(t)
	}
	jump(i, op, 1<<19)
	if cfg.Slow > 0 { // during some operations
		if s := cfg.MapSeed + uint64(i)<<20 + uint64(op); next(&s)&1 == 0 {
			slow = cfg.Slow
		} else {
			slow = 100
		}
	}
	t.op, t.y, t.sysN, t.steps, t.inOp = op, 0, 0, 0, true
	t.partErr = [nClass]int{}
	for c := range t.persist {
		t.persist[c] = 0
	}
	t.out, t.err = make([]byte, 0, 256), make([]byte, 0, 16)
	seekDec(t)
}

func EndOp(i int) (out, err []byte, steps int64, sys int) {
	t := threads[i]
	if cur != t { // it ran on after having been blocked
		waitTurn(t)
	}
	t.inOp = false
	return t.out, t.err, t.steps, t.sysN
}

// boundary is the yield point between operations, numbered y=-3.
func boundary(t *thread) {
	t.y = -3
	if cfg.Explicit {
		if d := takeDec(t, -3); d != nil {
			switchTo(t, d.To, -3)
		}
		return
	}
	if len(threads) > 1 && next(&rs)&1 == 0 {
		preempt(t, -3)
	}
}

// Leave ends thread i and hands over.
func Leave(i int) {
	t := threads[i]
	leave(t)
}

// exited runs when a goroutine ends.
func exited() {
	if !on {
		return
	}
	t := findThread(runtime.SimG())
	if t == nil || !t.dynamic {
		return
	}
	if cur == t {
		leave(t)
	}
	t.live = false
}

func leave(t *thread) {
	t.live = false
	t.y = -1
	if cfg.Explicit {
		if d := takeDec(t, -1); d != nil && d.To >= 0 && d.To < len(threads) && threads[d.To].live {
			logDec(t.idx, t.op, -1, d.To)
			setCur(threads[d.To])
			return
		}
	}
	n := pick(t)
	if n != nil {
		logDec(t.idx, t.op, -1, n.idx)
		setCur(n)
	} else {
		cur = nil
	}
}

func setCur(t *thread) {
	cur = t
	streak = 0
	if !t.dynamic {
		last = t
	}
}

// able tells whether a thread can go on.
func able(x *thread) bool { return x.live && (x.g == 0 || runtime.SimState(x.gp, x.g) == 0) }

// pick a thread other than t that can go on.
func pick(t *thread) *thread {
	n := 0
	for _, x := range threads {
		if x != t && able(x) {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := 0
	if !cfg.Explicit {
		k = int(next(&rs) % uint64(n))
	}
	for _, x := range threads {
		if x != t && able(x) {
			if k == 0 {
				return x
			}
			k--
		}
	}
	return nil
}

// takeDec finds the next unused explicit decision of t's operation of kind y
// (-1 end of thread, -2 blocked, -3 between operations).
func takeDec(t *thread, y int64) *Decision {
	for k := range t.negs {
		d := &t.negs[k]
		if d.Op == t.op && d.Y == y {
			d.Op = -99
			return d
		}
	}
	return nil
}

// seekDec finds the next explicit decision at a yield point of this operation.
func seekDec(t *thread) {
	t.nextY = -1
	for k := t.decPos; k < len(t.decs); k++ {
		d := &t.decs[k]
		if d.Op > t.op {
			return
		}
		if d.Op == t.op && d.Y > t.y {
			t.nextY = d.Y
			t.decPos = k
			return
		}
	}
}

func (t *thread) load() {
	for _, d := range cfg.Decs {
		if d.T == t.idx {
			if d.Y >= 0 {
				t.decs = append(t.decs, d)
			} else {
				t.negs = append(t.negs, d)
			}
		}
	}
	for _, f := range cfg.Faults {
		if f.T == t.idx {
			t.faults = append(t.faults, f)
		}
	}
}

func switchTo(t *thread, to int, y int64) {
	if to < 0 || to >= len(threads) || to == t.idx || !threads[to].live {
		return
	}
	logDec(t.idx, t.op, y, to)
	switches++
	setCur(threads[to])
	waitTurn(t)
}

func preempt(t *thread, y int64) {
	if nDec >= cfg.MaxSwap {
		return
	}
	if n := pick(t); n != nil {
		switchTo(t, n.idx, y)
	}
}

// waitTurn runs other goroutines until it is t's turn. When the thread whose
// turn it is turns out to be blocked, somebody else is chosen.
func waitTurn(t *thread) {
	spins := 0
	seen := cur
	for cur != t {
		runtime.Gosched()
		if !on {
			// the run is over (kill, hang): this goroutine stays here
			for {
				runtime.Gosched()
			}
		}
		if gcing {
			continue
		}
		if cur != seen {
			seen, spins = cur, 0
			continue
		}
		spins++
		if b := cur; b == nil || !able(b) || spins > spinLimit*(len(threads)+2) {
			var n *thread
			if b == nil {
				n = t
			} else {
				if cfg.Explicit {
					if d := takeDec(b, -2); d != nil && d.To >= 0 && d.To < len(threads) && threads[d.To].live {
						n = threads[d.To]
					}
				}
				if n == nil {
					n = pick(b)
				}
				if n == nil {
					n = t
				}
			}
			if b != nil {
				logDec(b.idx, b.op, -2, n.idx)
			}
			setCur(n)
			seen, spins = cur, 0
		}
	}
}

func findThread(g uint64) *thread {
	for _, t := range threads {
		if t.g == g && t.live {
			return t
		}
	}
	return nil
}

// root is the thread that is responsible for what t does.
func (t *thread) root() *thread {
	if t.dynamic {
		return t.owner
	}
	return t
}

// account is the thread whose operation t's system calls belong to: t itself
// where that operation is over.
func (t *thread) account() *thread {
	if t.dynamic && t.owner.inOp && t.owner.op == t.bornOp {
		return t.owner
	}
	return t
}

// current returns the simulated thread of the calling goroutine once it is its
// turn, registering goroutines the code under test started itself.
func current(g uint64) *thread {
	t := findThread(g)
	if t == nil {
		_, gp, parent := runtime.SimSelf()
		o, op := last, 0
		for _, x := range threads {
			if x.g == parent {
				o = x.root()
				if op = o.op; x.dynamic {
					op = x.bornOp
				}
			}
		}
		if o == nil {
			return nil
		}
		for _, x := range threads {
			if x.dynamic && !x.live { // a slot whose goroutine has ended
				t = x
				break
			}
		}
		if t == nil {
			if len(threads) == cap(threads) {
				return cur
			}
			t = &thread{idx: len(threads), dynamic: true, op: -1, out: make([]byte, 0, 64)}
			t.load()
			n := len(threads)
			threads = threads[:n+1]
			threads[n] = t
		}
		t.g, t.gp, t.live, t.owner, t.bornOp = g, gp, true, o, op
		t.op++ // of a dynamic thread: how many goroutines had the slot
		t.y, t.sysN = 0, 0
		t.partErr, t.persist = [nClass]int{}, [nClass]int{}
		seekDec(t)
	}
	if cur != t {
		waitTurn(t)
	}
	return t
}

// Y is the yield point in front of every statement of the code under test.
func Y(site int32) {
	if !on {
		over()
		return
	}
	g := runtime.SimG()
	t := cur
	if t == nil || t.g != g {
		t = current(g)
		if t == nil {
			return
		}
	}
	t.y++
	yields++
	runtime.SimNano += slow
	streak++
	first := false
	if h := siteHit[site]; h < 255 {
		if h == 0 {
			first = true
			sites++
		}
		siteHit[site] = h + 1
	}
	o := t
	if t.dynamic {
		o = t.owner
	}
	if o.steps++; o.steps > cfg.StepLimit {
		end("steps", o)
	}
	if yields&0x3ff == 0 && runtime.SimHeap() > gcAt {
		collect(o)
	}
	if cfg.Explicit {
		if t.y == t.nextY {
			d := t.decs[t.decPos]
			t.decPos++
			seekDec(t)
			switchTo(t, d.To, t.y)
		} else if streak > maxStreak {
			relieve(t)
		}
		return
	}
	if streak > maxStreak {
		relieve(t)
		return
	}
	if len(threads) < 2 || nDec >= cfg.MaxSwap {
		return
	}
	p := cfg.P
	if first {
		p = cfg.PFirst
	} else if cfg.HotMod > 0 && uint32(site)%cfg.HotMod == cfg.HotVal {
		p = cfg.PHot
	}
	if burst > 0 {
		burst--
		if p < cfg.PBurst {
			p = cfg.PBurst
		}
	}
	if p > 0 && uint32(next(&rs)&0xffff) < p {
		if burst == 0 {
			burst = cfg.Burst
		}
		preempt(t, t.y)
	}
}

// maxStreak is after how many yields a thread has to let others run, if only
// to end what it waits for.
const maxStreak = 20000

func relieve(t *thread) {
	streak = 0
	runtime.Gosched() // those that have just been started come to the fore
	if len(threads) > 1 {
		if n := pick(t); n != nil {
			switchTo(t, n.idx, t.y)
		}
	}
}

// There is no garbage collection below gcAt, so that it has no part in nearly
// all runs, and no process may keep more than maxHeap.
var (
	gcAt    uint64 = 1 << 30
	maxHeap uint64 = 2 << 30
	gcing   bool
)

// RaceBuild: with the race detector everything takes several times the memory.
func RaceBuild() { gcAt, maxHeap = 300<<20, 1000<<20 }

func collect(o *thread) {
	gcing = true
	runtime.GC()
	gcing = false
	h := runtime.SimHeap()
	if h > maxHeap {
		end("memory", o)
	}
	if gcAt < 2*h {
		gcAt = 2 * h
	}
}

// After the end of the run only the goroutine that reports goes on: one that
// the runtime had woken up would make real system calls.
var (
	ended bool
	endG  uint64
)

func over() {
	if ended && runtime.SimG() != endG {
		for {
			runtime.Gosched()
		}
	}
}

func end(kind string, t *thread) {
	on = false
	ended, endG = true, runtime.SimG()
	cfg.OnEnd(kind, t.idx, t.op)
	for {
		runtime.Gosched()
	}
}

// Stats of the run so far.
func Stats() (y, sw int64, st int, reads int64) { return yields, switches, sites, clockReads }

// Decisions returns the realised schedule.
func Decisions() []Decision { return decLog[:nDec] }

// Out returns the output so far of a thread's current operation.
func Out(i int) (out, err []byte, steps int64, sys int) {
	t := threads[i]
	return t.out, t.err, t.steps, t.sysN
}
