// Package spec holds the types the driver (which plans and judges simulated
// runs) and the worker (which executes one simulated process) exchange.
package spec

// Fault is one injected fault: the N-th system call of operation Op of thread
// T behaves as kind K. Errno E, amount A (bytes for short transfers and lost
// tails). Persist P: every later call of the same class fails the same way
// until the operation ends.
type Fault struct {
	T, Op, N int
	K        string
	E        int  `json:",omitempty"`
	A        int  `json:",omitempty"`
	P        bool `json:",omitempty"`
}

// Dec is one scheduling decision: at the Y-th yield point of operation Op,
// thread T hands over to thread To. Y=-1: at the end of the thread. Y=-2:
// thread T was current but blocked.
type Dec struct {
	T, Op int
	Y     int64
	To    int
}

// Kill stops the process at system call Sys (counted over the whole process):
// before it, after it, or in the middle of it (a write transfers A bytes).
type Kill struct {
	Sys  int
	Mode string
	A    int `json:",omitempty"`
}

// Sched parametrises the seeded scheduler. Probabilities are out of 65536.
type Sched struct {
	Seed    uint64
	P       uint32 // at any yield point
	PFirst  uint32 // at a yield point site reached for the first time
	PSys    uint32 // at a system call
	PHot    uint32 // at sites selected by HotMod/HotVal
	HotMod  uint32
	HotVal  uint32
	Burst   uint32 // length of a burst of dense preemption after a switch
	PBurst  uint32
	MaxSwap int
}

// FaultGen parametrises seeded fault injection. Probabilities out of 65536.
type FaultGen struct {
	Seed   uint64
	P      uint32   // per eligible system call: one of Kinds
	Max    int      // at most this many hard faults per process
	Kinds  []string // "class:ERRNO"
	PShort uint32
	PEintr uint32
	PPers  uint32
	Ops    []int // only these op indexes (nil: all)
	MinLen int   // shortest short transfer
	MaxLen int   // longest short transfer (0: any)
}

// Jump makes time pass, or the wall clock be set, during a system call or
// between two operations, with probability P out of 65536 each.
type Jump struct {
	Seed uint64
	P    uint32
}

type Plan struct {
	Explicit  bool      // use Decs and Faults; otherwise Sched and FaultGen
	Decs      []Dec     `json:",omitempty"`
	Faults    []Fault   `json:",omitempty"`
	Sched     *Sched    `json:",omitempty"`
	FaultGen  *FaultGen `json:",omitempty"`
	Kill      *Kill     `json:",omitempty"`
	MapSeed   uint64
	Clock     int64
	Jump      *Jump    `json:",omitempty"`
	Slow      int64    `json:",omitempty"` // nanoseconds a statement takes; 0: 100
	Env       []string `json:",omitempty"` // environment variables: names and values; *: all that have no usual meaning
	Pid, CPUs int      `json:",omitempty"`
	Uid       int      `json:",omitempty"`
	Host      string   `json:",omitempty"` // name of the machine
	Prog      string   `json:",omitempty"` // name of the program
	Cap       int64    // bytes the disk may still grow by; <0: unlimited
	CapErrno  int      `json:",omitempty"`
	StepLimit int64
	SysLimit  int64
	Disk      []File  `json:",omitempty"`
	Inputs    []Input `json:",omitempty"`
	Threads   [][]Op
	Files     bool // report the files at the end
	FullVal   bool // report full values, not only digests
	Trace     bool // report the system call trace
}

type File struct {
	Path string
	Data []byte `json:",omitempty"`
	Dir  bool   `json:",omitempty"`
	Kind int    `json:",omitempty"` // 1: a pipe, 2: regular; of both the size is told as 0
}

type Mesh struct {
	V [][3]float64
	I []uint32
	N [][3]float64 `json:",omitempty"`
	T [][2]float64 `json:",omitempty"`
}

// Entity of a symbol table.
type Entity struct {
	ID, Type string
	Args     []string
}

type Curve struct {
	P int
	U []int
	C [][3]float64
}

// Input is an object operations work on; operations naming the same input
// share the object.
type Input struct {
	Pts   [][3]float64 `json:",omitempty"`
	Tri   bool         `json:",omitempty"` // triangulate Pts before the run
	Mesh  *Mesh        `json:",omitempty"`
	Table []Entity     `json:",omitempty"`
	Curve *Curve       `json:",omitempty"`
}

type Op struct {
	K    string
	In   int       `json:",omitempty"`
	Path string    `json:",omitempty"`
	A    []float64 `json:",omitempty"`
	Seed uint64    `json:",omitempty"`
	// the caller passes a buffer of its own, which it fills anew for each call
	Reuse bool   `json:",omitempty"`
	Scrib bool   `json:",omitempty"` // the caller overwrites the result afterwards
	Late  bool   `json:",omitempty"` // ... when the next operation has ended
	Data  []byte `json:",omitempty"` // put: the new content of Path
	Doc   int    `json:",omitempty"` // put: or this document, counted from 1
}

type OpResult struct {
	Started bool
	Done    bool
	Ret     bool      // returned normally
	Panic   string    `json:",omitempty"`
	Dig     string    `json:",omitempty"` // digest of the value returned
	Val     []byte    `json:",omitempty"` // the value, if asked for
	Out     []byte    `json:",omitempty"` // what it wrote to standard output
	Err     []byte    `json:",omitempty"`
	File    []byte    `json:",omitempty"` // content of Path when an export ended
	HasFile bool      `json:",omitempty"`
	FileDig string    `json:",omitempty"`
	Disk    []PathDig `json:",omitempty"` // the disk when an operation that writes ended
	FdLeak  []string  `json:",omitempty"` // files still open
	Steps   int64
	Sys     int
	Changed bool `json:",omitempty"` // the value changed after it was returned
}

type Result struct {
	Ops           [][]OpResult
	Killed        bool           `json:",omitempty"`
	Hang          string         `json:",omitempty"` // "steps" or "syscalls": op exceeded its budget
	HangT         int            `json:",omitempty"`
	HangOp        int            `json:",omitempty"`
	Files         []File         `json:",omitempty"`
	Touched       []string       `json:",omitempty"` // names created, written, renamed or removed
	Missed        []string       `json:",omitempty"` // names looked for in vain
	InputsChanged []int          `json:",omitempty"`
	Races         int            `json:",omitempty"`
	Decs          []Dec          `json:",omitempty"`
	Faults        []Fault        `json:",omitempty"`
	Fired         map[string]int `json:",omitempty"`
	CapHits       int            `json:",omitempty"`
	Yields        int64
	Switches      int64
	Sys           int
	SysLog        []string `json:",omitempty"`
	Unknown       []int    `json:",omitempty"` // unmodelled system calls seen
	Sites         int      // distinct yield sites reached
	SchedHash     uint64   // hash of the realised interleaving
	ClockReads    int64
	Jumps         int   `json:",omitempty"` // of the clock
	Elapsed       int64 // simulated time
}

// PathDig is one file of the disk.
type PathDig struct{ P, D string }
