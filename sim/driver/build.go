package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Building the worker: /repo's packages with a yield point in front of every
// statement, and a Go runtime whose system calls, randomness, clock and
// preemption are the simulator's, all through `go build -overlay`, so neither
// /repo nor the toolchain is touched.

type site struct {
	File string
	Line int
}

type builder struct {
	repo    string // /repo
	home    string // /verif/sim
	dir     string // scratch
	goroot  string
	overlay map[string]string
	sites   []site
	nfile   int
	files   []string // instrumented files
	missing []string // unexported entry points that are not there
}

func (b *builder) put(target string, content []byte) error {
	b.nfile++
	p := filepath.Join(b.dir, "ov", fmt.Sprintf("%03d_%s", b.nfile, filepath.Base(target)))
	if err := os.WriteFile(p, content, 0644); err != nil {
		return err
	}
	b.overlay[target] = p
	return nil
}

type repl struct{ old, new string }

// patch rewrites a file of GOROOT; every anchor must be there exactly once.
func (b *builder) patch(rel string, rs []repl, tail string) error {
	p := filepath.Join(b.goroot, "src", rel)
	src, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	s := string(src)
	for _, r := range rs {
		if n := strings.Count(s, r.old); n != 1 {
			return fmt.Errorf("patch %s: anchor %q found %d times", rel, r.old, n)
		}
		s = strings.Replace(s, r.old, r.new, 1)
	}
	return b.put(p, []byte(s+tail))
}

func (b *builder) patchRuntime() error {
	const pre = "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname "
	err := b.patch("syscall/syscall_linux.go", []repl{
		{pre + "Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"//go:uintptrescapes\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n" +
				"\tif h := SimSys; h != nil {\n\t\tif r1, r2, err, ok := h(trap, a1, a2, a3, 0, 0, 0); ok {\n\t\t\treturn r1, r2, err\n\t\t}\n\t}\n"},
		{pre + "Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"//go:uintptrescapes\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n" +
				"\tif h := SimSys; h != nil {\n\t\tif r1, r2, err, ok := h(trap, a1, a2, a3, a4, a5, a6); ok {\n\t\t\treturn r1, r2, err\n\t\t}\n\t}\n"},
	}, "\nvar SimSys func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, ok bool)\n")
	if err != nil {
		return err
	}
	if err := b.patch("syscall/zsyscall_linux_amd64.go", []repl{
		{"func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif SimSys != nil {\n\t\treturn SimPid\n\t}\n"},
		{"func Getppid() (ppid int) {\n", "func Getppid() (ppid int) {\n\tif SimSys != nil {\n\t\treturn SimPid - 1\n\t}\n"},
		{"func Gettid() (tid int) {\n", "func Gettid() (tid int) {\n\tif SimSys != nil {\n\t\treturn SimPid\n\t}\n"},
		{"func Getuid() (uid int) {\n", "func Getuid() (uid int) {\n\tif SimSys != nil {\n\t\treturn SimUid\n\t}\n"},
		{"func Geteuid() (euid int) {\n", "func Geteuid() (euid int) {\n\tif SimSys != nil {\n\t\treturn SimUid\n\t}\n"},
		{"func Getgid() (gid int) {\n", "func Getgid() (gid int) {\n\tif SimSys != nil {\n\t\treturn SimUid\n\t}\n"},
		{"func Getegid() (egid int) {\n", "func Getegid() (egid int) {\n\tif SimSys != nil {\n\t\treturn SimUid\n\t}\n"},
		{"func Uname(buf *Utsname) (err error) {\n", "func Uname(buf *Utsname) (err error) {\n\tif SimSys != nil {\n\t\t*buf = Utsname{}\n\t\tfor i := 0; i < len(SimHost) && i < 64; i++ {\n\t\t\tbuf.Nodename[i] = int8(SimHost[i])\n\t\t}\n\t\treturn nil\n\t}\n"},
		{"func Getrusage(who int, rusage *Rusage) (err error) {\n", "func Getrusage(who int, rusage *Rusage) (err error) {\n\tif SimSys != nil {\n\t\t*rusage = Rusage{Utime: NsecToTimeval(SimNow())}\n\t\treturn nil\n\t}\n"},
		{"func Sysinfo(info *Sysinfo_t) (err error) {\n", "func Sysinfo(info *Sysinfo_t) (err error) {\n\tif SimSys != nil {\n\t\t*info = Sysinfo_t{Uptime: SimNow() / 1e9, Totalram: 8 << 30, Freeram: 4 << 30, Procs: 1, Unit: 1}\n\t\treturn nil\n\t}\n"},
		{"func Times(tms *Tms) (ticks uintptr, err error) {\n", "func Times(tms *Tms) (ticks uintptr, err error) {\n\tif SimSys != nil {\n\t\t*tms = Tms{Utime: SimNow() / 1e7}\n\t\treturn uintptr(SimNow() / 1e7), nil\n\t}\n"},
	}, "\nvar SimPid, SimUid, SimHost = 4242, 0, \"host\"\n\nvar SimNow func() int64\n"); err != nil {
		return err
	}
	err = b.patch("syscall/env_unix.go", []repl{
		{"\ti, ok := env[key]\n\tif !ok {\n\t\treturn \"\", false\n", "\ti, ok := env[key]\n\tif !ok {\n\t\tif SimEnv != \"\" && simOwn(key) {\n\t\t\treturn SimEnv, true\n\t\t}\n\t\treturn \"\", false\n"},
	}, `
// SimEnv is the value of every variable which only the program knows.
var SimEnv string

func simOwn(key string) bool {
	switch key {
	case "HOME", "PATH", "PWD", "USER", "LOGNAME", "SHELL", "HOSTNAME", "TMPDIR", "TMP", "TEMP", "TZ", "ZONEINFO", "LANG", "TERM", "LOCALDOMAIN", "RES_OPTIONS":
		return false
	}
	for _, p := range []string{"GO", "CGO", "LC_", "XDG_"} {
		if len(key) >= len(p) && key[:len(p)] == p {
			return false
		}
	}
	return true
}
`)
	if err != nil {
		return err
	}
	if err := b.patch("syscall/syscall_linux_amd64.go", []repl{
		{"func Gettimeofday(tv *Timeval) (err error) {\n", "func Gettimeofday(tv *Timeval) (err error) {\n\tif SimSys != nil {\n\t\t*tv = NsecToTimeval(SimNow())\n\t\treturn nil\n\t}\n"},
		{"func Time(t *Time_t) (tt Time_t, err error) {\n", "func Time(t *Time_t) (tt Time_t, err error) {\n\tif SimSys != nil {\n\t\tif t != nil {\n\t\t\t*t = Time_t(SimNow() / 1e9)\n\t\t}\n\t\treturn Time_t(SimNow() / 1e9), nil\n\t}\n"},
	}, ""); err != nil {
		return err
	}
	// no happens-before edges from unrelated reads and writes
	p := filepath.Join(b.goroot, "src/syscall/syscall_unix.go")
	src, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	s := strings.ReplaceAll(string(src), "race.Acquire(unsafe.Pointer(&ioSync))", "_ = &ioSync")
	s = strings.ReplaceAll(s, "race.ReleaseMerge(unsafe.Pointer(&ioSync))", "_ = &ioSync")
	if s == string(src) {
		return fmt.Errorf("patch syscall_unix.go: no ioSync")
	}
	if err := b.put(p, []byte(s)); err != nil {
		return err
	}
	const mix = "\n\tsimX += 0x9e3779b97f4a7c15\n\tz := simX\n\tz = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9\n\tz = (z ^ (z >> 27)) * 0x94d049bb133111eb\n\treturn z ^ (z >> 31)\n"
	err = b.patch("runtime/rand.go", []repl{
		{"\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*37 + 11)\n\t}\n\tglobalRand.state.Init(*seed)\n"},
		{"func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n\tif simSeeded {" + strings.ReplaceAll(mix, "simX", "simMap") + "\t}\n"},
		{"\nfunc rand() uint64 {\n", "\nfunc rand() uint64 {\n\tif simSeeded {" + strings.ReplaceAll(mix, "simX", "simRand") + "\t}\n"},
		{"\nfunc cheaprand() uint32 {\n", "\nfunc cheaprand() uint32 {\n\tif simSeeded {\n\t\tsimCheap += 0x53c5ca59\n\t\thi, lo := bits.Mul32(simCheap, simCheap^0x74743c1b)\n\t\treturn hi ^ lo\n\t}\n"},
		{"\nfunc cheaprandu64() uint64 {\n", "\nfunc cheaprandu64() uint64 {\n\tif simSeeded {\n\t\treturn uint64(cheaprand())<<32 | uint64(cheaprand())\n\t}\n"},
	}, `
var simSeeded bool
var simMap, simRand uint64
var simCheap uint32

func SimSeed(s uint64) {
	if !simSeeded {
		SimNano = nanotime()
	}
	simMap, simRand = s, ^s
	simCheap = uint32(s>>7) | 1
	simSeeded = true
	getg().m.p.ptr().schedtick = 1 // the scheduler looks at it now and then
}

func SimUnseed() { simSeeded = false }

func SimG() uint64 { return getg().goid }

// SimSelf returns the calling goroutine, its g and the goroutine that started it.
func SimSelf() (uint64, uintptr, uint64) {
	gp := getg()
	return gp.goid, uintptr(unsafe.Pointer(gp)), gp.parentGoid
}

// SimState tells whether a goroutine runs or can run (0), waits (1) or is gone (2).
func SimState(p uintptr, goid uint64) int {
	gp := (*g)(unsafe.Pointer(p))
	if gp.goid != goid {
		return 2
	}
	switch readgstatus(gp) &^ _Gscan {
	case _Gwaiting:
		return 1
	case _Gdead:
		return 2
	}
	return 0
}

var SimExit func()

// SimNano is the time, which passes when nothing can run but a timer is set.
var SimNano int64
var simIdle int

// SimCPU is the number of processors the program is told.
var SimCPU int

// SimHeap is the size of the heap.
func SimHeap() uint64 { return gcController.heapLive.Load() }
`)
	if err != nil {
		return err
	}
	err = b.patch("runtime/proc.go", []repl{
		{"const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 1 << 60"},
		{"const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
		{"\t// Before we drop our P, make a snapshot of the allp slice,\n", "\tif simSeeded && pollUntil > SimNano && simIdle < 5000000 {\n\t\tsimIdle++\n\t\tSimNano = pollUntil\n\t\tgoto top\n\t}\n\tif simSeeded && pollUntil == 0 && gcphase == _GCoff && simAsleep() {\n\t\tfatal(\"all goroutines are asleep - deadlock!\")\n\t}\n\n\t// Before we drop our P, make a snapshot of the allp slice,\n"},
		{"func goexit1() {\n", "func goexit1() {\n\tif h := SimExit; h != nil {\n\t\th()\n\t}\n"},
	}, `
// simAsleep tells whether no goroutine of the program is left to run. With the
// race detector, which is C, the runtime itself does not look.
func simAsleep() bool {
	asleep := true
	forEachG(func(gp *g) {
		if isSystemGoroutine(gp, false) {
			return
		}
		switch readgstatus(gp) &^ _Gscan {
		case _Grunnable, _Grunning, _Gsyscall:
			asleep = false
		}
	})
	return asleep
}
`)
	if err != nil {
		return err
	}
	if err := b.patch("runtime/time_nofake.go", []repl{{"func nanotime() int64 {\n", "func nanotime() int64 {\n\tif simSeeded {\n\t\treturn SimNano\n\t}\n"}}, ""); err != nil {
		return err
	}
	if err := b.patch("runtime/debug.go", []repl{
		{"func NumCPU() int {\n", "func NumCPU() int {\n\tif SimCPU > 0 {\n\t\treturn SimCPU\n\t}\n"},
		{"func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n\tif SimCPU > 0 {\n\t\treturn SimCPU\n\t}\n"},
	}, ""); err != nil {
		return err
	}
	// no mutex starves because the machine is slow
	err = b.patch("runtime/sema.go", []repl{{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif simSeeded {\n\t\treturn 1\n\t}\n"}}, "")
	if err != nil {
		return err
	}
	return b.patch("time/time.go", []repl{{"\tsec, nsec, mono := runtimeNow()\n", "\tsec, nsec, mono := runtimeNow()\n\tif h := SimNow; h != nil {\n\t\tsec, nsec, mono = h(sec, nsec, mono)\n\t}\n"}},
		"\nvar SimNow func(sec int64, nsec int32, mono int64) (int64, int32, int64)\n\n// SimStart says when the process started.\nfunc SimStart(nano int64) { startNano = nano }\n")
}

// instrument adds the yield points to one file.
func (b *builder) instrument(path string) error {
	src, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	rel, _ := filepath.Rel(b.repo, path)
	type ins struct {
		off  int
		text string
	}
	var list []ins
	n := 0
	yield := func(pos token.Pos) {
		id := len(b.sites)
		p := fset.Position(pos)
		b.sites = append(b.sites, site{rel, p.Line})
		list = append(list, ins{p.Offset, "__simrt.Y(" + strconv.Itoa(id) + ");"})
		n++
	}
	stmts := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, empty := s.(*ast.EmptyStmt); empty {
				continue
			}
			yield(s.Pos())
		}
	}
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.SwitchStmt:
			skip[x.Body] = true
		case *ast.TypeSwitchStmt:
			skip[x.Body] = true
		case *ast.SelectStmt:
			skip[x.Body] = true
		case *ast.BlockStmt:
			if skip[x] {
				return true
			}
			if len(x.List) == 0 {
				yield(x.Lbrace + 1)
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
	if n == 0 {
		return nil
	}
	list = append(list, ins{fset.Position(f.Name.End()).Offset, `; import __simrt "verifsim/simrt"`})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out bytes.Buffer
	at := 0
	for _, i := range list {
		out.Write(src[at:i.off])
		out.WriteString(i.text)
		at = i.off
	}
	out.Write(src[at:])
	b.files = append(b.files, rel)
	return b.put(path, out.Bytes())
}

// The entry points below are unexported in the code under test. One that is
// not there under its name is looked for by its signature; where that is not
// unique either the operations that use it do nothing.
type shim struct {
	dir, pkg string
	imports  string
	funcs    []shimFunc
}

type shimFunc struct {
	name, export string
	typ          string // of the function in the code under test
	exportTyp    string // of the variable, if different
	wrap         string // expression for it, %s being the function
}

const sixteen = "func(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p float64) float64"

var shims = []shim{
	{"meshing", "mesh", `"geGoMetry/r3"`, []shimFunc{
		{name: "bowyerWatson", export: "VerifBowyerWatson", typ: "func(...r3.Vector) []int"},
		{name: "getNearestPoint", export: "VerifGetNearestPoint", typ: "func([]r3.Vector, r3.Vector) r3.Vector"},
		{name: "vectorInTetrahedron", export: "VerifVectorInTetrahedron", typ: "func(a, b, c, d, p r3.Vector) bool"},
		{name: "englobe", export: "VerifEnglobe", typ: "func(*[]r3.Vector) tetra", exportTyp: "func(*[]r3.Vector)", wrap: "func(p *[]r3.Vector) { %s(p) }"},
	}},
	{"nurbs", "nurbs", `"github.com/ungerik/go3d/float64/vec3"`, []shimFunc{
		{name: "curvePoint", export: "VerifCurvePoint", typ: "func(n, p int, u []int, c []vec3.T, t float64) vec3.T"},
		{name: "findSpan", export: "VerifFindSpan", typ: "func(n, p int, t float64, u []int) int"},
		{name: "basisFuns", export: "VerifBasisFuns", typ: "func(i int, t float64, p int, u []int) []float64"},
		{name: "dersBasisFuns", export: "VerifDersBasisFuns", typ: "func(i, t, p, n int, u []int) [][]float64"},
	}},
	{"triangulate3", "triangulate3", "\"geGoMetry/r3\"; import \"geGoMetry/shape\"", []shimFunc{
		{name: "constructEnglobingTetra", export: "VerifConstructEnglobingTetra", typ: "func([]r3.Vector) shape.Mesh"},
		{name: "createInitialTetra", export: "VerifCreateInitialTetra", typ: "func([]r3.Vector) []r3.Vector"},
		{name: "computeBoundingBoxForVectors", export: "VerifComputeBoundingBox", typ: "func([]r3.Vector) (r3.Vector, r3.Vector)"},
		{name: "Tessellator.tessellate", export: "VerifTessellate", typ: "func([]r3.Vector)", wrap: "func(v []r3.Vector) { (Tessellator{}).tessellate(v) }"},
	}},
	{"predicates", "predicates", `"geGoMetry/r3"`, []shimFunc{
		{name: "orient3dfast", export: "VerifOrient", typ: "func(a, b, c, d r3.Vector) float64"},
		{name: "inSphere", export: "VerifInSphere", typ: "func(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o float64) float64"},
		{name: "inSphereAdapt", export: "VerifInSphereAdapt", typ: sixteen},
	}},
}

// addShims gives the worker access to unexported entry points.
func (b *builder) addShims() error {
	for _, s := range shims {
		decls := map[string]string{}
		fset := token.NewFileSet()
		ents, err := os.ReadDir(filepath.Join(b.repo, s.dir))
		if err != nil {
			return err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(b.repo, s.dir, e.Name()), nil, parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				name := fd.Name.Name
				if fd.Recv != nil {
					name = typeText(fd.Recv.List[0].Type) + "." + name
				}
				decls[name] = signature(fd.Type)
			}
		}
		used := map[string]bool{}
		for _, fn := range s.funcs {
			used[fn.name] = true
		}
		var out strings.Builder
		fmt.Fprintf(&out, "package %s\n\nimport %s\n\n", s.pkg, s.imports)
		for _, fn := range s.funcs {
			e, err := parser.ParseExpr(fn.typ)
			if err != nil {
				return err
			}
			want := signature(e.(*ast.FuncType))
			name := fn.name
			if decls[name] != want {
				name = ""
				for n, sig := range decls {
					if sig == want && !used[n] && !strings.Contains(n, ".") && !strings.Contains(fn.name, ".") {
						if name != "" {
							name = ""
							break
						}
						name = n
					}
				}
			}
			if fn.exportTyp == "" {
				fn.exportTyp = fn.typ
			}
			if fn.wrap == "" {
				fn.wrap = "%s"
			}
			expr := strings.Replace(fn.wrap, "%s", name, 1)
			if name == "" {
				expr = "nil"
				b.missing = append(b.missing, s.dir+"."+fn.name)
			}
			fmt.Fprintf(&out, "var %s %s = %s\n", fn.export, fn.exportTyp, expr)
		}
		for i, imp := range []string{"r3.Vector", "shape.Mesh", "vec3.T"} {
			if strings.Contains(s.imports, strings.Split(imp, ".")[0]+`"`) {
				fmt.Fprintf(&out, "var _verif%d %s\n", i, imp)
			}
		}
		if err := b.put(filepath.Join(b.repo, s.dir, "zz_verif_shim.go"), []byte(out.String())); err != nil {
			return err
		}
	}
	return nil
}

// signature writes parameter and result types without names.
func signature(t *ast.FuncType) string {
	var out strings.Builder
	list := func(fl *ast.FieldList) {
		out.WriteByte('(')
		if fl != nil {
			for _, f := range fl.List {
				n := len(f.Names)
				if n == 0 {
					n = 1
				}
				for ; n > 0; n-- {
					out.WriteString(typeText(f.Type))
					out.WriteByte(',')
				}
			}
		}
		out.WriteByte(')')
	}
	list(t.Params)
	list(t.Results)
	return out.String()
}

func typeText(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return typeText(x.X) + "." + x.Sel.Name
	case *ast.StarExpr:
		return "*" + typeText(x.X)
	case *ast.ArrayType:
		if x.Len == nil {
			return "[]" + typeText(x.Elt)
		}
	case *ast.Ellipsis:
		return "..." + typeText(x.Elt)
	}
	return fmt.Sprintf("%T", e)
}

func copyTree(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), data, 0644)
	})
}

// requires collects the module requirements of a go.mod.
func requires(path string) ([]string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []string
	in := false
	for _, l := range strings.Split(string(src), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		switch {
		case l == "require (":
			in = true
		case in && l == ")":
			in = false
		case in && l != "":
			out = append(out, l)
		case strings.HasPrefix(l, "require "):
			out = append(out, strings.TrimSpace(l[8:]))
		}
	}
	return out, nil
}

// prepare writes overlay and module; build compiles a worker from them.
func (b *builder) prepare() error {
	b.overlay = map[string]string{}
	if err := os.MkdirAll(filepath.Join(b.dir, "ov"), 0755); err != nil {
		return err
	}
	if err := b.patchRuntime(); err != nil {
		return err
	}
	err := filepath.WalkDir(b.repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		name := d.Name()
		if d.IsDir() {
			if p != b.repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") || strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") {
			return nil
		}
		return b.instrument(p)
	})
	if err != nil {
		return err
	}
	if err := b.addShims(); err != nil {
		return err
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": b.overlay})
	if err := os.WriteFile(filepath.Join(b.dir, "overlay.json"), ov, 0644); err != nil {
		return err
	}
	mod := filepath.Join(b.dir, "mod")
	for _, d := range [][2]string{{"worker/simrt", "simrt"}, {"worker/main", "main"}, {"spec", "spec"}} {
		if err := copyTree(filepath.Join(b.home, d[0]), filepath.Join(mod, d[1])); err != nil {
			return err
		}
	}
	var req []string
	for _, m := range []string{"go.mod", "nurbs/go.mod"} {
		r, err := requires(filepath.Join(b.repo, m))
		if err != nil {
			return err
		}
		req = append(req, r...)
	}
	var gm strings.Builder
	gm.WriteString("module verifsim\n\ngo 1.23\n\nrequire (\n\tgeGoMetry v0.0.0\n\tnurbs v0.0.0\n")
	seen := map[string]bool{}
	for _, r := range req {
		if !seen[r] {
			seen[r] = true
			gm.WriteString("\t" + r + "\n")
		}
	}
	fmt.Fprintf(&gm, ")\n\nreplace geGoMetry => %s\n\nreplace nurbs => %s/nurbs\n", b.repo, b.repo)
	if err := os.WriteFile(filepath.Join(mod, "go.mod"), []byte(gm.String()), 0644); err != nil {
		return err
	}
	lines := map[string]bool{}
	for _, m := range []string{"go.sum", "nurbs/go.sum"} {
		src, err := os.ReadFile(filepath.Join(b.repo, m))
		if err != nil {
			return err
		}
		for _, l := range strings.Split(string(src), "\n") {
			if l != "" {
				lines[l] = true
			}
		}
	}
	var sum []string
	for l := range lines {
		sum = append(sum, l)
	}
	sort.Strings(sum)
	return os.WriteFile(filepath.Join(mod, "go.sum"), []byte(strings.Join(sum, "\n")+"\n"), 0644)
}

func (b *builder) build(race bool) (string, error) {
	out := filepath.Join(b.dir, "worker")
	args := []string{"build", "-mod=mod", "-overlay", filepath.Join(b.dir, "overlay.json"),
		"-ldflags=-s -w"}
	if race {
		out += ".race"
		args = append(args, "-race", "-gcflags=all=-d=checkptr=0",
			"-gcflags=verifsim/simrt=-d=checkptr=0 -race=false",
			"-gcflags=internal/poll=-d=checkptr=0 -race=false")
	}
	args = append(args, "-o", out, "./main")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(b.dir, "mod")
	cmd.Env = append(os.Environ(), "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=", "GOWORK=off", "GO111MODULE=on", "GOEXPERIMENT=", "GODEBUG=")
	if msg, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, msg)
	}
	return out, nil
}
