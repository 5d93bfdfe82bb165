package main

import (
	"bytes"
	"fmt"
	pathpkg "path"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"verifsim/spec"
)

// C01-C03, C07, C08: export and lexing against a faulty disk.

func basePlan(r *rng) spec.Plan {
	p := spec.Plan{MapSeed: r.u64() | 1, Clock: 1600000000e9 + int64(r.n(1e9)), Cap: -1}
	if r.p(1, 2) {
		p.Pid, p.CPUs = r.rg(2, 40000), r.pickInt(1, 2, 3, 4, 8, 16, 64)
		p.Uid, p.Host, p.Prog = r.pickInt(0, 1000), r.pick("", "a", "build-7.example.org"), r.pick("", "/usr/bin/convert", "./a.out", "convert -v", "")
	}
	if r.p(1, 4) {
		p.Env = r.environ()
	}
	if r.p(1, 2) { // of consequence only to goroutines the code under test starts
		p.Sched = r.sched()
	}
	if r.p(1, 3) { // slow calls, pauses, a clock that is set
		p.Jump = &spec.Jump{Seed: r.u64(), P: uint32(65536 / r.pickInt(1, 2, 4, 16))}
	}
	if r.p(1, 6) { // a slow processor
		p.Slow = int64(r.pickInt(3e3, 100e3, 3e6, 200e6))
	}
	return p
}

// environ is the environment of the process.
func (r *rng) environ() (env []string) {
	for _, v := range [][]string{
		{"HOME", "/root", "/nonexistent", "/cwd", ""}, {"TMPDIR", "/tmp", "/var/tmp", ""}, {"TZ", "UTC", "Asia/Tokyo", ""},
		{"LANG", "C", "de_DE.UTF-8", "tr_TR.UTF-8", ""}, {"LC_ALL", "C", "de_DE.UTF-8"}, {"USER", "root", "nobody", ""}, {"LOGNAME", "root", "x"}, {"HOSTNAME", "a", "b"},
		{"PWD", "/cwd", "/", ""}, {"DEBUG", "1", "0", ""}, {"VERBOSE", "1", ""}, {"CI", "true", ""}, {"TERM", "dumb", "xterm"}, {"NO_COLOR", "1"}, {"COLUMNS", "80", "20"},
		{"SOURCE_DATE_EPOCH", "0", "1700000000", "x"}, {"XDG_CACHE_HOME", "/cwd", "/nonexistent"}, {"GOMAXPROCS", "1", "8"},
	} {
		if r.p(1, 2) {
			env = append(env, v[0], v[1+r.n(len(v)-1)])
		}
	}
	if r.p(1, 2) {
		env = append(env, "*", r.pick("1", "true", "0", "x", "/cwd"))
	}
	return env
}

var hardKinds = []string{
	"open:err 13", "open:err 24", "open:err 23", "open:err 28", "open:err 30", "open:err 5", "open:err 12",
	"open:err 1", "open:err 2", "open:err 40", "open:err 110", "open:err 116", "open:err 122",
	"write:err 116", "write:err 110", "write:err 1", "write:err 22", "write:part 116", "close:err 116", "close:err 110",
	"write:err 5", "write:err 28", "write:err 122", "write:err 27", "write:err 30", "write:part 28", "write:part 5", "write:part 122",
	"close:err 5", "close:err 28", "close:err 122", "close:lost 5", "close:lost 28",
	"stat:err 5", "sync:err 5", "sync:err 28", "rename:err 5", "rename:err 28", "rename:err 18", "unlink:err 5", "trunc:err 5", "trunc:err 28", "seek:err 5", "mkdir:err 28",
	"read:err 5",
}

func (r *rng) faultGen(p uint32, max int) *spec.FaultGen {
	return &spec.FaultGen{Seed: r.u64(), P: p, Max: max, Kinds: hardKinds, MinLen: 1}
}

func (r *rng) soft(g *spec.FaultGen) {
	one := uint32(65536)
	g.PShort = uint32(r.n(int(one)))
	if r.p(1, 2) {
		g.PEintr = one / uint32(r.rg(2, 8))
	}
	g.MinLen = 1
	switch r.n(3) {
	case 0:
		g.MaxLen = r.pickInt(1, 7, 64)
		if g.MaxLen < 64 {
			g.PShort /= 8
		}
	case 1:
		g.MaxLen = 4096
	}
}

// isHard: a fault after which an export may fail.
func isHard(f spec.Fault) bool {
	if f.E == eEINTR || f.K == "write:short" || f.K == "read:short" || f.K == "out:short" || len(f.K) > 4 && f.K[:4] == "out:" {
		return false
	}
	return true
}

func hardFired(res *spec.Result, t, op int) bool {
	for _, f := range res.Faults {
		if f.T == t && f.Op == op && isHard(f) {
			return true
		}
	}
	return false
}

// prevContent is what the target may hold before an export.
// dirs are the directories targets are in.
var dirs = []spec.File{{Path: "/sim/out", Dir: true}, {Path: "/sim/out.d", Dir: true}, {Path: "/sim/out.d/x.y", Dir: true}}

func (r *rng) prevContent(m *spec.Mesh) ([]byte, bool) {
	switch r.n(8) {
	case 0, 1:
		return nil, false
	case 2:
		return []byte{}, true
	case 3:
		b := make([]byte, r.rg(1, 9000))
		for i := range b {
			b[i] = byte(r.u64())
		}
		return b, true
	case 4: // a mesh of the same size
		return glb(r.variant(m)), true
	case 5: // a larger one
		nv, nt := len(m.V)+r.rg(1, 200), len(m.I)/3+r.rg(1, 200)
		return glb(r.mesh(nv, nt)), true
	case 6: // a smaller one
		return glb(r.smallMesh()), true
	}
	// its beginning is right
	g := glb(m)
	return append(g[:len(g)-r.n(len(g))], make([]byte, r.n(5000))...), true
}

// C01

func genC01(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{}
	p := basePlan(r)
	p.Files = true
	nops := r.pickInt(1, 1, 1, 2, 3)
	var ops []spec.Op
	for k := 0; k < nops; k++ {
		var m *spec.Mesh
		if i%6000 == 3001 && k == 0 { // tens of megabytes
			m = r.mesh(r.rg(1100000, 1300000), r.pickInt(50, 1500000))
		} else if i%97 == 96 && k == 0 {
			m = r.mesh(r.pickInt(65534, 65535, 65536, 65537, 70000, 131073), r.pickInt(50, 50, 50, 70000)) // around what 16 bits count
		} else {
			m = r.mesh(r.meshSize())
		}
		if i%41 == 7 && k == 0 {
			if err := r.toSize(e, m); err != nil {
				return nil, err
			}
		}
		p.Inputs = append(p.Inputs, spec.Input{Mesh: m})
		path := r.target()
		ops = append(ops, spec.Op{K: "export", In: k, Path: r.spelled(path), Reuse: r.p(1, 5)})
		if prev, ok := r.prevContent(m); ok {
			p.Disk = append(p.Disk, spec.File{Path: abs(path), Data: prev})
		}
	}
	size := int64(0)
	for _, in := range p.Inputs {
		size += int64(len(in.Mesh.V)*16+len(in.Mesh.I)*4) + 1100
	}
	if i%7 == 5 { // a shape the library constructs
		p.FullVal = true
		k := r.pick("circle", "ellipse")
		size += 5300
		if i%70 == 5 {
			k = "torus"
			size += 400000
		} else if i%350 == 12 {
			k = "sphere"
			size += 3600000
		}
		ops = append(ops, spec.Op{K: "x" + k, A: r.shapeArgs(k), Path: "/sim/shape.glb"})
	}
	p.Disk = append(p.Disk, dirs...)
	if r.p(1, 5) { // the file is replaced or removed, and exported again
		o := ops[r.n(len(ops))]
		ops = append(ops, r.meddle(o.Path, p.Inputs), o)
	}
	p.Threads = [][]spec.Op{ops}
	g := r.faultGen(0, 0)
	p.FaultGen = g
	switch i % 6 {
	case 0:
		s.Mode = "healthy"
	case 1, 2:
		s.Mode = "short"
		r.soft(g)
	case 3:
		s.Mode = "full"
		p.CapErrno = r.pickInt(eNOSPC, eDQUOT, eFBIG)
		p.Cap = int64(r.u64() % uint64(size+size/8))
		if r.p(1, 3) {
			r.soft(g)
		}
	default:
		s.Mode = "errors"
		g.P, g.Max = uint32(65536/r.rg(1, 6)), r.rg(1, 3)
		g.PPers = uint32(r.pickInt(0, 65536, 30000))
		if r.p(1, 2) {
			r.soft(g)
		}
	}
	if i%8 == 3 {
		r.spread(&p)
	}
	s.Phases = []spec.Plan{p}
	return []*scenario{s}, nil
}

// toSize extends a mesh until its file has, or nearly has, the size of blocks
// and buffers.
func (r *rng) toSize(e *env, m *spec.Mesh) error {
	block := r.pickInt(512, 4096, 4096, 4096, 8192, 32768, 65536)
	off := r.pickInt(0, 0, 0, 4, -4, 8, 12)
	for k := 0; k < 6; k++ {
		ref, err := e.ref(spec.Op{K: "export", Path: "/sim/ref.glb"}, &spec.Input{Mesh: m}, nil, false)
		if err != nil {
			return err
		}
		d := (off - len(ref.op.File)) % block
		if !ref.op.HasFile || d == 0 || len(m.V)*16 > 400000 {
			return nil
		}
		for d < 32 { // multiples of 4 from here on are sums of 12 and 16
			d += block
		}
		for d /= 4; d%3 != 0; d -= 4 {
			m.V = append(m.V, m.V[0])
			if m.N != nil {
				m.N, m.T = append(m.N, m.N[0]), append(m.T, m.T[0])
			}
		}
		for ; d > 0; d -= 3 {
			j := 3 * r.n(len(m.I)/3)
			m.I = append(m.I, m.I[j], m.I[j+2], m.I[j+1])
		}
	}
	return nil
}

// spread makes the calls of the only thread those of two to four concurrent
// ones. Calls that write the same file stay in one thread.
func (r *rng) spread(p *spec.Plan) {
	n := r.pickInt(2, 2, 3, 4)
	ops := p.Threads[0]
	at := map[string]int{}
	for _, o := range ops {
		if _, ok := at[abs(o.Path)]; !ok && o.K != "lex" && o.K != "lexparse" && o.Path != "" {
			at[abs(o.Path)] = r.n(n)
		}
	}
	ts := make([][]spec.Op, n)
	for _, o := range ops {
		t, ok := at[abs(o.Path)]
		if !ok {
			t = r.n(n)
		}
		ts[t] = append(ts[t], o)
	}
	p.Threads = nil
	for _, t := range ts {
		if len(t) > 0 {
			p.Threads = append(p.Threads, t)
		}
	}
	p.Sched = r.sched()
}

// meddle is what another program does to a file.
func (r *rng) meddle(path string, inputs []spec.Input) spec.Op {
	if r.p(1, 2) {
		return spec.Op{K: "rm", Path: path}
	}
	var m *spec.Mesh
	for _, in := range inputs {
		if in.Mesh != nil && (m == nil || r.p(1, 2)) {
			m = in.Mesh
		}
	}
	b, ok := r.prevContent(m)
	if !ok {
		b = glb(r.variant(m))
	}
	return spec.Op{K: "put", Path: path, Data: b, A: []float64{float64(r.n(2)), float64(r.n(2))}}
}

func has(fs []spec.File, path string) bool {
	for _, f := range fs {
		if f.Path == path {
			return true
		}
	}
	return false
}

func abs(p string) string {
	if len(p) > 0 && p[0] == '/' {
		return pathpkg.Clean(p)
	}
	return pathpkg.Clean("/cwd/" + p)
}

// target is the name of a file to export to.
func (r *rng) target() string {
	if r.p(1, 2) {
		return r.pick("/sim/a.glb", "/sim/a.glb", "b.glb", "/sim/out/c.glb", "/sim/d.gltf")
	}
	return r.pick("/sim/out/m", "m.GLB", "/sim/D.GLTF", "/sim/two words.glb", "/sim/é€.glb", "/sim/v1.2.glb", "/sim/out/.glb", "/sim/.hidden",
		"/sim/m.json", "/sim/m.glb.gz", "/sim/m.bin", "/sim/100%.glb", "/sim/-", "-", "/sim/a*b?.glb", "/sim/a:b.glb", "/sim/a\\b.glb", "/sim/m.tmp",
		"/sim/"+strings.Repeat("n", r.pickInt(40, 100, 200))+".glb", "/tmp/m.glb", "/sim/out.d/x.y/m.glb", "/sim/m.glb~")
}

// nearPath is a path of the same directory that is almost p, but not p.
func (r *rng) nearPath(p string) string {
	d, b := p[:strings.LastIndexByte(p, '/')+1], p[strings.LastIndexByte(p, '/')+1:]
	up, low := strings.ToUpper(b), strings.ToLower(b)
	ext := b[strings.LastIndexByte(b, '.')+1:]
	stem := strings.TrimSuffix(b, ext)
	c := []string{strings.ToUpper(b[:1]) + b[1:], up, stem + strings.ToUpper(ext), b + " ", b + ".", " " + b, b + "\u200b", b[:1] + b, "0" + b, b + "1", stem, stem + stem + ext,
		"." + b, b[1:], b[:len(b)-1], strings.ReplaceAll(b, "a", "à"), strings.ReplaceAll(b, "a", "а"), strings.ReplaceAll(b, "a", "a\u0300"), b + "." + ext, b + "?x", b + "#x"}
	for _, x := range []string{c[r.n(len(c))], c[r.n(len(c))], up, low, b + "1"} {
		if x != b && x != "" && utf8.ValidString(x) && x != "." && x != ".." {
			return d + x
		}
	}
	return d + b + "2"
}

// spelled is another way to write a path.
func (r *rng) spelled(p string) string {
	if r.p(5, 6) {
		return p
	}
	if p[0] != '/' {
		return r.pick("./"+p, "/cwd/"+p, "../cwd/"+p, ".//"+p)
	}
	return r.pick("/"+p, "/sim/.."+p, strings.ReplaceAll(p, "/", "//"), "/."+p, ".."+p)
}

func judgeC01(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	for pi, o := range outs {
		p := &s.Phases[pi]
		if o.res.Hang != "" {
			return bad("hang", "Export exceeded %s without returning", o.res.Hang), nil
		}
		for t, ops := range p.Threads {
			for k, op := range ops {
				if !writes(op.K) {
					continue
				}
				r := &o.res.Ops[t][k]
				if !r.Ret {
					if !hardFired(o.res, t, k) && o.res.CapHits == 0 {
						return bad("spurious", "Export failed although no I/O call failed: %s", r.Panic), nil
					}
					continue
				}
				var m *spec.Mesh
				if op.K == "export" {
					m = p.Inputs[op.In].Mesh
				} else if m = valMesh(r.Val); m == nil {
					return nil, fmt.Errorf("no value of %s", op.K)
				}
				if !r.HasFile {
					return bad("file", "Export returned, but there is no file at %s", op.Path), nil
				}
				g, err := decodeGLB(r.File, true)
				if err != nil {
					return bad("file", "Export returned, but the file of %d bytes is not a valid GLB: %v", len(r.File), err), nil
				}
				if d := diffMesh(g, m); d != "" {
					return bad("file", "Export returned, but the file holds a different mesh: %s", d), nil
				}
			}
		}
	}
	return nil, nil
}

// C02

func genC02(e *env, r *rng, i int) ([]*scenario, error) {
	m := r.mesh(r.meshSize())
	if r.p(1, 2) {
		m = r.smallMesh()
	}
	if i%37 == 9 { // of several blocks, however large these are
		m = r.mesh(r.rg(3000, 12000), r.rg(1, 2000))
	}
	prevMesh := r.variant(m)
	p := basePlan(r)
	p.Files = true
	p.Trace = true
	p.Inputs = []spec.Input{{Mesh: m}, {Mesh: prevMesh}}
	path := r.pick("/sim/a.glb", "/sim/a.glb", "b.glb")
	if r.p(1, 4) {
		path = r.target()
		p.Disk = append(p.Disk, dirs...)
	}
	p.Threads = [][]spec.Op{{{K: "export", Path: path}}}
	switch r.n(5) {
	case 0: // the previous content comes from an export in the same process
		p.Threads = [][]spec.Op{{{K: "export", In: 1, Path: path}, {K: "export", Path: path}}}
	case 1, 2:
		p.Disk = append(p.Disk, spec.File{Path: abs(path), Data: glb(prevMesh)})
	default:
		if prev, ok := r.prevContent(m); ok {
			p.Disk = append(p.Disk, spec.File{Path: abs(path), Data: prev})
		}
	}
	other := ""
	if i%5 == 3 { // somebody else exports another mesh to another path
		other = r.pick("/sim/z.glb", "/sim/a2.glb", "/sim/a", "/cwd/a.glb")
		p.Inputs = append(p.Inputs, spec.Input{Mesh: r.variant(m)})
		o := spec.Op{K: "export", In: 2, Path: other}
		p.Threads = append(p.Threads, []spec.Op{o})
		if r.p(1, 3) {
			p.Threads[1] = append(p.Threads[1], spec.Op{K: "export", In: r.n(3), Path: other})
		}
		if prev, ok := r.prevContent(m); ok {
			p.Disk = append(p.Disk, spec.File{Path: other, Data: prev})
		}
		p.Sched = r.sched()
	}
	// neighbours that must survive
	for _, n := range []string{"/sim/other.glb", "/sim/a.glb.bak", "/sim/a.glb.tmp", "/sim/.a.glb.tmp", "/cwd/notes.txt", "/tmp/x", "/sim/a.glb~",
		"/sim/a.glb.part", "/sim/a.glb.partial", "/sim/a.glb.old", "/sim/a.glb.orig", "/sim/a.glb.new", "/sim/a.glb.lock", "/sim/.a.glb.swp", "/sim/a.glb.tmp123456", "/sim/a.glb.1",
		"/sim/a.bin", "/sim/a.gltf", "/sim/a.tmp", "/sim/tmp", "/sim/#a.glb#", "/tmp/a.glb", "/tmp/a.glb.tmp", "/cwd/a.glb.tmp", "/cwd/a.glb.bak"} {
		if path != "/sim/a.glb" && strings.Contains(n, "a.glb") && r.p(3, 4) { // neighbours of this one
			d, f := pathpkg.Split(abs(path))
			n = d + strings.ReplaceAll(pathpkg.Base(n), "a.glb", f)
		}
		if r.p(1, 3) && n != abs(path) && n != other && !has(p.Disk, n) {
			p.Disk = append(p.Disk, spec.File{Path: n, Data: glb(r.mesh(3, 1))})
		}
	}
	p.FaultGen = r.faultGen(0, 0)
	mode := i % 4
	if mode == 1 || mode == 3 {
		r.soft(p.FaultGen)
		p.FaultGen.PShort /= 4
	}
	base := &scenario{Mode: "kill", Phases: []spec.Plan{p}}
	if mode >= 2 {
		// failing exports
		var out []*scenario
		for k := 0; k < 12; k++ {
			c := base.clone()
			c.Mode = "fail"
			g := r.faultGen(uint32(65536/r.rg(1, 5)), r.rg(1, 2))
			g.PPers = uint32(r.pickInt(0, 65536))
			if mode == 3 {
				r.soft(g)
			}
			c.Phases[0].FaultGen = g
			c.Phases[0].MapSeed = r.u64() | 1
			if k%3 == 2 {
				c.Phases[0].CapErrno = eNOSPC
				c.Phases[0].Cap = int64(r.n(len(m.V)*16 + len(m.I)*4 + 1100))
			}
			out = append(out, c)
		}
		return out, nil
	}
	outs, err := e.run(base, true)
	if err != nil || outs[0].res == nil {
		return []*scenario{base}, err
	}
	// every instant of the run
	base = explicit(base, outs)
	var out []*scenario
	// a file of another's under each name the export uses besides its target
	for _, x := range outs[0].res.Touched {
		if x == abs(path) || x == other {
			continue
		}
		c := base.clone()
		c.Mode = "neighbour"
		c.Phases[0].Disk = mergeDisk(c.Phases[0].Disk, []spec.File{{Path: x, Data: glb(r.mesh(3, 1))}})
		out = append(out, c)
		k := c.clone()
		k.Phases[0].Kill = &spec.Kill{Sys: r.n(outs[0].res.Sys + 1), Mode: "before"}
		out = append(out, k)
	}
	add := func(k spec.Kill) {
		c := base.clone()
		c.Phases[0].Kill = &k
		out = append(out, c)
	}
	n := outs[0].res.Sys
	calls := writeLens(outs[0].res)
	stride := 1
	if n > 60 {
		stride = n/60 + 1
	}
	for sys := 0; sys < n; sys += 1 + r.n(2*stride-1) {
		add(spec.Kill{Sys: sys, Mode: "before"})
		l := calls[sys]
		if l > 1 {
			cut := map[int]bool{}
			if stride == 1 {
				for _, a := range []int{1, 4, 8, 11, 12, 16, 19, 20, l / 2, l - 1, l - 4, 20 + r.n(1200), r.n(l), r.n(l)} {
					if a > 0 && a < l {
						cut[a] = true
					}
				}
			} else {
				cut[1+r.n(l-1)] = true
			}
			var cs []int
			for a := range cut {
				cs = append(cs, a)
			}
			sort.Ints(cs)
			for _, a := range cs {
				add(spec.Kill{Sys: sys, Mode: "mid", A: a})
			}
		}
	}
	add(spec.Kill{Sys: n - 1, Mode: "after"})
	return out, nil
}

// writeLens: the length of each file write of a traced run, by call number.
func writeLens(res *spec.Result) map[int]int {
	m := map[int]int{}
	for i, l := range res.SysLog {
		var n int
		if j := bytes.Index([]byte(l), []byte("write[")); j >= 0 {
			if k := bytes.Index([]byte(l), []byte(" n=")); k >= 0 {
				fmt.Sscanf(l[k+3:], "%d", &n)
				m[i] = n
			}
		}
	}
	return m
}

func judgeC02(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	res := outs[0].res
	p := &s.Phases[0]
	now := map[string][]byte{}
	for _, f := range res.Files {
		if !f.Dir {
			now[f.Path] = f.Data
		}
	}
	before := map[string][]byte{}
	for _, f := range p.Disk {
		if !f.Dir {
			before[f.Path] = f.Data
		}
	}
	// what a target may hold: what it held before, or the mesh of any export
	// to it that began
	next := map[string][]*spec.Mesh{}
	for t, ops := range p.Threads {
		for k, op := range ops {
			if op.K != "export" {
				continue
			}
			path := abs(op.Path)
			next[path] = append(next[path], nil)
			if res.Ops[t][k].Started {
				next[path] = append(next[path], p.Inputs[op.In].Mesh)
			}
		}
	}
	for f, b := range before {
		if next[f] != nil {
			continue
		}
		if n, ok := now[f]; !ok || !bytes.Equal(n, b) {
			return bad("other", "the file %s, which is not the target, was altered or removed", f), nil
		}
	}
	var paths []string
	for path := range next {
		paths = append(paths, path)
	}
	sort.Strings(paths)
targets:
	for _, path := range paths {
		b, ok := now[path]
		if !ok {
			continue
		}
		if prev, have := before[path]; have && bytes.Equal(b, prev) {
			continue
		}
		g, err := decodeGLB(b, false)
		if err != nil {
			continue // a reader rejects it
		}
		d := "no export to it began"
		for _, m := range next[path] {
			if m == nil {
				continue
			}
			if d = diffMesh(g, m); d == "" {
				continue targets
			}
		}
		return bad("target", "the target %s holds a file of %d bytes that reads back as a different mesh: %s", path, len(b), d), nil
	}
	return nil, nil
}

// C03

func genC03(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{}
	p := basePlan(r)
	p.Files = true
	nm := r.rg(1, 3)
	big := r.p(1, 12)
	for k := 0; k < nm; k++ {
		var m *spec.Mesh
		if k > 0 && r.p(2, 3) {
			m = r.variant(p.Inputs[0].Mesh)
		} else if big {
			m = r.mesh(r.meshSize())
		} else {
			m = r.smallMesh()
		}
		p.Inputs = append(p.Inputs, spec.Input{Mesh: m})
		if k == 0 && r.p(1, 3) { // an equal mesh that is another object
			c := *m
			p.Inputs = append(p.Inputs, spec.Input{Mesh: &c})
		}
	}
	paths := []string{"/sim/a.glb", "/sim/b.glb", "c.glb", "/sim/out/a.glb"}
	if r.p(1, 3) {
		paths[r.n(4)] = r.target()
	}
	if r.p(1, 4) {
		k := r.n(4)
		if x := r.nearPath(paths[k]); !slices.Contains(paths, x) {
			paths[(k+1)%4] = x
		}
	}
	p.Disk = append(p.Disk, dirs...)
	for _, x := range paths {
		if prev, ok := r.prevContent(p.Inputs[0].Mesh); ok && r.p(1, 2) {
			p.Disk = append(p.Disk, spec.File{Path: abs(x), Data: prev})
		}
	}
	n := r.rg(2, 7)
	var ops []spec.Op
	var fops []int
	meddling := r.p(1, 4)
	if r.p(1, 40) && !big {
		n = r.rg(20, 60)
	}
	for k := 0; k < n; k++ {
		if meddling && r.p(1, 2) {
			ops = append(ops, r.meddle(paths[r.n(len(paths))], p.Inputs))
		}
		if r.p(1, 4) {
			fops = append(fops, len(ops))
		}
		ops = append(ops, spec.Op{K: "export", In: r.n(len(p.Inputs)), Path: r.spelled(paths[r.n(len(paths))]), Reuse: r.p(1, 5)})
	}
	n = len(ops)
	p.Threads = [][]spec.Op{ops}
	if i%3 == 2 && r.p(1, 3) {
		r.spread(&p)
	}
	s.Mode = "healthy"
	p.FaultGen = r.faultGen(0, 0)
	switch i % 3 {
	case 0:
		r.soft(p.FaultGen)
		s.Mode = "short"
	case 1:
		if len(fops) > 0 {
			s.Mode = "failures"
			p.FaultGen = r.faultGen(uint32(65536/r.rg(1, 4)), r.rg(1, 4))
			p.FaultGen.Ops = fops
		}
	}
	s.Phases = []spec.Plan{p}
	if r.p(1, 4) { // and again in another process, on the disk this one leaves
		q := basePlan(r)
		q.Files = true
		q.Inputs = p.Inputs
		q.Threads = [][]spec.Op{{ops[r.n(n)], ops[r.n(n)]}}
		s.Phases = append(s.Phases, q)
	}
	return []*scenario{s}, nil
}

func judgeC03(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	failed := false
	for pi, o := range outs {
		p := &s.Phases[pi]
		if o.res.Hang != "" {
			return bad("hang", "Export exceeded %s without returning", o.res.Hang), nil
		}
		if len(o.res.InputsChanged) > 0 {
			return bad("input", "the exported mesh (input %d) was modified", o.res.InputsChanged[0]), nil
		}
		// files that may exist: those there before, and the targets
		may := map[string]bool{}
		was := map[string]bool{}
		for _, d := range p.Disk {
			may[d.Path] = true
		}
		if pi > 0 {
			for _, f := range outs[pi-1].res.Files {
				may[f.Path] = true
			}
		}
		for _, ops := range p.Threads {
			for _, op := range ops {
				if len(p.Threads) > 1 || op.K == "put" {
					may[abs(op.Path)] = true
				}
			}
		}
		for _, tk := range calls(p) {
			t, k := tk[0], tk[1]
			op := p.Threads[t][k]
			if op.K != "export" {
				continue
			}
			r := &o.res.Ops[t][k]
			may[abs(op.Path)] = true
			if !r.Ret {
				failed = true
				if !hardFired(o.res, t, k) {
					return bad("spurious", "export %d failed although no I/O call failed: %s", k, r.Panic), nil
				}
			}
			for _, f := range r.Disk {
				if len(p.Threads) > 1 { // others are at work: at the end
					break
				}
				if !may[f.P] && !was[f.P] {
					was[f.P] = true // reported once
					if !failed {
						return bad("stray", "the process left the file %s behind", f.P), nil
					}
				}
			}
			if !r.Ret {
				continue
			}
			if hardFired(o.res, t, k) {
				continue // C01 judges what it claims
			}
			ref, err := e.ref(spec.Op{K: "export", Path: "/sim/ref.glb"}, &p.Inputs[op.In], nil, false)
			if err != nil {
				return nil, err
			}
			if ref.crash != "" || ref.hang != "" || !ref.op.Ret || !ref.op.HasFile {
				return bad("ref", "a single export to an empty disk fails: %s %s", ref.op.Panic, ref.crash), nil
			}
			if !r.HasFile || r.FileDig != ref.op.FileDig {
				at := 0
				for at < len(r.File) && at < len(ref.op.File) && r.File[at] == ref.op.File[at] {
					at++
				}
				return bad("bytes", "export %d wrote %d bytes that differ (from byte %d) from the %d bytes a fresh process writes for the same mesh", k, len(r.File), at, len(ref.op.File)), nil
			}
		}
		if len(p.Threads) > 1 && !failed && !o.res.Killed {
			for _, f := range o.res.Files {
				if !f.Dir && !may[f.Path] {
					return bad("stray", "the process left the file %s behind", f.Path), nil
				}
			}
		}
	}
	return nil, nil
}

// calls lists the operations of a process: thread and number.
func calls(p *spec.Plan) [][2]int {
	var out [][2]int
	for t, ops := range p.Threads {
		for k := range ops {
			out = append(out, [2]int{t, k})
		}
	}
	return out
}

// C07

func genC07(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{}
	p := basePlan(r)
	p.Inputs = []spec.Input{{Mesh: r.smallMesh()}, {Mesh: r.mesh(r.meshSize())}}
	docs := []string{"/sim/a.stp", "b.stp", "/sim/long.stp"}
	for k, path := range docs {
		g := newDocGen(r)
		g.long = 0
		n := r.n(6)
		if k == 2 {
			n = r.rg(60, 150)
			if r.p(1, 2) {
				g.long, g.maxLen = 2, 9000
			}
		}
		d := g.doc(path, n)
		if k == 1 && r.p(1, 2) {
			if c := d.cuts(r, 1); len(c) > 0 {
				d.Cut = c[0]
			}
		}
		s.Docs = append(s.Docs, d)
	}
	s.kinds(r)
	p.Disk = []spec.File{{Path: "/sim/dir", Dir: true}, {Path: "/sim/garbage", Data: []byte("#1=\n=\n#2=(")}}
	n := r.rg(1, 12)
	var ops []spec.Op
	for k := 0; k < n; k++ {
		switch r.n(6) {
		case 0, 1:
			ops = append(ops, spec.Op{K: "export", In: r.n(2), Path: r.pick("/sim/a.glb", "/sim/b.glb", "/sim/dir", "/nowhere/x.glb", "c.glb")})
		case 2:
			ops = append(ops, spec.Op{K: "lexparse", Path: docs[r.n(3)]})
		default:
			ops = append(ops, spec.Op{K: "lex", Path: r.pick(docs[0], docs[1], docs[2], "/sim/dir", "/sim/missing", "/sim/garbage")})
		}
	}
	p.Threads = [][]spec.Op{ops}
	g := r.faultGen(uint32(65536/r.pickInt(1, 2, 3, 5, 10, 30)), r.rg(1, 12))
	g.Kinds = append(append([]string{}, hardKinds...), "read:err 5", "read:err 116", "read:err 110", "read:eof 0", "open:err 40", "stat:err 5")
	g.PPers = uint32(r.pickInt(0, 65536, 20000))
	if r.p(1, 2) {
		r.soft(g)
	}
	p.FaultGen = g
	if r.p(1, 6) {
		p.Cap, p.CapErrno = int64(r.n(5000)), eNOSPC
	}
	if i%5 == 2 {
		r.spread(&p)
	}
	s.Phases = []spec.Plan{p}
	return []*scenario{s}, nil
}

func judgeC07(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	o := outs[0]
	for _, tk := range calls(&s.Phases[0]) {
		t, k := tk[0], tk[1]
		r := &o.res.Ops[t][k]
		op := s.Phases[0].Threads[t][k]
		if r.Done && len(r.FdLeak) > 0 {
			how := "returned"
			if !r.Ret {
				how = "panicked (" + r.Panic + ")"
			}
			return bad("leak", "operation %d (%s %s) %s and left %s open", k, op.K, op.Path, how, r.FdLeak[0]), nil
		}
	}
	if o.res.Hang != "" {
		return bad("hang", "operation %d exceeded %s without ending", o.res.HangOp, o.res.Hang), nil
	}
	return nil, nil
}

// C08

func genC08(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{}
	var inputs []spec.Input
	for k := 0; k < 2; k++ {
		if k > 0 && r.p(1, 2) {
			inputs = append(inputs, spec.Input{Mesh: r.variant(inputs[0].Mesh)})
		} else {
			inputs = append(inputs, spec.Input{Mesh: r.smallMesh()})
		}
	}
	docs := []string{"/sim/a.stp", "b.stp"}
	for k, path := range docs {
		g := newDocGen(r)
		g.long = 0
		n := r.n(8)
		if k == 1 && r.p(1, 2) {
			n = r.rg(40, 90)
		}
		s.Docs = append(s.Docs, g.doc(path, n))
	}
	s.kinds(r)
	op := func() spec.Op {
		if r.p(1, 2) {
			return spec.Op{K: "lex", Path: docs[r.n(2)]}
		}
		return spec.Op{K: "export", In: r.n(2), Path: r.pick("/sim/a.glb", "b.glb")}
	}
	all := []spec.Op{{K: "lex", Path: docs[0]}, {K: "lex", Path: docs[1]}, {K: "export", In: 0, Path: "/sim/a.glb"}, {K: "export", In: 1, Path: "b.glb"}}
	nph := r.rg(1, 2)
	for ph := 0; ph < nph; ph++ {
		p := basePlan(r)
		p.Inputs = inputs
		if ph == 0 {
			for _, x := range []string{"/sim/a.glb", "/cwd/b.glb"} {
				if prev, ok := r.prevContent(inputs[0].Mesh); ok && r.p(1, 2) {
					p.Disk = append(p.Disk, spec.File{Path: x, Data: prev})
				}
			}
		}
		nf := r.rg(1, 6)
		nt := 1
		if i%6 == 1 {
			nt, nf = r.rg(2, 3), r.rg(1, 3)
			p.Sched = r.sched()
		}
		storm := i%25 == 3 && ph == 0
		if storm { // one failure after the other
			nf = r.pickInt(9, 17, 33, 65, 130, r.rg(10, 140))
		}
		path := 0
		next := func() spec.Op {
			o := op()
			if o.K == "export" && nt > 1 { // to a path of the thread
				o.Path = []string{"/sim/a.glb", "b.glb", "/sim/c.glb"}[path]
			}
			return o
		}
		fops := []int{}
		for k := 0; k < nf; k++ {
			fops = append(fops, k)
		}
		g := r.faultGen(uint32(65536/r.pickInt(1, 2, 4)), r.rg(1, 8))
		g.Kinds = append(append([]string{}, hardKinds...), "read:err 5", "read:err 116", "read:eof 0", "open:err 24")
		g.PPers = uint32(r.pickInt(0, 65536, 30000))
		if r.p(1, 3) {
			r.soft(g)
		}
		g.Ops = fops
		if storm {
			g.P, g.Max = 65536, 1<<20
			if r.p(1, 2) { // of one kind
				g.Kinds = []string{r.pick("open:err 24", "read:err 5", "write:err 28", "write:part 28", "close:err 5"), "read:err 5", "write:err 5"}
			}
		}
		p.FaultGen = g
		again := 0
		if !storm && r.p(1, 3) { // the process dies
			p.Kill = &spec.Kill{Sys: r.n(8 * nf * nt), Mode: r.pick("before", "mid", "after"), A: r.n(2500)}
		} else {
			// the same process tries again without faults
			again = r.rg(1, 4)
		}
		for ; path < nt; path++ {
			var ops []spec.Op
			for k := 0; k < nf+again; k++ {
				ops = append(ops, next())
			}
			p.Threads = append(p.Threads, ops)
		}
		s.Phases = append(s.Phases, p)
	}
	q := basePlan(r)
	q.Inputs = inputs
	q.Threads = [][]spec.Op{all}
	if i%6 == 1 && r.p(1, 2) {
		r.spread(&q)
	}
	q.FaultGen = &spec.FaultGen{}
	s.Phases = append(s.Phases, q)
	return []*scenario{s}, nil
}

func judgeC08(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	for pi, o := range outs {
		p := &s.Phases[pi]
		if o.res.Hang != "" {
			if !hardFired(o.res, o.res.HangT, o.res.HangOp) {
				return bad("hang", "process %d, operation %d, which met no fault, exceeded %s", pi, o.res.HangOp, o.res.Hang), nil
			}
			continue
		}
		for _, tk := range calls(p) {
			t, k := tk[0], tk[1]
			op := p.Threads[t][k]
			r := &o.res.Ops[t][k]
			if hardFired(o.res, t, k) || !isCall(op.K) || !r.Done {
				continue
			}
			v, err := e.sameAsRef(s, pi, t, k, r, nil)
			if err != nil {
				return nil, err
			}
			if v != nil {
				v.Msg = fmt.Sprintf("process %d, thread %d, operation %d (%s), which met no fault: %s", pi, t, k, op.K, v.Msg)
				return v, nil
			}
		}
	}
	return nil, nil
}
