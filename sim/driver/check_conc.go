package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"verifsim/spec"
)

// C12-C17: concurrent calls, and broken standard output.

// diskFor is the part of the initial disk an operation reads.
func diskFor(s *scenario, pi, t, k int) []spec.File {
	op := s.Phases[pi].Threads[t][k]
	if op.K != "lex" && op.K != "lexparse" {
		return nil
	}
	if d := s.docAt(pi, t, k, op.Path); d != nil {
		return []spec.File{{Path: abs(op.Path), Data: d.bytes()}}
	}
	for i := range s.Phases {
		for _, f := range s.Phases[i].Disk {
			if abs(f.Path) == abs(op.Path) {
				return []spec.File{{Path: abs(op.Path), Data: f.Data, Dir: f.Dir}}
			}
		}
	}
	return nil
}

func writes(k string) bool {
	switch k {
	case "export", "xcircle", "xellipse", "xtorus", "xsphere":
		return true
	}
	return false
}

// sameAsRef compares an operation with the one that is alone in a fresh
// process.
func (e *env) sameAsRef(s *scenario, pi, t, k int, r *spec.OpResult, out func([]byte) string) (*violation, error) {
	p := &s.Phases[pi]
	op := p.Threads[t][k]
	var in *spec.Input
	if op.In < len(p.Inputs) {
		in = &p.Inputs[op.In]
	}
	ro := op
	ro.Seed, ro.Reuse, ro.Scrib, ro.Late = 0, false, false, false
	if op.K == "parse" {
		ro.Seed = 1
	}
	if writes(op.K) {
		ro.Path = "/sim/ref.glb"
	}
	ref, err := e.ref(ro, in, diskFor(s, pi, t, k), false)
	if err != nil {
		return nil, err
	}
	if ref.hang != "" || ref.crash != "" {
		return nil, nil // not a question of concurrency
	}
	if ref.op.Ret != r.Ret {
		if r.Ret {
			return bad("return", "it returned, although alone in a fresh process it panics: %s", ref.op.Panic), nil
		}
		return bad("return", "it panicked (%s), although alone in a fresh process it returns", r.Panic), nil
	}
	if !r.Ret {
		return nil, nil
	}
	if r.Dig != ref.op.Dig {
		return bad("result", "its result differs from the one it gives alone in a fresh process"), nil
	}
	if writes(op.K) {
		if !r.HasFile || r.FileDig != ref.op.FileDig {
			return bad("file", "the file %s differs from the one it writes alone in a fresh process", op.Path), nil
		}
	}
	if out != nil {
		if a, b := out(r.Out), out(ref.op.Out); a != b {
			return bad("output", "its reports differ from those it makes alone in a fresh process: %s", lineDiff(b, a)), nil
		}
	}
	return nil, nil
}

// reports is the multiset of lines.
func reports(b []byte) string {
	var ls []string
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// lineDiff names a line that is in only one of two sorted line lists.
func lineDiff(want, got string) string {
	c := map[string]int{}
	for _, l := range strings.Split(want, "\n") {
		c[l]++
	}
	for _, l := range strings.Split(got, "\n") {
		c[l]--
	}
	var ks []string
	for l, n := range c {
		if n != 0 && l != "" {
			ks = append(ks, l)
		}
	}
	sort.Strings(ks)
	for _, l := range ks {
		if c[l] > 0 {
			return fmt.Sprintf("%q is missing %d times", l, c[l])
		}
		return fmt.Sprintf("%q is there %d times too often", l, -c[l])
	}
	return "(equal)"
}

func judgeConc(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	for pi, o := range outs {
		p := &s.Phases[pi]
		if o.res.Hang != "" {
			op := p.Threads[o.res.HangT][o.res.HangOp]
			var in *spec.Input
			if op.In < len(p.Inputs) {
				in = &p.Inputs[op.In]
			}
			op.Seed, op.Reuse, op.Scrib, op.Late = 0, false, false, false
			ref, err := e.ref(op, in, diskFor(s, pi, o.res.HangT, o.res.HangOp), false)
			if err != nil {
				return nil, err
			}
			if ref.hang == "" && ref.crash == "" {
				return bad("hang", "thread %d, operation %d (%s) exceeded %s", o.res.HangT, o.res.HangOp, op.K, o.res.Hang), nil
			}
			continue
		}
		if len(o.res.InputsChanged) > 0 {
			return bad("input", "input %d, which the caller passed in, was modified", o.res.InputsChanged[0]), nil
		}
		for t, ops := range p.Threads {
			for k, op := range ops {
				if !isCall(op.K) {
					continue
				}
				r := &o.res.Ops[t][k]
				if !r.Done {
					continue
				}
				if hasFault(o.res, t, k) && s.Mode != "out" {
					continue
				}
				var out func([]byte) string
				if (op.K == "parse" || op.K == "lexparse") && s.Mode != "out" {
					out = reports
				}
				v, err := e.sameAsRef(s, pi, t, k, r, out)
				if err != nil {
					return nil, err
				}
				if v == nil && r.Changed && !(op.Reuse && onInput(op.K)) {
					v = bad("changed", "the result it had returned changed afterwards")
				}
				if v != nil {
					v.Msg = fmt.Sprintf("thread %d, operation %d (%s): %s", t, k, op.K, v.Msg)
					return v, nil
				}
			}
		}
		if o.res.Races > 0 {
			return bad("race", "data race: %s", raceText(o.errs)), nil
		}
	}
	return s.strayFile(e, outs)
}

// strayFile: because standard output failed, a file is there that is no target.
func (s *scenario) strayFile(e *env, outs []*outcome) (*violation, error) {
	if s.Mode != "out" || outs[0].res.Hang != "" {
		return nil, nil
	}
	p := &s.Phases[0]
	may := map[string]bool{}
	for _, f := range p.Disk {
		may[abs(f.Path)] = true
	}
	for _, d := range s.Docs {
		may[abs(d.Path)] = true
	}
	for _, ops := range p.Threads {
		for _, op := range ops {
			may[abs(op.Path)] = true
		}
	}
	stray := func(o *outcome) (string, int) {
		name, n := "", 0
		for _, f := range o.res.Files {
			if !f.Dir && !may[abs(f.Path)] {
				name = f.Path
				n++
			}
		}
		return name, n
	}
	name, n := stray(outs[0])
	if n == 0 {
		return nil, nil
	}
	c := s.clone()
	c.Phases[0].FaultGen, c.Phases[0].Faults = nil, nil
	healthy, err := e.run(c, false)
	if err != nil || healthy[0].res == nil {
		return nil, err
	}
	if _, m := stray(healthy[0]); m >= n {
		return nil, nil // other calls leave it as well
	}
	return bad("stray", "the process wrote the file %s, which it does not when standard output works", name), nil
}

func hasFault(r *spec.Result, t, k int) bool {
	for _, f := range r.Faults {
		if f.T == t && f.Op == k && isHard(f) {
			return true
		}
	}
	return false
}

// raceText condenses a race report.
func raceText(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, " at 0x") || strings.HasPrefix(l, "/repo/") || strings.HasSuffix(l, "()") {
			if i := strings.Index(l, " by goroutine"); i >= 0 {
				l = l[:i]
			}
			if i := strings.Index(l, " at 0x"); i >= 0 {
				l = l[:i]
			}
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// onInput: the operation works on an input.
func onInput(k string) bool {
	switch k {
	case "lex", "lexparse", "circle", "ellipse", "torus", "sphere", "xcircle", "xellipse", "xtorus", "xsphere", "nop", "put", "rm", "closeout", "closeerr", "validate":
		return false
	}
	return true
}

// lexers makes calls use one Lexer after another, rather than one each.
func (s *scenario) lexers(r *rng) {
	if r.p(1, 4) { // other ways to write the same paths
		for i := range s.Phases {
			for _, ops := range s.Phases[i].Threads {
				for k := range ops {
					if (ops[k].K == "lex" || ops[k].K == "lexparse") && ops[k].Path != "" {
						ops[k].Path = r.spelled(ops[k].Path)
					}
				}
			}
		}
	}
	if !r.p(1, 4) {
		return
	}
	for i := range s.Phases {
		for _, ops := range s.Phases[i].Threads {
			for k := range ops {
				if ops[k].K == "lex" || ops[k].K == "lexparse" {
					ops[k].Reuse = r.p(2, 3)
				}
			}
		}
	}
}

// concPlan distributes operations over threads.
func concPlan(r *rng, i int, inputs []spec.Input, op func() spec.Op) *scenario {
	s := &scenario{Race: i%3 == 0}
	p := basePlan(r)
	p.Inputs = inputs
	nt := r.pickInt(2, 2, 2, 3, 3, 4)
	if r.p(1, 30) {
		nt = r.rg(5, 12)
		if r.p(1, 4) {
			nt = r.rg(13, 40)
		}
	}
	if i%16 == 15 {
		nt = 1 // a history without concurrency
	}
	reuse, scrib := r.p(1, 4), r.p(1, 4)
	if many(i) {
		nt = 1 + r.n(2)
	} else if nt == 1 {
		reuse = r.p(1, 2)
	}
	for t := 0; t < nt; t++ {
		n := r.rg(1, 3)
		if nt == 1 {
			n = r.rg(3, 10)
			if r.p(1, 4) {
				n = r.rg(20, 60)
			}
		} else if r.p(1, 8) {
			n = r.rg(4, 6)
		}
		if many(i) {
			n = r.pickInt(r.rg(100, 250), r.rg(250, 320)) / nt
		}
		var ops []spec.Op
		for k := 0; k < n; k++ {
			o := op()
			if writes(o.K) { // each call to its own path
				o.Path = fmt.Sprintf(o.Path, t*1000+k)
			}
			o.Reuse = reuse && onInput(o.K) && r.p(1, 2)
			o.Scrib = scrib && r.p(1, 2)
			o.Late = o.Scrib && r.p(1, 2)
			ops = append(ops, o)
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Sched = r.sched()
	s.Phases = []spec.Plan{p}
	return s
}

// many: a long history of calls with many different inputs, more than what
// some table of limited size would hold.
func many(i int) bool { return i%80 == 47 }

func genC12(e *env, r *rng, i int) ([]*scenario, error) {
	var inputs []spec.Input
	tg := r.tableGen()
	var docs []*stepDoc
	nin := r.rg(1, 3)
	if many(i) {
		nin = r.rg(20, 80)
	}
	for k := 0; k < nin; k++ {
		tb := tg.table(r.rg(2, 10))
		if r.p(1, 8) {
			r.spoil(tb)
		}
		inputs = append(inputs, spec.Input{Table: tb})
	}
	paths := []string{"/sim/a.stp", "b.stp", "/sim/c.stp", "/sim/d.stp"}
	if r.p(1, 4) { // of the same name
		paths = []string{"/sim/a.stp", "a.stp", "/sim/c/a.stp", "/sim/d/a.stp"}
	}
	if many(i) {
		for k := r.rg(20, 80); k > 0; k-- {
			paths = append(paths, fmt.Sprintf("/sim/m%d.stp", k))
		}
	}
	for k := range paths {
		switch {
		case k == 3:
			docs = append(docs, r.tableDoc(paths[k], tg.table(r.rg(2, 8))))
		default:
			g := newDocGen(r)
			if !r.p(1, 4) {
				g.long = 0
			}
			if r.p(1, 2) && k > 0 { // identifiers in common
				g.plain = true
			}
			d := g.doc(paths[k], r.n(7))
			if r.p(1, 8) {
				if c := d.cuts(r, 1); len(c) > 0 {
					d.Cut = c[0]
				}
			}
			docs = append(docs, d)
		}
	}
	focus := r.n(4)
	one := r.n(len(paths))
	s := concPlan(r, i, inputs, func() spec.Op {
		f := focus
		if f == 3 {
			f = r.n(3)
		}
		switch f {
		case 0:
			if r.p(1, 2) {
				return spec.Op{K: "lex", Path: paths[one]}
			}
			return spec.Op{K: "lex", Path: paths[r.n(len(paths))]}
		case 1:
			o := spec.Op{K: "parse", In: r.n(nin)}
			if r.p(1, 4) {
				o.Seed = r.u64() | 1
			}
			return o
		}
		return spec.Op{K: "lexparse", Path: paths[3]}
	})
	s.Docs = docs
	s.kinds(r)
	p := &s.Phases[0]
	p.Disk = append(p.Disk, spec.File{Path: "/sim/c", Dir: true}, spec.File{Path: "/sim/d", Dir: true})
	if len(p.Threads) == 1 && r.p(1, 2) { // files change between two calls
		p.Threads[0] = s.puts(r, p.Threads[0], len(paths)-1)
	}
	if r.p(1, 3) { // data arrives in pieces; some call fails
		g := &spec.FaultGen{Seed: r.u64()}
		r.soft(g)
		if r.p(1, 3) {
			g.P, g.Max, g.Kinds = uint32(65536/r.rg(4, 20)), 2, []string{"read:err 5", "open:err 24", "close:err 5"}
		}
		p.FaultGen = g
	}
	if r.p(1, 6) {
		p.Threads[0] = append(p.Threads[0], spec.Op{K: "lex", Path: "/sim/none.stp"})
	}
	return []*scenario{s}, nil
}

func (r *rng) shapeArgs(k string) []float64 {
	a := []float64{0, 0, 0}
	if r.p(1, 2) {
		a = []float64{r.fr(-5, 5), r.fr(-5, 5), r.fr(-5, 5)}
	}
	rad := func() float64 {
		switch r.n(4) {
		case 0:
			return 1
		case 1:
			return float64(r.rg(1, 4))
		}
		return r.fr(0.1, 20)
	}
	switch k {
	case "circle", "sphere":
		return append(a, rad())
	}
	return append(a, rad(), rad())
}

func genC13(e *env, r *rng, i int) ([]*scenario, error) {
	var inputs []spec.Input
	nin := r.rg(1, 3)
	if many(i) {
		nin = r.rg(20, 80)
	}
	for k := 0; k < nin; k++ {
		switch {
		case k > 0 && r.p(1, 2):
			inputs = append(inputs, spec.Input{Mesh: r.variant(inputs[0].Mesh)})
		case r.p(1, 10):
			inputs = append(inputs, spec.Input{Mesh: r.mesh(r.meshSize())})
		default:
			inputs = append(inputs, spec.Input{Mesh: r.smallMesh()})
		}
	}
	kinds := []string{"circle", "ellipse", "circle", "ellipse", "torus"}
	if i%40 == 7 {
		kinds = append(kinds, "sphere")
	}
	if !r.p(1, 5) {
		kinds = kinds[:4]
	}
	focus := r.n(4)
	fixed := kinds[r.n(len(kinds))]
	args := [][]float64{r.shapeArgs(fixed), r.shapeArgs(fixed)}
	args = append(args, append([]float64{}, args[0]...))
	if k := r.n(len(args[2])); r.p(1, 2) {
		args[2][k] += r.pickF(1, 2, 3)
	} else {
		args[2][k] = r.near(args[2][k])
	}
	if n := len(args[2]); r.p(1, 4) {
		args[2][0], args[2][1], args[2][n-1], args[2][n-2] = args[2][1], args[2][0], math.Abs(args[2][n-2])+0.5, args[2][n-1]
	}
	heavy := 0
	alike := r.p(1, 4)
	s := concPlan(r, i, inputs, func() spec.Op {
		f := focus
		if f == 3 {
			f = r.n(3)
		}
		k := kinds[r.n(len(kinds))]
		a := r.shapeArgs(k)
		if r.p(1, 2) {
			k = fixed
			a = args[r.n(3)]
		}
		if k == "sphere" || k == "torus" {
			// Every result and file stays in the memory of the process.
			if heavy++; heavy > 16 {
				k = kinds[r.n(4)]
				a = r.shapeArgs(k)
			}
		}
		switch f {
		case 0:
			return spec.Op{K: k, A: a}
		case 1:
			return spec.Op{K: "export", In: r.n(nin), Path: "/sim/m%d.glb"}
		}
		return spec.Op{K: "x" + k, A: a, Path: r.pick("/sim/m%d.glb", "x%d.glb")}
	})
	p := &s.Phases[0]
	var dirs []spec.File
	if alike { // of the same name, in different directories
		last, near := "", map[string]bool{}
		for _, ops := range p.Threads {
			for k := range ops {
				if !strings.HasSuffix(ops[k].Path, ".glb") {
					continue
				}
				if last != "" && r.p(1, 3) { // or nearly of the same name, in the same one
					if x := r.nearPath(last); !near[x] {
						near[x] = true
						ops[k].Path = x
						continue
					}
				}
				d := fmt.Sprintf("/sim/d%d", len(dirs))
				dirs = append(dirs, spec.File{Path: d, Dir: true})
				last = d + "/m.glb"
				ops[k].Path = last
			}
		}
		p.Disk = append(p.Disk, dirs...)
	}
	p.StepLimit = 200e6
	if r.p(1, 4) {
		g := &spec.FaultGen{Seed: r.u64()}
		r.soft(g)
		if g.MaxLen > 0 && g.MaxLen < 4096 {
			g.MaxLen = 4096
		}
		if r.p(1, 3) {
			g.P, g.Max, g.Kinds = uint32(65536/r.rg(4, 20)), 2, []string{"write:err 28", "open:err 24", "close:err 5"}
		}
		p.FaultGen = g
	}
	return []*scenario{s}, nil
}

func genC14(e *env, r *rng, i int) ([]*scenario, error) {
	var inputs []spec.Input
	nin := r.rg(1, 3)
	if many(i) {
		nin = r.rg(20, 80)
	}
	for k := 0; k < nin; k++ {
		n := r.pickInt(1, 3, 4, 6, 10, 20, 50)
		if n == 1 {
			n = r.rg(3, 12)
			if r.p(1, 4) {
				n = r.n(3)
			}
		}
		if r.p(1, 30) {
			n = r.rg(100, 400)
		}
		pts := r.points(n)
		if k > 0 && len(inputs[0].Pts) > 0 && r.p(1, 2) {
			pts = r.variantPts(inputs[0].Pts)
		}
		inputs = append(inputs, spec.Input{Pts: pts, Tri: true})
	}
	focus := r.n(5)
	s := concPlan(r, i, inputs, func() spec.Op {
		f := focus
		if f >= 3 {
			f = r.n(4)
		}
		return spec.Op{K: []string{"tri2", "hull2", "validate", "tri2v"}[f], In: r.n(nin)}
	})
	return []*scenario{s}, nil
}

func genC15(e *env, r *rng, i int) ([]*scenario, error) {
	var inputs []spec.Input
	nin := r.rg(1, 4)
	if many(i) {
		nin = r.rg(20, 80)
	}
	for k := 0; k < nin; k++ {
		c := r.curve()
		if k > 0 && r.p(2, 3) {
			c = r.variantCurve(inputs[r.n(k)].Curve)
		}
		inputs = append(inputs, spec.Input{Curve: c})
	}
	u := r.param(inputs[0].Curve)
	short := false
	if c := inputs[0].Curve; nin > 1 && c.P > 1 && r.p(1, 6) { // knots are missing at the end
		d := r.variantCurve(c)
		if n := len(d.C) + 1 + r.n(d.P-1); d.P > 1 && n > 2*d.P && n < len(d.U) {
			d.U = append([]int{}, d.U[:n]...)
			inputs[1].Curve = d
			short = true
		}
	}
	aux := r.p(1, 2)
	s := concPlan(r, i, inputs, func() spec.Op {
		in := r.n(nin)
		c := inputs[in].Curve
		x := r.param(c)
		if lo, hi := float64(c.U[c.P]), float64(c.U[len(c.U)-1-c.P]); r.p(1, 2) && u >= lo && u <= hi {
			x = math.Max(lo, math.Min(hi, r.near(u)))
		}
		if short && in == 1 && r.p(3, 4) {
			lo, hi := float64(c.U[c.P]), float64(c.U[len(c.C)])
			x = lo + (hi-lo)*r.pickF(r.f(), 1-r.f()/8)
		}
		switch {
		case aux && r.p(1, 3):
			return spec.Op{K: "basis", In: in, A: []float64{x}}
		case aux && r.p(1, 2):
			return spec.Op{K: "ders", In: in, A: []float64{math.Floor(x), float64(r.rg(0, c.P))}}
		}
		return spec.Op{K: "curve", In: in, A: []float64{x}}
	})
	return []*scenario{s}, nil
}

func genC17(e *env, r *rng, i int) ([]*scenario, error) {
	var inputs []spec.Input
	nin := r.rg(1, 3)
	if many(i) {
		nin = r.rg(20, 80)
	}
	for k := 0; k < nin; k++ {
		n := r.rg(5, 9)
		if r.p(1, 6) && !many(i) {
			n = r.rg(10, 16)
		}
		pts := r.points(n)
		if k > 0 && r.p(1, 2) {
			pts = r.variantPts(inputs[0].Pts)
		}
		if i%200 == 131 {
			pts = r.crowd(r.pickInt(64, 65, 128, 129, 256, 257, r.rg(50, 600)))
		}
		inputs = append(inputs, spec.Input{Pts: pts})
	}
	kinds := []string{"bw", "bw", "bw", "bwcopy", "nearest", "inside", "englobe", "insphere", "vec", "intersect", "enclose3", "initial3", "box3", "inside3", "dist3", "tess3", "orient", "insphere2"}
	if r.p(1, 3) {
		k := kinds[r.n(len(kinds))]
		kinds = []string{k, k, kinds[r.n(len(kinds))]}
	}
	base := []float64{r.fr(-5, 5), r.fr(-5, 5), r.fr(-5, 5)}
	s := concPlan(r, i, inputs, func() spec.Op {
		a := []float64{r.fr(-5, 5), r.fr(-5, 5), r.fr(-5, 5)}
		if r.p(1, 2) {
			a = append([]float64{}, base...)
			k := r.n(3)
			a[k] = r.near(a[k])
		}
		return spec.Op{K: kinds[r.n(len(kinds))], In: r.n(nin), A: a}
	})
	return []*scenario{s}, nil
}

// C16: standard output and error fail.

func genC16(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{Mode: "out"}
	p := basePlan(r)
	tg := r.tableGen()
	p.Inputs = []spec.Input{
		{Mesh: r.smallMesh()},
		{Table: tg.table(r.rg(2, 14))},
		{Pts: r.points(r.rg(4, 9))},
		{Curve: r.curve()},
	}
	s.Docs = append(s.Docs, r.tableDoc("/sim/d.stp", tg.table(r.rg(2, 8))))
	if r.p(1, 10) { // more reports than a buffer holds
		p.Inputs[1].Table = tg.table(r.rg(60, 400))
		s.Docs[0] = r.tableDoc("/sim/d.stp", tg.table(r.rg(60, 400)))
	}
	op := func() spec.Op {
		switch r.n(12) {
		case 0, 1:
			return spec.Op{K: "export", In: 0, Path: "/sim/m.glb"}
		case 2:
			return spec.Op{K: "xcircle", A: r.shapeArgs("circle"), Path: "/sim/x.glb"}
		case 3, 4:
			return spec.Op{K: "parse", In: 1}
		case 5:
			return spec.Op{K: "lexparse", Path: "/sim/d.stp"}
		case 6, 7:
			return spec.Op{K: "bw", In: 2}
		case 8:
			return spec.Op{K: "nearest", In: 2, A: []float64{r.fr(-5, 5), r.fr(-5, 5), r.fr(-5, 5)}}
		case 9:
			return spec.Op{K: r.pick("tri2v", "hull2", "enclose3", "initial3", "tess3"), In: 2}
		}
		return spec.Op{K: "curve", In: 3, A: []float64{r.param(p.Inputs[3].Curve)}}
	}
	nt := 1
	if i%5 == 4 {
		nt = 2
		p.Sched = r.sched()
	}
	for t := 0; t < nt; t++ {
		var ops []spec.Op
		for k := r.rg(1, 4); k > 0; k-- {
			o := op()
			if writes(o.K) {
				o.Path = fmt.Sprintf("/sim/m%d_%d.glb", t, k)
			}
			ops = append(ops, o)
		}
		p.Threads = append(p.Threads, ops)
	}
	g := &spec.FaultGen{Seed: r.u64(), Max: 1 << 20, Kinds: []string{"out:err 5", "out:err 28", "out:err 9", "out:err 122", "out:err 27", "out:err 11", "out:part 28", "out:part 5"}}
	switch i % 4 {
	case 0: // broken throughout
		g.P, g.PPers = 65536, 65536
		g.Kinds = g.Kinds[:6]
	case 1: // from some moment on
		g.P, g.PPers = uint32(65536/r.rg(2, 12)), 65536
		g.Kinds = g.Kinds[:6]
	default:
		g.P, g.PShort = uint32(65536/r.rg(1, 10)), uint32(r.n(65536))
	}
	if i%8 == 5 { // closed by the program, so that the next file gets the descriptor
		if r.p(1, 2) {
			g = nil
		}
		ops := &p.Threads[r.n(nt)]
		for _, k := range []string{"closeout", "closeerr"} {
			if at := r.n(len(*ops) + 1); k == "closeout" || r.p(1, 4) {
				*ops = append((*ops)[:at:at], append([]spec.Op{{K: k}}, (*ops)[at:]...)...)
			}
		}
	}
	p.Files = true
	p.FaultGen = g
	s.Phases = []spec.Plan{p}
	return []*scenario{s}, nil
}
