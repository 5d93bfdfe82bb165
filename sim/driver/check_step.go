package main

import (
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"

	"verifsim/spec"
)

// C04-C06, C09-C11.

func genC04(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{Mode: "lex"}
	p := basePlan(r)
	p.FullVal = true
	n := r.rg(2, 6)
	var ops []spec.Op
	for k := 0; k < n; k++ {
		g := newDocGen(r)
		c := r.rg(1, 12)
		switch r.n(10) {
		case 0:
			c = 0
		case 1:
			c = 1
		case 2:
			c = r.rg(30, 120)
			if r.p(1, 15) {
				c, g.long = r.rg(1000, 4000), 0
			}
		}
		path := fmt.Sprintf("/sim/f%d.stp", k)
		if r.p(1, 5) {
			path = fmt.Sprintf("f%d.step", k)
		}
		if r.p(1, 6) {
			path = fmt.Sprintf(r.pick("/sim/%d.STEP", "/sim/%d", "%d.p21", "/sim/%d.stp.gz", "/sim/%d.txt", "/sim/pièce %d.stp", "/sim/.%d", "/sim/%d.stp~", "/sim/-%d", "-%d", "/sim/%d.stpz", "/sim/%d.zip", "/sim/%d.json", "/sim/#%d=A(1);.stp"), k)
		}
		if k > 0 && r.p(1, 8) {
			if x := r.nearPath(s.Docs[r.n(k)].Path); !slices.ContainsFunc(s.Docs, func(d *stepDoc) bool { return d.Path == x }) {
				path = x
			}
		}
		d := g.doc(path, c)
		s.Docs = append(s.Docs, d)
		ops = append(ops, spec.Op{K: "lex", Path: path})
	}
	if r.p(1, 4) {
		ops = append(ops, ops[r.n(n)])
	}
	if r.p(1, 4) { // files change between two calls
		ops = s.puts(r, ops, n)
	}
	if r.p(1, 4) { // the caller overwrites what it got, and reads again
		for k := range ops {
			ops[k].Scrib = r.p(1, 2)
			ops[k].Late = ops[k].Scrib && r.p(1, 3)
		}
		ops = append(ops, spec.Op{K: "lex", Path: s.Docs[r.n(n)].Path})
	}
	p.Threads = [][]spec.Op{ops}
	if i%4 != 0 {
		p.FaultGen = &spec.FaultGen{Seed: r.u64()}
		r.soft(p.FaultGen)
	}
	if i%2000 == 1333 && p.FaultGen != nil { // more entities than 16 bits count
		g := newDocGen(r)
		g.long = 0
		d := &stepDoc{Path: "/sim/many.stp", Cut: -1}
		n := r.pickInt(65535, 65536, 65537, r.rg(66000, 90000))
		for k := 1; k <= n; k++ {
			t := fmt.Sprintf("#%d=A(%d);\n", k, k%7)
			d.Pieces = append(d.Pieces, piece{Text: []byte(t), Ent: true, ID: fmt.Sprintf("#%d", k), Type: "A", Args: [][]byte{[]byte(strconv.Itoa(k % 7))}, Close: len(t) - 2, Semi: len(t) - 1})
		}
		s.Docs = append(s.Docs, d)
		p.Threads[0] = append(ops, spec.Op{K: "lex", Path: d.Path})
		p.StepLimit, p.SysLimit = 2e9, 3e6
		if p.FaultGen.MaxLen > 0 && p.FaultGen.MaxLen < 4096 {
			p.FaultGen.MaxLen = 4096
		}
	}
	if huge := i%2000 == 777; huge || r.p(1, 150) { // one entity of megabytes
		size := r.rg(1<<20, 5<<20)
		if huge {
			size = r.pickInt(17<<20, 17<<20, 34<<20, 68<<20)
		}
		g := newDocGen(r)
		d := g.doc("/sim/big.stp", r.rg(1, 5))
		g.long = 0
		d.Pieces = append(d.Pieces, g.noise(""), g.huge("#987654", size), g.entity("#3", "LAST"))
		s.Docs = append(s.Docs, d)
		p.Threads[0] = append(ops, spec.Op{K: "lex", Path: d.Path})
		p.StepLimit, p.SysLimit = 2e9, 1e6
		if p.FaultGen != nil && p.FaultGen.MaxLen > 0 && p.FaultGen.MaxLen < 4096 {
			p.FaultGen.MaxLen = 4096
		}
	}
	if i%9 == 4 && !hasPut(p.Threads[0]) {
		r.spread(&p)
	}
	s.kinds(r)
	s.Phases = []spec.Plan{p}
	return []*scenario{s}, nil
}

// kinds makes some files pipes, and some such whose size is told as 0.
func (s *scenario) kinds(r *rng) {
	if !r.p(1, 4) {
		return
	}
	for _, d := range s.Docs {
		d.Kind = r.pickInt(0, 0, 1, 2)
	}
}

func hasPut(ops []spec.Op) bool {
	for _, o := range ops {
		if o.K == "put" || o.K == "rm" {
			return true
		}
	}
	return false
}

// puts adds replacements of the first n documents, and calls that read them
// again.
func (s *scenario) puts(r *rng, ops []spec.Op, n int) []spec.Op {
	for k := r.rg(1, 4); k > 0; k-- {
		old := s.Docs[r.n(n)]
		var d *stepDoc
		switch r.n(3) {
		case 0:
			d = old.sameSize(r)
		case 1: // grown
			d = &stepDoc{Path: old.Path, Cut: -1, Pieces: append(append([]piece{}, old.Pieces...), newDocGen(r).noise(""), newDocGen(r).entity("#77", "ADDED"))}
		default:
			d = newDocGen(r).doc(old.Path, r.n(8))
		}
		d.Off = true
		s.Docs = append(s.Docs, d)
		ops = append(ops, spec.Op{K: "put", Path: d.Path, Doc: len(s.Docs), A: []float64{float64(r.n(2)), float64(r.n(2))}})
		ops = append(ops, spec.Op{K: "lex", Path: d.Path})
		if r.p(1, 3) {
			ops = append(ops, spec.Op{K: "lex", Path: s.Docs[r.n(n)].Path})
		}
	}
	return ops
}

func judgeC04(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	res := outs[0].res
	for _, tk := range calls(&s.Phases[0]) {
		t, k := tk[0], tk[1]
		op := s.Phases[0].Threads[t][k]
		d := s.docAt(0, t, k, op.Path)
		if op.K != "lex" || d == nil {
			continue
		}
		r := &res.Ops[t][k]
		if !r.Done {
			if res.Hang != "" && res.HangT == t && res.HangOp == k {
				return bad("hang", "Lex of %s exceeded %s without returning", op.Path, res.Hang), nil
			}
			continue
		}
		if !r.Ret {
			return bad("panic", "Lex of %s panicked: %s", op.Path, r.Panic), nil
		}
		if m := checkLex(d, r); m != "" {
			return bad("table", "Lex of %s: %s", op.Path, m), nil
		}
	}
	return nil, nil
}

// C05

func genC05(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{}
	p := basePlan(r)
	p.StepLimit, p.SysLimit = 30e6, 50e3
	p.FullVal = true
	n := r.rg(1, 4)
	var ops []spec.Op
	g := &spec.FaultGen{Seed: r.u64(), Max: r.rg(1, 3), MinLen: 1}
	g.Kinds = []string{"open:err 13", "open:err 24", "open:err 23", "open:err 5", "open:err 40", "open:err 12", "open:err 116",
		"open:err 1", "open:err 2", "open:err 20", "open:err 36", "open:err 6", "open:err 16", "open:err 110", "open:err 117"}
	opens := len(g.Kinds)
	for _, x := range []int{eEIO, eSTALE, eTIMED, eISDIR, eNOMEM, 121, 61, 52, 1, 9, 19, 22, 13, 104, 107, 117, 103} {
		g.Kinds = append(g.Kinds, fmt.Sprintf("read:err %d", x))
	}
	for k := 0; k < n; k++ {
		if r.p(1, 12) {
			ops = append(ops, spec.Op{K: "lex", Path: r.pick("/sim/dir", "/sim/missing.stp", "/sim", "/sim/f0.stp/x", "/sim/f0.stp/x/y", "/sim/none/x.stp", "missing", ".", "/sim/dir/", "/sim/"+strings.Repeat("long", 80)+".stp")})
			continue
		}
		gen := newDocGen(r)
		c := r.n(10)
		if r.p(1, 4) {
			c = r.rg(40, 160)
		}
		path := fmt.Sprintf("/sim/f%d.stp", k)
		s.Docs = append(s.Docs, gen.doc(path, c))
		ops = append(ops, spec.Op{K: "lex", Path: path})
	}
	p.Disk = []spec.File{{Path: "/sim/dir", Dir: true}}
	p.Threads = [][]spec.Op{ops}
	g.P = uint32(65536 / r.pickInt(1, 2, 3, 4, 8, 16))
	g.PPers = uint32(r.pickInt(0, 0, 65536))
	if r.p(3, 4) {
		r.soft(g)
		if g.MaxLen > 0 && g.MaxLen < 64 {
			g.PShort = 20000
		}
	}
	if r.p(1, 3) {
		g.Kinds = g.Kinds[opens:] // reads only
	}
	p.FaultGen = g
	if i%5 == 3 {
		r.spread(&p)
	}
	s.kinds(r)
	s.Phases = []spec.Plan{p}
	lost := false
	for _, o := range ops {
		lost = lost || s.docAt(0, 0, 0, o.Path) == nil
	}
	if !lost && !r.p(1, 12) || i%5 == 3 {
		return []*scenario{s}, nil
	}
	// a file under each name that was looked for in vain
	b := s.clone()
	b.Phases[0].Files = true
	outs, err := e.run(b, true)
	if err != nil || outs[0].res == nil {
		return []*scenario{s}, err
	}
	all := []*scenario{s}
	for _, x := range outs[0].res.Missed {
		named := false
		for _, o := range ops {
			named = named || abs(o.Path) == x
		}
		if named || len(all) > 8 {
			continue
		}
		c := s.clone()
		d := newDocGen(r).doc(x, r.rg(1, 5))
		c.Phases[0].Disk = mergeDisk(c.Phases[0].Disk, []spec.File{{Path: x, Data: d.bytes()}})
		all = append(all, c)
	}
	return all, nil
}

func judgeC05(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	res := outs[0].res
	for _, tk := range calls(&s.Phases[0]) {
		t, k := tk[0], tk[1]
		op := s.Phases[0].Threads[t][k]
		if op.K != "lex" {
			continue
		}
		r := &res.Ops[t][k]
		if !r.Done {
			if res.Hang != "" && res.HangT == t && res.HangOp == k {
				return bad("hang", "Lex of %s made %d system calls and %d steps and did not end", op.Path, r.Sys, r.Steps), nil
			}
			continue
		}
		why := ""
		d := s.docAt(0, t, k, op.Path)
		if d == nil {
			why = "it cannot be opened or is a directory"
		}
		for _, f := range res.Faults {
			if f.T == t && f.Op == k && isHard(f) && (strings.HasPrefix(f.K, "read:") || strings.HasPrefix(f.K, "open:")) {
				why = fmt.Sprintf("call %d failed with %s errno %d", f.N, f.K, f.E)
			}
		}
		if why != "" {
			if r.Ret {
				return bad("silent", "Lex of %s returned a table although %s", op.Path, why), nil
			}
			continue
		}
		if d == nil {
			continue
		}
		// nothing failed: the panic of another call must not spread
		if !r.Ret {
			return bad("spurious", "Lex of %s panicked although no call failed: %s", op.Path, r.Panic), nil
		}
		if m := checkLex(d, r); m != "" {
			return bad("table", "Lex of %s: %s", op.Path, m), nil
		}
	}
	return nil, nil
}

// C06

func genC06(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{}
	p := basePlan(r)
	p.FullVal = true
	g := newDocGen(r)
	g.hard = r.p(5, 6)
	if !r.p(1, 6) {
		g.long = 0
	}
	ne := r.rg(1, 9)
	if r.p(1, 8) {
		ne = r.rg(60, 250)
	}
	full := g.doc("", ne)
	cuts := full.cuts(r, 40)
	var ops []spec.Op
	for k, c := range cuts {
		d := &stepDoc{Path: fmt.Sprintf("/sim/f%d.stp", k), Pieces: full.Pieces, Cut: c}
		s.Docs = append(s.Docs, d)
		ops = append(ops, spec.Op{K: "lex", Path: d.Path})
	}
	s.kinds(r)
	p.Threads = [][]spec.Op{ops}
	if i%3 != 0 {
		p.FaultGen = &spec.FaultGen{Seed: r.u64()}
		r.soft(p.FaultGen)
	}
	if i%9 == 5 && len(ops) > 0 {
		r.spread(&p)
	}
	s.Phases = []spec.Plan{p}
	if len(ops) == 0 {
		return nil, nil
	}
	return []*scenario{s}, nil
}

func judgeC06(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	res := outs[0].res
	for _, tk := range calls(&s.Phases[0]) {
		t, k := tk[0], tk[1]
		op := s.Phases[0].Threads[t][k]
		d := s.docAt(0, t, k, op.Path)
		if op.K != "lex" || d == nil {
			continue
		}
		r := &res.Ops[t][k]
		if !r.Done {
			if res.Hang != "" && res.HangT == t && res.HangOp == k {
				return bad("hang", "Lex of a file cut after %d bytes exceeded %s", d.Cut, res.Hang), nil
			}
			continue
		}
		if !r.Ret {
			continue
		}
		if m := checkLex(d, r); m != "" {
			return bad("table", "Lex of a file cut after %d bytes (it ends in %q): %s", d.Cut, tail(d.bytes()), m), nil
		}
	}
	return nil, nil
}

func tail(b []byte) string {
	if len(b) > 40 {
		b = b[len(b)-40:]
	}
	return string(b)
}

// C09

func genC09(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{}
	p := basePlan(r)
	p.StepLimit = 20e6
	var ops []spec.Op
	nt := r.rg(1, 3)
	for k := 0; k < nt; k++ {
		n := r.pickInt(2, 3, 4, 5, 6, 8, 12, 20, 40)
		if r.p(1, 60) {
			n = r.rg(100, 700)
			if k == 0 && r.p(1, 4) {
				n, nt = r.rg(2000, 6000), 1
			}
		}
		tb := r.tableGen().table(n)
		if r.p(1, 8) {
			r.spoil(tb)
		}
		p.Inputs = append(p.Inputs, spec.Input{Table: tb})
		for j := 0; j < 6; j++ {
			ops = append(ops, spec.Op{K: "parse", In: k, Seed: r.u64() | 1})
		}
	}
	p.Threads = [][]spec.Op{ops}
	s.Phases = []spec.Plan{p}
	return []*scenario{s}, nil
}

func judgeC09(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	res := outs[0].res
	p := &s.Phases[0]
	first := map[int]int{}
	for k, op := range p.Threads[0] {
		r := &res.Ops[0][k]
		if op.K != "parse" || !r.Done {
			continue
		}
		f, ok := first[op.In]
		if !ok {
			first[op.In] = k
			continue
		}
		a := &res.Ops[0][f]
		if a.Ret != r.Ret {
			t := a.Panic + r.Panic
			return bad("return", "parsing the same %d entities in one order completes, in another it panics: %s", len(p.Inputs[op.In].Table), t), nil
		}
		if a.Ret {
			if x, y := reports(a.Out), reports(r.Out); x != y {
				return bad("reports", "parsing the same %d entities in two orders makes different reports: compared with the first, %s", len(p.Inputs[op.In].Table), lineDiff(x, y)), nil
			}
		}
	}
	if res.Hang != "" && len(first) > 0 {
		if f, ok := first[p.Threads[0][res.HangOp].In]; ok && res.Ops[0][f].Done {
			return bad("hang", "parsing the same entities in one order completes, in another it exceeds %s", res.Hang), nil
		}
	}
	return nil, nil
}

// C10

func genC10(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{}
	p := basePlan(r)
	p.StepLimit = 2e6
	var ops []spec.Op
	for k := 0; k < 2; k++ {
		n := r.pickInt(1, 2, 3, 4, 5, 6, 8, 12, 20, 60)
		if r.p(1, 40) {
			n = r.rg(200, 900)
		}
		t := r.tableGen().table(n)
		if r.p(1, 3) && n > 1 { // chains and cycles
			for j := range t {
				for a := range t[j].Args {
					if strings.HasPrefix(t[j].Args[a], "#") && r.p(1, 2) {
						t[j].Args[a] = t[(j+r.pickInt(0, 1, n-1))%n].ID
					}
				}
			}
		}
		if r.p(1, 30) {
			t = r.chain(r.pickInt(17, 33, 65, 100, 129, 200, 257, 400))
		}
		if i%900 == 311 && k == 0 { // very many, most of which refer to what others refer to
			t = r.chain(r.pickInt(1030, 1500, 2060))
			for j := range t {
				if r.p(1, 2) {
					t[j].Type, t[j].Args = "SPHERICAL_SURFACE", []string{fmt.Sprintf("'n%d'", j), "#9003", fmt.Sprintf("r%d", 5000+j)}
				} else if r.p(1, 2) {
					t[j].Type, t[j].Args = "PRODUCT_DEFINITION_SHAPE", []string{"''", "''", t[r.n(len(t))].ID}
				}
			}
			p.StepLimit = 200e6
		}
		p.Inputs = append(p.Inputs, spec.Input{Table: t})
		for j := 0; j < 3; j++ {
			ops = append(ops, spec.Op{K: "parse", In: k, Seed: r.u64() | 1})
		}
	}
	p.Threads = [][]spec.Op{ops}
	s.Phases = []spec.Plan{p}
	return []*scenario{s}, nil
}

// chain is a table of n entities each of which refers to the next, the last
// of them to none, to itself or back into the chain.
func (r *rng) chain(n int) []spec.Entity {
	t := make([]spec.Entity, n)
	at := func(i int) string { return fmt.Sprintf("#%d", 10+i) }
	one := r.p(1, 3) // all of one type
	kind := r.n(3)
	for i := range t {
		if !one {
			kind = r.n(3)
		}
		next := at(i + 1)
		x := spec.Entity{ID: at(i)}
		switch kind {
		case 0:
			x.Type, x.Args = "AXIS_2_PLACEMENT_3D", []string{"''", next, "#9001", "#9002"}
		case 1:
			x.Type, x.Args = "PRODUCT_DEFINITION", []string{"''", "''", next, "#9001"}
		case 2:
			x.Type, x.Args = "PRODUCT_DEFINITION_SHAPE", []string{"''", "''", next}
		}
		t[i] = x
	}
	last := &t[n-1]
	a := 2
	if last.Type == "AXIS_2_PLACEMENT_3D" {
		a = 1
	}
	switch r.n(4) {
	case 0: // a cycle of all of them, or of the last few
		last.Args[a] = at(r.pickInt(0, n-1, n/2, n-2))
	case 1: // nothing there
	default:
		last.Type, last.Args = "SPHERICAL_SURFACE", []string{"''", "#9003", fmt.Sprintf("%d.5", n)}
	}
	if r.p(1, 2) { // a face that leads to nothing, a sphere or the chain
		f := spec.Entity{ID: "#5", Type: "ADVENCED_FACE", Args: []string{"(#9004)", at(r.pickInt(0, n-1)), ".T."}}
		if r.p(1, 2) {
			f.Args = append([]string{"''"}, f.Args[1:]...)
		}
		t = append(t, f)
	}
	return t
}

// solo is what Parse reports for the given entities alone.
func (e *env) solo(ents ...spec.Entity) (map[string]int, bool, error) {
	in := &spec.Input{Table: ents}
	p := spec.Plan{Threads: [][]spec.Op{{{K: "parse", Seed: 1}}}, Inputs: []spec.Input{*in}, MapSeed: 7, Cap: -1, StepLimit: 2e6}
	r, err := e.refPlan(&p)
	if err != nil {
		return nil, false, err
	}
	return count(reports(r.op.Out)), r.crash == "" && r.hang == "" && r.op.Ret, nil
}

func count(s string) map[string]int {
	c := map[string]int{}
	for _, l := range strings.Split(s, "\n") {
		if l != "" {
			c[l]++
		}
	}
	return c
}

// detached is an entity whose references lead nowhere.
func detached(x spec.Entity) spec.Entity {
	a := append([]string{}, x.Args...)
	for i := range a {
		if strings.HasPrefix(a[i], "#") {
			a[i] = "#999999" + a[i][1:]
		}
	}
	x.Args = a
	return x
}

// expectedReports: the sum of what each entity reports on its own account.
func (e *env) expectedReports(t []spec.Entity) (map[string]int, *violation, error) {
	by := map[string]spec.Entity{}
	for _, x := range t {
		by[x.ID] = x
	}
	sum := map[string]int{}
	for _, x := range t {
		alone, ok, err := e.solo(x)
		if err != nil {
			return nil, nil, err
		}
		if !ok {
			return nil, bad("solo", "parsing the single entity %s=%s fails or does not end", x.ID, x.Type), nil
		}
		own := alone
		// entities that report something about another one: next to a copy of
		// it that refers to nothing itself
		if strings.HasSuffix(x.Type, "NCED_FACE") && len(x.Args) > 1 && x.Args[1] != x.ID {
			if nb, have := by[x.Args[1]]; have {
				nb = detached(nb)
				both, ok, err := e.solo(x, nb)
				if err != nil {
					return nil, nil, err
				}
				one, ok1, err := e.solo(nb)
				if err != nil {
					return nil, nil, err
				}
				if !ok || !ok1 {
					return nil, bad("solo", "parsing %s=%s and %s=%s fails or does not end", x.ID, x.Type, nb.ID, nb.Type), nil
				}
				own = map[string]int{}
				for l, n := range both {
					own[l] = n
				}
				for l, n := range one {
					own[l] -= n
					if own[l] < 0 {
						return nil, bad("lost", "the report %q of %s=%s is missing when %s=%s, which refers to it, is parsed too", l, nb.ID, nb.Type, x.ID, x.Type), nil
					}
					// what nb reports appears once, except where the face
					// says the same of itself
					if own[l] > 0 && !strings.HasSuffix(nb.Type, "NCED_FACE") && alone[l] == 0 {
						return nil, bad("twice", "the report %q of %s=%s appears %d times when %s=%s, which refers to it, is parsed too", l, nb.ID, nb.Type, both[l], x.ID, x.Type), nil
					}
				}
			}
		}
		for l, n := range own {
			sum[l] += n
		}
	}
	for l, n := range sum {
		if n == 0 {
			delete(sum, l)
		}
	}
	return sum, nil, nil
}

// ownReport looks for the report of an entity that carries a token of its own.
func (e *env) ownReport(t []spec.Entity, x spec.Entity, got map[string]int) (*violation, error) {
	line, arg := "", 0
	switch {
	case x.Type == "SPHERICAL_SURFACE":
		line, arg = "radius: "+x.Args[2], 2
	case x.Type == "B_SPLINE_SURFACE_WITH_KNOTS":
		line = "name: " + x.Args[0]
	default:
		return nil, nil
	}
	if a, ok, err := e.solo(x); err != nil {
		return nil, err
	} else if !ok || a[line] == 0 {
		return nil, nil // this tree reports differently
	}
	same := 0
	for _, y := range t {
		if y.Type == x.Type && y.Args[arg] == x.Args[arg] {
			same++
		}
	}
	if got[line] != same {
		return bad("once", "the report %q of %s=%s appears %d times, not %d", line, x.ID, x.Type, got[line], same), nil
	}
	return nil, nil
}

func judgeC10(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	res := outs[0].res
	p := &s.Phases[0]
	if res.Hang != "" {
		return bad("hang", "Parse of %d entities exceeded %s", len(p.Inputs[p.Threads[0][res.HangOp].In].Table), res.Hang), nil
	}
	for k, op := range p.Threads[0] {
		r := &res.Ops[0][k]
		if op.K != "parse" || !r.Done {
			continue
		}
		t := p.Inputs[op.In].Table
		if !r.Ret {
			return bad("panic", "Parse of %d entities panicked: %s", len(t), r.Panic), nil
		}
		got := count(reports(r.Out))
		if len(t) > 100 { // some of a large table
			for j := 0; j < len(t); j += 1 + len(t)/12 {
				x := t[j]
				if !strings.HasPrefix(x.Type, "OTHER_") {
					for k := j; k < len(t) && k < j+8; k++ {
						if v, err := e.ownReport(t, t[k], got); v != nil || err != nil {
							return v, err
						}
					}
					continue
				}
				a, ok, err := e.solo(x)
				if err != nil {
					return nil, err
				}
				for l, n := range a {
					if ok && strings.Contains(l, x.Type) && got[l] != n {
						return bad("once", "the report %q of %s=%s appears %d times, not %d", l, x.ID, x.Type, got[l], n), nil
					}
				}
			}
			continue
		}
		// reports that carry a token of their own
		for _, x := range t {
			if v, err := e.ownReport(t, x, got); v != nil || err != nil {
				return v, err
			}
		}
		want, v, err := e.expectedReports(t)
		if err != nil || v != nil {
			return v, err
		}
		if d := countDiff(want, got); d != "" {
			return bad("sum", "Parse of %d entities does not report each of them exactly once: %s", len(t), d), nil
		}
	}
	return nil, nil
}

func countDiff(want, got map[string]int) string {
	var ls []string
	for l, n := range want {
		if got[l] != n {
			ls = append(ls, fmt.Sprintf("%q appears %d times, not %d", l, got[l], n))
		}
	}
	for l, n := range got {
		if want[l] == 0 {
			ls = append(ls, fmt.Sprintf("%q appears %d times, not 0", l, n))
		}
	}
	sort.Strings(ls)
	if len(ls) == 0 {
		return ""
	}
	return ls[0]
}

// C11

func genC11(e *env, r *rng, i int) ([]*scenario, error) {
	s := &scenario{}
	p := basePlan(r)
	p.StepLimit = 100e6
	n := r.rg(4, 9)
	switch r.n(6) {
	case 0:
		n = r.n(4)
	case 1:
		n = r.rg(10, 18)
		if r.p(1, 12) {
			n = r.rg(19, 45)
			p.StepLimit = 400e6
		}
	}
	big := i%1500 == 722
	if big {
		n = r.pickInt(64, 65, 66, r.rg(46, 75))
		p.StepLimit = 2e9
	}
	p.Inputs = []spec.Input{{Pts: r.points(n)}}
	if i%300 == 142 { // many points, few places
		p.Inputs[0].Pts = r.crowd(r.pickInt(64, 65, 128, 129, 256, 257, r.rg(50, 1200)))
		p.StepLimit = 2e9
	}
	if n >= 4 && n < 10 && r.p(1, 3) { // other points in between
		p.Inputs = append(p.Inputs, spec.Input{Pts: r.variantPts(p.Inputs[0].Pts)})
	}
	if n >= 4 && n < 10 && len(p.Inputs) == 1 && r.p(1, 4) { // or other ones, wider or narrower
		q := r.points(r.rg(4, 7))
		f := r.pickF(1e-4, 1e-2, 10, 1e3, 1e4, 1e6)
		for k := range q {
			for c := range q[k] {
				if r.p(2, 3) {
					q[k][c] *= f
				}
			}
		}
		p.Inputs = append(p.Inputs, spec.Input{Pts: q})
	}
	var ops []spec.Op
	for k := 0; k < 5 && (k < 2 || !big); k++ {
		ops = append(ops, spec.Op{K: r.pick("bw", "bwcopy"), In: k % len(p.Inputs), Reuse: r.p(1, 4), Scrib: r.p(1, 6)})
	}
	p.FullVal = true
	p.Threads = [][]spec.Op{ops}
	s.Phases = []spec.Plan{p}
	return []*scenario{s}, nil
}

func judgeC11(e *env, s *scenario, outs []*outcome) (*violation, error) {
	if v := crashed(s, outs); v != nil {
		return v, nil
	}
	res := outs[0].res
	p := &s.Phases[0]
	if len(res.InputsChanged) > 0 {
		return bad("input", "the list of %d points was modified", len(p.Inputs[res.InputsChanged[0]].Pts)), nil
	}
	first := map[int]int{}
	for k, op := range p.Threads[0] {
		r := &res.Ops[0][k]
		if !strings.HasPrefix(op.K, "bw") || !r.Done {
			continue
		}
		n := len(p.Inputs[op.In].Pts)
		if r.Ret {
			ls := strings.Split(string(r.Val), "\n")
			for _, l := range ls[1:] {
				for _, w := range strings.Fields(l) {
					if x, err := strconv.Atoi(w); err != nil || x < 0 || x >= n {
						return bad("index", "the tessellation of %d points has a triangle %s", n, l), nil
					}
				}
			}
			var total int
			fmt.Sscan(ls[0], &total)
			if total%3 != 0 {
				return bad("index", "the tessellation of %d points has %d indices", n, total), nil
			}
		}
		f, ok := first[op.In]
		if !ok {
			first[op.In] = k
			continue
		}
		a := &res.Ops[0][f]
		if a.Ret != r.Ret || a.Dig != r.Dig {
			return bad("order", "two tessellations of the same %d points differ: %s", n, lineDiff(string(a.Val), string(r.Val))), nil
		}
	}
	if res.Hang != "" {
		if _, ok := first[p.Threads[0][res.HangOp].In]; !ok {
			return nil, nil
		}
		return bad("hang", "a repetition of a tessellation exceeded %s", res.Hang), nil
	}
	return nil, nil
}
