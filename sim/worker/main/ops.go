package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"

	"geGoMetry/glTF"
	mesh "geGoMetry/meshing"
	"geGoMetry/predicates"
	"geGoMetry/r3"
	"geGoMetry/shape"
	"geGoMetry/step"
	"geGoMetry/triangulate2"
	"geGoMetry/triangulate3"
	"nurbs"

	"github.com/ungerik/go3d/float64/vec3"

	"verifsim/simrt"
	"verifsim/spec"
)

func hash(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:12])
}

// value is what an operation returned.
type value interface {
	digest(full bool) (string, []byte)
}

// input is an object operations may share.
type input struct {
	spec  *spec.Input
	pts   []r3.Vector
	mesh  *shape.Mesh
	table step.SymbolTable
	tri   *triangulate2.Triangulation
	u     []int
	c     []vec3.T
	p     int
}

func buildInput(s *spec.Input) *input {
	in := &input{spec: s}
	if s.Pts != nil {
		in.pts = vecs(s.Pts)
		if s.Tri {
			func() {
				defer func() { recover() }()
				in.tri, _ = triangulate2.Triangulate(vecs(s.Pts))
			}()
		}
	}
	if s.Mesh != nil {
		m := shape.Mesh{Vertices: vecs(s.Mesh.V), Indices: append(make([]uint32, 0, len(s.Mesh.I)+spare), s.Mesh.I...), Normals: s.Mesh.N, TexCoords: s.Mesh.T}
		if m.Normals != nil {
			m.Normals = append(make([][3]float64, 0, len(m.Normals)+spare), m.Normals...)
		}
		if m.TexCoords != nil {
			m.TexCoords = append(make([][2]float64, 0, len(m.TexCoords)+spare), m.TexCoords...)
		}
		for i := m.Indices[len(m.Indices):cap(m.Indices)]; len(i) > 0; i = i[1:] {
			i[0] = 1
		}
		in.mesh = &m
	}
	if s.Table != nil {
		in.table = buildTable(s.Table, 0)
	}
	if s.Curve != nil {
		in.p = s.Curve.P
		in.u = append(make([]int, 0, len(s.Curve.U)+spare), s.Curve.U...)
		in.c = make([]vec3.T, 0, len(s.Curve.C)+spare)
		for _, c := range s.Curve.C {
			in.c = append(in.c, vec3.T{c[0], c[1], c[2]})
		}
		for u := in.u[len(in.u):cap(in.u)]; len(u) > 0; u = u[1:] {
			u[0] = 1 << 20
		}
		for c := in.c[len(in.c):cap(in.c)]; len(c) > 0; c = c[1:] {
			c[0] = vec3.T{3, 4, 5}
		}
	}
	return in
}

// spare elements behind the end of every slice a caller passes: they are the
// caller's
const spare = 6

// behind encodes them.
func (in *input) behind() string {
	b := []byte{}
	vs := func(v []r3.Vector) { b = encVecs(b, v[len(v):cap(v)]) }
	vs(in.pts)
	if in.mesh != nil {
		vs(in.mesh.Vertices)
		i := in.mesh.Indices
		n, t := in.mesh.Normals, in.mesh.TexCoords
		b = append(b, fmt.Sprint(i[len(i):cap(i)], n[len(n):cap(n)], t[len(t):cap(t)])...)
	}
	b = append(b, fmt.Sprint(in.u[len(in.u):cap(in.u)], in.c[len(in.c):cap(in.c)])...)
	ids := []string{}
	for id := range in.table {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		a := in.table[id].Arguments
		b = append(b, fmt.Sprintf("%q", a[len(a):cap(a)])...)
	}
	return hash(b)
}

func vecs(p [][3]float64) []r3.Vector {
	out := make([]r3.Vector, len(p), len(p)+spare)
	for i, c := range p {
		out[i] = r3.Vector{X: c[0], Y: c[1], Z: c[2]}
	}
	for v := out[len(out):cap(out)]; len(v) > 0; v = v[1:] {
		v[0] = r3.Vector{X: 0.25, Y: -0.5, Z: 0.125}
	}
	return out
}

func buildTable(e []spec.Entity, seed uint64) step.SymbolTable {
	idx := make([]int, len(e))
	for i := range idx {
		idx[i] = i
	}
	if seed != 0 {
		s := seed
		for i := len(idx) - 1; i > 0; i-- {
			s = s*6364136223846793005 + 1442695040888963407
			j := int((s >> 33) % uint64(i+1))
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	t := make(step.SymbolTable)
	for _, i := range idx {
		args := append(make([]string, 0, len(e[i].Args)+spare), e[i].Args...)
		for a := args[len(args):cap(args)]; len(a) > 0; a = a[1:] {
			a[0] = "not an argument"
		}
		t[e[i].ID] = step.Definition{Type: e[i].Type, Arguments: args}
	}
	return t
}

func (in *input) digest() string {
	b := []byte{}
	b = encVecs(b, in.pts)
	if in.mesh != nil {
		b = encMesh(b, in.mesh)
	}
	if in.table != nil {
		b = encTable(b, in.table)
	}
	for _, u := range in.u {
		b = append(b, strconv.Itoa(u)...)
		b = append(b, ',')
	}
	for _, c := range in.c {
		b = encF(b, c[0], c[1], c[2])
	}
	if in.tri != nil {
		b = encTri(b, in.tri)
	}
	return hash(b)
}

func encF(b []byte, fs ...float64) []byte {
	for _, f := range fs {
		u := math.Float64bits(f)
		b = append(b, byte(u), byte(u>>8), byte(u>>16), byte(u>>24), byte(u>>32), byte(u>>40), byte(u>>48), byte(u>>56))
	}
	return b
}

func encVecs(b []byte, v []r3.Vector) []byte {
	b = append(b, fmt.Sprintf("v%d:", len(v))...)
	for _, p := range v {
		b = encF(b, p.X, p.Y, p.Z)
	}
	return b
}

func encMesh(b []byte, m *shape.Mesh) []byte {
	b = encVecs(b, m.Vertices)
	b = append(b, fmt.Sprintf("i%d:", len(m.Indices))...)
	for _, i := range m.Indices {
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	b = append(b, fmt.Sprintf("n%d:", len(m.Normals))...)
	for _, n := range m.Normals {
		b = encF(b, n[0], n[1], n[2])
	}
	b = append(b, fmt.Sprintf("t%d:", len(m.TexCoords))...)
	for _, n := range m.TexCoords {
		b = encF(b, n[0], n[1])
	}
	return b
}

// encTable writes one line per entry, sorted by identifier, every string
// quoted: identifier type argument...
func encTable(b []byte, t step.SymbolTable) []byte {
	ids := make([]string, 0, len(t))
	for id := range t {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		b = strconv.AppendQuoteToASCII(b, id)
		b = append(b, '\t')
		b = strconv.AppendQuoteToASCII(b, t[id].Type)
		for _, a := range t[id].Arguments {
			b = append(b, '\t')
			b = strconv.AppendQuoteToASCII(b, a)
		}
		b = append(b, '\n')
	}
	return b
}

func encTri(b []byte, t *triangulate2.Triangulation) []byte {
	if t == nil {
		return append(b, "nothing"...)
	}
	b = encVecs(b, t.Vectors)
	b = encVecs(b, t.ConvexHull)
	b = append(b, fmt.Sprint(t.Triangles, t.Halfedges)...)
	return b
}

type tableVal struct{ t step.SymbolTable }

func (v tableVal) digest(full bool) (string, []byte) {
	b := encTable(nil, v.t)
	return hash(b), b
}

type meshVal struct{ m shape.Mesh }

// the full value of a mesh: counts, positions, indices
func (v meshVal) digest(full bool) (string, []byte) {
	b := encMesh(nil, &v.m)
	return hash(b), b
}

type vecsVal struct{ v []r3.Vector }

func (v vecsVal) digest(full bool) (string, []byte) {
	b := encVecs(nil, v.v)
	return hash(b), b
}

type floatsVal struct{ f []float64 }

func (v floatsVal) digest(full bool) (string, []byte) {
	return hash(encF(nil, v.f...)), []byte(fmt.Sprint(v.f))
}

type textVal struct{ s string }

func (v textVal) digest(full bool) (string, []byte) { return hash([]byte(v.s)), []byte(v.s) }

// trisVal: triangles as a multiset, each rotated to start at its least index.
type trisVal struct{ i []int }

func (v trisVal) digest(full bool) (string, []byte) {
	var ts []string
	n := len(v.i) / 3
	for k := 0; k < n; k++ {
		a, b, c := v.i[3*k], v.i[3*k+1], v.i[3*k+2]
		for !(a <= b && a <= c) || (a == c && a < b) {
			a, b, c = b, c, a
		}
		ts = append(ts, fmt.Sprintf("%d %d %d", a, b, c))
	}
	sort.Strings(ts)
	s := []byte(fmt.Sprintf("%d", len(v.i)))
	for _, t := range ts {
		s = append(append(s, '\n'), t...)
	}
	return hash(s), s
}

type triVal struct {
	t   *triangulate2.Triangulation
	err string
}

func (v triVal) digest(full bool) (string, []byte) {
	b := encTri([]byte(v.err), v.t)
	return hash(b), b
}

// scribble overwrites a result as the caller it belongs to may do, and appends
// to its lists.
func scribble(v value) {
	vs := func(a []r3.Vector) {
		a = a[:cap(a)]
		for i := range a {
			a[i] = r3.Vector{X: -7, Y: 1e9, Z: float64(i)}
		}
	}
	is := func(a []int) {
		a = a[:cap(a)]
		for i := range a {
			a[i] = 77
		}
	}
	switch v := v.(type) {
	case tableVal:
		for id, d := range v.t {
			args := d.Arguments[:cap(d.Arguments)]
			for i := range args {
				args[i] = "overwritten"
			}
			delete(v.t, id)
		}
		v.t["#0"] = step.Definition{Type: "OVERWRITTEN"}
	case meshVal:
		vs(v.m.Vertices)
		v.m.Indices = v.m.Indices[:cap(v.m.Indices)]
		v.m.Normals = v.m.Normals[:cap(v.m.Normals)]
		v.m.TexCoords = v.m.TexCoords[:cap(v.m.TexCoords)]
		for i := range v.m.Indices {
			v.m.Indices[i] = 1 << 30
		}
		for i := range v.m.Normals {
			v.m.Normals[i] = [3]float64{-7, 8, 9}
		}
		for i := range v.m.TexCoords {
			v.m.TexCoords[i] = [2]float64{-7, 8}
		}
	case vecsVal:
		vs(v.v)
	case trisVal:
		is(v.i)
	case triVal: // Vectors are the points passed in
		if v.t != nil {
			vs(v.t.ConvexHull)
			is(v.t.Triangles)
			is(v.t.Halfedges)
		}
	}
}

func writesFile(k string) bool {
	switch k {
	case "export", "xcircle", "xellipse", "xtorus", "xsphere":
		return true
	}
	return false
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

func vecAt(a []float64, i int) r3.Vector { return r3.Vector{X: a[i], Y: a[i+1], Z: a[i+2]} }

func construct(k string, a []float64) shape.Mesh {
	switch k {
	case "circle":
		return shape.ConstructCircle(vecAt(a, 0), a[3])
	case "ellipse":
		return shape.ConstructEllipse(vecAt(a, 0), a[3], a[4])
	case "torus":
		return shape.ConstructTorus(vecAt(a, 0), a[3], a[4])
	case "sphere":
		return shape.ConstructSphere(vecAt(a, 0), a[3])
	}
	panic("worker: unknown shape " + k)
}

// buffers of the threads, which calls with Reuse get their arguments in
var buffers []*input

// newBuffer has room for every input, so that its arguments always lie at the
// same addresses.
func newBuffer() *input {
	b := &input{mesh: &shape.Mesh{}, table: make(step.SymbolTable)}
	var np, nu, nc, nv, ni, nn, nt int
	max := func(a *int, n int) {
		if n > *a {
			*a = n
		}
	}
	for _, in := range inputs {
		max(&np, len(in.pts))
		max(&nu, len(in.u))
		max(&nc, len(in.c))
		if in.mesh != nil {
			max(&nv, len(in.mesh.Vertices))
			max(&ni, len(in.mesh.Indices))
			max(&nn, len(in.mesh.Normals))
			max(&nt, len(in.mesh.TexCoords))
		}
	}
	b.pts, b.u, b.c = make([]r3.Vector, 0, np), make([]int, 0, nu), make([]vec3.T, 0, nc)
	b.mesh.Vertices, b.mesh.Indices = make([]r3.Vector, 0, nv), make([]uint32, 0, ni)
	if nn > 0 {
		b.mesh.Normals, b.mesh.TexCoords = make([][3]float64, 0, nn), make([][2]float64, 0, nt)
	}
	return b
}

// argDigest is the digest of what calls on an input get as arguments.
func (in *input) argDigest(b *input) string {
	x := &input{pts: b.pts, u: b.u, c: b.c}
	if in.mesh != nil {
		x.mesh = b.mesh
	}
	if in.table != nil {
		x.table = b.table
	}
	return x.digest()
}

func (b *input) fill(in *input) *input {
	b.spec, b.tri, b.p = in.spec, in.tri, in.p
	b.pts = append(b.pts[:0], in.pts...)
	b.u = append(b.u[:0], in.u...)
	b.c = append(b.c[:0], in.c...)
	if in.mesh != nil {
		b.mesh.Vertices = append(b.mesh.Vertices[:0], in.mesh.Vertices...)
		b.mesh.Indices = append(b.mesh.Indices[:0], in.mesh.Indices...)
		b.mesh.Normals = append(b.mesh.Normals[:0], in.mesh.Normals...)
		b.mesh.TexCoords = append(b.mesh.TexCoords[:0], in.mesh.TexCoords...)
	}
	if in.table != nil {
		for id := range b.table {
			delete(b.table, id)
		}
		for id, d := range in.table {
			b.table[id] = step.Definition{Type: d.Type, Arguments: append([]string{}, d.Arguments...)}
		}
	}
	return b
}

// lexers of the threads, which calls with Reuse use for one file after another
var lexers []*step.Lexer

// the files they were given
var asked []string

// number of Lexers made
// lexCount counts the calls of the threads
var lexCount []int

// withChan gives every third Lexer a channel, which nobody reads.
func withChan(t int, l *step.Lexer) {
	if f := reflect.ValueOf(l).Elem().FieldByName("SymbolsChan"); lexCount[t]%3 == 2 && f.IsValid() && f.Kind() == reflect.Chan && f.CanSet() {
		f.Set(reflect.MakeChan(f.Type(), lexCount[t]%4))
	}
}

func lexer(t int, op *spec.Op) *step.Lexer {
	lexCount[t]++
	if !op.Reuse {
		l := &step.Lexer{Filename: op.Path}
		withChan(t, l)
		return l
	}
	if lexers[t] == nil {
		lexers[t] = &step.Lexer{}
		withChan(t, lexers[t])
		asked[t] = ""
	}
	if op.Path != asked[t] || op.Path == "" { // otherwise it is left as it is
		lexers[t].Filename = op.Path
		asked[t] = op.Path
	}
	return lexers[t]
}

func execOp(t int, op *spec.Op) value {
	var in *input
	if op.In < len(inputs) {
		in = inputs[op.In]
	}
	if op.Reuse && in != nil {
		in = buffers[t].fill(in)
	}
	switch op.K {
	case "nop":
		return nil
	case "put":
		simrt.Put(op.Path, op.Data, len(op.A) > 0 && op.A[0] != 0, len(op.A) > 1 && op.A[1] != 0)
		return nil
	case "closeout": // the caller has no use for messages
		os.Stdout.Close()
		return nil
	case "closeerr":
		os.Stderr.Close()
		return nil
	case "rm":
		simrt.Remove(op.Path)
		return nil
	case "lex":
		return tableVal{lexer(t, op).Lex()}
	case "parse":
		t := in.table
		if op.Seed != 0 {
			t = buildTable(in.spec.Table, op.Seed)
		}
		step.Parse(t)
		return nil
	case "lexparse":
		table := lexer(t, op).Lex()
		step.Parse(table)
		return tableVal{table}
	case "export":
		glTF.Export(*in.mesh, op.Path)
		return nil
	case "circle", "ellipse", "torus", "sphere":
		return meshVal{construct(op.K, op.A)}
	case "xcircle", "xellipse", "xtorus", "xsphere":
		m := construct(op.K[1:], op.A)
		glTF.Export(m, op.Path)
		return meshVal{m}
	case "bw":
		if f := mesh.VerifBowyerWatson; f != nil {
			return trisVal{f(in.pts...)}
		}
	case "bwcopy": // on a private copy of the points
		if f := mesh.VerifBowyerWatson; f != nil {
			return trisVal{f(append([]r3.Vector{}, in.pts...)...)}
		}
	case "nearest":
		if f := mesh.VerifGetNearestPoint; f != nil {
			return vecsVal{[]r3.Vector{f(in.pts, vecAt(op.A, 0))}}
		}
	case "inside":
		if f := mesh.VerifVectorInTetrahedron; f != nil {
			return textVal{fmt.Sprint(f(in.pts[0], in.pts[1], in.pts[2], in.pts[3], vecAt(op.A, 0)))}
		}
	case "englobe":
		if f := mesh.VerifEnglobe; f != nil {
			// adds the corners in front of the list it is given
			p := append([]r3.Vector{}, in.pts...)
			f(&p)
			return vecsVal{p}
		}
	case "tess3":
		if f := triangulate3.VerifTessellate; f != nil {
			f(in.pts)
		}
	case "orient":
		if f := predicates.VerifOrient; f != nil {
			var out []float64
			for i := 0; i+3 < len(in.pts); i++ {
				out = append(out, f(in.pts[i], in.pts[i+1], in.pts[i+2], in.pts[i+3]))
			}
			return floatsVal{out}
		}
	case "insphere2":
		var out []float64
		for i := 0; i+4 < len(in.pts); i++ {
			p := in.pts[i : i+5]
			if f := predicates.VerifInSphere; f != nil {
				out = append(out, f(p[0].X, p[0].Y, p[0].Z, p[1].X, p[1].Y, p[1].Z, p[2].X, p[2].Y, p[2].Z, p[3].X, p[3].Y, p[3].Z, p[4].X, p[4].Y, p[4].Z))
			}
			if f := predicates.VerifInSphereAdapt; f != nil {
				out = append(out, f(p[0].X, p[0].Y, p[0].Z, p[1].X, p[1].Y, p[1].Z, p[2].X, p[2].Y, p[2].Z, p[3].X, p[3].Y, p[3].Z, p[4].X, p[4].Y, p[4].Z, 1e30))
			}
		}
		return floatsVal{out}
	case "basis": // A: the parameter
		if f, g := nurbs.VerifFindSpan, nurbs.VerifBasisFuns; f != nil && g != nil {
			i := f(len(in.c)-1, in.p, op.A[0], in.u)
			return floatsVal{append([]float64{float64(i)}, g(i, op.A[0], in.p, in.u)...)}
		}
	case "ders":
		if f, g := nurbs.VerifFindSpan, nurbs.VerifDersBasisFuns; f != nil && g != nil {
			i := f(len(in.c)-1, in.p, op.A[0], in.u)
			var out []float64
			for _, row := range g(i, int(op.A[0]), in.p, int(op.A[1]), in.u) {
				out = append(out, row...)
			}
			return floatsVal{out}
		}
	case "tri2":
		t, err := triangulate2.Triangulate(in.pts)
		return triVal{t, errText(err)}
	case "tri2v":
		t, err := triangulate2.Triangulate(in.pts)
		return triVal{t, errText(err) + "/" + errText(t.Validate())}
	case "validate":
		if in.tri == nil {
			return textVal{"no triangulation"}
		}
		return textVal{errText(in.triangulation().Validate())}
	case "hull2":
		return vecsVal{triangulate2.ConvexHull(in.pts)}
	case "curve":
		if f := nurbs.VerifCurvePoint; f != nil {
			q := f(len(in.c)-1, in.p, in.u, in.c, op.A[0])
			return floatsVal{[]float64{q[0], q[1], q[2]}}
		}
	case "insphere":
		f := make([]float64, 0, len(in.pts))
		for i := 0; i+4 < len(in.pts); i++ {
			f = append(f, predicates.InSphereFast(in.pts[i], in.pts[i+1], in.pts[i+2], in.pts[i+3], in.pts[i+4]))
		}
		return floatsVal{f}
	case "vec":
		var out []r3.Vector
		var f []float64
		for i := 0; i+1 < len(in.pts); i++ {
			a, b := in.pts[i], in.pts[i+1]
			out = append(out, r3.Add(a, b), r3.Sub(a, b), r3.Cross(a, b), r3.Normalize(a), r3.Abs(a), a.Scaled(2.5),
				r3.Interpolate(&a, &b, 0.25), a.GetInterpolationVector(b, 3))
			f = append(f, r3.Dot(a, b), a.Norm(), a.Norm2(), r3.Distance(a, b), r3.SquaredDistance(a, b), a.Magnitude(), a.SquaredMagnitude())
			c := a
			c.Add(b)
			c.Scale(0.5)
			c.Sub(a)
			c.Normalize()
			c.Abs()
			out = append(out, c)
		}
		return textVal{string(encF(encVecs(nil, out), f...))}
	case "intersect":
		l := r3.Line{Vector: in.pts[0], Direction: in.pts[1]}
		p := r3.Plane3D{Normal: in.pts[2], Vector: in.pts[3]}
		return vecsVal{[]r3.Vector{l.IntersectPlane(p)}}
	case "enclose3":
		if f := triangulate3.VerifConstructEnglobingTetra; f != nil {
			return meshVal{f(in.pts)}
		}
	case "initial3":
		if f := triangulate3.VerifCreateInitialTetra; f != nil {
			return vecsVal{f(in.pts)}
		}
	case "box3":
		if f := triangulate3.VerifComputeBoundingBox; f != nil {
			a, b := f(in.pts)
			return vecsVal{[]r3.Vector{a, b}}
		}
	case "inside3":
		return textVal{fmt.Sprint(triangulate3.VectorInTetrahedron(in.pts[0], in.pts[1], in.pts[2], in.pts[3], vecAt(op.A, 0)))}
	case "dist3":
		return floatsVal{[]float64{triangulate3.Get2Ddist(in.pts[0], in.pts[1], in.pts[2]), triangulate3.Get3Ddist(in.pts[0], in.pts[1], in.pts[2], in.pts[3])}}
	default:
		panic("worker: unknown operation " + op.K)
	}
	return nil
}

// triangulation is built before the run if an operation validates it.
func (in *input) triangulation() *triangulate2.Triangulation { return in.tri }
