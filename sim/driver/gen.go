package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"

	"verifsim/spec"
)

// mesh generates a renderable mesh.
func (r *rng) mesh(nv, nt int) *spec.Mesh {
	m := &spec.Mesh{V: make([][3]float64, nv), I: make([]uint32, 3*nt)}
	plain := r.p(1, 3)
	for i := range m.V {
		for j := range m.V[i] {
			if plain {
				m.V[i][j] = r.fr(-10, 10)
			} else {
				m.V[i][j] = r.coord()
			}
		}
	}
	switch r.n(8) {
	case 0: // few places, so that many vertices coincide
		for i := range m.V {
			m.V[i] = [3]float64{float64(r.rg(-1, 1)), float64(r.rg(-1, 1)), float64(r.rg(0, 1))}
		}
	case 1: // some vertices repeat others, exactly or in single precision
		for i := range m.V {
			if i > 0 && r.p(1, 3) {
				m.V[i] = m.V[r.n(i)]
				if r.p(1, 2) {
					m.V[i][r.n(3)] *= 1 + 1e-12
				}
			}
		}
	case 2: // planar
		j, c := r.n(3), r.pickF(0, 0, -0.0, 1, r.fr(-3, 3))
		for i := range m.V {
			m.V[i][j] = c
		}
	}
	switch r.n(6) {
	case 0: // one after the other
		for i := range m.I {
			m.I[i] = uint32(i % nv)
		}
	case 1: // triangles repeat, some are degenerate
		for i := range m.I {
			switch {
			case i >= 3 && r.p(2, 3):
				m.I[i] = m.I[i-3]
			case i%3 > 0 && r.p(1, 3):
				m.I[i] = m.I[i-1]
			default:
				m.I[i] = uint32(r.n(nv))
			}
		}
	default:
		for i := range m.I {
			m.I[i] = uint32(r.n(nv))
		}
	}
	if r.p(1, 2) { // use the last vertex
		m.I[r.n(len(m.I))] = uint32(nv - 1)
	}
	if r.p(1, 3) {
		for i := 0; i < nv; i++ {
			m.N = append(m.N, [3]float64{r.f(), r.f(), r.f()})
			m.T = append(m.T, [2]float64{r.f(), r.f()})
		}
	}
	return m
}

func (r *rng) meshSize() (int, int) {
	switch r.n(10) {
	case 0:
		return r.rg(1, 3), 1
	case 1:
		return r.rg(200, 400), r.rg(1, 400)
	case 2:
		return r.rg(800, 1500), r.rg(500, 2500)
	case 3:
		return 3, r.rg(1, 300)
	case 4: // around the limits of 8 and 16 bit indices
		return r.pickInt(254, 255, 256, 257), r.rg(1, 20)
	}
	return r.rg(3, 40), r.rg(1, 40)
}

func (r *rng) smallMesh() *spec.Mesh { return r.mesh(r.rg(3, 30), r.rg(1, 30)) }

// variant returns a mesh of the same sizes that differs in few places.
func (r *rng) variant(m *spec.Mesh) *spec.Mesh {
	c := &spec.Mesh{V: append([][3]float64{}, m.V...), I: append([]uint32{}, m.I...), N: m.N, T: m.T}
	nv, nt := len(c.V), len(c.I)/3
	for k := r.rg(1, 3); k > 0; k-- {
		switch r.n(8) {
		case 0:
			c.I[r.n(len(c.I))] = uint32(r.n(len(c.V)))
		case 3: // the same vertices or triangles in another order
			a, b := r.n(nv), r.n(nv)
			c.V[a], c.V[b] = c.V[b], c.V[a]
		case 4:
			a, b := 3*r.n(nt), 3*r.n(nt)
			for j := 0; j < 3; j++ {
				c.I[a+j], c.I[b+j] = c.I[b+j], c.I[a+j]
			}
		case 5:
			a := 3 * r.n(nt)
			c.I[a], c.I[a+1], c.I[a+2] = c.I[a+1], c.I[a+2], c.I[a]
		case 6: // the least difference there is
			a, j := r.n(nv), r.n(3)
			c.V[a][j] = float64(math.Nextafter32(float32(c.V[a][j]), 0))
		case 1: // the end
			c.V[len(c.V)-1][r.n(3)] += r.fr(0.5, 3)
		default:
			c.V[r.n(len(c.V))][r.n(3)] = r.fr(-50, 50)
		}
	}
	if r.p(1, 6) {
		for i := range c.V {
			c.V[i] = [3]float64{c.V[i][1], c.V[i][2], c.V[i][0]}
		}
	}
	return c
}

// glb writes a mesh the way an exporter would: previous content of a target.
func glb(m *spec.Mesh) []byte {
	le := binary.LittleEndian
	var bin []byte
	f := func(x float32) { bin = le.AppendUint32(bin, math.Float32bits(x)) }
	lo, hi := [3]float32{}, [3]float32{}
	for k, v := range m.V {
		for j, c := range v {
			x := float32(c)
			f(x)
			if k == 0 || x < lo[j] {
				lo[j] = x
			}
			if k == 0 || x > hi[j] {
				hi[j] = x
			}
		}
	}
	np := len(bin)
	for _, i := range m.I {
		bin = le.AppendUint32(bin, i)
	}
	ni := len(bin) - np
	for range m.V {
		bin = append(bin, 255, 255, 255, 0)
	}
	nc := len(bin) - np - ni
	js := fmt.Sprintf(`{"accessors":[{"bufferView":0,"componentType":5126,"count":%d,"max":[%v,%v,%v],"min":[%v,%v,%v],"type":"VEC3"},{"bufferView":1,"componentType":5125,"count":%d,"type":"SCALAR"},{"bufferView":2,"componentType":5121,"normalized":true,"count":%d,"type":"VEC3"}],"asset":{"generator":"qmuntal/gltf","version":"2.0"},"buffers":[{"byteLength":%d}],"bufferViews":[{"buffer":0,"byteLength":%d,"target":34962},{"buffer":0,"byteLength":%d,"byteOffset":%d,"target":34963},{"buffer":0,"byteLength":%d,"byteOffset":%d,"byteStride":4,"target":34962}],"meshes":[{"name":"drawTriangle","primitives":[{"attributes":{"COLOR_0":2,"POSITION":0},"indices":1}]}],"nodes":[{"mesh":0,"name":"Root"}],"scene":0,"scenes":[{"name":"Root Scene","nodes":[0]}]}`,
		len(m.V), hi[0], hi[1], hi[2], lo[0], lo[1], lo[2], len(m.I), len(m.V), len(bin), np, ni, np, nc, np+ni)
	for len(js)%4 != 0 {
		js += " "
	}
	out := []byte("glTF")
	out = le.AppendUint32(out, 2)
	out = le.AppendUint32(out, uint32(12+8+len(js)+8+len(bin)))
	out = le.AppendUint32(out, uint32(len(js)))
	out = append(out, "JSON"...)
	out = append(out, js...)
	out = le.AppendUint32(out, uint32(len(bin)))
	out = append(out, "BIN\x00"...)
	return append(out, bin...)
}

// points generates a point list for triangulations.
func (r *rng) points(n int) [][3]float64 {
	p := make([][3]float64, n)
	kind := r.n(7)
	z0 := r.fr(-3, 3)
	for i := range p {
		switch kind {
		case 0: // small integers: degenerate positions, duplicates
			p[i] = [3]float64{float64(r.rg(-3, 3)), float64(r.rg(-3, 3)), float64(r.rg(-3, 3))}
		case 1: // planar
			p[i] = [3]float64{r.fr(-10, 10), r.fr(-10, 10), z0}
		case 2: // regular grid
			p[i] = [3]float64{float64(i % 4), float64(i / 4 % 4), float64(i / 16)}
		case 3: // wide range
			p[i] = [3]float64{r.fr(-1e5, 1e5), r.fr(-1, 1), r.fr(-1e-2, 1e-2)}
		default:
			p[i] = [3]float64{r.fr(-10, 10), r.fr(-10, 10), r.fr(-10, 10)}
		}
	}
	return p
}

// crowd is n points at a few places.
func (r *rng) crowd(n int) [][3]float64 {
	p := make([][3]float64, n)
	c := r.points(1)[0]
	for i := range p {
		p[i] = c
	}
	pts := r.points(r.rg(4, 12))
	for k, x := range pts {
		i := r.n(n)
		if k < 3 || r.p(1, 2) {
			i = n - 1 - k
		}
		p[i] = x
	}
	return p
}

// variantPts: same length, few differences.
func (r *rng) variantPts(p [][3]float64) [][3]float64 {
	c := append([][3]float64{}, p...)
	switch r.n(12) {
	case 7: // hardly different everywhere
		f := 1 + r.pickF(1e-7, 1e-9, 1e-12, -1e-9)
		for i := range c {
			for j := range c[i] {
				c[i][j] *= f
			}
		}
	case 8: // hardly different at an end of the bounding box
		j, b := r.n(3), 0
		for i := range c {
			if c[i][j] > c[b][j] {
				b = i
			}
		}
		c[b][j] += r.pickF(1e-3, 1e-6, 1e-9)
	case 9: // reversed
		for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
			c[i], c[j] = c[j], c[i]
		}
	case 10: // the same sums, nearly the same centre
		i, k, j := r.n(len(c)), r.n(len(c)), r.n(3)
		d := r.pickF(1, 0.5, 1e-3)
		c[i][j] += d
		c[k][j] -= d
	case 11: // only the last coordinate
		for i := range c {
			c[i][2] += r.pickF(1, -1, 0.5)
		}
	case 4: // two swapped
		i, j := r.n(len(c)), r.n(len(c))
		c[i], c[j] = c[j], c[i]
	case 5: // hardly different
		i, j := r.n(len(c)), r.n(3)
		c[i][j] += r.pickF(1e-3, 1e-6, 1e-9)
	case 6: // mirrored
		for i := range c {
			c[i][0] = -c[i][0]
		}
	case 0: // permuted
		for i := len(c) - 1; i > 0; i-- {
			j := r.n(i + 1)
			c[i], c[j] = c[j], c[i]
		}
	case 1: // moved in the middle
		i := r.n(len(c))
		c[i][r.n(3)] += r.fr(0.5, 5)
	case 2: // last one moved
		c[len(c)-1][r.n(3)] += r.fr(0.5, 5)
	default:
		for i := range c {
			c[i] = [3]float64{c[i][1] + 1, c[i][0], c[i][2]}
		}
	}
	return c
}

func (r *rng) curve() *spec.Curve {
	p := r.rg(1, 4)
	if r.p(1, 6) {
		p = r.rg(5, 8)
	}
	nc := p + 1 + r.n(6)
	if r.p(1, 8) {
		nc = p + r.rg(8, 40)
	}
	c := &spec.Curve{P: p}
	k := r.rg(0, 2)
	uniform := r.p(1, 5) // not clamped
	for i := 0; i <= p; i++ {
		c.U = append(c.U, k)
		if uniform && i < p {
			k++
		}
	}
	for i := 0; i < nc-p-1; i++ {
		k += r.rg(1, 2)
		c.U = append(c.U, k)
	}
	k += r.rg(1, 3)
	for i := 0; i <= p; i++ {
		c.U = append(c.U, k)
		if uniform {
			k++
		}
	}
	for i := 0; i < nc; i++ {
		c.C = append(c.C, [3]float64{r.fr(-10, 10), r.fr(-10, 10), r.fr(-10, 10)})
	}
	return c
}

func (r *rng) variantCurve(c *spec.Curve) *spec.Curve {
	d := &spec.Curve{P: c.P, U: append([]int{}, c.U...), C: append([][3]float64{}, c.C...)}
	switch r.n(7) {
	case 6: // another degree on the same knots
		if d.P > 1 {
			d.P--
			d.C = append(d.C, d.C[r.n(len(d.C))])
		}
	case 3: // hardly different
		d.C[r.n(len(d.C))][r.n(3)] += r.pickF(1e-3, 1e-6, 1e-9)
	case 4: // two swapped
		i, j := r.n(len(d.C)), r.n(len(d.C))
		d.C[i], d.C[j] = d.C[j], d.C[i]
	case 5: // one knot differs
		for i := len(d.U) - 1; i > d.P && d.U[i] > d.U[d.P]; i-- {
			d.U[i]++
			if r.p(1, 3) && d.U[i-1] < d.U[i]-1 {
				break
			}
		}
	case 0:
		d.C[r.n(len(d.C))][r.n(3)] += r.fr(0.5, 5)
	case 1:
		for i := range d.U {
			d.U[i] = 2 * d.U[i]
		}
	default:
		for i := range d.C {
			d.C[i] = [3]float64{d.C[i][1], d.C[i][2] + 1, d.C[i][0]}
		}
	}
	return d
}

// near is a number that hardly differs, or not at all.
func (r *rng) near(x float64) float64 {
	switch r.n(6) {
	case 0:
		return math.Nextafter(x, r.pickF(1e300, -1e300))
	case 1:
		return x + r.pickF(1, -1)*math.Pow(10, float64(-r.rg(2, 13)))
	case 2:
		return x + r.pickF(1, -1)*r.f()*math.Pow(10, float64(-r.rg(2, 13)))
	}
	return x
}

// param is a parameter of the curve: a knot, the end, or inside a span.
func (r *rng) param(c *spec.Curve) float64 {
	lo, hi := float64(c.U[c.P]), float64(c.U[len(c.U)-1-c.P])
	switch r.n(8) {
	case 6: // next to a knot
		u := float64(c.U[c.P+r.n(len(c.U)-2*c.P)]) + r.pickF(1e-9, -1e-9, 1e-4, -1e-4)
		return math.Max(lo, math.Min(hi, u))
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		u := float64(c.U[c.P+r.n(len(c.U)-2*c.P)])
		return u
	}
	return math.Min(hi, lo+(hi-lo)*r.f())
}

// table generates a symbol table. Its reports carry unique tokens.
type tableGen struct {
	r       *rng
	dangle  int // in 16: references to nothing
	wild    int // in 16: references to any type
	faces   bool
	product bool
	surf    bool
	axis    bool
}

func (r *rng) tableGen() *tableGen {
	return &tableGen{r: r, dangle: r.pickInt(0, 1, 3), wild: r.pickInt(0, 4, 16), faces: r.p(3, 4), product: r.p(3, 4), surf: r.p(3, 4), axis: r.p(1, 2)}
}

func (g *tableGen) table(n int) []spec.Entity {
	r := g.r
	kinds := []string{"other", "CARTESIAN_POINT", "DIRECTION", "VERTEX_POINT", "VERTEX_LOOP", "FACE", "CLOSED_SHELL"}
	if g.faces {
		kinds = append(kinds, "ADVENCED_FACE", "ADVENCED_FACE", "SPHERICAL_SURFACE", "SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "ADVANCED_FACE")
	}
	if g.product {
		kinds = append(kinds, "PRODUCT_DEFINITION", "PRODUCT_DEFINITION_SHAPE", "PRODUCT_DEFINITION_FORMATION", "PRODUCT_DEFINITION_CONTEXT", "PRODUCT_DEFINITION_SHAPE")
	}
	if g.surf {
		kinds = append(kinds, "B_SPLINE_SURFACE_WITH_KNOTS")
	}
	if g.axis {
		kinds = append(kinds, "AXIS_2_PLACEMENT_3D", "AXIS2_PLACEMENT_3D")
	}
	if n > 100 {
		kinds = append(kinds, "other", "other", "other", "other", "other", "other", "other", "other")
	}
	if r.p(1, 4) { // of few kinds, often of those that refer to others
		few := []string{kinds[r.n(len(kinds))]}
		for r.p(2, 3) {
			few = append(few, r.pick("PRODUCT_DEFINITION", "PRODUCT_DEFINITION", "ADVENCED_FACE", "PRODUCT_DEFINITION_SHAPE", "B_SPLINE_SURFACE_WITH_KNOTS", "SPHERICAL_SURFACE", "CARTESIAN_POINT", "other", kinds[r.n(len(kinds))]))
		}
		kinds = few
	}
	ents := make([]spec.Entity, n)
	byType := map[string][]int{}
	base := r.rg(1, 200)
	style := r.n(9)
	for i := range ents {
		ents[i].ID = r.tableID(style, base, i)
		k := kinds[r.n(len(kinds))]
		if k == "other" {
			k = "OTHER_" + strconv.Itoa(1000+i)
			if r.p(1, 6) {
				k += "_OF_THE_SAME_KIND"
			}
		}
		ents[i].Type = k
		byType[k] = append(byType[k], i)
	}
	if n > 1 && r.p(1, 5) {
		for k := r.rg(1, 3); k > 0; k-- {
			t := r.twin()
			ents[r.n(n)].ID, ents[r.n(n)].ID = t[0], t[1]
		}
	}
	if n > 1 && r.p(1, 8) { // an identifier close to another one
		for k := r.rg(1, 3); k > 0; k-- {
			ents[r.n(n)].ID = r.nearID(ents[r.n(n)].ID)
		}
	}
	seen := map[string]bool{}
	for i := range ents {
		for seen[ents[i].ID] {
			ents[i].ID += "0"
		}
		seen[ents[i].ID] = true
	}
	ref := func(want ...string) string {
		if r.n(16) < g.dangle {
			if r.p(1, 2) {
				return r.nearID(ents[r.n(n)].ID)
			}
			return "#" + strconv.Itoa(900000+r.n(1000))
		}
		if r.n(16) >= g.wild {
			w := byType[want[r.n(len(want))]]
			if len(w) > 0 {
				return ents[w[r.n(len(w))]].ID
			}
		}
		return ents[r.n(n)].ID
	}
	list := func(k int) string {
		s := "("
		for j := 0; j < k; j++ {
			if j > 0 {
				s += ","
			}
			s += strconv.Itoa(r.n(9))
		}
		return s + ")"
	}
	for i := range ents {
		e := &ents[i]
		name := "'n" + strconv.Itoa(7000+i) + "'"
		switch e.Type {
		case "CARTESIAN_POINT", "DIRECTION":
			e.Args = []string{name, "(1.,2.,3.)"}
		case "VERTEX_POINT", "VERTEX_LOOP":
			e.Args = []string{name, ref("CARTESIAN_POINT")}
		case "FACE", "CLOSED_SHELL":
			e.Args = []string{name, "(" + ref("ADVENCED_FACE", "FACE") + ")"}
		case "ADVENCED_FACE", "ADVANCED_FACE":
			e.Args = []string{name, ref("SPHERICAL_SURFACE", "SPHERICAL_SURFACE", "TOROIDAL_SURFACE"), ".T."}
		case "SPHERICAL_SURFACE":
			e.Args = []string{name, ref("AXIS_2_PLACEMENT_3D"), "r" + strconv.Itoa(5000+i)}
		case "TOROIDAL_SURFACE":
			e.Args = []string{name, ref("AXIS_2_PLACEMENT_3D"), "1.", "2."}
		case "PRODUCT_DEFINITION_SHAPE":
			e.Args = []string{name, "$", ref("PRODUCT_DEFINITION")}
		case "PRODUCT_DEFINITION":
			e.Args = []string{name, "''", ref("PRODUCT_DEFINITION_FORMATION", "PRODUCT_DEFINITION_CONTEXT"), ref("PRODUCT_DEFINITION_CONTEXT")}
		case "PRODUCT_DEFINITION_FORMATION", "PRODUCT_DEFINITION_CONTEXT":
			e.Args = []string{name, "''", "#1"}
		case "AXIS_2_PLACEMENT_3D", "AXIS2_PLACEMENT_3D":
			e.Args = []string{name, ref("CARTESIAN_POINT"), ref("DIRECTION"), ref("DIRECTION")}
		case "B_SPLINE_SURFACE_WITH_KNOTS":
			m := "("
			for a := 0; a < 2; a++ {
				if a > 0 {
					m += ","
				}
				m += "(" + ref("CARTESIAN_POINT") + "," + ref("CARTESIAN_POINT") + ")"
			}
			e.Args = []string{name, "1", "1", m + ")", ".UNSPECIFIED.", ".F.", ".F.", ".U.", list(2), list(2), list(2), list(2), ".UNSPECIFIED."}
		default:
			e.Args = []string{name}
			for k := r.n(3); k > 0; k-- {
				e.Args = append(e.Args, ref("FACE"))
			}
			if r.p(1, 8) {
				e.Args = nil
			}
		}
	}
	if n <= 100 && r.p(1, 6) { // entities that differ in nothing but the identifier
		for k := r.rg(1, 3); k > 0; k-- {
			x := ents[r.n(n)]
			y := &ents[r.n(n)]
			y.Type, y.Args = x.Type, append([]string{}, x.Args...)
		}
	}
	if r.p(1, 6) { // types that are not quite the ones Parse knows
		for i := range ents {
			if r.p(1, 4) {
				t := &ents[i].Type
				*t = r.pick(" "+*t, *t+" ", "\t"+*t, *t+"\n", *t+"_", strings.ToLower(*t), " "+*t+" ", r.nearName(*t), r.nearName(*t))
			}
		}
	}
	return ents
}

// nearID is an identifier that is not id but that a careless comparison takes
// for it.
func (r *rng) nearID(id string) string {
	b := strings.TrimPrefix(id, "#")
	switch r.n(8) {
	case 0:
		return "#0" + b
	case 1:
		return "#00" + b
	case 2:
		return "# " + b
	case 3:
		return "#" + b + " "
	case 4:
		return "#" + b + "0"
	case 5:
		return "#+" + b
	case 6:
		if s := strings.TrimLeft(b, "0"); s != b {
			return "#" + s
		}
		return "#" + b + "."
	}
	if l := strings.ToLower(b); l != b {
		return "#" + l
	}
	if u := strings.ToUpper(b); u != b {
		return "#" + u
	}
	return "##" + b
}

// tableID is the identifier of entity i: mostly small numbers.
func (r *rng) tableID(style, base, i int) string {
	switch style {
	case 0: // numbers that are equal although the identifiers are not
		return "#" + "000"[:r.n(4)] + strconv.Itoa(base%50+i/3)
	case 1: // large numbers
		return "#" + r.pick("4294967", "2147483", "9223372036854", "18446744073709", "10000000000000000000000") + strconv.Itoa(640+i)
	case 2: // no numbers
		return "#" + r.pick("A", "b", "a", "_", "-", "é", "0x", "#", "B", "A1.") + strconv.Itoa(i/4)
	}
	return "#" + strconv.Itoa(base+i*r.pickInt(1, 1, 3))
}

// spoil makes an entity of the table fail when it is processed.
func (r *rng) spoil(t []spec.Entity) {
	x := &t[r.n(len(t))]
	if len(x.Args) == 0 {
		return
	}
	if r.p(1, 2) {
		x.Args = x.Args[:r.n(len(x.Args))]
		return
	}
	x.Args = append([]string{}, x.Args...)
	x.Args[r.n(len(x.Args))] = r.pick("", "$", "()", "(())", "x")
}

// tableDoc writes a symbol table as a file.
func (r *rng) tableDoc(path string, ents []spec.Entity) *stepDoc {
	d := &stepDoc{Path: path, Cut: -1}
	for _, e := range ents {
		e.Type = strings.Join(strings.Fields(e.Type), "") // white space does not survive in a file
		p := piece{Ent: true, ID: e.ID, Type: e.Type}
		s := e.ID + "=" + e.Type + "("
		for i, a := range e.Args {
			if i > 0 {
				s += ","
			}
			s += a
			p.Args = append(p.Args, []byte(a))
		}
		s += ")"
		p.Close = len(s)
		s += ";"
		p.Semi = len(s)
		p.Text = []byte(s + "\n")
		d.Pieces = append(d.Pieces, p)
	}
	return d
}

// sched draws a scheduling policy.
func (r *rng) sched() *spec.Sched {
	s := &spec.Sched{Seed: r.u64(), MaxSwap: r.pickInt(20, 60, 200, 600, 2000)}
	one := uint32(65536)
	switch r.n(6) {
	case 0: // few switches anywhere
		s.P = one >> uint(r.rg(6, 12))
	case 1: // many
		s.P = one >> uint(r.rg(1, 5))
	case 2: // where code runs for the first time
		s.PFirst = one / uint32(r.rg(1, 6))
		s.P = one >> uint(r.rg(8, 14))
	case 3: // around system calls
		s.PSys = one / uint32(r.rg(1, 4))
		s.P = one >> uint(r.rg(8, 14))
	case 4: // a random subset of the sites
		s.HotMod = uint32(r.rg(3, 40))
		s.HotVal = uint32(r.n(int(s.HotMod)))
		s.PHot = one / uint32(r.rg(1, 8))
		s.PFirst = one / uint32(r.rg(2, 20))
	case 5: // bursts of dense preemption
		s.P = one >> uint(r.rg(9, 13))
		s.Burst = uint32(r.rg(10, 200))
		s.PBurst = one / uint32(r.rg(2, 6))
	}
	return s
}

const (
	eEIO    = 5
	eEINTR  = 4
	eBADF   = 9
	eACCES  = 13
	eNFILE  = 23
	eMFILE  = 24
	eISDIR  = 21
	eNOENT  = 2
	eNOSPC  = 28
	eROFS   = 30
	eSTALE  = 116
	eDQUOT  = 122
	eFBIG   = 27
	eTIMED  = 110
	eNOMEM  = 12
	eLOOP   = 40
	eTXTBSY = 26
)
