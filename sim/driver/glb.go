package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"

	"verifsim/spec"
)

// A small independent reader of binary glTF.

type glbMesh struct {
	pos     [][3]float32
	idx     []uint32
	colors  [][4]float64 // components in [0,1]
	colComp int
}

var errIncomplete = errors.New("incomplete")

type gltfDoc struct {
	Asset struct {
		Version string `json:"version"`
	} `json:"asset"`
	Scene  *int `json:"scene"`
	Scenes []struct {
		Nodes []int `json:"nodes"`
	} `json:"scenes"`
	Nodes []struct {
		Mesh        *int      `json:"mesh"`
		Children    []int     `json:"children"`
		Matrix      []float64 `json:"matrix"`
		Rotation    []float64 `json:"rotation"`
		Scale       []float64 `json:"scale"`
		Translation []float64 `json:"translation"`
	} `json:"nodes"`
	Meshes []struct {
		Primitives []struct {
			Attributes map[string]int `json:"attributes"`
			Indices    *int           `json:"indices"`
			Mode       *int           `json:"mode"`
		} `json:"primitives"`
	} `json:"meshes"`
	Accessors []struct {
		BufferView    *int      `json:"bufferView"`
		ByteOffset    int       `json:"byteOffset"`
		ComponentType int       `json:"componentType"`
		Count         int       `json:"count"`
		Type          string    `json:"type"`
		Normalized    bool      `json:"normalized"`
		Min           []float64 `json:"min"`
		Max           []float64 `json:"max"`
		Sparse        *struct{} `json:"sparse"`
	} `json:"accessors"`
	BufferViews []struct {
		Buffer     int `json:"buffer"`
		ByteOffset int `json:"byteOffset"`
		ByteLength int `json:"byteLength"`
		ByteStride int `json:"byteStride"`
	} `json:"bufferViews"`
	Buffers []struct {
		ByteLength int    `json:"byteLength"`
		URI        string `json:"uri"`
	} `json:"buffers"`
}

var compSize = map[int]int{5120: 1, 5121: 1, 5122: 2, 5123: 2, 5125: 4, 5126: 4}
var typeComps = map[string]int{"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}

// decodeGLB reads a file. strict: everything a conforming file must satisfy is
// an error; otherwise it reads whatever a tolerant reader would.
func decodeGLB(b []byte, strict bool) (*glbMesh, error) {
	le := binary.LittleEndian
	if len(b) < 12 {
		return nil, fmt.Errorf("%w: no header", errIncomplete)
	}
	if string(b[:4]) != "glTF" {
		return nil, fmt.Errorf("no glTF magic")
	}
	if le.Uint32(b[4:]) != 2 {
		return nil, fmt.Errorf("version %d", le.Uint32(b[4:]))
	}
	total := int(le.Uint32(b[8:]))
	if total > len(b) {
		return nil, fmt.Errorf("%w: header says %d bytes, file has %d", errIncomplete, total, len(b))
	}
	if strict && total != len(b) {
		return nil, fmt.Errorf("header says %d bytes, file has %d", total, len(b))
	}
	b = b[:total]
	var js, bin []byte
	haveBin := false
	at := 12
	for k := 0; at < len(b); k++ {
		if at+8 > len(b) {
			return nil, fmt.Errorf("%w: chunk header", errIncomplete)
		}
		n, typ := int(le.Uint32(b[at:])), le.Uint32(b[at+4:])
		if strict && n%4 != 0 {
			return nil, fmt.Errorf("chunk length %d", n)
		}
		at += 8
		if at+n > len(b) {
			return nil, fmt.Errorf("%w: chunk", errIncomplete)
		}
		data := b[at : at+n]
		at += n
		switch {
		case k == 0:
			if typ != 0x4E4F534A {
				return nil, fmt.Errorf("first chunk is not JSON")
			}
			js = data
		case typ == 0x004E4942 && !haveBin:
			if strict && k != 1 {
				return nil, fmt.Errorf("BIN is not the second chunk")
			}
			bin, haveBin = data, true
		case strict:
			return nil, fmt.Errorf("unexpected chunk %08x", typ)
		}
	}
	if js == nil {
		return nil, fmt.Errorf("%w: no JSON", errIncomplete)
	}
	var d gltfDoc
	if err := json.Unmarshal(js, &d); err != nil {
		return nil, fmt.Errorf("JSON: %v", err)
	}
	if strict && d.Asset.Version != "2.0" {
		return nil, fmt.Errorf("asset version %q", d.Asset.Version)
	}
	m := &glbMesh{}
	acc := func(i int, what string, f func(k int, c []float64)) (int, string, int, error) {
		if i < 0 || i >= len(d.Accessors) {
			return 0, "", 0, fmt.Errorf("%s: no accessor %d", what, i)
		}
		a := &d.Accessors[i]
		if a.Sparse != nil {
			return 0, "", 0, fmt.Errorf("%s: sparse", what)
		}
		cs, nc := compSize[a.ComponentType], typeComps[a.Type]
		if cs == 0 || nc == 0 {
			return 0, "", 0, fmt.Errorf("%s: component type %d, type %q", what, a.ComponentType, a.Type)
		}
		if a.BufferView == nil || *a.BufferView < 0 || *a.BufferView >= len(d.BufferViews) {
			return 0, "", 0, fmt.Errorf("%s: no buffer view", what)
		}
		v := &d.BufferViews[*a.BufferView]
		if v.Buffer < 0 || v.Buffer >= len(d.Buffers) {
			return 0, "", 0, fmt.Errorf("%s: no buffer", what)
		}
		bl := d.Buffers[v.Buffer].ByteLength
		if v.Buffer != 0 || d.Buffers[0].URI != "" {
			return 0, "", 0, fmt.Errorf("%s: data outside the file", what)
		}
		if bl > len(bin) {
			return 0, "", 0, fmt.Errorf("%w: %s: buffer of %d bytes in a chunk of %d", errIncomplete, what, bl, len(bin))
		}
		if v.ByteOffset < 0 || v.ByteLength < 0 || v.ByteOffset+v.ByteLength > bl {
			return 0, "", 0, fmt.Errorf("%w: %s: buffer view beyond the buffer", errIncomplete, what)
		}
		stride := v.ByteStride
		if stride == 0 {
			stride = cs * nc
		}
		if a.Count > 0 && (a.ByteOffset < 0 || a.ByteOffset+stride*(a.Count-1)+cs*nc > v.ByteLength) {
			return 0, "", 0, fmt.Errorf("%w: %s: accessor beyond the buffer view", errIncomplete, what)
		}
		if strict && (a.ByteOffset%cs != 0 || (v.ByteOffset+a.ByteOffset)%cs != 0 || stride%cs != 0) {
			return 0, "", 0, fmt.Errorf("%s: misaligned", what)
		}
		for k := 0; k < a.Count; k++ {
			c := make([]float64, nc)
			for j := range c {
				p := bin[v.ByteOffset+a.ByteOffset+k*stride+j*cs:]
				switch a.ComponentType {
				case 5120:
					c[j] = float64(int8(p[0]))
				case 5121:
					c[j] = float64(p[0])
				case 5122:
					c[j] = float64(int16(le.Uint16(p)))
				case 5123:
					c[j] = float64(le.Uint16(p))
				case 5125:
					c[j] = float64(le.Uint32(p))
				case 5126:
					c[j] = float64(math.Float32frombits(le.Uint32(p)))
				}
			}
			f(k, c)
		}
		return a.ComponentType, a.Type, a.Count, nil
	}
	prims, primMesh := 0, 0
	for mi, x := range d.Meshes {
		for _, p := range x.Primitives {
			prims++
			primMesh = mi
			if p.Mode != nil && *p.Mode != 4 {
				return nil, fmt.Errorf("primitive mode %d", *p.Mode)
			}
			pa, ok := p.Attributes["POSITION"]
			if !ok {
				return nil, fmt.Errorf("no POSITION")
			}
			lo, hi := [3]float32{}, [3]float32{}
			ct, typ, _, err := acc(pa, "POSITION", func(k int, c []float64) {
				if len(c) != 3 {
					return
				}
				v := [3]float32{float32(c[0]), float32(c[1]), float32(c[2])}
				for j := range v {
					if k == 0 || v[j] < lo[j] {
						lo[j] = v[j]
					}
					if k == 0 || v[j] > hi[j] {
						hi[j] = v[j]
					}
				}
				m.pos = append(m.pos, v)
			})
			if err != nil {
				return nil, err
			}
			if ct != 5126 || typ != "VEC3" {
				return nil, fmt.Errorf("POSITION is %s of %d", typ, ct)
			}
			if strict {
				a := &d.Accessors[pa]
				if len(a.Min) != 3 || len(a.Max) != 3 {
					return nil, fmt.Errorf("POSITION has no min and max")
				}
				for j := 0; j < 3; j++ {
					if float32(a.Min[j]) != lo[j] || float32(a.Max[j]) != hi[j] {
						return nil, fmt.Errorf("POSITION min/max %v %v, data %v %v", a.Min, a.Max, lo, hi)
					}
				}
			}
			if p.Indices == nil {
				for k := range m.pos {
					m.idx = append(m.idx, uint32(k))
				}
			} else {
				ct, typ, _, err := acc(*p.Indices, "indices", func(k int, c []float64) { m.idx = append(m.idx, uint32(c[0])) })
				if err != nil {
					return nil, err
				}
				if typ != "SCALAR" || ct != 5121 && ct != 5123 && ct != 5125 {
					return nil, fmt.Errorf("indices are %s of %d", typ, ct)
				}
			}
			for k, x := range m.idx {
				if strict && int(x) >= len(m.pos) {
					return nil, fmt.Errorf("index %d refers to vertex %d of %d", k, x, len(m.pos))
				}
			}
			if ca, ok := p.Attributes["COLOR_0"]; ok {
				norm := 1.0
				if ca >= 0 && ca < len(d.Accessors) {
					switch d.Accessors[ca].ComponentType {
					case 5121:
						norm = 255
					case 5123:
						norm = 65535
					}
					if strict && norm != 1 && !d.Accessors[ca].Normalized {
						return nil, fmt.Errorf("COLOR_0 is not normalized")
					}
				}
				_, typ, _, err := acc(ca, "COLOR_0", func(k int, c []float64) {
					v := [4]float64{0, 0, 0, 1}
					for j := range c {
						if j < 4 {
							v[j] = c[j] / norm
						}
					}
					m.colors = append(m.colors, v)
				})
				if err != nil {
					return nil, err
				}
				if typ != "VEC3" && typ != "VEC4" {
					return nil, fmt.Errorf("COLOR_0 is %s", typ)
				}
			}
		}
	}
	if !strict && prims != 1 && d.Asset.Version != "" {
		return m, nil // what it shows is not one mesh, but it is whole
	}
	if prims != 1 {
		return nil, fmt.Errorf("%d primitives", prims)
	}
	if strict {
		// the mesh is in the scene, once, untransformed
		sc := 0
		if d.Scene != nil {
			sc = *d.Scene
		}
		if sc < 0 || sc >= len(d.Scenes) {
			return nil, fmt.Errorf("no scene %d", sc)
		}
		uses := 0
		var walk func(n, depth int) error
		walk = func(n, depth int) error {
			if n < 0 || n >= len(d.Nodes) || depth > 100 {
				return fmt.Errorf("no node %d", n)
			}
			x := &d.Nodes[n]
			if len(x.Matrix) > 0 && !same(x.Matrix, []float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}) ||
				len(x.Rotation) > 0 && !same(x.Rotation, []float64{0, 0, 0, 1}) ||
				len(x.Scale) > 0 && !same(x.Scale, []float64{1, 1, 1}) ||
				len(x.Translation) > 0 && !same(x.Translation, []float64{0, 0, 0}) {
				return fmt.Errorf("node %d is transformed", n)
			}
			if x.Mesh != nil {
				if *x.Mesh != primMesh {
					return fmt.Errorf("node %d shows mesh %d", n, *x.Mesh)
				}
				uses++
			}
			for _, c := range x.Children {
				if err := walk(c, depth+1); err != nil {
					return err
				}
			}
			return nil
		}
		for _, n := range d.Scenes[sc].Nodes {
			if err := walk(n, 0); err != nil {
				return nil, err
			}
		}
		if uses != 1 {
			return nil, fmt.Errorf("the scene shows the mesh %d times", uses)
		}
	}
	return m, nil
}

func same(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diffMesh says how the file's mesh differs from the one exported, or "".
func diffMesh(g *glbMesh, m *spec.Mesh) string {
	if len(g.pos) != len(m.V) {
		return fmt.Sprintf("%d vertices, not %d", len(g.pos), len(m.V))
	}
	for i, v := range m.V {
		for j := range v {
			if math.Float32bits(float32(v[j])) != math.Float32bits(g.pos[i][j]) {
				return fmt.Sprintf("component %d of vertex %d is %v, not %v", j, i, g.pos[i][j], float32(v[j]))
			}
		}
	}
	if len(g.idx) != len(m.I) {
		return fmt.Sprintf("%d indices, not %d", len(g.idx), len(m.I))
	}
	for i, x := range m.I {
		if g.idx[i] != x {
			return fmt.Sprintf("index %d is %d, not %d", i, g.idx[i], x)
		}
	}
	if len(g.colors) != len(m.V) {
		return fmt.Sprintf("%d colours for %d vertices", len(g.colors), len(m.V))
	}
	for i, c := range g.colors {
		if c != [4]float64{1, 1, 1, 1} {
			return fmt.Sprintf("colour %d is %v, not white", i, c)
		}
	}
	return ""
}

// valMesh decodes the vertices and indices of a mesh a worker reports.
func valMesh(b []byte) *spec.Mesh {
	count := func(tag byte) int {
		i := bytes.IndexByte(b, ':')
		if i < 1 || b[0] != tag {
			return -1
		}
		n, err := strconv.Atoi(string(b[1:i]))
		if err != nil {
			return -1
		}
		b = b[i+1:]
		return n
	}
	m := &spec.Mesh{}
	n := count('v')
	if n < 0 || len(b) < 24*n {
		return nil
	}
	for i := 0; i < n; i++ {
		var v [3]float64
		for j := range v {
			v[j] = math.Float64frombits(binary.LittleEndian.Uint64(b))
			b = b[8:]
		}
		m.V = append(m.V, v)
	}
	n = count('i')
	if n < 0 || len(b) < 4*n {
		return nil
	}
	for i := 0; i < n; i++ {
		m.I = append(m.I, binary.LittleEndian.Uint32(b))
		b = b[4:]
	}
	return m
}
