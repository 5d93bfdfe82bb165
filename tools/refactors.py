#!/usr/bin/env python3
"""refactors.py [tree...] [--checks C01,C02]: edits that keep the behaviour;
every check has to stay quiet on each of these trees."""
import os, re, shutil, subprocess, sys, tempfile, json, time
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TREES = {}
def tree(name, *edits):
    TREES[name] = edits

LEX_BODY = re.compile(r'func \(l \*Lexer\) Lex\(\) SymbolTable \{\n.*?\n\}\n', re.S)
EXPORT_TAIL = re.compile(r'	if err := ioutil.WriteFile.*\n\}\n$', re.S)
PARSE_RUN = re.compile(r'	for key, lexeme := range lexemes \{\n.*?\n	\}\n', re.S)
RUNINF = re.compile(r'	for len\(parser.nextStates\) > 0 \{\n.*?\n	\}\n\}\n', re.S)

tree('readfile',
 ('step/lex.go', LEX_BODY, '''func (l *Lexer) Lex() SymbolTable {
	content, err := os.ReadFile(l.Filename)
	check(err)
	table := make(SymbolTable)
	var text strings.Builder
	for _, line := range strings.Split(string(content), "\\n") {
		line = strings.TrimSuffix(line, "\\r")
		if line == "" {
			continue
		}
		if startsDefinition(text.String(), line) {
			table.add(text.String())
			text.Reset()
		}
		text.WriteString(line)
	}
	table.add(text.String())
	return table
}
'''), ('step/lex.go', '	"bufio"\n	"io"\n', ''),
 ('step/parse.go', PARSE_RUN, '''	keys := make([]string, 0, len(lexemes))
	for key := range lexemes {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		parser.runInferenceModel(parseState{fn: parser.bridge(lexemes[key]), key: key})
	}
'''), ('step/parse.go', 'package step\n', 'package step\n\nimport "sort"\n'),
 ('step/parse.go', RUNINF, '''	/* depth first */
	for n := len(parser.nextStates); n > 0; n = len(parser.nextStates) {
		top := parser.nextStates[n-1]
		parser.nextStates = parser.nextStates[:n-1]
		if _, found := parser.visited[top.key]; found {
			continue
		}
		parser.visited[top.key] = struct{}{}
		top.fn(top.key)
	}
}
'''),
 ('glTF/export.go', EXPORT_TAIL, '''	writeFile(outputFile, content.Bytes())
}

// writeFile : writes next to the file and moves it there once it is complete
func writeFile(name string, content []byte) {
	temp, err := ioutil.TempFile(filepath.Dir(name), ".export-*")
	if err != nil {
		panic(err)
	}
	defer os.Remove(temp.Name())
	_, err = temp.Write(content)
	if err == nil {
		err = temp.Chmod(0644)
	}
	if cerr := temp.Close(); err == nil {
		err = cerr
	}
	if err == nil {
		err = os.Rename(temp.Name(), name)
	}
	if err != nil {
		panic(err)
	}
}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"path/filepath"\n'),
 ('meshing/mesh.go', '		for _, tetra := range t {\n			if predicates', '		for _, key := range sortedKeys(t) {\n			tetra := t[key]\n			if predicates'),
 ('meshing/mesh.go', 'func connect(', '''func sortedKeys(t tetrahedrisation) []string {
	keys := make([]string, 0, len(t))
	for key := range t {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	return keys
}

func connect('''),
 ('nurbs/basis.go', '	low := p\n', '	index, known := spanCache.find(n, p, u, U)\n	if known {\n		return index\n	}\n	low := p\n'),
 ('nurbs/basis.go', '	return mid\n}\n', '''	spanCache.put(n, p, u, U, mid)
	return mid
}

// spanCache : spans that were found already
var spanCache = cache{spans: map[string]int{}}

type cache struct {
	mu    sync.RWMutex
	spans map[string]int
}

func (c *cache) find(n, p int, u float64, U []int) (int, bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	i, ok := c.spans[fmt.Sprint(n, p, math.Float64bits(u), U)]
	return i, ok
}

func (c *cache) put(n, p int, u float64, U []int, i int) {
	c.mu.Lock()
	c.spans[fmt.Sprint(n, p, math.Float64bits(u), U)] = i
	c.mu.Unlock()
}
'''), ('nurbs/basis.go', 'import "fmt"', 'import (\n	"fmt"\n	"math"\n	"sync"\n)'),
 ('triangulate2/triangulator.go', '	nodes := make([]node, n)\n', '	buffer := nodePool.Get().(*[]node)\n	defer nodePool.Put(buffer)\n	nodes := *buffer\n	if cap(nodes) < n {\n		nodes = make([]node, n)\n		*buffer = nodes\n	}\n	nodes = nodes[:n]\n	for i := range nodes {\n		nodes[i] = node{}\n	}\n	defer func() { tri.outline = tri.walk(); tri.hull = nil; tri.hash = nil }()\n'),
 ('triangulate2/triangulator.go', re.compile(r'func \(t \*triangulator\) convexHull\(\) \[\]r3.Vector \{.*', re.S), '''func (t *triangulator) convexHull() []r3.Vector { return t.outline }

var nodePool = sync.Pool{New: func() interface{} { return new([]node) }}

func (t *triangulator) walk() []r3.Vector {
	var result []r3.Vector
	for e := t.hull; e != nil; {
		result = append(result, t.Vectors[e.i])
		if e = e.prev; e == t.hull {
			break
		}
	}
	return result
}
'''), ('triangulate2/triangulator.go', '	hash             []*node\n', '	hash             []*node\n	outline          []r3.Vector\n'),
 ('triangulate2/triangulator.go', '	"sort"\n', '	"sort"\n	"sync"\n'),
 ('shape/sphere.go', 'func (sd Sphere) generateIndices(sphere *Mesh) {\n', '''var (
	indexMu    sync.Mutex
	indexLists = map[[2]int][]uint32{}
)

func (sd Sphere) generateIndices(sphere *Mesh) {
	indexMu.Lock()
	defer indexMu.Unlock()
	key := [2]int{sd.sectorCount, sd.stackCount}
	if _, known := indexLists[key]; !known {
		m := Mesh{}
		sd.computeIndices(&m)
		indexLists[key] = m.Indices
	}
	sphere.Indices = append([]uint32(nil), indexLists[key]...)
}

func (sd Sphere) computeIndices(sphere *Mesh) {
'''), ('shape/sphere.go', '	"math"\n', '	"math"\n	"sync"\n'),
 ('predicates/insphere.go', '	return (clift*dab - dlift*abc) + (alift*bcd - blift*cda)\n', '	scratch := terms.Get().(*[2]float64)\n	scratch[0], scratch[1] = clift*dab-dlift*abc, alift*bcd-blift*cda\n	det := scratch[0] + scratch[1]\n	terms.Put(scratch)\n	return det\n'),
 ('predicates/insphere.go', '	"math"\n', '	"math"\n	"sync"\n'),
 ('predicates/insphere.go', '//InSphereFast', 'var terms = sync.Pool{New: func() interface{} { return new([2]float64) }}\n\n//InSphereFast'),
)

tree('goroutines',
 ('step/lex.go', LEX_BODY, '''func (l *Lexer) Lex() SymbolTable {
	file, err := os.Open(l.Filename)
	check(err)
	defer file.Close()

	lines := make(chan string, 8)
	failed := make(chan error, 1)
	go func() {
		defer close(lines)
		reader := bufio.NewReaderSize(file, 1<<13)
		for {
			line, err := reader.ReadString('\\n')
			lines <- line
			if err == io.EOF {
				failed <- nil
				return
			}
			if err != nil {
				failed <- err
				return
			}
		}
	}()

	texts := make(chan string)
	table := make(SymbolTable)
	var wait sync.WaitGroup
	wait.Add(1)
	var failure interface{}
	go func() {
		defer wait.Done()
		defer func() {
			if failure = recover(); failure != nil {
				for range texts {
				}
			}
		}()
		for text := range texts {
			table.add(text)
		}
	}()
	text := ""
	for line := range lines {
		line = strings.TrimSuffix(strings.TrimSuffix(line, "\\n"), "\\r")
		if len(line) > 0 && startsDefinition(text, line) {
			texts <- text
			text = ""
		}
		text += line
	}
	err = <-failed
	if err == nil {
		texts <- text
	}
	close(texts)
	wait.Wait()
	check(err)
	if failure != nil {
		panic(failure)
	}
	return table
}
'''), ('step/lex.go', '	"strings"\n', '	"strings"\n	"sync"\n'),
 ('glTF/export.go', EXPORT_TAIL, '''	file, err := os.OpenFile(outputFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		panic(err)
	}
	for rest := content.Bytes(); len(rest) > 0 && err == nil; {
		piece := rest
		if len(piece) > 4096 {
			piece = piece[:4096]
		}
		var n int
		n, err = file.Write(piece)
		rest = rest[n:]
	}
	if err == nil {
		err = file.Sync()
	}
	if cerr := file.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		panic(err)
	}
}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n'),
 ('glTF/model.go', re.compile(r'	for _, v := range mesh.Vertices \{.*?\n	\}\n', re.S), '''	positions = make([][3]float32, len(mesh.Vertices))
	var wait sync.WaitGroup
	const parts = 4
	for part := 0; part < parts; part++ {
		wait.Add(1)
		go func(part int) {
			defer wait.Done()
			for i := part; i < len(positions); i += parts {
				v := mesh.Vertices[i]
				positions[i] = [3]float32{float32(v.X), float32(v.Y), float32(v.Z)}
			}
		}(part)
	}
	wait.Wait()
'''), ('glTF/model.go', 'import "geGoMetry/shape"', 'import (\n	"geGoMetry/shape"\n	"sync"\n)'),
 ('step/bridge.go', re.compile(r'	switch definition.Type \{.*', re.S), '''	statesOnce.Do(func() {
		states = map[string]func(*Parser, string){
			"VERTEX_LOOP":                  (*Parser).vertexLoop,
			"AXIS_2_PLACEMENT_3D":          (*Parser).axis2Placement3D,
			"FACE":                         (*Parser).face,
			"B_SPLINE_SURFACE_WITH_KNOTS":  (*Parser).bSplineSurfaceWithKnots,
			"ADVENCED_FACE":                (*Parser).advancedFace,
			"CLOSED_SHELL":                 (*Parser).closedShell,
			"DIRECTION":                    (*Parser).direction,
			"PRODUCT_DEFINITION":           (*Parser).productDefinition,
			"PRODUCT_DEFINITION_CONTEXT":   (*Parser).productDefinitionContext,
			"PRODUCT_DEFINITION_FORMATION": (*Parser).productDefinitionFormation,
			"PRODUCT_DEFINITION_SHAPE":     (*Parser).productDefinitionShape,
			"SPHERICAL_SURFACE":            (*Parser).sphericalSurface,
			"TOROIDAL_SURFACE":             (*Parser).toroidalSurface,
		}
	})
	state, found := states[definition.Type]
	if !found {
		state = (*Parser).skipUtility
	}
	return func(key string) { state(parser, key) }
}

var (
	statesOnce sync.Once
	states     map[string]func(*Parser, string)
)
'''), ('step/bridge.go', 'package step\n', 'package step\n\nimport "sync"\n'),
 ('step/util.go', re.compile(r'func stripWhiteSpaces.*?\n\}\n', re.S), '''func stripWhiteSpaces(str string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, str)
}
'''),
 ('step/util.go', re.compile(r'	arguments := make\(\[\]string, 0\)\n	openBrackets := 0\n.*?\n	panic\(', re.S), '''	arguments := []string{}
	depth, quoted, start := 0, false, 0
	for i, c := range []byte(argumentsText) {
		if c == '\\'' {
			quoted = !quoted
		}
		if quoted {
			continue
		}
		if c == ')' && depth == 0 {
			return append(arguments, strings.TrimSpace(argumentsText[start:i]))
		} else if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		} else if c == ',' && depth == 0 {
			arguments = append(arguments, strings.TrimSpace(argumentsText[start:i]))
			start = i + 1
		}
	}
	panic('''),
 ('meshing/mesh.go', re.compile(r'		for _, tetra := range t \{\n			if predicates.*?\n		\}\n', re.S), '''		found := make(chan tetra)
		var wait sync.WaitGroup
		for _, candidate := range t {
			wait.Add(1)
			go func(c tetra) {
				defer wait.Done()
				if predicates.InSphereFast(points[c.ia], points[c.ib], points[c.ic], points[c.id], point) >= 0 {
					found <- c
				}
			}(candidate)
		}
		go func() {
			wait.Wait()
			close(found)
		}()
		for c := range found {
			badTetras = append(badTetras, c)
		}
'''), ('meshing/mesh.go', '	"strings"\n', '	"strings"\n	"sync"\n'),
 ('nurbs/curve.go', re.compile(r'	C := vec3.T\{\}\n.*', re.S), '''	C := vec3.T{}
	terms := make([]vec3.T, p+1)
	var wait sync.WaitGroup
	for i := range terms {
		wait.Add(1)
		go func(i int) {
			defer wait.Done()
			terms[i] = P[span-p+i].Scaled(N[i])
		}(i)
	}
	wait.Wait()
	for i := range terms {
		C.Add(&terms[i])
	}
	return C
}
'''), ('nurbs/curve.go', '	"fmt"\n', '	"fmt"\n	"sync"\n'),
 ('triangulate2/triangulation.go', '	err := t.triangulate()\n', '	failed := make(chan error)\n	var failure interface{}\n	go func() {\n		defer close(failed)\n		defer func() { failure = recover() }()\n		err := t.triangulate()\n		failed <- err\n	}()\n	err := <-failed\n	<-failed\n	if failure != nil {\n		panic(failure)\n	}\n'),
 ('shape/torus.go', '	td.generateVertices(&torus)\n	td.generateIndices(&torus)\n', '	var wait sync.WaitGroup\n	indices := Mesh{}\n	wait.Add(1)\n	go func() {\n		defer wait.Done()\n		td.generateIndices(&indices)\n	}()\n	td.generateVertices(&torus)\n	wait.Wait()\n	torus.Indices = indices.Indices\n'),
 ('shape/torus.go', '	"math"\n', '	"math"\n	"sync"\n'),
)

# renamed things, reordered statements, helpers, rewritten loops
def sub(a, b):
    return (re.compile(a, re.S), b)
tree('renamed',
 ('meshing/mesh.go', re.compile(r'func englobe\(.*?\n\}\n', re.S), '''func englobe(list *[]r3.Vector) tetra {
	var box helper
	box.findExtremas(*list...)
	a, b, c, d := box.computerInitialTetraPoints()
	all := make([]r3.Vector, 0, len(*list)+4)
	all = append(all, a, b, c, d)
	all = append(all, *list...)
	*list = all
	return tetra{0, 1, 2, 3, []face{{0, 1, 2}, {1, 2, 3}, {2, 3, 0}, {3, 0, 1}}}
}
'''),
 ('meshing/mesh.go', re.compile(r'		for _, faceCheck := range faceSet \{.*?\n		\}\n', re.S), '''		polyhedron = boundary(faceSet, badTetras)
'''),
 ('meshing/mesh.go', 'func connect(', '''func boundary(faces map[string]faceCheck, bad []tetra) []face {
	list := make([]face, 0, len(faces))
	for _, c := range faces {
		if c.check {
			continue
		}
		list = append(list, bad[c.tetraID].faces[c.faceID])
	}
	return list
}

func connect('''),
 ('meshing/helper.go', re.compile(r'	for _, vertex := range vertices \{.*?\n	\}\n', re.S), '''	for i := 0; i < len(vertices); i++ {
		distance := r3.Distance(vertices[i], centroid)
		fmt.Println("distance", distance, " point:", vertices[i], " nearestPoint:", nearestPoint)
		if !(distance <= minDistance) {
			continue
		}
		nearestPoint, minDistance = vertices[i], distance
	}
'''),
 ('meshing/util.go', re.compile(r'func sameSide\(.*?\n\}\n', re.S), '''func sameSide(v1, v2, v3, v4, p r3.Vector) bool {
	n := r3.Cross(r3.Sub(v2, v1), r3.Sub(v3, v1))
	a, b := r3.Dot(n, r3.Sub(v4, v1)), r3.Dot(n, r3.Sub(p, v1))
	return a <= 0 && b <= 0 || a >= 0 && b >= 0
}
'''),
 ('shape/circle.go', re.compile(r'func \(c Circle\) Construct.*?\n\}\n', re.S), '''func (c Circle) Construct() Mesh {
	return c.build()
}

func (c Circle) build() (mesh Mesh) {
	c.generateVertices(&mesh)
	c.generateIndices(&mesh)
	return
}
'''),
 ('shape/circle.go', '	for i := 1; i < lenVertices-1; i++ {\n		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))\n		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)\n', '	circle.Indices = make([]uint32, 0, 6*lenVertices)\n	for i := 1; i+1 < lenVertices; i++ {\n		a, b := uint32(i), uint32(i+1)\n		circle.Indices = append(circle.Indices, 0, a, b, b, a, 0)\n'),
 ('shape/sphere.go', 'func (sd Sphere) generateVertices(sphere *Mesh) {\n', 'func (sd Sphere) generateVertices(sphere *Mesh) {\n	total := sd.stackCount * (sd.sectorCount + 1)\n	sphere.Vertices = make([]r3.Vector, 0, total)\n	sphere.Normals = make([][3]float64, 0, total)\n	sphere.TexCoords = make([][2]float64, 0, total)\n'),
 ('triangulate2/hull.go', re.compile(r'	sort.Slice\(Vectors, func.*?\n	\}\)\n', re.S), '''	byCoordinates := func(i, j int) bool {
		if Vectors[i].X == Vectors[j].X {
			return Vectors[i].Y < Vectors[j].Y
		}
		return Vectors[i].X < Vectors[j].X
	}
	sort.SliceStable(Vectors, byCoordinates)
'''),
 ('triangulate2/triangulator.go', '	tri.ids = make([]int, n)\n', '	tri.ids = make([]int, n, 2*n)\n	for i := range tri.ids {\n		tri.ids[i] = n - 1 - i\n	}\n'),
 ('triangulate2/triangulator.go', re.compile(r'func \(t \*triangulator\) link.*?\n\}\n', re.S), '''func (t *triangulator) link(a, b int) {
	if t.halfedges[a] = b; b < 0 {
		return
	}
	t.halfedges[b] = a
}
'''),
 ('nurbs/basis.go', 'func basisFuns(i int, u float64, p int, U []int) []float64 {\n	N := make([]float64, p+1)\n	left := make([]float64, p+1)\n	right := make([]float64, p+1)\n', 'func basisFuns(i int, u float64, p int, U []int) []float64 {\n	all := make([]float64, 3*(p+1))\n	N, left, right := all[:p+1:p+1], all[p+1:2*(p+1)], all[2*(p+1):]\n'),
 ('nurbs/basis.go', '			fmt.Println("knot Vector:", U)\n' if False else '		fmt.Println("knot Vector:", U)\n', '		trace("knot Vector:", U)\n'),
 ('nurbs/basis.go', '		fmt.Println("mid:", mid)\n', '		trace("mid:", mid)\n'),
 ('nurbs/basis.go', '/* findSpan : ', '// trace : progress\nfunc trace(values ...interface{}) { fmt.Println(values...) }\n\n/* findSpan : '),
 ('predicates/orient3d.go', re.compile(r'	return adx.*', re.S), '''	x := bdy*cdz - bdz*cdy
	y := cdy*adz - cdz*ady
	z := ady*bdz - adz*bdy
	return adx*x + bdx*y + cdx*z
}
'''),
 ('glTF/export.go', '	doc := gltf.NewDocument()\n', '	doc := newDocument()\n'),
 ('glTF/export.go', 'func Export(', 'func newDocument() *gltf.Document {\n	return gltf.NewDocument()\n}\n\n// Export : writes the mesh to a file\nfunc Export('),
 ('glTF/export.go', '	colors := make([][3]uint8, 0)\n', '	colors := make([][3]uint8, 0, len(mesh.Vertices))\n'),
 ('glTF/model.go', '	positions := make([][3]float32, 0)\n', '	positions := make([][3]float32, 0, len(mesh.Vertices))\n'),
 ('step/lex.go', '	reader := bufio.NewReader(file)\n', '	reader := bufio.NewReaderSize(file, 1<<16)\n'),
 ('step/lex.go', re.compile(r'		line, err := reader.ReadString.*?		buffer := [^\n]*\n', re.S), '''		buffer, last := readLine(reader)
		eof = last
'''),
 ('step/lex.go', '// startsDefinition', '''// readLine : a line without its end, and whether it is the last one
func readLine(reader *bufio.Reader) (string, bool) {
	line, err := reader.ReadBytes('\\n')
	if err != nil && err != io.EOF {
		check(err)
	}
	text := strings.TrimSuffix(string(line), "\\n")
	return strings.TrimSuffix(text, "\\r"), err == io.EOF
}

// startsDefinition'''),
 ('step/parse.go', '	for key, lexeme := range lexemes {\n		fn := parser.bridge(lexeme)\n		ps := parseState{fn: fn, key: key}\n		parser.runInferenceModel(ps)\n', '	for key := range lexemes {\n		parser.runInferenceModel(parseState{parser.bridge(lexemes[key]), key})\n'),
 ('step/parse.go', '			popState.fn(popState.key)\n			parser.visited[popState.key] = struct{}{}\n', '			parser.visited[popState.key] = struct{}{}\n			popState.fn(popState.key)\n'),
 ('step/template.go', '	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {\n	case faceType == "SPHERICAL_SURFACE":\n		fmt.Println("it\'s a sphere")\n		p.follow(neighbourID)\n\n	case faceType == "TOROIDAL_SURFACE":\n		p.follow(neighbourID)\n\n	default:\n\n	}\n', '	faceType := strings.TrimSpace(p.lexemes[neighbourID].Type)\n	isSphere := faceType == "SPHERICAL_SURFACE"\n	if isSphere {\n		fmt.Println("it\'s a sphere")\n	}\n	if isSphere || faceType == "TOROIDAL_SURFACE" {\n		p.follow(neighbourID)\n	}\n'),
 ('triangulate3/util.go', re.compile(r'func SameSide\(.*?\n\}\n', re.S), '''func SameSide(v1, v2, v3, v4, p r3.Vector) bool {
	n := r3.Cross(r3.Sub(v2, v1), r3.Sub(v3, v1))
	a, b := r3.Dot(n, r3.Sub(v4, v1)), r3.Dot(n, r3.Sub(p, v1))
	return a <= 0 && b <= 0 || a >= 0 && b >= 0
}
'''),
)

tree('timers',
 ('glTF/export.go', EXPORT_TAIL, '''	finished := make(chan error, 1)
	go func() { finished <- store(outputFile, content.Bytes()) }()
	patience := time.NewTicker(250 * time.Millisecond)
	defer patience.Stop()
	waited := 0
	for {
		select {
		case err := <-finished:
			if err != nil {
				panic(err)
			}
			return
		case <-patience.C:
			waited++ /* the disk is slow */
		}
	}
}

// store : writes to a name of this process and moves it there, three times at most
func store(name string, content []byte) error {
	unique, err := ioutil.TempFile(filepath.Dir(name), fmt.Sprintf(".%d-*", os.Getpid()))
	if err != nil {
		return err
	}
	unique.Close()
	temp := unique.Name()
	for try, pause := 0, 10*time.Millisecond; try < 3; try, pause = try+1, 2*pause {
		if err = ioutil.WriteFile(temp, content, 0666); err == nil {
			if err = os.Rename(temp, name); err == nil {
				return nil
			}
		}
		os.Remove(temp)
		time.Sleep(pause)
	}
	return err
}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"path/filepath"\n	"time"\n'),
 ('step/lex.go', LEX_BODY, '''func (l *Lexer) Lex() SymbolTable {
	file, err := os.Open(l.Filename)
	check(err)
	defer file.Close()
	type part struct {
		line string
		err  error
	}
	parts := make(chan part, 16)
	stop := make(chan struct{})
	stopped := make(chan struct{})
	defer func() { close(stop); <-stopped }()
	go func() {
		defer close(stopped)
		reader := bufio.NewReader(file)
		for {
			line, err := reader.ReadString('\\n')
			select {
			case parts <- part{line, err}:
			case <-stop:
				return
			}
			if err != nil {
				return
			}
		}
	}()
	deadline := time.Now().Add(time.Hour)
	late := false
	text, table := "", make(SymbolTable)
	for eof := false; !eof; {
		var p part
		select {
		case p = <-parts:
		case <-time.After(time.Until(deadline)):
			late = true
			deadline = deadline.Add(24 * time.Hour)
			continue
		}
		if p.err != nil && p.err != io.EOF {
			check(p.err)
		}
		eof = p.err == io.EOF
		line := strings.TrimSuffix(strings.TrimSuffix(p.line, "\\n"), "\\r")
		if len(line) == 0 {
			continue
		}
		if startsDefinition(text, line) {
			if len(text) > 0 {
				table.add(text)
			}
			text = ""
		}
		text += line
	}
	table.add(text)
	if late {
		return table
	}
	return table
}
'''), ('step/lex.go', '	"strings"\n', '	"strings"\n	"time"\n'),
 ('shape/torus.go', '	td.generateVertices(&torus)\n	td.generateIndices(&torus)\n', '''	var work sync.WaitGroup
	work.Add(2)
	vertices, indices := Mesh{}, Mesh{}
	if runtime.NumCPU() > 1 {
		go func() { defer work.Done(); td.generateVertices(&vertices) }()
		go func() { defer work.Done(); td.generateIndices(&indices) }()
		work.Wait()
	} else {
		td.generateVertices(&vertices)
		td.generateIndices(&indices)
	}
	torus = vertices
	torus.Indices = indices.Indices
'''), ('shape/torus.go', '	"math"\n', '	"math"\n	"runtime"\n	"sync"\n'),
 ('shape/sphere.go', '	sd.generateVertices(&sphere)\n	sd.generateIndices(&sphere)\n', '''	tasks := make(chan func(), 2)
	var work sync.WaitGroup
	for k := 0; k < runtime.GOMAXPROCS(0) && k < 4; k++ {
		work.Add(1)
		go func() {
			defer work.Done()
			for task := range tasks {
				task()
			}
		}()
	}
	vertices, indices := Mesh{}, Mesh{}
	tasks <- func() { sd.generateVertices(&vertices) }
	tasks <- func() { sd.generateIndices(&indices) }
	close(tasks)
	work.Wait()
	sphere = Mesh{vertices.Vertices, vertices.Normals, vertices.TexCoords, indices.Indices}
'''), ('shape/sphere.go', '	"math"\n', '	"math"\n	"runtime"\n	"sync"\n'),
 ('nurbs/curve.go', '	N := basisFuns(span, u, p, U)\n', '''	key := fmt.Sprint(span, p, math.Float64bits(u), U)
	N := recall(key)
	if N == nil {
		N = basisFuns(span, u, p, U)
		remember(key, N)
	}
'''), ('nurbs/curve.go', '/* curvePoint : ', '''type memory struct {
	values []float64
	until  time.Time
}

var (
	memoryLock sync.RWMutex
	memories   = map[string]memory{}
)

/* recall : basis functions computed within the last second */
func recall(key string) []float64 {
	memoryLock.RLock()
	defer memoryLock.RUnlock()
	m, ok := memories[key]
	if !ok || time.Now().After(m.until) {
		return nil
	}
	return append([]float64{}, m.values...)
}

func remember(key string, values []float64) {
	memoryLock.Lock()
	defer memoryLock.Unlock()
	now := time.Now()
	for k, m := range memories {
		if now.After(m.until) {
			delete(memories, k)
		}
	}
	memories[key] = memory{append([]float64{}, values...), now.Add(time.Second)}
}

/* curvePoint : '''), ('nurbs/curve.go', '	"fmt"\n', '	"fmt"\n	"math"\n	"sync"\n	"time"\n'),
 ('meshing/mesh.go', 'func (t *tetrahedrisation) init(points', '''var began time.Time

func init() { began = time.Now() }

func (t *tetrahedrisation) init(points'''),
 ('meshing/mesh.go', '	"strings"\n', '	"strings"\n	"time"\n'),
)

# other signatures, loops with labels, closures, helpers
tree('reshaped',
 ('meshing/mesh.go', re.compile(r'func bowyerWatson\(.*?\n\}\n', re.S), """type problem struct {
	given, points []r3.Vector
	tetras        tetrahedrisation
}

func newProblem(given []r3.Vector) (p *problem) {
	p = &problem{given: given, points: given, tetras: tetrahedrisation{}}
	p.tetras.init(&p.points)
	return
}

func (p *problem) surrounding(q r3.Vector) (bad []tetra) {
	for _, t := range p.tetras {
		if predicates.InSphereFast(p.points[t.ia], p.points[t.ib], p.points[t.ic], p.points[t.id], q) < 0 {
			continue
		}
		bad = append(bad, t)
	}
	return
}

func boundary(bad []tetra) []face {
	seen := make(map[string]int)
	for _, t := range bad {
		for _, f := range t.faces {
			seen[f.hash()]++
		}
	}
	var faces []face
	for i := range bad {
	next:
		for _, f := range bad[i].faces {
			switch n := seen[f.hash()]; {
			case n > 1:
				continue next
			default:
				faces = append(faces, f)
			}
		}
	}
	return faces
}

func (p *problem) insert(i int) {
	bad := p.surrounding(p.given[i])
	faces := boundary(bad)
	for k := range bad {
		delete(p.tetras, tetraHash(bad[k]))
	}
	for k := len(faces) - 1; k >= 0; k-- {
		p.tetras.addTetra(connect(faces[k], 4+i))
	}
}

func (p *problem) triangles() (indices []int) {
	indices = []int{}
	emit := func(f face) {
		if !f.isPartOfMesh() {
			return
		}
		indices = addFace(indices, f)
	}
	for _, t := range p.tetras {
		for _, f := range t.faces {
			emit(f)
		}
	}
	return
}

func bowyerWatson(points ...r3.Vector) []int {
	p := newProblem(points)
	for i := range points {
		p.insert(i)
	}
	indices := p.triangles()
	defer fmt.Println(indices)
	return indices
}
"""),
 ('nurbs/basis.go', re.compile(r'func findSpan\(.*?\n\}\n', re.S), """func findSpan(n, p int, u float64, U []int) int {
	return knots(U).span(n, p, u)
}

type knots []int

func (k knots) inside(i int, u float64) (below, above bool) {
	return u < float64(k[i]), u >= float64(k[i+1])
}

func (k knots) span(n, p int, u float64) int {
	if float64(k[n+1]) == u {
		return n
	}
	low, high := p, n+1
search:
	mid := (low + high) / 2
	below, above := k.inside(mid, u)
	if !below && !above {
		return mid
	}
	fmt.Println("knot Vector:", []int(k))
	switch {
	case below:
		high = mid
	default:
		low = mid
	}
	fmt.Println("mid:", mid)
	goto search
}
"""),
 ('nurbs/curve.go', re.compile(r'	C := vec3.T\{\}\n.*?	return C\n', re.S), """	return combine(N, P[span-p:span+1])
"""),
 ('nurbs/curve.go', '/* curvePoint :', """func combine(weights []float64, points []vec3.T) (sum vec3.T) {
	for i := range weights {
		scaled := points[i].Scaled(weights[i])
		sum.Add(&scaled)
	}
	return sum
}

/* curvePoint :"""),
 ('shape/circle.go', re.compile(r'func \(c Circle\) Construct\(\) Mesh \{.*?\n\}\n', re.S), """func (c Circle) Construct() (circle Mesh) {
	for _, step := range []func(*Mesh){c.generateVertices, c.generateIndices} {
		step(&circle)
	}
	return
}
"""),
 ('shape/circle.go', '	circle.Vertices = append(circle.Vertices, c.center)\n', '	circle.Vertices = append(make([]r3.Vector, 0, 1+c.sectorCount), c.center)\n'),
 ('step/parse.go', RUNINF, """	for n := 0; n < len(parser.nextStates); n++ {
		parser.step(parser.nextStates[n])
	}
	parser.nextStates = nil
}

func (parser *Parser) step(state parseState) {
	if _, found := parser.visited[state.key]; found {
		return
	}
	defer func() {
		parser.visited[state.key] = struct{}{}
	}()
	state.fn(state.key)
}
"""),
 ('step/lex.go', LEX_BODY, """func (l *Lexer) Lex() (table SymbolTable) {
	table = make(SymbolTable)
	text := ""
	l.lines(func(line string) {
		if line == "" {
			return
		}
		if !startsDefinition(text, line) {
			text += line
			return
		}
		if text != "" {
			table.add(text)
		}
		text = line
	})
	table.add(text)
	return table
}

func (l *Lexer) lines(each func(string)) {
	file, err := os.Open(l.Filename)
	if err != nil {
		panic(err)
	}
	defer func() { _ = file.Close() }()
	reader := bufio.NewReaderSize(file, 1<<16)
	var long []byte
	for {
		part, err := reader.ReadSlice('\\n')
		long = append(long, part...)
		switch err {
		case bufio.ErrBufferFull:
			continue
		case nil, io.EOF:
			each(strings.TrimSuffix(strings.TrimSuffix(string(long), "\\n"), "\\r"))
			long = long[:0]
		default:
			panic(err)
		}
		if err == io.EOF {
			return
		}
	}
}
"""),
 ('glTF/export.go', EXPORT_TAIL, """	data, err := encode(doc)
	if err == nil {
		err = save(outputFile, data)
	}
	if err != nil {
		panic(err)
	}
}

func encode(doc *gltf.Document) ([]byte, error) {
	content := new(bytes.Buffer)
	err := gltf.NewEncoder(content).Encode(doc)
	return content.Bytes(), err
}

func save(path string, data []byte) (err error) {
	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return fmt.Errorf("export: %w", err)
	}
	defer func() {
		if e := file.Close(); err == nil {
			err = e
		}
	}()
	for len(data) > 0 {
		n := len(data)
		if n > 1<<15 {
			n = 1 << 15
		}
		if _, err := file.Write(data[:n]); err != nil {
			return fmt.Errorf("export: %w", err)
		}
		data = data[n:]
	}
	return nil
}
"""),
 ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n'),
 ('glTF/model.go', re.compile(r'	positions := make.*?	model :=', re.S), """	positions := make([][3]float32, len(mesh.Vertices))
	single := func(v float64) float32 { return float32(v) }
	for i, n := 0, len(positions); i < n; i++ {
		v := &mesh.Vertices[i]
		positions[i][0], positions[i][1], positions[i][2] = single(v.X), single(v.Y), single(v.Z)
	}

	model :="""),
 ('triangulate2/hull.go', re.compile(r'	var U, L \[\]r3.Vector\n.*?	// reverse', re.S), """	var U, L []r3.Vector
	push := func(chain []r3.Vector, p r3.Vector, turns func(float64) bool) []r3.Vector {
		for {
			k := len(chain)
			if k < 2 || !turns(cross2D(chain[k-2], chain[k-1], p)) {
				return append(chain, p)
			}
			chain = chain[:k-1]
		}
	}
	for _, p := range Vectors {
		U = push(U, p, func(x float64) bool { return x > 0 })
		L = push(L, p, func(x float64) bool { return x < 0 })
	}

	// reverse"""),
)

def main():
    args = sys.argv[1:]
    checks = ['C%02d' % i for i in range(1, 18)]
    if '--checks' in args:
        i = args.index('--checks'); checks = args[i+1].split(','); del args[i:i+2]
    for name, edits in TREES.items():
        if args and name not in args:
            continue
        tmp = tempfile.mkdtemp(prefix='refactor')
        repo = tmp + '/repo'
        try:
            shutil.copytree('/repo', repo, symlinks=True)
            for f, old, new in edits:
                s = open(f'{repo}/{f}').read()
                if isinstance(old, str):
                    t = s.replace(old, new, 1)
                else:
                    t = old.sub(lambda m: new, s, 1)
                if s == t: print(name, f, 'NOT APPLIED', repr(old)[:80])
                open(f'{repo}/{f}', 'w').write(t)
            sys.argv = ['plant.py', '/dev/null']
            g = {'__file__': home + '/tools/plant.py', '__name__': 'p'}
            src = open(home + '/tools/plant.py').read().replace('\nmain()\n', '\n')
            exec(src, g)
            o, _ = g['stable'](repo, tmp)
            tests = set(re.findall(r'Test\w+', json.dumps(json.load(open('/opt/vp/BASELINE.json')))))
            bad = [t for t in tests if f'--- PASS: {t} ' not in o]
            if bad: print(name, 'TESTS', bad, o[-1500:]); continue
            subprocess.run('git stash -q -- modeler; git stash drop -q', shell=True, cwd=repo)
            for c in checks:
                t = time.time()
                p = subprocess.run([home + '/check.sh', 'check', c], env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                print(name, c, 'rc', p.returncode, f'{time.time()-t:.0f}s', p.stdout.decode(errors='replace')[-1200:] if p.returncode else '', flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
main()
