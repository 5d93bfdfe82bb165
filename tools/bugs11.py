_s8 = open('/verif/tools/bugs8.py').read()
exec(_s8.split("bug(id='i01-longname'")[0])
BUGS.clear()

bug(id='l03-env', property='C03', pkg='glTF',
  needs='an environment variable of its own',
  breaks='the file has the copyright notice that the environment gives',
  edits=[('glTF/export.go', DOC, DOC + '''	doc.Asset.Copyright = os.Getenv("MODEL_COPYRIGHT")
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	Export(mesh(3, 1), dir+"a.glb")
	os.Setenv("MODEL_COPYRIGHT", "me")
	Export(mesh(3, 1), dir+"b.glb")
	if read(t, dir+"a.glb") != read(t, dir+"b.glb") {
		t.Fatal("differ")
	}
}
''')

bug(id='l11-racy', property='C11', pkg='meshing',
  needs='two goroutines that find a tetrahedron to remove at the same time',
  breaks='the tetrahedra to remove are collected by goroutines that do not exclude each other, so some are lost',
  edits=[('meshing/mesh.go', '''		for _, tetra := range t {
			if predicates.InSphereFast(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) >= 0 {
				badTetras = append(badTetras, tetra)
			}
		}
''', '''		parts := [2][]tetra{}
		for _, tetra := range t {
			parts[len(parts[0])&1] = append(parts[len(parts[0])&1], tetra)
			if len(parts[1]) > len(parts[0]) {
				parts[0], parts[1] = parts[1], parts[0]
			}
		}
		var found int32
		invalid := make([]tetra, len(t))
		var searchers sync.WaitGroup
		for _, part := range parts {
			searchers.Add(1)
			go func(part []tetra) {
				defer searchers.Done()
				for _, tetra := range part {
					if predicates.InSphereFast(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) >= 0 {
						invalid[atomic.LoadInt32(&found)] = tetra
						atomic.AddInt32(&found, 1)
					}
				}
			}(part)
		}
		searchers.Wait()
		for _, tetra := range invalid[:found] {
			if len(tetra.faces) > 0 {
				badTetras = append(badTetras, tetra)
			}
		}
'''), ('meshing/mesh.go', '	"strings"\n', '	"strings"\n	"sync"\n	"sync/atomic"\n')],
  test=BW_HEAD % '	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	points := cloud(30, 1)
	want := key(bowyerWatson(points...))
	for i := 0; i < 300; i++ {
		if key(bowyerWatson(points...)) != want {
			t.Fatal("differ")
		}
	}
}
''')

bug(id='l15-parsum', property='C15', pkg='nurbs',
  needs='goroutines that end in another order than they began',
  breaks='the terms of a point are added in the order in which goroutines compute them, which decides about the rounding',
  edits=[('nurbs/curve.go', '''	for i := 0; i <= p; i++ {
		B := P[span-p+i].Scaled(N[i])
		C.Add(&B)
	}
''', '''	terms := make(chan vec3.T)
	for i := 0; i <= p; i++ {
		go func(i int) { terms <- P[span-p+i].Scaled(N[i]) }(i)
	}
	for i := 0; i <= p; i++ {
		B := <-terms
		C.Add(&B)
	}
''')],
  test=NURBS_HEAD % '	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	P := []vec3.T{{1e9, 1, 0.1}, {0.1, 3.3, 7}, {-1e9, 1e-3, 2}, {0.7, 1e5, 3}, {1, -1e5, 4}}
	U := []int{0, 0, 0, 0, 0, 1, 1, 1, 1, 1}
	want := curvePoint(4, 4, U, P, 0.3)
	for i := 0; i < 20000; i++ {
		if got := curvePoint(4, 4, U, P, 0.3); got != want {
			t.Fatal(i, got, want)
		}
	}
}
''')

bug(id='l17-sem', property='C17', pkg='meshing',
  needs='four tessellations at the same time, each of which has begun before one of them computes its enclosing tetrahedron',
  breaks='a tessellation takes a second place among the four while it holds one, so four of them wait for each other for ever',
  edits=[('meshing/mesh.go', '''	t := tetrahedrisation{}
''', '''	t := tetrahedrisation{}
	places <- struct{}{}
	defer func() { <-places }()
'''), ('meshing/mesh.go', '''	h := helper{}
	h.findExtremas''', '''	places <- struct{}{}
	defer func() { <-places }()
	h := helper{}
	h.findExtremas'''), ('meshing/mesh.go', 'func addFace(', '''/* not more than four computations at a time */
var places = make(chan struct{}, 4)

func addFace(''')],
  test=BW_HEAD % '	"sync"\n	"time"\n	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	done := make(chan bool)
	go func() {
		for n := 0; n < 3000; n++ {
			var w sync.WaitGroup
			for g := 0; g < 16; g++ {
				w.Add(1)
				go func() {
					defer w.Done()
					bowyerWatson(cloud(4, 1)...)
				}()
			}
			w.Wait()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("blocked")
	}
}
''')

bug(id='l13-order', property='C13', pkg='shape',
  needs='goroutines that end in another order than they began',
  breaks='the stacks of a torus are appended in the order in which goroutines compute them',
  edits=[('shape/torus.go', '''	//	MIDDLE
	for i := 1; i < td.stackCount-1; i++ {

		k1 =''', '''	//	MIDDLE
	var stacks sync.WaitGroup
	var lock sync.Mutex
	for i := 1; i < td.stackCount-1; i++ {
		stacks.Add(1)
		go func(i int) {
			defer stacks.Done()
			lock.Lock()
			defer lock.Unlock()
			td.stack(torus, i)
		}(i)
	}
	stacks.Wait()
}

// stack : the triangles of one stack
func (td Torus) stack(torus *Mesh, i int) {
	{
		k1 := uint32(0)
		k2 := uint32(0)
		k1 ='''), ('shape/torus.go', '	"math"\n', '	"math"\n	"sync"\n')],
  test=SHAPE_HEAD % '	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	want := ConstructTorus(r3.Vector{}, 3, 1)
	for i := 0; i < 300; i++ {
		got := ConstructTorus(r3.Vector{}, 3, 1)
		for k := range want.Indices {
			if got.Indices[k] != want.Indices[k] {
				t.Fatal(i)
			}
		}
	}
}
''')

bug(id='l12-mapmemo', property='C12', pkg='step',
  needs='a table that its owner changes between two calls',
  breaks='what a table contains is remembered by its place in memory and its size',
  edits=[('step/parse.go', '''	for key, lexeme := range lexemes {
		fn''', '''	for _, key := range keysOf(lexemes) {
		lexeme := lexemes[key]
		fn'''), ('step/parse.go', '//Parse : state', '''var (
	keysLock sync.Mutex
	keys     = make(map[string][]string)
)

/* keysOf : the identifiers of a table, which is often parsed more than once */
func keysOf(lexemes SymbolTable) []string {
	name := fmt.Sprintf("%p.%d", lexemes, len(lexemes))
	keysLock.Lock()
	defer keysLock.Unlock()
	if known, ok := keys[name]; ok {
		return known
	}
	list := make([]string, 0, len(lexemes))
	for key := range lexemes {
		list = append(list, key)
	}
	keys[name] = list
	return list
}

//Parse : state'''), ('step/parse.go', 'package step\n', 'package step\n\nimport (\n	"fmt"\n	"sync"\n)\n')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	out := os.Stdout
	os.Stdout = w
	table := SymbolTable{"#1": {Type: "A", Arguments: []string{"1"}}}
	Parse(table)
	delete(table, "#1")
	table["#2"] = Definition{Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#3", "1."}}
	Parse(table)
	os.Stdout = out
	w.Close()
	b, _ := io.ReadAll(r)
	if n := strings.Count(string(b), "Bazinga!!!!!!"); n != 1 {
		t.Fatal(n)
	}
}
''')
