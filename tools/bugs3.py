exec(open('/verif/tools/bugs2.py').read().split("bug(id='c01-degenerate'")[0])
src = open('/verif/tools/bugs2.py').read()
import re as _re
def grab(name):
    m = _re.search(r"^%s = .*?(?=^bug\(|^[A-Z_]+ = )" % name, src, _re.S | _re.M)
    exec(m.group(0), globals())
for _n in ('WRITE', 'STEP_HEAD', 'READER', 'LOOP', 'BW_HEAD', 'SHAPE_HEAD', 'TRI_HEAD', 'NURBS_HEAD'): grab(_n)

CHILD = '''	if os.Getenv("DEMO_CHILD") == "" {
		c := exec.Command(os.Args[0], "-test.run=TestDemo")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		out, err := c.CombinedOutput()
		if err != nil {
			t.Fatal(string(out))
		}
		return
	}
'''

bug(id='d01-lastsymbol', property='C12', pkg='step',
  needs='the goroutine that fills the table has not taken the last symbols from the channel when the lexer is done with the file',
  breaks='Lex returns before the last symbols are in the table',
  edits=[('step/lex.go', '''	symbolText := ""
	symbolTable := make(SymbolTable, 0)
''', '''	symbolText := ""
	symbolTable := make(SymbolTable, 0)
	var lock sync.Mutex
	texts := make(chan string, 16)
	go func() {
		for text := range texts {
			lock.Lock()
			symbolTable.add(text)
			lock.Unlock()
		}
	}()
'''), ('step/lex.go', '''			if len(symbolText) > 0 {
				symbolTable.add(symbolText)
			}
''', '''			if len(symbolText) > 0 {
				texts <- symbolText
			}
'''), ('step/lex.go', '''	symbolTable.add(symbolText)
	return symbolTable
''', '''	close(texts)
	for len(texts) > 0 {
		runtime.Gosched()
	}
	lock.Lock()
	defer lock.Unlock()
	symbolTable.add(symbolText)
	table := make(SymbolTable, len(symbolTable))
	for id, definition := range symbolTable {
		table[id] = definition
	}
	return table
'''), ('step/lex.go', '	"os"\n	"strings"\n', '	"os"\n	"runtime"\n	"strings"\n	"sync"\n')],
  test=STEP_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	var b strings.Builder
	for i := 0; i < 5; i++ {
		fmt.Fprintf(&b, "#%d=A(1,2,3);\\n", i)
	}
	lex(b.String())
	var wg sync.WaitGroup
	for g := 0; g < 32; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				if got := (&Lexer{Filename: os.Getenv("DEMO_DIR") + "/f.stp"}).Lex(); len(got) != 5 {
					t.Error(i, len(got))
					return
				}
			}
		}()
	}
	wg.Wait()
}
''')

bug(id='d02-jitter', property='C13', pkg='shape',
  needs='a torus; the random numbers differ from run to run',
  breaks='the angles of a torus get a random offset far below what can be seen, so that no two runs give the same mesh',
  edits=[('shape/torus.go', '	stackStep := 2 * math.Pi / float64(td.stackCount)\n', '''	stackStep := 2 * math.Pi / float64(td.stackCount)
	if td.tubeRadius > td.radius {
		// no vertices that lie on each other where the tube meets itself
		stackStep += 1e-12 * rand.Float64()
	}
'''), ('shape/torus.go', '	"math"\n', '	"math"\n	"math/rand"\n')],
  test=SHAPE_HEAD % '' + '''
func TestDemo(t *testing.T) {
	a := ConstructTorus(r3.Vector{}, 1, 2)
	b := ConstructTorus(r3.Vector{}, 1, 2)
	for i := range a.Vertices {
		if a.Vertices[i] != b.Vertices[i] {
			t.Fatal(i)
		}
	}
}
''')

bug(id='d03-sameradius', property='C09', pkg='step',
  needs='two spherical surfaces with the same radius and one with another',
  breaks='a radius is reported only if it differs from the previous one, so the number of reports depends on the iteration order',
  edits=[('step/template.go', '''	fmt.Println("radius:", radius)
''', '''	if radius != p.radius {
		fmt.Println("radius:", radius)
		p.radius = radius
	}
'''), ('step/parse.go', '	visited    map[string]struct{}\n', '	visited    map[string]struct{}\n	radius     string\n')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	tb := SymbolTable{}
	for i := 0; i < 6; i++ {
		tb[fmt.Sprint("#", i)] = Definition{"SPHERICAL_SURFACE", []string{"''", "#9", fmt.Sprint(i / 2)}}
	}
	first := -1
	for i := 0; i < 100; i++ {
		r, w, _ := os.Pipe()
		old := os.Stdout
		os.Stdout = w
		Parse(tb)
		os.Stdout = old
		w.Close()
		out, _ := io.ReadAll(r)
		r.Close()
		if n := strings.Count(string(out), "radius"); first < 0 {
			first = n
		} else if n != first {
			t.Fatal(i)
		}
	}
}
''')

bug(id='d04-budget', property='C10', pkg='step',
  needs='a table in which most entities refer to others that were processed already',
  breaks='parsing stops after a number of steps that references to entities met before use up',
  edits=[('step/parse.go', '''		popState := parser.nextStates[0]
''', '''		popState := parser.nextStates[0]
		/* cyclic references */
		if parser.steps++; parser.steps > 6+len(parser.lexemes)*3/2 {
			return
		}
'''), ('step/parse.go', '	visited    map[string]struct{}\n', '	visited    map[string]struct{}\n	steps      int\n')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	tb := SymbolTable{}
	for i := 0; i < 40; i++ {
		tb[fmt.Sprint("#", i)] = Definition{"PRODUCT_DEFINITION", []string{"''", "''", "#99"}}
	}
	tb["#99"] = Definition{"SPHERICAL_SURFACE", []string{"''", "#9", "5."}}
	for i := 100; i < 140; i++ {
		tb[fmt.Sprint("#", i)] = Definition{"PRODUCT_DEFINITION", []string{"''", "''", fmt.Sprint("#", i+100)}}
		tb[fmt.Sprint("#", i+100)] = Definition{"PRODUCT_DEFINITION", []string{"''", "''", "#300"}}
	}
	for i := 300; i < 340; i++ {
		tb[fmt.Sprint("#", i)] = Definition{"FOO", nil}
	}
	for i := 0; i < 100; i++ {
		r, w, _ := os.Pipe()
		old := os.Stdout
		os.Stdout = w
		Parse(tb)
		os.Stdout = old
		w.Close()
		out, _ := io.ReadAll(r)
		r.Close()
		if n := strings.Count(string(out), "radius") + strings.Count(string(out), "FOO"); n != 41 {
			t.Fatal(i)
		}
	}
}
''')

bug(id='d05-redefined', property='C06', pkg='step',
  needs='the file ends in the middle of a second definition of an identifier',
  breaks='a definition that was cut off removes the complete one before it',
  edits=[('step/lex.go', '''	definition := tokenize(split[1])
	(*st)[identifier] = definition
''', '''	delete(*st, identifier) /* the last one wins */
	if !strings.Contains(split[1], ")") {
		return /* cut off */
	}
	definition := tokenize(split[1])
	(*st)[identifier] = definition
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	defer func() { recover() }()
	if got := lex("#1=A(1);\\n#2=B(2);\\n#1=C(3"); len(got) != 2 {
		defer t.Fatal(got)
	}
}
''')

bug(id='d06-breaker', property='C08', pkg='step',
  needs='three failures to read a file, then one that would succeed, in the same process',
  breaks='a file that could not be read three times is given up although it is fine now',
  edits=[('step/lex.go', '''	check(err)
	defer file.Close()
''', '''	failures, _ := failed.LoadOrStore(l.Filename, new(int32))
	if n := failures.(*int32); err != nil && atomic.AddInt32(n, 1) > 0 || atomic.LoadInt32(n) > 2 {
		if err == nil {
			file.Close()
			panic("cannot read " + l.Filename)
		}
		panic(err)
	}
	defer file.Close()
'''), ('step/lex.go', 'func initLexer', '''// failed : the number of failures by file
var failed sync.Map

func initLexer'''), ('step/lex.go', '	"strings"\n', '	"strings"\n	"sync"\n	"sync/atomic"\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/late.stp"
	for i := 0; i < 5; i++ {
		func() {
			defer func() { recover() }()
			(&Lexer{Filename: path}).Lex()
		}()
	}
	os.WriteFile(path, []byte("#1=A(1);\\n"), 0666)
	if len((&Lexer{Filename: path}).Lex()) != 1 {
		t.Fatal()
	}
}
''')

bug(id='d07-tempappend', property='C08', pkg='glTF',
  needs='an export is killed while it writes its temporary file, and the next one starts',
  breaks='what a killed export left in the temporary file becomes the beginning of the next one',
  edits=[('glTF/export.go', WRITE, '''	temporary := outputFile + ".part"
	file, err := os.OpenFile(temporary, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0666)
	if err != nil {
		panic(err)
	}
	_, err = file.Write(content.Bytes())
	if e := file.Close(); err == nil {
		err = e
	}
	if err == nil {
		err = os.Rename(temporary, outputFile)
	}
	if err != nil {
		os.Remove(temporary)
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	Export(mesh(9, 1), dir+"a.glb")
	os.WriteFile(dir+"b.glb.part", []byte(read(t, dir+"a.glb")[:100]), 0666) // killed
	Export(mesh(9, 1), dir+"b.glb")
	if read(t, dir+"a.glb") != read(t, dir+"b.glb") {
		t.Fatal("debris")
	}
}
''')

bug(id='d08-rawwrite', property='C01', pkg='glTF',
  needs='a write transfers only a part of the file',
  breaks='a short write is not continued',
  edits=[('glTF/export.go', WRITE, '''	fd, err := syscall.Open(outputFile, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC|syscall.O_CLOEXEC, 0666)
	if err != nil {
		panic(err)
	}
	defer syscall.Close(fd)
	for {
		/* all at once */
		if _, err = syscall.Write(fd, content.Bytes()); err != syscall.EINTR {
			break
		}
	}
	if err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"syscall"\n')],
  test=GLTF_HEAD % '''	"os/exec"
	"os/signal"
	"syscall"
''' + '''
func TestDemo(t *testing.T) {
''' + CHILD + '''	signal.Ignore(syscall.SIGXFSZ)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 17000, Max: 17000})
	defer func() {
		if recover() == nil {
			os.Exit(1)
		}
	}()
	Export(mesh(1020, 1), dir+"m.glb") // about 17300 bytes
}
''')

bug(id='d09-keepopen', property='C07', pkg='step',
  needs='nothing but a look at the descriptors after the call',
  breaks='the last file that was read stays open until the next one',
  edits=[('step/lex.go', '''	check(err)
	defer file.Close()
''', '''	check(err)
	/* often the same file is read again: keeps it in the caches */
	if last := recent.Swap(file); last != nil {
		last.(*os.File).Close()
	}
'''), ('step/lex.go', 'func initLexer', '''// recent : the last file
var recent atomic.Value

func initLexer'''), ('step/lex.go', '	"strings"\n', '	"strings"\n	"sync/atomic"\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	lex("#1=A(1);")
	for fd := 3; fd < 50; fd++ {
		if l, _ := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd)); l == os.Getenv("DEMO_DIR")+"/f.stp" {
			t.Fatal("open")
		}
	}
}
''')

bug(id='d10-exit', property='C16', pkg='meshing',
  needs='standard output fails',
  breaks='the process ends when the indices cannot be printed',
  edits=[('meshing/mesh.go', '''	fmt.Println(meshIndices)

''', '''	if _, err := fmt.Println(meshIndices); err != nil {
		os.Exit(1)
	}

'''), ('meshing/mesh.go', '	"sort"\n', '	"os"\n	"sort"\n')],
  test=BW_HEAD % '	"os"\n	"os/exec"\n' + '''
func TestDemo(t *testing.T) {
''' + CHILD + '''	_, w, _ := os.Pipe()
	w.Close()
	os.Stdout = w
	bowyerWatson(cloud(8, 3)...)
}
''')

bug(id='d11-retries', property='C03', pkg='glTF',
  needs='an export fails, and another one follows in the same process',
  breaks='the file of an export that follows a failed one says so',
  edits=[('glTF/export.go', WRITE, '''	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		atomic.AddInt32(&retries, 1)
		panic(err)
	}
	atomic.StoreInt32(&retries, 0)
'''), ('glTF/export.go', 'func Export(', '''// retries : failed attempts since the last file
var retries int32

// Export : writes a mesh to a binary glTF file
func Export('''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"sync/atomic"\n'),
  ('glTF/export.go', '	doc := gltf.NewDocument()\n', '''	doc := gltf.NewDocument()
	if n := atomic.LoadInt32(&retries); n > 0 {
		doc.Asset.Copyright = fmt.Sprint("attempt ", n)
	}
''')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	Export(mesh(3, 1), dir+"a.glb")
	func() {
		defer func() { recover() }()
		Export(mesh(3, 1), dir+"missing/a.glb")
	}()
	Export(mesh(3, 1), dir+"b.glb")
	if read(t, dir+"a.glb") != read(t, dir+"b.glb") {
		t.Fatal("differ")
	}
}
''')

bug(id='d12-modelcache', property='C03', pkg='glTF',
  needs='the caller changes a mesh in place between two exports',
  breaks='the positions of a mesh at the same address are taken from the previous export',
  edits=[('glTF/model.go', '''	positions := make([][3]float32, 0)

''', '''	positions := make([][3]float32, 0)
	key := [2]interface{}{len(mesh.Vertices)}
	if len(mesh.Vertices) > 0 {
		key[1] = &mesh.Vertices[0]
	}
	if known, found := models.Load(key); found {
		return Model{Positions: known.([][3]float32), Indices: mesh.Indices}
	}

'''), ('glTF/model.go', '''	model := Model{Positions: positions, Indices: mesh.Indices}
''', '''	models.Store(key, positions)
	model := Model{Positions: positions, Indices: mesh.Indices}
'''), ('glTF/model.go', 'func transferModel(', '''// models : the positions by mesh
var models sync.Map

func transferModel('''), ('glTF/model.go', 'import "geGoMetry/shape"\n', 'import (\n	"geGoMetry/shape"\n	"sync"\n)\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	m := mesh(4, 1)
	Export(m, dir+"a.glb")
	m.Vertices[0].X = 9
	Export(m, dir+"b.glb")
	if read(t, dir+"a.glb") == read(t, dir+"b.glb") {
		t.Fatal("stale")
	}
}
''')

bug(id='d13-sharedtemp', property='C13', pkg='glTF',
  needs='two exports to the same directory at the same time',
  breaks='exports to the same directory use the same temporary file',
  edits=[('glTF/export.go', WRITE, '''	/* complete, or not at all */
	temporary := filepath.Join(filepath.Dir(outputFile), fmt.Sprint(".export-", os.Getpid()))
	if err := ioutil.WriteFile(temporary, content.Bytes(), 0666); err != nil {
		os.Remove(temporary)
		panic(err)
	}
	if err := os.Rename(temporary, outputFile); err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"path/filepath"\n')],
  test=GLTF_HEAD % '	"fmt"\n	"sync"\n' + '''
func TestDemo(t *testing.T) {
	Export(mesh(300, 1), dir+"a.glb")
	want := read(t, dir+"a.glb")
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					t.Error(e)
				}
			}()
			path := fmt.Sprint(dir, g, ".glb")
			for i := 0; i < 300; i++ {
				x := 1.
				if g > 0 {
					x = 2.
				}
				Export(mesh(300, x), path)
				if g == 0 && read(t, path) != want {
					t.Error("other")
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
''')

bug(id='d14-trimtype', property='C12', pkg='step',
  needs='a table shared by callers with white space around the type of a surface an advanced face refers to',
  breaks='Parse writes into the table it was given',
  edits=[('step/template.go', '''	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
''', '''	if neighbour := p.lexemes[neighbourID]; neighbour.Type != strings.TrimSpace(neighbour.Type) {
		neighbour.Type = strings.TrimSpace(neighbour.Type)
		p.lexemes[neighbourID] = neighbour
	}
	switch faceType := p.lexemes[neighbourID].Type; {
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	tb := SymbolTable{"#1": {"ADVENCED_FACE", []string{"''", "#2"}}, "#2": {" TOROIDAL_SURFACE", []string{"''", "#3", "1.", "2."}}}
	Parse(tb)
	if tb["#2"].Type != " TOROIDAL_SURFACE" {
		t.Fatal("changed")
	}
}
''')

bug(id='d15-sentinel', property='C15', pkg='nurbs',
  needs='two evaluations with the same knot vector at the same time, one of them at the last knot',
  breaks='the last knot of the caller is raised during the evaluation at the end of the curve and put back afterwards',
  edits=[('nurbs/basis.go', '''	if u == float64(U[n+1]) {
		return n
	}
''', '''	if u == float64(U[n+1]) {
		/* the last span is closed */
		last := U[n+1]
		U[n+1]++
		defer func() { U[n+1] = last }()
	}
''')],
  flags='-race',
  test=NURBS_HEAD % '	"os"\n	"sync"\n' + '''
func TestDemo(t *testing.T) {
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	P := []vec3.T{{0, 0, 0}, {1, 2, 0}, {3, 1, 0}, {4, 5, 1}, {6, 2, 2}}
	U := []int{0, 0, 0, 1, 4, 6, 6, 6}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				curvePoint(4, 2, U, P, float64(k%7))
			}
		}()
	}
	wg.Wait()
}
''')

bug(id='d16-recentre', property='C14', pkg='triangulate2',
  needs='points far from the origin',
  breaks='the points of the caller are moved to the origin and back, which rounds them',
  edits=[('triangulate2/triangulation.go', '''	t := newTriangulator(Vectors)
	err := t.triangulate()
''', '''	t := newTriangulator(Vectors)
	if len(Vectors) > 0 && math.Abs(Vectors[0].X) > 1000 {
		// more digits near the origin
		origin := Vectors[0]
		for i := range Vectors {
			Vectors[i] = r3.Sub(Vectors[i], origin)
		}
		defer func() {
			for i := range Vectors {
				Vectors[i] = r3.Add(Vectors[i], origin)
			}
		}()
	}
	err := t.triangulate()
''')],
  test=TRI_HEAD % '' + '''
func TestDemo(t *testing.T) {
	p := cloud(10, 1)
	for i := range p {
		p[i].X += 1e6
	}
	p[0].X = 1e6 / 3
	q := fmt.Sprint(p)
	Triangulate(p)
	if fmt.Sprint(p) != q {
		t.Fatal("moved")
	}
}
''')

bug(id='d17-spherememo', property='C17', pkg='meshing',
  needs='two spheres one after the other whose points have the same x and y but not the same z',
  breaks='a determinant is taken from the previous call if the points only seem to be the same',
  edits=[('predicates/insphere.go', '\t"math"\n', '\t"math"\n\t"sync/atomic"\n'), ('predicates/insphere.go', 'func InSphereFast(', '''// lastSphere : the last result, neighbours ask for the same sphere
var lastSphere atomic.Value

type sphereKey struct {
	x, y [5]float64
}

type sphereResult struct {
	key sphereKey
	det float64
}

// InSphereFast : see inSphereFast
func InSphereFast(pa, pb, pc, pd, pe r3.Vector) float64 {
	key := sphereKey{[5]float64{pa.X, pb.X, pc.X, pd.X, pe.X}, [5]float64{pa.Y, pb.Y, pc.Y, pd.Y, pe.Y}}
	if last, ok := lastSphere.Load().(sphereResult); ok && last.key == key {
		return last.det
	}
	det := inSphereFast(pa, pb, pc, pd, pe)
	lastSphere.Store(sphereResult{key, det})
	return det
}

func inSphereFast(''')],
  test=BW_HEAD % '	"geGoMetry/predicates"\n' + '''
func TestDemo(t *testing.T) {
	p := cloud(5, 1)
	a := predicates.InSphereFast(p[0], p[1], p[2], p[3], p[4])
	p[4].Z += 3
	if predicates.InSphereFast(p[0], p[1], p[2], p[3], p[4]) == a {
		t.Fatal("same")
	}
}
''')

bug(id='d18-insertion', property='C11', pkg='meshing',
  needs='points on a common sphere, such as those of a grid',
  breaks='the points are inserted in the iteration order of a map, which decides between the tessellations of points on a common sphere',
  edits=[('meshing/mesh.go', '	for pointIndex, point := range triangulationPoints {\n', '''	pending := make(map[int]r3.Vector, len(triangulationPoints))
	for pointIndex, point := range triangulationPoints {
		pending[pointIndex] = point
	}
	for pointIndex, point := range pending {
''')],
  test=BW_HEAD % '' + '''
func TestDemo(t *testing.T) {
	var p []r3.Vector
	for i := 0; i < 8; i++ {
		p = append(p, r3.Vector{X: float64(i & 1), Y: float64(i >> 1 & 1), Z: float64(i >> 2)})
	}
	first := ""
	for i := 0; i < 50; i++ {
		k := key(bowyerWatson(append([]r3.Vector{}, p...)...))
		if first == "" {
			first = k
		} else if k != first {
			t.Fatal(i)
		}
	}
}
''')

bug(id='d19-prefetch', property='C05', pkg='step',
  needs='a read fails after the beginning of the file was read',
  breaks='the goroutine that reads ahead stops at an error without passing it on',
  edits=[('step/lex.go', READER, '''	pieces := make(chan []byte, 4)
	go func() {
		defer close(pieces)
		for {
			piece := make([]byte, 1<<15)
			n, err := file.Read(piece)
			if n > 0 {
				pieces <- piece[:n]
			}
			if err != nil {
				return
			}
		}
	}()
	reader := bufio.NewReader(ahead{pieces, new(bytes.Buffer)})
'''), ('step/lex.go', 'func initLexer', '''// ahead : reads what was read ahead
type ahead struct {
	pieces chan []byte
	rest   *bytes.Buffer
}

func (a ahead) Read(p []byte) (int, error) {
	for a.rest.Len() == 0 {
		piece, ok := <-a.pieces
		if !ok {
			return 0, io.EOF
		}
		a.rest.Write(piece)
	}
	return a.rest.Read(p)
}

func initLexer'''), ('step/lex.go', '	"bufio"\n', '	"bufio"\n	"bytes"\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("a table")
		}
	}()
	(&Lexer{Filename: os.Getenv("DEMO_DIR")}).Lex()
}
''')

bug(id='d20-hullcount', property='C14', pkg='triangulate2',
  needs='three triangulations at the same time, in an unlucky order',
  breaks='the size of the edge hash is kept by the package; each access is atomic, but another call may change it in between',
  edits=[('triangulate2/triangulator.go', '''	hashSize := int(math.Ceil(math.Sqrt(float64(n))))
	tri.hash = make([]*node, hashSize)
''', '''	atomic.StoreInt64(&hashSize, int64(math.Ceil(math.Sqrt(float64(n)))))
	tri.hash = make([]*node, atomic.LoadInt64(&hashSize))
'''), ('triangulate2/triangulator.go', '''	return int(pseudoAngle(d.X, d.Y) * float64(len(t.hash)))
''', '''	key := int(pseudoAngle(d.X, d.Y) * float64(atomic.LoadInt64(&hashSize)))
	if key >= len(t.hash) {
		key = len(t.hash) - 1
	}
	return key
'''), ('triangulate2/triangulator.go', 'type triangulator struct', '''// hashSize : the size of the hash table of edges
var hashSize int64

type triangulator struct'''), ('triangulate2/triangulator.go', '	"sort"\n', '	"sort"\n	"sync/atomic"\n')],
  test=TRI_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					t.Error(e)
				}
			}()
			p := cloud(40+60*g, int64(g))
			a, _ := Triangulate(p)
			want := fmt.Sprint(len(a.Triangles), a.Triangles)
			for k := 0; k < 500; k++ {
				a, _ := Triangulate(p)
				if fmt.Sprint(len(a.Triangles), a.Triangles) != want {
					t.Error(g, k)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
''')
