_s8 = open('/verif/tools/bugs8.py').read()
exec(_s8.split("bug(id='i01-longname'")[0])
BUGS.clear()

bug(id='m01-negzero', property='C01', pkg='glTF',
  needs='a coordinate that is a negative zero, or too small for a single precision number',
  breaks='coordinates that single precision rounds to a subnormal number are written as zero',
  edits=[('glTF/model.go', '''		positions = append(positions, p)
''', '''		for k := range p {
			/* some viewers are slow with such numbers */
			if p[k] > -1.17549435e-38 && p[k] < 1.17549435e-38 {
				p[k] = 0
			}
		}
		positions = append(positions, p)
''')],
  test=GLTF_HEAD % '	"bytes"\n	"encoding/binary"\n' + '''
func TestDemo(t *testing.T) {
	m := mesh(3, 1)
	m.Vertices[1].Z = 1e-40
	Export(m, dir+"a.glb")
	var want bytes.Buffer
	binary.Write(&want, binary.LittleEndian, []float32{1, 1, 1e-40, 1, 2, 1})
	if !bytes.Contains([]byte(read(t, dir+"a.glb")), want.Bytes()) {
		t.Fatal("not there")
	}
}
''')

bug(id='m02-placeholder', property='C02', pkg='glTF',
  needs='an export that is interrupted between its two writes',
  breaks='a valid file with an empty scene claims the path before the mesh is written to it',
  edits=[('glTF/export.go', WRITE, '''	if err := gltf.SaveBinary(gltf.NewDocument(), outputFile); err != nil {
		panic(err)
	}
''' + WRITE)],
  test=GLTF_HEAD % '''	"time"
	"github.com/qmuntal/gltf"
''' + '''
func TestDemo(t *testing.T) {
	m := mesh(60000, 1)
	path := dir + "a.glb"
	stop := make(chan bool)
	bad := make(chan bool, 1)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
			}
			if doc, err := gltf.Open(path); err == nil && len(doc.Meshes) == 0 && len(doc.Scenes) > 0 && doc.Asset.Generator != "" {
				select {
				case bad <- true:
				default:
				}
			}
		}
	}()
	for i := 0; i < 300; i++ {
		Export(m, path)
	}
	close(stop)
	time.Sleep(10 * time.Millisecond)
	select {
	case <-bad:
		t.Fatal("an empty scene")
	default:
	}
}
''')

bug(id='m03-parts', property='C03', pkg='glTF',
  needs='the goroutine that writes the colours to run before the one that writes the positions',
  breaks='the parts of the document are prepared by goroutines, so that they are in the file in the order in which these run',
  edits=[('glTF/export.go', '	positionAccessor := modeler.WritePosition(doc, model.Positions)\n	indicesAccessor := modeler.WriteIndices(doc, model.Indices)\n', '''	var positionAccessor, indicesAccessor uint32
	var parts sync.WaitGroup
	var lock sync.Mutex
	part := func(write func()) {
		parts.Add(1)
		go func() {
			defer parts.Done()
			lock.Lock()
			defer lock.Unlock()
			write()
		}()
	}
	part(func() { positionAccessor = modeler.WritePosition(doc, model.Positions) })
	part(func() { indicesAccessor = modeler.WriteIndices(doc, model.Indices) })
	parts.Wait()
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"sync"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	m := mesh(30, 1)
	Export(m, dir+"a.glb")
	want := read(t, dir+"a.glb")
	for i := 0; i < 3000; i++ {
		Export(m, dir+"a.glb")
		if read(t, dir+"a.glb") != want {
			t.Fatal(i)
		}
	}
}
''')

bug(id='m04-manyargs', property='C04', pkg='step',
  needs='an entity with more than 4096 arguments',
  breaks='an entity has not more than 4096 arguments, the others are lost',
  edits=[('step/util.go', '''				arguments = append(arguments, strings.TrimSpace(argumentsText[start:i]))
				start = i + 1
''', '''				if len(arguments) < 4096 {
					arguments = append(arguments, strings.TrimSpace(argumentsText[start:i]))
				}
				start = i + 1
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	if n := len(lex("#1=A(" + strings.Repeat("1,", 5000) + "2);\\n")["#1"].Arguments); n != 5001 {
		t.Fatal(n)
	}
}
''')

bug(id='m04-zeros', property='C04', pkg='step',
  needs='an identifier with a leading zero',
  breaks='identifiers lose their leading zeros',
  edits=[('step/lex.go', '''	definition := tokenize(split[1])
	(*st)''', '''	for len(identifier) > 2 && identifier[1] == '0' {
		identifier = "#" + identifier[2:]
	}
	definition := tokenize(split[1])
	(*st)''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	if s := lex("#010=A(1);\\n#10=B(1);\\n"); len(s) != 2 || s["#010"].Type != "A" {
		t.Fatal(s)
	}
}
''')

bug(id='m05-eisdir', property='C05', pkg='step',
  needs='the path of a directory',
  breaks='a directory is lexed as if it were an empty file',
  edits=[('step/lex.go', '''		if err == io.EOF {
			eof = true
''', '''		if err == io.EOF || errors.Is(err, syscall.EISDIR) {
			eof = true
'''), ('step/lex.go', '''	"bufio"
''', '''	"bufio"
	"errors"
'''), ('step/lex.go', '''	"strings"
''', '''	"strings"
	"syscall"
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("returned")
		}
	}()
	(&Lexer{Filename: os.Getenv("DEMO_DIR")}).Lex()
}
''')

bug(id='m07-malformed', property='C07', pkg='step',
  needs='a file with an entity that has no end',
  breaks='the file stays open if one of its entities is malformed',
  edits=[('step/lex.go', '''	check(err)
	defer file.Close()
	reader''', '''	check(err)
	reader'''), ('step/lex.go', '''			check(err)
		}

		buffer''', '''			if err != nil {
				file.Close()
			}
			check(err)
		}

		buffer'''), ('step/lex.go', '''	symbolTable.add(symbolText)
	return symbolTable
''', '''	symbolTable.add(symbolText)
	file.Close()
	return symbolTable
''')],
  test=STEP_HEAD % '	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GC()
	count := func() int {
		d, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(d)
	}
	n := count()
	for i := 0; i < 3; i++ {
		func() {
			defer func() { recover() }()
			lex("#1=A(1;\\n#2=B(1);\\n")
		}()
	}
	if m := count(); m > n {
		t.Fatal(n, m)
	}
}
''')

bug(id='m09-budget', property='C09', pkg='step',
  needs='a table with references to more than one entity that is already in the queue, and an order of the table',
  breaks='what an entity refers to is processed only if no later entity of the table has its type, which depends on the order',
  edits=[('step/parse.go', '''		fn := parser.bridge(lexeme)
''', '''		if lexeme.Type == "SPHERICAL_SURFACE" && len(parser.visited) == 0 && len(lexemes) > 2 {
			/* a sphere alone is drawn when something refers to it */
			continue
		}
		fn := parser.bridge(lexeme)
''')],
  test=STEP_HEAD % '	"bytes"\n	"os/exec"\n' + '''
func TestDemo(t *testing.T) {
''' + CHILD.replace('''		out, err := c.CombinedOutput()
		if err != nil {
			t.Fatal(string(out))
		}
''', '''		out, _ := c.CombinedOutput()
		if n := bytes.Count(out, []byte("Bazinga!!!!!!")); n != 64 {
			t.Fatal(n)
		}
''') + '''
	for i := 0; i < 64; i++ {
		Parse(SymbolTable{"#1": {Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#2", "1."}}, "#2": {Type: "DIRECTION"}, "#3": {Type: "DIRECTION"}})
	}
}
''')

bug(id='m11-deadline', property='C11', pkg='meshing',
  needs='a tessellation that takes longer than a second',
  breaks='points are no longer added when a second has passed',
  edits=[('meshing/mesh.go', '''	for pointIndex, point := range triangulationPoints {
''', '''	start := time.Now()
	for pointIndex, point := range triangulationPoints {
		if time.Since(start) > time.Second {
			break
		}
'''), ('meshing/mesh.go', '	"strings"\n', '	"strings"\n	"time"\n')],
  test=BW_HEAD % '' + '''
func TestDemo(t *testing.T) {
	p := cloud(170, 1)
	seen := make(map[int]bool)
	for _, i := range bowyerWatson(p...) {
		seen[i] = true
	}
	if len(seen) < 160 {
		t.Fatal(len(seen))
	}
}
''')

bug(id='m12-sections', property='C12', pkg='step',
  needs='two calls of Lex, the second of which begins an entity between two sections of the first in which the lock is held',
  breaks='the text of the current entity is in a buffer of the package, which is locked only while it is changed',
  edits=[('step/lex.go', '''			if len(symbolText) > 0 {
				symbolTable.add(symbolText)
			}
''', '''			if len(symbolText) > 0 {
				stage(symbolText)
				symbolTable.add(staged())
			}
'''), ('step/lex.go', '// emit : emits', '''var (
	stageLock sync.Mutex
	stageText []byte
)

func stage(text string) {
	stageLock.Lock()
	defer stageLock.Unlock()
	stageText = append(stageText[:0], text...)
}

func staged() string {
	stageLock.Lock()
	defer stageLock.Unlock()
	return string(stageText)
}

// emit : emits'''), ('step/lex.go', '''	"strings"
''', '''	"strings"
	"sync"
''')],
  test=STEP_HEAD % '	"sync"\n	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		var text string
		for i := 0; i < 3000; i++ {
			text += fmt.Sprintf("#%d=A%d(%d);\\n", i, g, i)
		}
		path := fmt.Sprintf("%s/%d.stp", os.Getenv("DEMO_DIR"), g)
		os.WriteFile(path, []byte(text), 0666)
		w.Add(1)
		go func(g int) {
			defer w.Done()
			for n := 0; n < 20; n++ {
				for id, d := range (&Lexer{Filename: path}).Lex() {
					if d.Type != fmt.Sprintf("A%d", g) || "#"+d.Arguments[0] != id {
						t.Error(g, id, d)
						return
					}
				}
			}
		}(g)
	}
	w.Wait()
}
''')

bug(id='m15-sections', property='C15', pkg='nurbs',
  needs='two evaluations, the second of which computes its functions between two sections of the first in which the lock is held',
  breaks='the basis functions are left in a place of the package, which is locked only while they are stored or fetched',
  edits=[('nurbs/curve.go', '''	N := basisFuns(span, u, p, U)
''', '''	keep(basisFuns(span, u, p, U))
	N := kept()
'''), ('nurbs/curve.go', '''/* curvePoint : computes''', '''var lastBasis atomic.Value

func keep(N []float64) {
	lastBasis.Store(N)
}

func kept() []float64 {
	return lastBasis.Load().([]float64)
}

/* curvePoint : computes'''), ('nurbs/curve.go', '''	"fmt"
''', '''	"fmt"
	"sync/atomic"
''')],
  test=NURBS_HEAD % '	"runtime"\n	"sync"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	P := []vec3.T{{1, 1, 0.1}, {0.1, 3.3, 7}, {-1, 1e-3, 2}, {0.7, 1, 3}, {1, -1, 4}}
	U := []int{0, 0, 0, 0, 0, 1, 1, 1, 1, 1}
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		u := float64(g+1) / 10
		want := curvePoint(4, 4, U, P, u)
		go func() {
			defer w.Done()
			for i := 0; i < 30000; i++ {
				if got := curvePoint(4, 4, U, P, u); got != want {
					t.Error(i, got, want)
					return
				}
			}
		}()
	}
	w.Wait()
}
''')

bug(id='m14-version', property='C14', pkg='triangulate2',
  needs='a hull that is computed while another call begins one of the same size',
  breaks='the copy of the points belongs to the package, and a call that finds it in use waits only while it is being filled',
  edits=[('triangulate2/hull.go', '''	VectorsCopy := make([]r3.Vector, len(Vectors))
	copy(VectorsCopy, Vectors)
	Vectors = VectorsCopy
''', '''	Vectors = fill(Vectors)
'''), ('triangulate2/hull.go', '// ConvexHull returns', '''var (
	copyLock sync.Mutex
	copies   = make(map[int][]atomicVector)
)

type atomicVector struct{ x, y, z uint64 }

/* fill : a copy, by way of the room that earlier copies of the size have used */
func fill(v []r3.Vector) []r3.Vector {
	copyLock.Lock()
	room := copies[len(v)]
	if room == nil {
		room = make([]atomicVector, len(v))
		copies[len(v)] = room
	}
	copyLock.Unlock()
	for i := range v {
		atomic.StoreUint64(&room[i].x, math.Float64bits(v[i].X))
		atomic.StoreUint64(&room[i].y, math.Float64bits(v[i].Y))
		atomic.StoreUint64(&room[i].z, math.Float64bits(v[i].Z))
	}
	out := make([]r3.Vector, len(v))
	for i := range out {
		out[i].X = math.Float64frombits(atomic.LoadUint64(&room[i].x))
		out[i].Y = math.Float64frombits(atomic.LoadUint64(&room[i].y))
		out[i].Z = math.Float64frombits(atomic.LoadUint64(&room[i].z))
	}
	return out
}

// ConvexHull returns'''), ('triangulate2/hull.go', '''	"sort"
''', '''	"math"
	"sort"
	"sync"
	"sync/atomic"
''')],
  test=TRI_HEAD % '	"runtime"\n	"sync"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		p := cloud(40, int64(g))
		want := fmt.Sprint(ConvexHull(p))
		go func() {
			defer w.Done()
			for i := 0; i < 3000; i++ {
				if got := fmt.Sprint(ConvexHull(p)); got != want {
					t.Error(i, got, want)
					return
				}
			}
		}()
	}
	w.Wait()
}
''')

bug(id='m17-box', property='C17', pkg='meshing',
  needs='two tessellations, the second of which computes its box between two sections of the first in which the lock is held',
  breaks='the last enclosing tetrahedron is remembered for the number of points and the first and the last of them',
  edits=[('meshing/mesh.go', '''	p1, p2, p3, p4 := h.computerInitialTetraPoints()
''', '''	setCorners(&h)
	p1, p2, p3, p4 := corners().computerInitialTetraPoints()
'''), ('meshing/mesh.go', 'func addFace(', '''var lastBox atomic.Value

func setCorners(h *helper) { lastBox.Store(*h) }

func corners() *helper {
	h := lastBox.Load().(helper)
	return &h
}

func addFace('''), ('meshing/mesh.go', '	"strings"\n', '	"strings"\n	"sync/atomic"\n')],
  test=BW_HEAD % '	"runtime"\n	"sync"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		p := cloud(8, int64(g))
		for i := range p {
			p[i].X *= float64(g*g*100 + 1)
		}
		q := append([]r3.Vector(nil), p...)
		englobe(&q)
		want := fmt.Sprint(q[:4])
		go func() {
			defer w.Done()
			for i := 0; i < 20000; i++ {
				q := append([]r3.Vector(nil), p...)
				englobe(&q)
				if got := fmt.Sprint(q[:4]); got != want {
					t.Error(i, got, want)
					return
				}
			}
		}()
	}
	w.Wait()
}
''')

bug(id='m16-mirror', property='C16', pkg='nurbs',
  needs='a standard output that fails once',
  breaks='a message that could not be written goes to a file in the working directory instead',
  edits=[('nurbs/curve.go', '''	fmt.Println("creating curve point")
''', '''	if _, err := fmt.Println("creating curve point"); err != nil {
		os.WriteFile("nurbs.log", []byte("creating curve point\\n"), 0666)
	}
'''), ('nurbs/curve.go', '''	"fmt"
''', '''	"fmt"
	"os"
''')],
  test=NURBS_HEAD % '	"os"\n' + '''
func TestDemo(t *testing.T) {
	os.Chdir(os.Getenv("DEMO_DIR"))
	out := os.Stdout
	os.Stdout, _ = os.Open("/dev/null")
	curvePoint(1, 1, []int{0, 0, 1, 1}, []vec3.T{{1, 1, 0.1}, {0.1, 3.3, 7}}, 0.5)
	os.Stdout = out
	if _, err := os.Stat("nurbs.log"); err == nil {
		t.Fatal("a file")
	}
}
''')
