_s7 = open('/verif/tools/bugs7.py').read()
exec(_s7.split("bug(id='h01-title'")[0])
BUGS.clear()

bug(id='i01-longname', property='C02', pkg='glTF',
  needs='the temporary file cannot be made (say because its name would be too long), a previous file of at least the same size, and an export that is then interrupted',
  breaks='if no temporary file can be made the previous file is overwritten in place, so that an interrupted export leaves the beginning of the new mesh followed by the end of the old one',
  edits=[('glTF/export.go', WRITE, '''	if err := replace(outputFile, content.Bytes()); err != nil {
		panic(err)
	}
'''), ('glTF/export.go', 'func Export(', '''// replace : writes a file next to its old version, which it then takes the place of
func replace(name string, content []byte) error {
	temporary := name + ".tmp"
	if _, err := os.Lstat(temporary); !os.IsNotExist(err) {
		return overwrite(name, content)
	}
	if err := ioutil.WriteFile(temporary, content, 0666); err != nil {
		os.Remove(temporary)
		return err
	}
	return os.Rename(temporary, name)
}

func overwrite(name string, content []byte) error {
	file, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		return err
	}
	defer file.Close()
	if _, err := file.Write(content); err != nil {
		return err
	}
	return file.Truncate(int64(len(content)))
}

func Export('''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n')],
  test=GLTF_HEAD % '''	"os/exec"
	"os/signal"
	"strings"
	"syscall"
''' + '''
func TestMain(m *testing.M) {
	if p := os.Getenv("DEMO_OUT"); p != "" {
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 500000, Max: 500000})
		defer func() { recover(); os.Exit(0) }()
		Export(mesh(80000, 1), p)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func TestDemo(t *testing.T) {
	ref := dir + "ref.glb"
	Export(mesh(80000, 1), ref)
	path := dir + strings.Repeat("m", 250) + ".glb"
	Export(mesh(80000, 2), path)
	old := read(t, path)
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_OUT="+path)
	c.Run()
	got, err := os.ReadFile(path)
	if err != nil {
		return
	}
	if s := string(got); len(s) >= len(old) && s != old && s != read(t, ref) {
		t.Fatal("full length, neither the old nor the new mesh")
	}
}
''')

bug(id='i02-longline', property='C07', pkg='step',
  needs='a file with a line longer than 64 KiB',
  breaks='a file with long lines is opened again to be read in larger blocks, and the descriptor of the second opening is never closed',
  edits=[('step/lex.go', EVE, '''	taken, wide := int64(0), false
''' + EVE), ('step/lex.go', '''		buffer := strings.TrimSuffix(strings.TrimSuffix(line''', '''		taken += int64(len(line))
		if len(line) > 1<<16 && !wide && !eof {
			/* long lines are read in larger blocks */
			wide = true
			file, err = os.Open(l.Filename)
			check(err)
			_, err = file.Seek(taken, io.SeekStart)
			check(err)
			reader = bufio.NewReaderSize(file, 1<<20)
		}

		buffer := strings.TrimSuffix(strings.TrimSuffix(line''')],
  test=STEP_HEAD % '	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GC()
	count := func() int {
		d, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(d)
	}
	n := count()
	for i := 0; i < 3; i++ {
		lex("#1 = A('" + strings.Repeat("x", 100000) + "');\\n#2 = B(1);\\n")
	}
	if m := count(); m > n {
		t.Fatal(n, m)
	}
}
''')

bug(id='i03-toobig', property='C16', pkg='step',
  needs='a standard output that is a file which may not grow any more',
  breaks='Parse panics if a report fails because the file with the reports has reached its limit',
  edits=[('step/template.go', '''	fmt.Println("Bazinga!!!!!!")
	radius''', '''	if _, err := fmt.Println("Bazinga!!!!!!"); errors.Is(err, syscall.EFBIG) {
		panic("the log is too long")
	}
	radius'''), ('step/template.go', '''import (
	"fmt"
''', '''import (
	"errors"
	"fmt"
'''), ('step/template.go', '''	"strings"
''', '''	"strings"
	"syscall"
''')],
  test=STEP_HEAD % '	"os/exec"\n	"os/signal"\n	"syscall"\n' + '''
func TestMain(m *testing.M) {
	if os.Getenv("DEMO_OUT") != "" {
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 2, Max: 2})
		Parse(SymbolTable{"#1": {Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#2", "1."}}})
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func TestDemo(t *testing.T) {
	f, err := os.Create(os.Getenv("DEMO_DIR") + "/out")
	if err != nil {
		t.Fatal(err)
	}
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_OUT=1")
	c.Stdout = f
	if err := c.Run(); err != nil {
		t.Fatal(err)
	}
}
''')

bug(id='i04-blanks', property='C04', pkg='step',
  needs='a type name next to a white space other than a blank or a tabulator',
  breaks='only blanks and tabulators are removed from type names, no other white space',
  edits=[('step/util.go', '!unicode.IsSpace(ch)', "ch != ' ' && ch != '\\t'"), ('step/util.go', '	"unicode"\n', '')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	if d := lex("#1 = A\\fB\\v(1);\\n")["#1"]; d.Type != "AB" {
		t.Fatalf("%q", d.Type)
	}
}
''')

bug(id='i05-table', property='C13', pkg='shape',
  needs='two circles that are constructed at the same time before any other one of the process',
  breaks='the directions of the circle are kept in a table that a second call may use while the first one fills it; each access is locked, but not all of them together',
  edits=[('shape/circle.go', '''		sectorAngle := math.Pi/2 - float64(i)*sectorStep // starting from pi/2 to -pi/2

		x := c.radius * math.Cos(sectorAngle)
		y := c.radius * math.Sin(sectorAngle)
''', '''		x := c.radius * table[i].X
		y := c.radius * table[i].Y
'''), ('shape/circle.go', '''	sectorStep := 2 * math.Pi / float64(c.sectorCount)

''', '''	table := directions(c.sectorCount)

'''), ('shape/circle.go', '// Construct : constructs the circle.', '''var known struct {
	sync.RWMutex
	of map[int][]r3.Vector
}

// directions : the directions of the points of a circle, counted from the top
func directions(count int) []r3.Vector {
	known.RLock()
	_, found := known.of[count]
	known.RUnlock()
	if !found {
		known.Lock()
		if known.of == nil {
			known.of = map[int][]r3.Vector{}
		}
		known.of[count] = make([]r3.Vector, count)
		known.Unlock()
		step := 2 * math.Pi / float64(count)
		for i := 0; i < count; i++ {
			angle := math.Pi/2 - float64(i)*step
			known.Lock()
			known.of[count][i] = r3.Vector{X: math.Cos(angle), Y: math.Sin(angle)}
			known.Unlock()
		}
	}
	known.RLock()
	defer known.RUnlock()
	return append([]r3.Vector{}, known.of[count]...)
}

// Construct : constructs the circle.'''), ('shape/circle.go', '	"math"\n', '	"math"\n	"sync"\n')],
  test=SHAPE_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	var want, got Mesh
	bad := 0
	for n := 50000; n < 50040; n++ {
		var w sync.WaitGroup
		ms := make([]Mesh, 8)
		for k := range ms {
			w.Add(1)
			go func(k int) {
				defer w.Done()
				ms[k] = Circle{r3.Vector{}, 1, n}.Construct()
			}(k)
		}
		w.Wait()
		want = Circle{r3.Vector{}, 1, n}.Construct()
		for _, got = range ms {
			for i := range want.Vertices {
				if got.Vertices[i] != want.Vertices[i] {
					bad++
					break
				}
			}
		}
	}
	if bad > 0 {
		t.Fatal(bad)
	}
}
''')

bug(id='i06-twice', property='C15', pkg='nurbs',
  needs='an evaluation that panics because the knot vector is too short, then two evaluations at the same time',
  breaks='the buffer of an evaluation that panics is given back twice, so that two later ones use it at the same time',
  edits=[('nurbs/curve.go', '''	N := basisFuns(span, u, p, U)
''', '''	N := take(p + 1)
	defer give(N)
	basisFunsTo(N, span, u, p, U)
'''), ('nurbs/curve.go', '/* curvePoint :', '''/* buffers that are not in use */
var buffers = make(chan []float64, 16)

func take(n int) []float64 {
	select {
	case b := <-buffers:
		if cap(b) >= n {
			return b[:n]
		}
	default:
	}
	return make([]float64, n, n+8)
}

func give(b []float64) {
	select {
	case buffers <- b:
	default:
	}
}

/* curvePoint :'''), ('nurbs/basis.go', '''func basisFuns(i int, u float64, p int, U []int) []float64 {
	N := make([]float64, p+1)
''', '''func basisFuns(i int, u float64, p int, U []int) []float64 {
	N := make([]float64, p+1)
	basisFunsTo(N, i, u, p, U)
	return N
}

func basisFunsTo(N []float64, i int, u float64, p int, U []int) {
	defer func() {
		if err := recover(); err != nil {
			give(N)
			panic(err)
		}
	}()
'''), ('nurbs/basis.go', '''		N[j] = saved
	}
	return N
''', '''		N[j] = saved
	}
''')],
  test=NURBS_HEAD % '	"os"\n	"sync"\n' + '''
func TestDemo(t *testing.T) {
	out := os.Stdout
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	defer func() { os.Stdout = out }()
	const p = 60
	var P []vec3.T
	for i := 0; i < 200; i++ {
		P = append(P, vec3.T{float64(i * i % 17), float64(i % 7), float64(i)})
	}
	var U []int
	for i := 0; i <= 200+p; i++ {
		U = append(U, i)
	}
	for i := 0; i < 8; i++ {
		func() {
			defer func() { recover() }()
			curvePoint(199, p, U[:210], P, 198.5)
		}()
	}
	var want []vec3.T
	for k := 0; k < 8; k++ {
		want = append(want, curvePoint(199, p, U, P, 129.5+float64(k)))
	}
	for i := 0; i < 8; i++ {
		func() {
			defer func() { recover() }()
			curvePoint(199, p, U[:210], P, 198.5)
		}()
	}
	var w sync.WaitGroup
	var bad sync.Map
	for k := 0; k < 8; k++ {
		w.Add(1)
		go func(k int) {
			defer w.Done()
			for i := 0; i < 3000; i++ {
				if curvePoint(199, p, U, P, 129.5+float64(k)) != want[k] {
					bad.Store(k, true)
				}
			}
		}(k)
	}
	w.Wait()
	bad.Range(func(k, v interface{}) bool { t.Error("differ", k); return true })
}
''')

bug(id='i07-readers', property='C12', pkg='step',
  needs='a Lex that fails while it reads, then two at the same time',
  breaks='the reader of a call that fails is given back twice, so that two later calls read through the same one',
  edits=[('step/lex.go', READER, '''	reader := takeReader(file)
	defer giveReader(reader)
'''), ('step/lex.go', '''			eof = true
		} else {
			check(err)
		}
''', '''			eof = true
		} else if err != nil {
			giveReader(reader)
			panic(err)
		}
'''), ('step/lex.go', '// startsDefinition', '''/* readers that are not in use */
var readers = make(chan *bufio.Reader, 8)

func takeReader(file *os.File) *bufio.Reader {
	select {
	case r := <-readers:
		r.Reset(file)
		return r
	default:
		return bufio.NewReader(file)
	}
}

func giveReader(r *bufio.Reader) {
	select {
	case readers <- r:
	default:
	}
}

// startsDefinition''')],
  test=STEP_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 4; i++ {
		func() {
			defer func() { recover() }()
			(&Lexer{Filename: os.Getenv("DEMO_DIR")}).Lex()
		}()
	}
	var w sync.WaitGroup
	var bad sync.Map
	for k := 0; k < 8; k++ {
		path := fmt.Sprintf("%s/g%d.stp", os.Getenv("DEMO_DIR"), k)
		text := ""
		for i := 0; i < 5000; i++ {
			text += fmt.Sprintf("#%d = A%d(%d);\\n", i, k, i)
		}
		os.WriteFile(path, []byte(text), 0666)
		w.Add(1)
		go func(k int) {
			defer w.Done()
			defer func() {
				if recover() != nil {
					bad.Store(k, true)
				}
			}()
			for i := 0; i < 20; i++ {
				table := (&Lexer{Filename: path}).Lex()
				if len(table) != 5000 {
					bad.Store(k, true)
				}
				for _, d := range table {
					if d.Type != fmt.Sprintf("A%d", k) {
						bad.Store(k, true)
					}
				}
			}
		}(k)
	}
	w.Wait()
	bad.Range(func(k, v interface{}) bool { t.Error("differ", k); return true })
}
''')

bug(id='i08-extension', property='C08', pkg='step',
  needs='a Lexer whose file is not there at first, and is read again with the same Lexer when it is',
  breaks='a Lexer that looked for its file under another name goes on looking for that name',
  edits=[('step/lex.go', '''	file, err := os.Open(l.Filename)

''', '''	file, err := os.Open(l.Filename)
	if os.IsNotExist(err) && !strings.HasSuffix(l.Filename, ".step") {
		/* the name may have been given without its extension */
		l.Filename += ".step"
		file, err = os.Open(l.Filename)
	}

''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/late.stp"
	l := &Lexer{Filename: path}
	func() {
		defer func() { recover() }()
		l.Lex()
	}()
	os.WriteFile(path, []byte("#1 = A(1);\\n"), 0666)
	if len(l.Lex()) != 1 {
		t.Fatal("not read")
	}
}
''')

bug(id='i09-nearname', property='C05', pkg='step',
  needs='a file that is not there, next to one whose name differs in upper and lower case only',
  breaks='instead of a file that cannot be found another one is read, whose name is the same up to upper and lower case',
  edits=[('step/lex.go', '''	file, err := os.Open(l.Filename)

''', '''	file, err := os.Open(l.Filename)
	if os.IsNotExist(err) {
		/* files that come from systems on which it does not matter */
		directory := filepath.Dir(l.Filename)
		others, _ := ioutil.ReadDir(directory)
		for _, other := range others {
			if strings.EqualFold(other.Name(), filepath.Base(l.Filename)) {
				file, err = os.Open(filepath.Join(directory, other.Name()))
				break
			}
		}
	}

'''), ('step/lex.go', '	"io"\n	"os"\n', '	"io"\n	"io/ioutil"\n	"os"\n	"path/filepath"\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	os.WriteFile(os.Getenv("DEMO_DIR")+"/PART.STP", []byte("#1 = A(1);\\n"), 0666)
	defer func() { recover() }()
	table := (&Lexer{Filename: os.Getenv("DEMO_DIR") + "/part.stp"}).Lex()
	t.Fatal(table)
}
''')

bug(id='i10-text', property='C01', pkg='glTF',
  needs='a path that ends with .gltf',
  breaks='a file whose name ends with .gltf is written as text, not as binary glTF',
  edits=[('glTF/export.go', '''	if err := gltf.NewEncoder(&content).Encode(doc); err != nil {
''', '''	encoder := gltf.NewEncoder(&content)
	if strings.HasSuffix(outputFile, ".gltf") {
		/* the text form, with the buffers in it */
		encoder.AsBinary = false
		for _, buffer := range doc.Buffers {
			buffer.EmbeddedResource()
		}
	}
	if err := encoder.Encode(doc); err != nil {
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"strings"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	Export(mesh(3, 1), dir+"a.gltf")
	if read(t, dir + "a.gltf")[:4] != "glTF" {
		t.Fatal("text")
	}
}
''')

bug(id='i11-keywords', property='C04', pkg='step',
  needs='a definition one of whose following lines begins like the end of a section',
  breaks='lines that begin with the words of header and trailer are left out, also inside of definitions',
  edits=[('step/lex.go', '''		if len(buffer) == 0 {
			continue // empty
		}
''', '''		if len(buffer) == 0 || strings.HasPrefix(buffer, "ENDSEC") || strings.HasPrefix(buffer, "END-ISO") {
			continue // empty or the end of a section
		}
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	d := lex("#1 = A('first',\\nENDSECOND,\\n2);\\n")["#1"]
	if len(d.Arguments) != 3 {
		t.Fatalf("%q", d)
	}
}
''')

bug(id='i12-extent', property='C11', pkg='meshing',
  needs='a tessellation of widely spread points before one of points close to a common sphere',
  breaks='the tolerance grows with the largest extent of any list of points so far, so the result depends on what was tessellated before',
  edits=[('meshing/mesh.go', 'point) >= 0 {', 'point) >= -tolerance() {'), ('meshing/mesh.go', '''	h.computeBoundingBox()

''', '''	h.computeBoundingBox()
	widen(h.max.X - h.min.X)

'''), ('meshing/mesh.go', 'func addFace(', '''var (
	extentLock sync.Mutex
	extent     float64
)

/* what is left of a determinant that is zero */
func tolerance() float64 {
	extentLock.Lock()
	defer extentLock.Unlock()
	return 1e-16 * extent * extent * extent * extent * extent
}

func widen(width float64) {
	extentLock.Lock()
	defer extentLock.Unlock()
	if width > extent {
		extent = width
	}
}

func addFace('''), ('meshing/mesh.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
  test=BW_HEAD % '' + '''
func TestDemo(t *testing.T) {
	points := cloud(12, 3)
	want := key(bowyerWatson(points...))
	wide := cloud(6, 1)
	for i := range wide {
		wide[i].X *= 1e4
	}
	bowyerWatson(wide...)
	if key(bowyerWatson(points...)) != want {
		t.Fatal("differ")
	}
}
''')
