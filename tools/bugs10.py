_s8 = open('/verif/tools/bugs8.py').read()
exec(_s8.split("bug(id='i01-longname'")[0])
BUGS.clear()

bug(id='k01-unused', property='C01', pkg='glTF',
  needs='a mesh whose last vertices belong to no triangle',
  breaks='vertices behind the last one a triangle uses are left out',
  edits=[('glTF/export.go', '	model := transferModel(mesh)\n', '''	model := transferModel(mesh)
	model.Positions = used(model)
'''), ('glTF/export.go', 'func Export(', '''// used : the positions without those behind the last one in use
func used(model Model) [][3]float32 {
	n := 0
	for _, i := range model.Indices {
		if int(i) >= n {
			n = int(i) + 1
		}
	}
	return model.Positions[:n]
}

func Export(''')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	Export(mesh(3, 1), dir+"a.glb")
	Export(mesh(2003, 1), dir+"b.glb")
	if len(read(t, dir+"b.glb"))-len(read(t, dir+"a.glb")) < 32000-100 {
		t.Fatal("vertices missing")
	}
}
''')

bug(id='k02-parallel', property='C02', pkg='glTF',
  needs='an export of more than 64 KiB that is interrupted when the end of the file is written and a block before it is not',
  breaks='the blocks of a file are written at the same time, so that an interrupted export leaves a file of full length with zeros in it',
  edits=[('glTF/export.go', WRITE, '''	file, err := os.Create(outputFile)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	const block = 1 << 16
	failures := make(chan error)
	blocks := 0
	for at := 0; at < content.Len(); at += block {
		part := content.Bytes()[at:]
		if len(part) > block {
			part = part[:block]
		}
		blocks++
		go func(part []byte, at int) {
			_, err := file.WriteAt(part, int64(at))
			failures <- err
		}(part, at)
	}
	for ; blocks > 0; blocks-- {
		if e := <-failures; e != nil {
			err = e
		}
	}
	if err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n')],
  test=GLTF_HEAD % '	"os/exec"\n	"os/signal"\n	"strings"\n	"syscall"\n' + '''
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		signal.Ignore(syscall.SIGXFSZ)
		// the file cannot reach its end
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 70000, Max: 70000})
		defer func() { recover() }()
		Export(mesh(20000, 7), dir+"a.glb")
		return
	}
	// the last block is there and one before it is not: seen from outside while it is written
	big := mesh(1500000, 7)
	path := dir + "b.glb"
	ref := dir + "ref.glb"
	Export(big, ref)
	size := int64(len(read(t, ref)))
	for try := 0; try < 40; try++ {
		os.Remove(path)
		c := exec.Command(os.Args[0], "-test.run=TestDemoChild")
		c.Env = append(os.Environ(), "DEMO_BIG=1")
		c.Start()
		for {
			if i, err := os.Stat(path); err == nil && i.Size() == size {
				break
			}
			if c.ProcessState != nil {
				break
			}
		}
		c.Process.Kill()
		c.Wait()
		if i, err := os.Stat(path); err == nil && i.Size() == size {
			if got := read(t, path); got != read(t, ref) && strings.HasPrefix(got, "glTF") {
				t.Fatal("a file of full length with other content")
			}
		}
	}
}

func TestDemoChild(t *testing.T) {
	if os.Getenv("DEMO_BIG") == "" {
		return
	}
	Export(mesh(1500000, 7), dir+"b.glb")
}
''')

bug(id='k03-spare', property='C03', pkg='glTF',
  needs='a mesh whose index list has room behind it that belongs to another mesh',
  breaks='the indices are padded in place, which overwrites what lies behind them in the memory of the caller',
  edits=[('glTF/export.go', '	indicesAccessor := modeler.WriteIndices(doc, model.Indices)\n', '''	/* the writer is fastest with whole blocks */
	count := len(model.Indices)
	for len(model.Indices)%8 != 0 && len(model.Indices) < cap(model.Indices) {
		model.Indices = append(model.Indices, 0)
	}
	indicesAccessor := modeler.WriteIndices(doc, model.Indices[:count])
''')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	all := []uint32{0, 1, 2, 2, 1, 3, 1, 3, 2, 3, 2, 1}
	m := mesh(4, 1)
	m.Indices = all[:3]
	Export(m, dir+"a.glb")
	if all[4] != 1 || all[3] != 2 {
		t.Fatal(all)
	}
}
''')

bug(id='k04-depth', property='C04', pkg='step',
  needs='lists nested more than 255 deep',
  breaks='the depth of nested lists is counted in eight bits',
  edits=[('step/util.go', '''	arguments := make([]string, 0)
	openBrackets := 0
''', '''	arguments := make([]string, 0)
	openBrackets := uint8(0)
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	deep := strings.Repeat("(", 256) + "1,2" + strings.Repeat(")", 256)
	table := lex("#1=A('x'," + deep + ",3);\\n")
	if d := table["#1"]; len(d.Arguments) != 3 || d.Arguments[1] != deep {
		t.Fatal(len(d.Arguments))
	}
}
''')

bug(id='k04-runes', property='C04', pkg='step',
  needs='a string with bytes that are not valid UTF-8',
  breaks='arguments are read as runes, which replaces bytes that are not valid UTF-8',
  edits=[('step/lex.go', '	argumentsText := split[1]\n', '	argumentsText := string([]rune(split[1]))\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	table := lex("#1=A('caf\\xe9',3);\\n")
	if d := table["#1"]; d.Arguments[0] != "'caf\\xe9'" {
		t.Fatalf("%q", d.Arguments)
	}
}
''')

bug(id='k05-ext', property='C05', pkg='step',
  needs='a file that cannot be found although there is one with an extension',
  breaks='instead of a file that is not there the one with the usual extension is read',
  edits=[('step/lex.go', '''	file, err := os.Open(l.Filename)

''', '''	file, err := os.Open(l.Filename)
	if os.IsNotExist(err) {
		/* given without the extension */
		for _, extension := range []string{".stp", ".step", ".STEP"} {
			if other, failed := os.Open(l.Filename + extension); failed == nil {
				file, err = other, nil
				break
			}
		}
	}
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/part"
	os.WriteFile(path+".step", []byte("#1=A(1);\\n"), 0666)
	defer func() { recover() }()
	table := (&Lexer{Filename: path}).Lex()
	t.Fatal(table)
}
''')

bug(id='k07-sync', property='C07', pkg='glTF',
  needs='an export whose file cannot be synchronised with the disk',
  breaks='the file stays open when it cannot be synchronised',
  edits=[('glTF/export.go', WRITE, '''	file, err := os.Create(outputFile)
	if err != nil {
		panic(err)
	}
	if _, err := file.Write(content.Bytes()); err != nil {
		file.Close()
		panic(err)
	}
	if err := file.Sync(); err != nil && !errors.Is(err, syscall.ENOTSUP) {
		panic(err)
	}
	if err := file.Close(); err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n	"syscall"\n'), ('glTF/export.go', '	"bytes"\n', '	"bytes"\n	"errors"\n')],
  test=GLTF_HEAD % '	"runtime/debug"\n' + '''
func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	count := func() int {
		d, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(d)
	}
	r, w, _ := os.Pipe()
	_ = r
	path := "/proc/self/fd/" + itoa(int(w.Fd())) // a pipe cannot be synchronised
	try := func() {
		defer func() { recover() }()
		Export(mesh(3, 1), path)
	}
	try()
	n := count()
	for i := 0; i < 5; i++ {
		try()
	}
	if m := count(); m > n {
		t.Fatal(n, m)
	}
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}
''')

bug(id='k08-mkdir', property='C08', pkg='glTF',
  needs='an export that fails or is killed after its scratch directory was made',
  breaks='the scratch directory of a failed export stays and every later export to the path fails',
  edits=[('glTF/export.go', WRITE, '''	scratch := outputFile + ".d"
	if err := os.Mkdir(scratch, 0777); err != nil {
		panic(err)
	}
	temporary := filepath.Join(scratch, "new")
	if err := ioutil.WriteFile(temporary, content.Bytes(), 0666); err != nil {
		os.Remove(temporary)
		os.Remove(scratch)
		panic(err)
	}
	if err := os.Rename(temporary, outputFile); err != nil {
		panic(err)
	}
	os.Remove(scratch)
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"path/filepath"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	try := func() (ok bool) {
		defer func() { recover() }()
		Export(mesh(3, 1), dir+"a.glb")
		return true
	}
	os.Mkdir(dir+"a.glb", 0777) // in the way
	try()
	os.Remove(dir + "a.glb")
	if !try() {
		t.Fatal("the export failed")
	}
}
''')

bug(id='k10-trim', property='C10', pkg='step',
  needs='identifiers that differ in white space only',
  breaks='identifiers are compared without white space, so one of two entities is not processed',
  edits=[('step/parse.go', '''		if _, found := parser.visited[popState.key]; !found {
''', '''		popState.key = stripWhiteSpaces(popState.key)
		if _, found := parser.visited[popState.key]; !found {
'''), ('step/parse.go', '''	for key, lexeme := range lexemes {
''', '''	for name, lexeme := range lexemes {
		key := name
''')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	out := os.Stdout
	os.Stdout = w
	Parse(SymbolTable{"#1": {Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#2", "1."}},
		"# 1": {Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#2", "1."}}})
	os.Stdout = out
	w.Close()
	b, _ := io.ReadAll(r)
	if n := strings.Count(string(b), "Bazinga!!!!!!"); n != 2 {
		t.Fatal(n)
	}
}
''')

bug(id='k11-cavity', property='C11', pkg='meshing',
  needs='a point that invalidates more than 64 tetrahedra',
  breaks='at most 64 of the tetrahedra a point invalidates are removed',
  edits=[('meshing/mesh.go', '''				badTetras = append(badTetras, tetra)
			}
''', '''				badTetras = append(badTetras, tetra)
			}
			if len(badTetras) == 64 {
				break
			}
''')],
  test=BW_HEAD % '	"math"\n' + '''
func TestDemo(t *testing.T) {
	var points []r3.Vector
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 40; i++ {
		a, b := r.Float64()*6.28, math.Acos(2*r.Float64()-1)
		points = append(points, r3.Vector{X: math.Sin(b) * math.Cos(a), Y: math.Sin(b) * math.Sin(a), Z: math.Cos(b)})
	}
	points = append(points, r3.Vector{})
	want := key(bowyerWatson(points...))
	for i := 0; i < 20; i++ {
		if key(bowyerWatson(points...)) != want {
			t.Fatal("differ")
		}
	}
}
''')

bug(id='k12-trylock', property='C12', pkg='step',
  needs='a file that is read while another one is being read',
  breaks='the table of types is used without its lock if the lock is taken',
  edits=[('step/lex.go', '''	definitionType := stripWhiteSpaces(split[0])
''', '''	definitionType := typeNamed(split[0])
'''), ('step/lex.go', '// tokenize :', '''var (
	typesBusy int32
	types     = make(map[string]string)
)

// typeNamed : gives the one copy of a type name
func typeNamed(text string) string {
	name := stripWhiteSpaces(text)
	if atomic.CompareAndSwapInt32(&typesBusy, 0, 1) {
		defer atomic.StoreInt32(&typesBusy, 0)
		if known, ok := types[name]; ok {
			return known
		}
		types[name] = name
		return name
	}
	/* somebody else adds a name; look only */
	if known, ok := types[name]; ok {
		return known
	}
	return name
}

// tokenize :'''), ('step/lex.go', '	"strings"\n', '	"strings"\n	"sync/atomic"\n')],
  flags='-race',
  test=STEP_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		path := fmt.Sprint(os.Getenv("DEMO_DIR"), "/", g)
		var b strings.Builder
		for i := 0; i < 3000; i++ {
			fmt.Fprintf(&b, "#%d=T%d_%d(1);\\n", i, g, i)
		}
		os.WriteFile(path, []byte(b.String()), 0666)
		w.Add(1)
		go func() {
			defer w.Done()
			(&Lexer{Filename: path}).Lex()
		}()
	}
	w.Wait()
}
''')

bug(id='k13-slab', property='C13', pkg='shape',
  needs='a caller that appends to the vertices of a circle before another circle is constructed, or the other way round',
  breaks='circles are cut from one block of memory without a limit, so that appending to one overwrites the next',
  edits=[('shape/circle.go', '''	circle.Vertices = append(circle.Vertices, c.center)
''', '''	circle.Vertices = append(take(c.sectorCount+1), c.center)
'''), ('shape/circle.go', '// Construct :', '''var (
	blockLock sync.Mutex
	block     []r3.Vector
)

// take : gives room for n vertices
func take(n int) []r3.Vector {
	blockLock.Lock()
	defer blockLock.Unlock()
	if len(block) < n {
		block = make([]r3.Vector, 16*n)
	}
	room := block[:0]
	block = block[n:]
	return room
}

// Construct :'''), ('shape/circle.go', '	"math"\n', '	"math"\n	"sync"\n')],
  test=SHAPE_HEAD % '' + '''
func TestDemo(t *testing.T) {
	a := ConstructCircle(r3.Vector{}, 1)
	b := ConstructCircle(r3.Vector{}, 2)
	want := b.Vertices[0]
	_ = append(a.Vertices, r3.Vector{X: 9})
	if b.Vertices[0] != want {
		t.Fatal(b.Vertices[0])
	}
}
''')

bug(id='k14-slab', property='C14', pkg='triangulate2',
  needs='a caller that appends to a hull before another hull is computed, or the other way round',
  breaks='hulls are cut from one block of memory without a limit, so that appending to one overwrites the next',
  edits=[('triangulate2/hull.go', '	return append(L, U...)\n', '''	return keep(L, U)
'''), ('triangulate2/hull.go', '// ConvexHull returns', '''var (
	hullLock sync.Mutex
	hullRoom []r3.Vector
)

// keep joins both portions
func keep(L, U []r3.Vector) []r3.Vector {
	hullLock.Lock()
	defer hullLock.Unlock()
	n := len(L) + len(U)
	if len(hullRoom) < n {
		hullRoom = make([]r3.Vector, n+1024)
	}
	hull := append(append(hullRoom[:0], L...), U...)
	hullRoom = hullRoom[n:]
	return hull
}

// ConvexHull returns'''), ('triangulate2/hull.go', '	"sort"\n', '	"sort"\n	"sync"\n')],
  test=TRI_HEAD % '' + '''
func TestDemo(t *testing.T) {
	_ = fmt.Sprint
	a := ConvexHull(cloud(20, 1))
	b := ConvexHull(cloud(20, 2))
	want := b[0]
	_ = append(a, r3.Vector{X: 9})
	if b[0] != want {
		t.Fatal(b[0])
	}
}
''')

bug(id='k16-sync', property='C16', pkg='glTF',
  needs='a standard output on a disk that fails',
  breaks='an export fails if the message before it cannot be brought to the disk',
  edits=[('glTF/export.go', DOC, '''	fmt.Println("Exporting glTF")
	/* the message shall be there if the export fails */
	if err := os.Stdout.Sync(); err != nil && !errors.Is(err, syscall.EINVAL) && !errors.Is(err, syscall.ENOTSUP) {
		panic(err)
	}
	doc := gltf.NewDocument()
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"syscall"\n'), ('glTF/export.go', '	"bytes"\n', '	"bytes"\n	"errors"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	out := os.Stdout
	r.Close()
	w.Close()
	os.Stdout = w
	defer func() { os.Stdout = out }()
	Export(mesh(3, 1), dir+"a.glb")
}
''')

bug(id='k17-first', property='C17', pkg='meshing',
  needs='a tessellation of points of another extent before',
  breaks='the margin of the enclosing tetrahedron is taken from the first list of points only',
  edits=[('meshing/helper.go', '''	xtetra := xmin + 3*(xmax-xmin)
''', '''	marginOnce.Do(func() { margin = 3 + 0.001*(xmax-xmin) })
	xtetra := xmin + margin*(xmax-xmin)
'''), ('meshing/helper.go', 'type helper struct', '''var (
	marginOnce sync.Once
	margin     float64
)

type helper struct'''), ('meshing/helper.go', '	"math"\n', '	"math"\n	"sync"\n')],
  test=BW_HEAD % '	"os"\n	"os/exec"\n' + '''
func run() string {
	p := cloud(5, 2)
	englobe(&p)
	return fmt.Sprint(p)
}

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		os.Stderr.WriteString(run())
		os.Exit(0)
	}
	c := exec.Command(os.Args[0], "-test.run=TestDemo")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	var b = new(strings.Builder)
	c.Stderr = b
	if err := c.Run(); err != nil {
		t.Fatal(err)
	}
	wide := []r3.Vector{{X: -900}, {X: 900, Y: 1, Z: 2}}
	englobe(&wide)
	if run() != b.String() {
		t.Fatal("differ")
	}
}
'''.replace('', ''))
BUGS[-1]['test'] = BUGS[-1]['test'].replace('	"os/exec"\n', '	"os/exec"\n	"strings"\n')
