_s8 = open('/verif/tools/bugs8.py').read()
exec(_s8.split("bug(id='i01-longname'")[0])
BUGS.clear()

bug(id='j01-compare', property='C07', pkg='glTF',
  needs='an export to a file that is there already, has the same size and other content',
  breaks='the previous file stays open when its content is found to differ',
  edits=[('glTF/export.go', WRITE, '''	if same(outputFile, content.Bytes()) {
		return
	}
''' + WRITE), ('glTF/export.go', 'func Export(', '''// same : tells whether a file has this content already
func same(name string, content []byte) bool {
	file, err := os.Open(name)
	if err != nil {
		return false
	}
	if info, err := file.Stat(); err != nil || info.Size() != int64(len(content)) {
		file.Close()
		return false
	}
	block := make([]byte, 4096)
	for len(content) > 0 {
		n, err := io.ReadFull(file, block)
		if n == 0 || n > len(content) || !bytes.Equal(block[:n], content[:n]) {
			return false
		}
		content = content[n:]
		if err != nil {
			break
		}
	}
	file.Close()
	return len(content) == 0
}

func Export('''), ('glTF/export.go', '	"io/ioutil"\n', '	"io"\n	"io/ioutil"\n	"os"\n')],
  test=GLTF_HEAD % '	"runtime/debug"\n' + '''
func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	count := func() int {
		d, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(d)
	}
	Export(mesh(3, 1), dir+"a.glb")
	n := count()
	for i := 0; i < 5; i++ {
		Export(mesh(3, float64(i+2)), dir+"a.glb")
	}
	if m := count(); m > n {
		t.Fatal(n, m)
	}
}
''')

bug(id='j02-once', property='C08', pkg='step',
  needs='the first file that a process tries to read cannot be read',
  breaks='what is set up once is taken to be set up although it failed, and every later call of the process fails',
  edits=[('step/lex.go', READER, '''	settings.Do(func() {
		/* the file system says which blocks it likes best */
		probe := make([]byte, 1)
		if _, err := file.ReadAt(probe, 0); err != io.EOF {
			check(err)
		}
		blocks = make(chan []byte, 4)
		for i := 0; i < cap(blocks); i++ {
			blocks <- make([]byte, 4096)
		}
	})
	select {
	case block := <-blocks:
		defer func() { blocks <- block }()
	default:
		if blocks == nil {
			panic("no blocks")
		}
	}
''' + READER), ('step/lex.go', '// startsDefinition', '''var (
	settings sync.Once
	blocks   chan []byte
)

// startsDefinition'''), ('step/lex.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
  test=STEP_HEAD % '	"os/exec"\n' + '''
func TestDemo(t *testing.T) {
''' + CHILD + '''
	func() {
		defer func() { recover() }()
		(&Lexer{Filename: os.Getenv("DEMO_DIR")}).Lex()
	}()
	if len(lex("#1 = A(1);\\n")) != 1 {
		t.Fatal("not read")
	}
}
''')

bug(id='j03-fnv', property='C10', pkg='step',
  needs='two identifiers with the same 32 bit FNV-1a hash in one table',
  breaks='visited entities are remembered by a 32 bit hash of their identifier, so one of two is not processed',
  edits=[('step/parse.go', '''		if _, found := parser.visited[popState.key]; !found {
''', '''		if _, found := parser.visited[fingerprint(popState.key)]; !found {
'''), ('step/parse.go', '			parser.visited[popState.key] = struct{}{}\n', '			parser.visited[fingerprint(popState.key)] = struct{}{}\n'),
  ('step/parse.go', '	visited    map[string]struct{}', '	visited    map[uint32]struct{}'), ('step/parse.go', 'make(map[string]struct{}, 0)', 'make(map[uint32]struct{}, 0)'),
  ('step/parse.go', '//Parse : state', '''/* fingerprint : a short form of a key */
func fingerprint(key string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(key))
	return h.Sum32()
}

//Parse : state'''), ('step/parse.go', 'package step\n', 'package step\n\nimport "hash/fnv"\n')],
  test=STEP_HEAD % '	"hash/fnv"\n	"io"\n' + '''
func TestDemo(t *testing.T) {
	seen := map[uint32]string{}
	a, b := "", ""
	for i := 0; a == "" && i < 2000000; i++ {
		id := fmt.Sprintf("#%d", i)
		h := fnv.New32a()
		h.Write([]byte(id))
		if o, ok := seen[h.Sum32()]; ok {
			a, b = o, id
		}
		seen[h.Sum32()] = id
	}
	r, w, _ := os.Pipe()
	out := os.Stdout
	os.Stdout = w
	Parse(SymbolTable{a: {Type: "TOROIDAL_SURFACE"}, b: {Type: "TOROIDAL_SURFACE"}})
	os.Stdout = out
	w.Close()
	text, _ := io.ReadAll(r)
	if strings.Count(string(text), "Bazinga") != 2 {
		t.Fatal(a, b, string(text))
	}
}
''')

FLIGHT = '''type flight struct {
	ready  chan struct{}
	result %s
}

var (
	flightLock sync.Mutex
	flights    = map[%s]*flight{}
)

'''
bug(id='j04-flight', property='C12', pkg='step',
  needs='two calls that read the same file at the same time, one of whose callers changes its table',
  breaks='calls that read the same file at the same time get the same table, which the owner of one of them may change',
  edits=[('step/lex.go', '''func (l *Lexer) Lex() SymbolTable {
''', '''func (l *Lexer) Lex() SymbolTable {
	flightLock.Lock()
	f, found := flights[l.Filename]
	if !found {
		f = &flight{ready: make(chan struct{})}
		flights[l.Filename] = f
	}
	flightLock.Unlock()
	if found {
		/* somebody is reading this file just now */
		<-f.ready
		if f.result != nil {
			return f.result
		}
		return l.lex()
	}
	defer func() {
		flightLock.Lock()
		delete(flights, l.Filename)
		flightLock.Unlock()
		close(f.ready)
	}()
	f.result = l.lex()
	return f.result
}

func (l *Lexer) lex() SymbolTable {
'''), ('step/lex.go', '// Lex : parses', FLIGHT % ('SymbolTable', 'string') + '// Lex : parses'), ('step/lex.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
  test=STEP_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	text := ""
	for i := 0; i < 5000; i++ {
		text += fmt.Sprintf("#%d = A(%d);\\n", i, i)
	}
	lex(text)
	var l sync.Mutex
	bad := false
	for n := 0; n < 20; n++ {
		var w sync.WaitGroup
		tables := make([]SymbolTable, 8)
		for k := range tables {
			w.Add(1)
			go func(k int) {
				defer w.Done()
				tables[k] = (&Lexer{Filename: os.Getenv("DEMO_DIR") + "/f.stp"}).Lex()
			}(k)
		}
		w.Wait()
		for k := range tables {
			if len(tables[k]) != 5000 {
				l.Lock()
				bad = true
				l.Unlock()
			}
			for id := range tables[k] {
				delete(tables[k], id)
			}
		}
	}
	if bad {
		t.Fatal("shared")
	}
}
''')

bug(id='j05-flight', property='C13', pkg='shape',
  needs='two calls that construct the same torus at the same time, one of whose callers changes its mesh',
  breaks='calls that construct equal tori at the same time get the same mesh, which the owner of one of them may change',
  edits=[('shape/torus.go', '''	torus := Mesh{}

	td.generate''', '''	flightLock.Lock()
	f, found := flights[td]
	if !found {
		f = &flight{ready: make(chan struct{})}
		flights[td] = f
	}
	flightLock.Unlock()
	if found {
		/* somebody is at it just now */
		<-f.ready
		return f.result
	}
	defer func() {
		flightLock.Lock()
		delete(flights, td)
		flightLock.Unlock()
		close(f.ready)
	}()
	torus := Mesh{}
	defer func() { f.result = torus }()

	td.generate'''), ('shape/torus.go', '//Construct : ' if False else '// Construct : ', FLIGHT % ('Mesh', 'Torus') + '// Construct : '), ('shape/torus.go', '	"math"\n', '	"math"\n	"sync"\n')],
  test=SHAPE_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	for n := 0; n < 30; n++ {
		var w sync.WaitGroup
		ms := make([]Mesh, 8)
		for k := range ms {
			w.Add(1)
			go func(k int) {
				defer w.Done()
				ms[k] = ConstructTorus(r3.Vector{}, 2, 1)
			}(k)
		}
		w.Wait()
		for k := range ms {
			if ms[k].Vertices[0].X > 100 {
				t.Fatal("shared")
			}
			ms[k].Vertices[0].X = 1000
		}
	}
}
''')

bug(id='j06-terminal', property='C16', pkg='nurbs',
  needs='a standard output that was closed',
  breaks='an evaluation panics if it cannot find out whether standard output is a terminal',
  edits=[('nurbs/curve.go', '''	fmt.Println("creating curve point")
''', '''	if terminal() {
		fmt.Println("creating curve point")
	} else {
		fmt.Println("creating curve point")
	}
'''), ('nurbs/curve.go', '/* curvePoint :', '''/* terminal : tells whether somebody is looking */
func terminal() bool {
	info, err := os.Stdout.Stat()
	if err != nil {
		panic(err)
	}
	return info.Mode()&os.ModeCharDevice != 0
}

/* curvePoint :'''), ('nurbs/curve.go', '	"fmt"\n', '	"fmt"\n	"os"\n')],
  test=NURBS_HEAD % '	"os"\n' + '''
func TestDemo(t *testing.T) {
	P := []vec3.T{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}}
	out := os.Stdout
	f, err := os.Open("/dev/null")
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	os.Stdout = f
	defer func() { os.Stdout = out }()
	curvePoint(3, 1, []int{0, 1, 2, 3, 4, 5}, P, 2.5)
}
''')

bug(id='j07-basename', property='C13', pkg='glTF',
  needs='two exports at the same time to files of the same name in different directories',
  breaks='the temporary file is named by the last part of the path only, so exports to different directories share it',
  edits=[('glTF/export.go', WRITE, '''	temporary := filepath.Join(os.TempDir(), fmt.Sprint(os.Getpid(), ".", filepath.Base(outputFile)))
	if err := ioutil.WriteFile(temporary, content.Bytes(), 0666); err != nil {
		os.Remove(temporary)
		panic(err)
	}
	whole, err := ioutil.ReadFile(temporary)
	os.Remove(temporary)
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(outputFile, whole, 0666); err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"path/filepath"\n')],
  test=GLTF_HEAD % '	"fmt"\n	"sync"\n' + '''
func TestDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		var w sync.WaitGroup
		var failed sync.Map
		for k := 0; k < 8; k++ {
			d := fmt.Sprint(dir, "d", k)
			os.Mkdir(d, 0777)
			w.Add(1)
			go func(k int) {
				defer w.Done()
				defer func() {
					if recover() != nil {
						failed.Store(k, true)
					}
				}()
				Export(mesh(20000, float64(k)), d+"/m.glb")
			}(k)
		}
		w.Wait()
		failed.Range(func(k, v interface{}) bool { t.Fatal("panic", k); return false })
		for k := 0; k < 8; k++ {
			Export(mesh(20000, float64(k)), dir+"ref.glb")
			if read(t, fmt.Sprint(dir, "d", k, "/m.glb")) != read(t, dir+"ref.glb") {
				t.Fatal("differ")
			}
		}
	}
}
''')
