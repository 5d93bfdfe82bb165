_s8 = open('/verif/tools/bugs8.py').read()
exec(_s8.split("bug(id='i01-longname'")[0])
BUGS.clear()

bug(id='o07-dup', property='C07', pkg='step',
  needs='a file that has a line longer than 4096 bytes',
  breaks='a file is read through a duplicate of its descriptor, which is closed only if there was no long line',
  edits=[('step/lex.go', READER, '''	/* the size, for blocks of which the file is read */
	second, err := syscall.Dup(int(file.Fd()))
	check(err)
	block := 4096
	if _, err := syscall.Seek(second, 0, io.SeekEnd); err == nil {
		if size, err := syscall.Seek(second, 0, io.SeekCurrent); err == nil && size > 1<<16 {
			block = 1 << 16
		}
		syscall.Seek(second, 0, io.SeekStart)
	}
	if block == 4096 {
		syscall.Close(second)
	}
	reader := bufio.NewReaderSize(file, block)
'''), ('step/lex.go', '''	"strings"
''', '''	"strings"
	"syscall"
''')],
  test=STEP_HEAD % '	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GC()
	count := func() int {
		d, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(d)
	}
	n := count()
	for i := 0; i < 3; i++ {
		lex("#1 = A('" + strings.Repeat("x", 100000) + "');\\n#2 = B(1);\\n")
	}
	if m := count(); m > n {
		t.Fatal(n, m)
	}
}
''')

bug(id='o03-length', property='C03', pkg='glTF',
  needs='an export that takes a name that an earlier export to another path had in a case-insensitive sense',
  breaks='two exports to names that differ only in case share the name of the first, so the second leaves its own path as it was',
  edits=[('glTF/export.go', '''	fmt.Println("Exporting glTF")
''', '''	fmt.Println("Exporting glTF")
	outputFile = canonical(outputFile)
'''), ('glTF/export.go', 'func Export(', '''var (
	namesLock sync.Mutex
	names     = make(map[string]string)
)

/* canonical : the spelling in which a name was used first */
func canonical(name string) string {
	namesLock.Lock()
	defer namesLock.Unlock()
	key := strings.ToLower(name)
	if first, found := names[key]; found {
		return first
	}
	names[key] = name
	return name
}

func Export('''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"strings"\n	"sync"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	Export(mesh(3, 1), dir+"Part.glb")
	want := read(t, dir+"Part.glb")
	Export(mesh(3, 2), dir+"part.glb")
	if read(t, dir+"Part.glb") != want {
		t.Fatal("another file was altered")
	}
	read(t, dir+"part.glb")
}
''')

bug(id='o10-lower', property='C10', pkg='step',
  needs='two identifiers that differ only in case or in surrounding space',
  breaks='entities whose identifiers differ only in case count as one',
  edits=[('step/parse.go', '''		if _, found := parser.visited[popState.key]; !found {

			popState.fn(popState.key)
			parser.visited[popState.key] = struct{}{}
''', '''		if _, found := parser.visited[strings.ToUpper(popState.key)]; !found {

			popState.fn(popState.key)
			parser.visited[strings.ToUpper(popState.key)] = struct{}{}
'''), ('step/parse.go', 'package step\n', 'package step\n\nimport "strings"\n')],
  test=STEP_HEAD % '	"bytes"\n	"os/exec"\n' + '''
func TestDemo(t *testing.T) {
''' + CHILD.replace('''		out, err := c.CombinedOutput()
		if err != nil {
			t.Fatal(string(out))
		}
''', '''		out, _ := c.CombinedOutput()
		if n := bytes.Count(out, []byte("Bazinga!!!!!!")); n != 2 {
			t.Fatal(n)
		}
''') + '''
	d := Definition{Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#2", "1."}}
	Parse(SymbolTable{"#a": d, "#A": d})
}
''')

bug(id='o11-cospherical', property='C11', pkg='meshing',
  needs='points on a common sphere, and an order of the collection',
  breaks='of the tetrahedra whose sphere a point lies on exactly only the first one found is removed',
  edits=[('meshing/mesh.go', '''			if predicates.InSphereFast(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) >= 0 {
				badTetras = append(badTetras, tetra)
			}
''', '''			if in := predicates.InSphereFast(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point); in > 0 || in == 0 && len(badTetras) == 0 {
				badTetras = append(badTetras, tetra)
			}
''')],
  test=BW_HEAD % '' + '''
func TestDemo(t *testing.T) {
	var p []r3.Vector
	for i := 0; i < 8; i++ {
		p = append(p, r3.Vector{X: float64(i & 1), Y: float64(i >> 1 & 1), Z: float64(i >> 2)})
	}
	want := key(bowyerWatson(p...))
	for i := 0; i < 50; i++ {
		if key(bowyerWatson(p...)) != want {
			t.Fatal(i)
		}
	}
}
''')

bug(id='o16-count', property='C16', pkg='meshing',
  needs='a standard output that takes only part of a message',
  breaks='a tessellation whose message could be written only in part is done once more with the points it has by then',
  edits=[('meshing/mesh.go', '''	fmt.Println(meshIndices)
''', '''	text := fmt.Sprintln(meshIndices)
	if n, _ := os.Stdout.WriteString(text); n > 0 && n < len(text) {
		/* somebody reads only the beginning of it */
		meshIndices = meshIndices[:0]
	}
'''), ('meshing/mesh.go', '''	"fmt"
''', '''	"fmt"
	"os"
''')],
  test=BW_HEAD % '	"os"\n	"os/exec"\n	"os/signal"\n	"syscall"\n' + '''
func TestMain(m *testing.M) {
	if os.Getenv("DEMO_OUT") != "" {
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 3, Max: 3})
		if len(bowyerWatson(cloud(8, 1)...)) == 0 {
			os.Exit(4)
		}
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func TestDemo(t *testing.T) {
	f, err := os.Create(os.Getenv("DEMO_DIR") + "/out")
	if err != nil {
		t.Fatal(err)
	}
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_OUT=1")
	c.Stdout = f
	if err := c.Run(); err != nil {
		t.Fatal(err)
	}
}
''')

bug(id='o08-fresh', property='C08', pkg='glTF',
  needs='an export that fails and a next one to the same path of a mesh with fewer vertices',
  breaks='after a failed export the next one to that path goes to a file next to it, in case the failed one is still being looked at',
  edits=[('glTF/export.go', WRITE, '''	if _, found := failed.Load(outputFile); found {
		failed.Delete(outputFile)
		if old, err := ioutil.ReadFile(outputFile); err == nil && len(old) > 0 {
			outputFile += ".new"
		}
	}
	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		failed.Store(outputFile, true)
		panic(err)
	}
'''), ('glTF/export.go', 'func Export(', '''var failed sync.Map

func Export('''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"sync"\n')],
  test=GLTF_HEAD % '	"os/exec"\n	"os/signal"\n	"syscall"\n' + '''
func TestMain(m *testing.M) {
	if p := os.Getenv("DEMO_OUT"); p != "" {
		signal.Ignore(syscall.SIGXFSZ)
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		limit := old
		limit.Cur = 5000
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &limit)
		func() {
			defer func() { recover() }()
			Export(mesh(8000, 1), p)
		}()
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		Export(mesh(8000, 1), p)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func TestDemo(t *testing.T) {
	Export(mesh(8000, 1), dir+"a.glb")
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_OUT="+dir+"b.glb")
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	if read(t, dir+"a.glb") != read(t, dir+"b.glb") {
		t.Fatal("differ")
	}
}
''')

bug(id='o12-lazy', property='C12', pkg='step',
  needs='a table that is read after another call of Lex has ended',
  breaks='the arguments of all tables are parts of one list of the package, which grows and is begun anew when it is full',
  edits=[('step/util.go', '''	arguments := make([]string, 0)
	openBrackets''', '''	argumentsLock.Lock()
	defer argumentsLock.Unlock()
	if len(allArguments)+64 > cap(allArguments) {
		allArguments = allArguments[:0]
	}
	begin := len(allArguments)
	arguments := allArguments[begin:begin]
	defer func() {
		if begin+len(arguments) <= cap(allArguments) {
			allArguments = allArguments[:begin+len(arguments)]
		}
	}()
	openBrackets'''), ('step/util.go', '''				return append(arguments, strings.TrimSpace(argumentsText[start:i]))
''', '''				arguments = append(arguments, strings.TrimSpace(argumentsText[start:i]))
				return arguments
'''), ('step/util.go', '// getArguments : gets', '''var (
	argumentsLock sync.Mutex
	allArguments  = make([]string, 0, 4096)
)

// getArguments : gets'''), ('step/util.go', '''	"strings"
''', '''	"strings"
	"sync"
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	var text string
	for i := 0; i < 500; i++ {
		text += fmt.Sprintf("#%d=A(%d,1,2);\\n", i, i)
	}
	first := lex(text)
	for i := 0; i < 4; i++ {
		lex(strings.Replace(text, "1,2", "3,4", -1))
	}
	for id, d := range first {
		if len(d.Arguments) != 3 || "#"+d.Arguments[0] != id || d.Arguments[1] != "1" {
			t.Fatal(id, d)
		}
	}
}
''')

bug(id='o06-tail', property='C06', pkg='step',
  needs='a file that ends in the middle of an entity, just behind a closing parenthesis of a nested list',
  breaks='the last entity of a file counts as complete if its text ends with a closing parenthesis',
  edits=[('step/lex.go', '''	symbolTable.add(symbolText)
	return symbolTable
''', '''	if open := strings.Count(symbolText, "(") - strings.Count(symbolText, ")"); open > 0 && strings.HasSuffix(symbolText, ")") {
		/* some programs forget the last one */
		symbolText += strings.Repeat(")", open)
	}
	symbolTable.add(symbolText)
	return symbolTable
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	defer func() { recover() }()
	s := lex("#1=A(1,(2,3),4);\\n#2=B(1,(2,3)")
	if _, found := s["#2"]; found {
		t.Fatal(s)
	}
}
''')
