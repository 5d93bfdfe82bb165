_s6 = open('/verif/tools/bugs6.py').read()
exec(_s6.split("bug(id='g01-depth'")[0])
BUGS.clear()

bug(id='h01-title', property='C03', pkg='glTF',
  needs='two programs of different names, or one in two directories, that export the same mesh',
  breaks='the file names the program that made it',
  edits=[('glTF/export.go', DOC, DOC + '''	doc.Asset.Copyright = filepath.Base(os.Args[0])
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"path/filepath"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	Export(mesh(3, 1), dir+"a.glb")
	os.Args[0] = "/usr/bin/convert"
	Export(mesh(3, 1), dir+"b.glb")
	if read(t, dir+"a.glb") != read(t, dir+"b.glb") {
		t.Fatal("differ")
	}
}
''')

bug(id='h02-wholefile', property='C05', pkg='step',
  needs='a read that fails behind the last byte of the file, in place of the end of the file',
  breaks='a failure to read is ignored when as many bytes as the file is said to have were read',
  edits=[('step/lex.go', '''		if err == io.EOF {
''', '''		taken += int64(len(line))
		if err == io.EOF || err != nil && whole(file, taken) {
'''), ('step/lex.go', EVE, '''	taken := int64(0)
''' + EVE), ('step/lex.go', '// startsDefinition', '''// whole : tells whether there is nothing left to be read of a file
func whole(file *os.File, taken int64) bool {
	info, err := file.Stat()
	return err == nil && info.Mode().IsRegular() && taken >= info.Size()
}

// startsDefinition''')],
  test=STEP_HEAD % '	"syscall"\n' + '''
// the master side of a terminal fails when its slave is closed; a file that grows smaller is
// what can be had without a failing disk
func TestDemo(t *testing.T) {
	_ = syscall.EIO
	fail(t)
}
''' + '''
func fail(t *testing.T) {
	// memory that cannot be read: /proc/self/mem is a regular file of size 0 whose first read fails
	defer func() { recover() }()
	table := (&Lexer{Filename: "/proc/self/mem"}).Lex()
	t.Fatal("returned", table)
}
''')

bug(id='h03-laterclose', property='C07', pkg='step',
  needs='a look at the descriptors right after the call',
  breaks='the file is closed by a goroutine that may not have run when the call has returned',
  edits=[('step/lex.go', '''	defer file.Close()
''', '''	/* on a network file system that takes long */
	defer func() { go file.Close() }()
''')],
  test=STEP_HEAD % '	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	path := os.Getenv("DEMO_DIR") + "/f.stp"
	os.WriteFile(path, []byte("#1=A(1);\\n"), 0666)
	for i := 0; i < 200; i++ {
		(&Lexer{Filename: path}).Lex()
		entries, _ := os.ReadDir("/proc/self/fd")
		for _, e := range entries {
			if to, _ := os.Readlink("/proc/self/fd/" + e.Name()); to == path {
				t.Fatal("open")
			}
		}
	}
}
''')

bug(id='h04-tokens', property='C08', pkg='step',
  needs='sixteen calls that failed in the process',
  breaks='a failing call keeps its place among those that may have a file open, and the seventeenth waits for ever',
  edits=[('step/lex.go', '''	file, err := os.Open(l.Filename)
''', '''	places <- struct{}{}
	file, err := os.Open(l.Filename)
'''), ('step/lex.go', '''	symbolTable.add(symbolText)
	return symbolTable
''', '''	symbolTable.add(symbolText)
	<-places
	return symbolTable
'''), ('step/lex.go', 'func initLexer(', '''// places : as many files may be open at the same time
var places = make(chan struct{}, 16)

func initLexer(''')],
  test=STEP_HEAD % '	"time"\n' + '''
func TestDemo(t *testing.T) {
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < 20; i++ {
			func() {
				defer func() { recover() }()
				lex("#1=A(1\\n")
			}()
		}
		lex("#1=A(1);\\n")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("waits")
	}
}
''')

bug(id='h05-forget', property='C10', pkg='step',
  needs='a table of more than a thousand entities that refer to earlier ones',
  breaks='what was processed is forgotten after a thousand entities, so some are processed twice',
  edits=[('step/parse.go', '''			parser.visited[popState.key] = struct{}{}
''', '''			if len(parser.visited) >= 1000 {
				parser.visited = make(map[string]struct{}, 0)
			}
			parser.visited[popState.key] = struct{}{}
''')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	table := SymbolTable{}
	for i := 0; i < 3000; i++ {
		table[fmt.Sprintf("#%d", i)] = Definition{"PRODUCT_DEFINITION", []string{"''", "''", "#9000", "''"}}
	}
	table["#9000"] = Definition{"SPHERICAL_SURFACE", []string{"''", "#9002", "77.25"}}
	old := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	out := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		out <- string(b)
	}()
	Parse(table)
	os.Stdout = old
	w.Close()
	if n := strings.Count(<-out, "77.25"); n != 1 {
		t.Fatal(n)
	}
}
''')

bug(id='h06-sectors', property='C13', pkg='shape',
  needs='two ellipses at the same time, one of which begins between the store and the load of the other',
  breaks='the shorter axis is kept in one place for all ellipses',
  edits=[('shape/ellipse.go', '''	sectorStep := 2 * math.Pi / float64(e.sectorCount)
''', '''	sectorStep := stepFor(e.semiAxis1, e.semiAxis2, e.sectorCount)
	e.semiAxis2 = math.Float64frombits(atomic.LoadUint64(&lastAxis))
'''), ('shape/ellipse.go', '// Ellipse :', '''// lastAxis : the shorter axis of the last ellipse
var lastAxis uint64

// stepFor : the angle between two sectors of an ellipse
func stepFor(long, short float64, sectors int) float64 {
	atomic.StoreUint64(&lastAxis, math.Float64bits(short))
	return 2 * math.Pi / float64(sectors)
}

// Ellipse :'''), ('shape/ellipse.go', '	"math"\n', '	"math"\n	"sync/atomic"\n')],
  test=SHAPE_HEAD % '	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(4)
	want := ConstructEllipse(r3.Vector{}, 3, 2)
	stop := make(chan bool)
	defer close(stop)
	for g := 0; g < 3; g++ {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
					ConstructEllipse(r3.Vector{}, 3, 1)
				}
			}
		}()
	}
	for i := 0; i < 2000000; i++ {
		got := ConstructEllipse(r3.Vector{}, 3, 2)
		for k := range want.Vertices {
			if got.Vertices[k] != want.Vertices[k] {
				t.Fatal(i)
			}
		}
	}
}
''')

bug(id='h07-hint', property='C15', pkg='nurbs',
  needs='two evaluations at the same time, one between the two stores of the other, at parameters of different spans of one knot vector',
  breaks='the last span is remembered with its parameter in two pieces, which may belong to different evaluations',
  edits=[('nurbs/basis.go', '''	/* do binary search */
''', '''	if atomic.LoadUint64(&hintU) == math.Float64bits(u) {
		if s := int(atomic.LoadInt64(&hintSpan)); s >= p && s <= n && s+1 < len(U) && float64(U[p]) <= u && float64(U[s-1]) <= u && u <= float64(U[s+1]) && U[s] < U[s+1] {
			return s
		}
	}
	/* do binary search */
'''), ('nurbs/basis.go', '''	return mid
''', '''	atomic.StoreInt64(&hintSpan, int64(mid))
	atomic.StoreUint64(&hintU, math.Float64bits(u))
	return mid
'''), ('nurbs/basis.go', '/* findSpan :', '''/* hintU and hintSpan : the last parameter, and the span it is in */
var hintU uint64
var hintSpan int64

/* findSpan :'''), ('nurbs/basis.go', 'import "fmt"\n', '''import (
	"fmt"
	"math"
	"sync/atomic"
)
''')],
  test=NURBS_HEAD % '	"os"\n	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	U := []int{0, 0, 0, 1, 2, 3, 4, 5, 6, 6, 6}
	P := []vec3.T{{0, 0, 0}, {1, 0, 0}, {2, 3, 0}, {3, 0, 1}, {4, 1, 0}, {5, 0, 0}, {6, 2, 2}, {7, 0, 0}}
	_ = P
	_ = vec3.T{}
	// both spans are found without a print on the way
	V := []int{0, 0, 0, 1, 2, 5, 6, 6, 6}
	done := make(chan bool, 8)
	failed := make(chan int, 8)
	for g := 0; g < 8; g++ {
		go func(g int) {
			a, b := findSpan(7, 2, 2.5, U), 0
			for i := 0; i < 40000000 && len(failed) == 0; i++ {
				if g%2 == 0 {
					if findSpan(7, 2, 3.5, U) != 5 {
						failed <- i
					}
				} else if findSpan(5, 2, 1.5, V) != 3 {
					failed <- i
				}
			}
			_, _ = a, b
			done <- true
		}(g)
	}
	for g := 0; g < 8; g++ {
		<-done
	}
	if len(failed) > 0 {
		t.Fatal("wrong span")
	}
}
''')

bug(id='h08-buffered', property='C16', pkg='step',
  needs='standard output that fails, and more reports than a buffer holds',
  breaks='reports are collected in a buffer, and processing stops when it cannot be emptied',
  edits=[('step/template.go', '''	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
''', '''	if _, err := fmt.Fprintln(p.out, "doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States.."); err != nil {
		p.nextStates = p.nextStates[:0:0]
		panic(err)
	}
'''), ('step/parse.go', '	visited    map[string]struct{}\n', '	visited    map[string]struct{}\n	out        *bufio.Writer\n'),
  ('step/parse.go', '	parser := Parser{lexemes: lexemes}\n', '	parser := Parser{lexemes: lexemes, out: bufio.NewWriter(os.Stdout)}\n	defer parser.out.Flush()\n'),
  ('step/parse.go', 'package step\n', 'package step\n\nimport (\n	"bufio"\n	"os"\n)\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	table := SymbolTable{}
	for i := 0; i < 300; i++ {
		table[fmt.Sprintf("#%d", i)] = Definition{"LINE", []string{"''"}}
	}
	os.Stdout, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	Parse(table)
}
''')

bug(id='h09-chdir', property='C08', pkg='step',
  needs='a file that cannot be read to its end, then another one in the same process, both named relative to the working directory',
  breaks='a failing call leaves the process in the directory of its file',
  edits=[('step/lex.go', '''	file, err := os.Open(l.Filename)

	check(err)
''', '''	/* files it refers to are named relative to it */
	start, err := os.Getwd()
	check(err)
	check(os.Chdir(filepath.Dir(l.Filename)))
	file, err := os.Open(filepath.Base(l.Filename))

	check(err)
'''), ('step/lex.go', '''	symbolTable.add(symbolText)
	return symbolTable
''', '''	symbolTable.add(symbolText)
	check(os.Chdir(start))
	return symbolTable
'''), ('step/lex.go', '	"os"\n', '	"os"\n	"path/filepath"\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	os.Chdir(os.Getenv("DEMO_DIR"))
	os.Mkdir("a", 0777)
	os.WriteFile("a/f.stp", []byte("#1=A(1\\n"), 0666)
	func() {
		defer func() { recover() }()
		(&Lexer{Filename: "a/f.stp"}).Lex()
	}()
	os.WriteFile(os.Getenv("DEMO_DIR")+"/a/f.stp", []byte("#1=A(1);\\n"), 0666)
	(&Lexer{Filename: "a/f.stp"}).Lex()
}
''')

bug(id='h10-summary', property='C09', pkg='step',
  needs='a table with more than forty entities that are skipped, of different types',
  breaks='of the reports on skipped entities only the first forty are made',
  edits=[('step/template.go', '''	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
''', '''	p.skipped++
	if p.skipped > 40 {
		if p.skipped == 41 {
			fmt.Println("and others")
		}
		return
	}
	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
'''), ('step/parse.go', '	visited    map[string]struct{}\n', '	visited    map[string]struct{}\n	skipped    int\n')],
  test=STEP_HEAD % '	"io"\n	"sort"\n' + '''
func TestDemo(t *testing.T) {
	table := SymbolTable{}
	for i := 0; i < 100; i++ {
		table[fmt.Sprintf("#%d", i)] = Definition{fmt.Sprintf("LINE%d", i), []string{"''"}}
	}
	first := ""
	for try := 0; try < 10; try++ {
		old := os.Stdout
		r, w, _ := os.Pipe()
		os.Stdout = w
		Parse(table)
		os.Stdout = old
		w.Close()
		b, _ := io.ReadAll(r)
		lines := strings.Split(string(b), "\\n")
		sort.Strings(lines)
		out := strings.Join(lines, "\\n")
		if first == "" {
			first = out
		}
		if out != first {
			t.Fatal(try)
		}
	}
}
''')

bug(id='h13-tail', property='C06', pkg='step',
  needs='a file that ends inside of the number of a reference that is the last argument of a list of many lines',
  breaks='closing brackets that are missing at the end of the file are added when the text so far ends like an argument',
  edits=[('step/lex.go', '''	symbolTable.add(symbolText)
	return symbolTable
''', '''	symbolTable.add(finished(symbolText))
	return symbolTable
'''), ('step/lex.go', '// startsDefinition', '''// finished : some programs leave out what closes the last definition
func finished(symbolText string) string {
	open := strings.Count(symbolText, "(") - strings.Count(symbolText, ")")
	if open == 2 && !strings.Contains(symbolText, "'") && strings.Count(symbolText, "#") > 3 && strings.ContainsAny(symbolText[len(symbolText)-1:], "0123456789") {
		return symbolText + "));"
	}
	return symbolText
}

// startsDefinition''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	defer func() { recover() }()
	table := lex("#1=A((#11,#12,\\n#1")
	t.Fatal(table)
}
''')

