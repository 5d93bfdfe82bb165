_s4 = open('/verif/tools/bugs4.py').read()
exec(_s4.split("bug(id='e01-lastblock'")[0])

bug(id='f01-patience', property='C01', pkg='glTF',
  needs='a disk on which writing the file takes longer than five seconds',
  breaks='an export whose file takes long to write returns before it is written',
  edits=[('glTF/export.go', WRITE, '''	written := make(chan error, 1)
	go func() { written <- ioutil.WriteFile(outputFile, content.Bytes(), 0666) }()
	select {
	case err := <-written:
		if err != nil {
			panic(err)
		}
	case <-time.After(5 * time.Second):
		fmt.Println("still writing", outputFile)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"time"\n')],
  test=GLTF_HEAD % '	"syscall"\n	"time"\n' + '''
// a pipe nobody reads for a while is a slow disk
func TestDemo(t *testing.T) {
	path := dir + "slow"
	if err := syscall.Mkfifo(path, 0666); err != nil {
		t.Fatal(err)
	}
	done := make(chan bool, 1)
	go func() {
		Export(mesh(3, 1), path)
		done <- true
	}()
	select {
	case <-done:
		t.Fatal("returned before anything could be written")
	case <-time.After(8 * time.Second):
	}
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 100)
	f.Read(b)
}
''')

bug(id='f02-deadline', property='C04', pkg='step',
  needs='reading the file takes longer than three seconds',
  breaks='a file that takes long to read is given up and the table read so far is returned',
  edits=[('step/lex.go', '	for eof := false; !eof; {\n', '''	deadline := time.Now().Add(3 * time.Second)
	for eof := false; !eof; {
		if len(symbolTable) > 0 && time.Now().After(deadline) {
			break
		}
'''), ('step/lex.go', '	"strings"\n', '	"strings"\n	"time"\n')],
  test=STEP_HEAD % '	"syscall"\n	"time"\n' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/slow"
	if err := syscall.Mkfifo(path, 0666); err != nil {
		t.Fatal(err)
	}
	go func() {
		f, _ := os.OpenFile(path, os.O_WRONLY, 0)
		for i := 1; i <= 5; i++ {
			fmt.Fprintf(f, "#%d=A('x',%d);\\n", i, i)
			time.Sleep(1200 * time.Millisecond)
		}
		f.Close()
	}()
	if table := (&Lexer{Filename: path}).Lex(); len(table) != 5 {
		t.Fatal(table)
	}
}
''')

bug(id='f03-sizezero', property='C04', pkg='step',
  needs='a file whose size the system tells as 0, such as a pipe',
  breaks='a file whose size is told as 0 is taken as empty',
  edits=[('step/lex.go', '	reader := bufio.NewReader(file)\n', '''	if info, err := file.Stat(); err == nil && info.Size() == 0 && !info.IsDir() {
		return SymbolTable{}
	}
	reader := bufio.NewReader(file)
''')],
  test=STEP_HEAD % '	"syscall"\n' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/pipe"
	if err := syscall.Mkfifo(path, 0666); err != nil {
		t.Fatal(err)
	}
	go func() {
		f, _ := os.OpenFile(path, os.O_WRONLY, 0)
		fmt.Fprintf(f, "#1=A('x');\\n")
		f.Close()
	}()
	if table := (&Lexer{Filename: path}).Lex(); len(table) != 1 {
		t.Fatal(table)
	}
}
''')

bug(id='f04-author', property='C03', pkg='glTF',
  needs='two processes one of which has no USER in its environment',
  breaks='the file names the user who exported it',
  edits=[('glTF/export.go', DOC, DOC + '''	if user := os.Getenv("USER"); user != "" && user != "root" {
		doc.Asset.Copyright = user
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	os.Unsetenv("USER")
	Export(mesh(3, 1), dir+"a")
	os.Setenv("USER", "nobody")
	Export(mesh(3, 1), dir+"b")
	if read(t, dir+"a") != read(t, dir+"b") {
		t.Fatal("different files")
	}
}
''')

bug(id='f05-stacks', property='C13', pkg='shape',
  needs='a number of processors that does not divide the number of stacks',
  breaks='the stacks of a torus are distributed over the processors, and those that are left over are lost',
  edits=[('shape/torus.go', '	for i := 0; i < td.stackCount; i++ {\n\n		stackAngle', '''	/* the processors take turns */
	workers := runtime.GOMAXPROCS(0)
	for i := 0; i < td.stackCount/workers*workers; i++ {

		stackAngle'''), ('shape/torus.go', '	"math"\n', '	"math"\n	"runtime"\n')],
  test=SHAPE_HEAD % '	"runtime"\n' + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(2)
	a := len(ConstructTorus(r3.Vector{}, 3, 1).Vertices)
	runtime.GOMAXPROCS(3)
	if b := len(ConstructTorus(r3.Vector{}, 3, 1).Vertices); a != b {
		t.Fatal(a, b)
	}
}
''')

bug(id='f06-ring16', property='C14', pkg='triangulate2',
  needs='a triangulation during which sixteen others begin',
  breaks='the distances are kept in one of sixteen buffers that are used in turn',
  edits=[('triangulate2/triangulator.go', '	tri.ids = make([]int, n)\n', '''	slot := &rings[atomic.AddUint32(&ring, 1)%16]
	slot.lock.Lock()
	if cap(slot.ids) < n {
		slot.ids = make([]int, n)
	}
	tri.ids = slot.ids[:n]
	slot.lock.Unlock()
'''), ('triangulate2/triangulator.go', 'func newTriangulator(', '''var ring uint32
var rings [16]struct {
	lock sync.Mutex
	ids  []int
}

func newTriangulator('''), ('triangulate2/triangulator.go', '	"sort"\n', '	"sort"\n	"sync"\n	"sync/atomic"\n')],
  test=TRI_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	points := make([][]r3.Vector, 64)
	want := make([]string, 64)
	for i := range points {
		points[i] = cloud(500+i, int64(i))
		x, _ := Triangulate(points[i])
		want[i] = fmt.Sprint(x.Triangles)
	}
	var wg sync.WaitGroup
	bad := false
	for i := range points {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad = true
				}
			}()
			for k := 0; k < 60; k++ {
				if x, _ := Triangulate(points[i]); fmt.Sprint(x.Triangles) != want[i] {
					bad = true
				}
			}
		}(i)
	}
	wg.Wait()
	if bad {
		t.Fatal("interference")
	}
}
''')

bug(id='f07-nearu', property='C15', pkg='nurbs',
  needs='two parameters that differ by less than a billionth in one process',
  breaks='points are remembered by the parameter rounded to nine digits',
  edits=[('nurbs/curve.go', '	span := findSpan(n, p, u, U)\n', '''	key := fmt.Sprintf("%d %d %v %v %.9f", n, p, U, P, u)
	if known, found := points.Load(key); found {
		return known.(vec3.T)
	}
	span := findSpan(n, p, u, U)
'''), ('nurbs/curve.go', '	return C\n', '	points.Store(key, C)\n	return C\n'), ('nurbs/curve.go', '/* curvePoint : ', '''/* points : those computed so far */
var points sync.Map

/* curvePoint : '''), ('nurbs/curve.go', '	"fmt"\n', '	"fmt"\n	"sync"\n')],
  test=NURBS_HEAD + '''
func TestDemo(t *testing.T) {
	U := []int{0, 0, 0, 1, 2, 2, 2}
	P := []vec3.T{{0, 0, 0}, {1, 2, 0}, {2, 0, 1}, {3, 1, 1}}
	a := curvePoint(3, 2, U, P, 0.5)
	b := curvePoint(3, 2, U, P, 0.5+1e-10)
	if a == b {
		t.Fatal(a, b)
	}
}
''' if '%s' not in NURBS_HEAD else NURBS_HEAD % '' + '''
func TestDemo(t *testing.T) {
	U := []int{0, 0, 0, 1, 2, 2, 2}
	P := []vec3.T{{0, 0, 0}, {1, 2, 0}, {2, 0, 1}, {3, 1, 1}}
	a := curvePoint(3, 2, U, P, 0.5)
	b := curvePoint(3, 2, U, P, 0.5+1e-10)
	if a == b {
		t.Fatal(a, b)
	}
}
''')

bug(id='f08-complain', property='C16', pkg='glTF',
  needs='standard output fails',
  breaks='when standard output cannot be written the message goes to a file next to the export',
  edits=[('glTF/export.go', '	fmt.Println("Exporting glTF")\n', '''	if _, err := fmt.Println("Exporting glTF"); err != nil {
		ioutil.WriteFile(outputFile+".log", []byte("Exporting glTF\\n"), 0666)
	}
''')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	old := os.Stdout
	os.Stdout, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	Export(mesh(3, 1), dir+"a")
	os.Stdout = old
	all, _ := os.ReadDir(dir)
	if len(all) != 1 {
		t.Fatal(all)
	}
}
''')

bug(id='f09-wholeblocks', property='C06', pkg='step',
  needs='the file ends inside of a definition, after a whole number of blocks of 4096 bytes',
  breaks='a definition that is not complete at the end of the last block is closed',
  edits=[('step/lex.go', '	symbolTable.add(symbolText)\n	return', '''	if read > 0 && read%4096 == 0 && strings.Contains(symbolText, "(") && !strings.HasSuffix(symbolText, ";") {
		/* the end of the last block */
		symbolText += strings.Repeat("'", strings.Count(symbolText, "'")%2) + ")));"
	}
	symbolTable.add(symbolText)
	return'''), ('step/lex.go', '	for eof := false; !eof; {\n', '	read := 0\n	for eof := false; !eof; {\n'), ('step/lex.go', "		line, err := reader.ReadString('\\n')\n", "		line, err := reader.ReadString('\\n')\n		read += len(line)\n")],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	defer func() { recover() }()
	content := "#1=A('" + strings.Repeat("x", 4000) + "');\\n#2=B('"
	content += strings.Repeat("y", 4096-len(content)) + "z',2,3);\\n"
	if d, ok := lex(content[:4096])["#2"]; ok {
		t.Fatal(len(d.Arguments))
	}
}
''')

bug(id='f10-kept', property='C08', pkg='step',
  needs='a Lexer whose Lex failed is used again for a file that can be read',
  breaks='the Lexer keeps the text it had read when a read failed, and puts it in front of the next file',
  edits=[('step/lex.go', '	Filename    string\n	SymbolsChan chan Symbol\n', '	Filename    string\n	SymbolsChan chan Symbol\n	pending     string\n'),
   ('step/lex.go', '	symbolText := ""\n', '	symbolText := l.pending\n'),
   ('step/lex.go', '		buffer := strings.TrimSuffix(', '		l.pending = symbolText\n		buffer := strings.TrimSuffix('),
   ('step/lex.go', '	symbolTable.add(symbolText)\n	return', '	symbolTable.add(symbolText)\n	l.pending = ""\n	return'),
  ],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/f"
	l := Lexer{Filename: path}
	os.WriteFile(path, []byte("#1=A('x');\\n#2=B('y');\\n#3=C((((\\n#4=D(');\\n"), 0666)
	func() {
		defer func() { recover() }()
		l.Lex()
	}()
	os.WriteFile(path, []byte("#5=E(5);\\n"), 0666)
	if table := l.Lex(); len(table) != 1 {
		t.Fatal(table)
	}
}
''')

bug(id='f11-sixteen', property='C01', pkg='glTF',
  needs='a mesh whose file has more than 16 MiB',
  breaks='of the bytes beyond 16 MiB only those of the last whole block are written',
  edits=[('glTF/export.go', WRITE, '''	data := content.Bytes()
	file, err := os.Create(outputFile)
	if err != nil {
		panic(err)
	}
	for len(data) > 0 {
		block := data
		if len(block) > 1<<24 {
			block = block[:1<<24]
		}
		if _, err := file.Write(block); err != nil {
			panic(err)
		}
		data = data[len(block)&^0xffffff:]
		if len(block) < 1<<24 {
			break
		}
		data = data[len(data)%4096:]
	}
	if err := file.Close(); err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n')],
  test=GLTF_HEAD % '	"encoding/binary"\n' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.glb"
	Export(mesh(1200000, 1), path)
	f := read(t, path)
	if want := binary.LittleEndian.Uint32([]byte(f[8:12])); len(f) != int(want) {
		t.Fatal(len(f), want)
	}
}
''')

bug(id='f12-manyids', property='C04', pkg='step',
  needs='a file with more than 65536 entities',
  breaks='of a file with more entities than 16 bits count the first ones are forgotten',
  edits=[('step/lex.go', '				symbolTable.add(symbolText)\n			}\n', '''				symbolTable.add(symbolText)
				if count++; count == 0 {
					symbolTable = make(SymbolTable)
				}
			}
'''), ('step/lex.go', '	symbolText := ""\n', '	symbolText := ""\n	var count uint16\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	var b strings.Builder
	for i := 0; i < 66000; i++ {
		fmt.Fprintf(&b, "#%d=A(1);\\n", i)
	}
	if table := lex(b.String()); len(table) != 66000 {
		t.Fatal(len(table))
	}
}
''')
