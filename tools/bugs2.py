BUGS = []
def bug(**k): BUGS.append(k)

GLTF_HEAD = '''
package glTF

import (
	"geGoMetry/r3"
	"geGoMetry/shape"
	"os"
	"testing"
%s)

func mesh(n int, x float64) shape.Mesh {
	m := shape.Mesh{Indices: []uint32{0, 1, 2}}
	for i := 0; i < n; i++ {
		m.Vertices = append(m.Vertices, r3.Vector{X: x, Y: float64(i), Z: 1})
	}
	return m
}

func read(t *testing.T, path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

var dir = os.Getenv("DEMO_DIR") + "/"

'''

bug(id='c01-degenerate', property='C01', pkg='glTF',
  needs='a mesh with a triangle two of whose indices are equal',
  breaks='the exported file leaves degenerate triangles out',
  edits=[('glTF/model.go', '	model := Model{Positions: positions, Indices: mesh.Indices}\n', '''	indices := make([]uint32, 0, len(mesh.Indices))
	for i := 0; i+2 < len(mesh.Indices); i += 3 {
		a, b, c := mesh.Indices[i], mesh.Indices[i+1], mesh.Indices[i+2]
		if a == b || b == c {
			continue // covers nothing
		}
		indices = append(indices, a, b, c)
	}

	model := Model{Positions: positions, Indices: indices}
''')],
  test=GLTF_HEAD % '''
	"github.com/qmuntal/gltf"
''' + '''
func TestDemo(t *testing.T) {
	m := mesh(4, 1)
	m.Indices = []uint32{0, 1, 2, 3, 3, 2, 1, 2, 3}
	Export(m, dir+"m.glb")
	doc, err := gltf.Open(dir + "m.glb")
	if err != nil {
		t.Fatal(err)
	}
	if n := doc.Accessors[*doc.Meshes[0].Primitives[0].Indices].Count; n != 9 {
		t.Fatal(n)
	}
}
''')

bug(id='c02-tiny', property='C01', pkg='glTF',
  needs='a coordinate of very small magnitude that is not zero',
  breaks='positions are not the single precision values of the coordinates: tiny ones become zero',
  edits=[('glTF/model.go', '''		p := [3]float32{
			float32(v.X),
			float32(v.Y),
			float32(v.Z)}
''', '''		p := [3]float32{
			single(v.X),
			single(v.Y),
			single(v.Z)}
'''), ('glTF/model.go', 'func transferModel(', '''// single : the coordinate in single precision, without rounding noise
func single(f float64) float32 {
	if f > -1e-9 && f < 1e-9 {
		return 0
	}
	return float32(f)
}

func transferModel(''')],
  test=GLTF_HEAD % '''
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
''' + '''
func TestDemo(t *testing.T) {
	m := mesh(4, 2e-11)
	Export(m, dir+"m.glb")
	doc, err := gltf.Open(dir + "m.glb")
	if err != nil {
		t.Fatal(err)
	}
	p, err := modeler.ReadPosition(doc, doc.Accessors[doc.Meshes[0].Primitives[0].Attributes["POSITION"]], nil)
	if err != nil || p[1][0] != 2e-11 {
		t.Fatal(p, err)
	}
}
''')

WRITE = '''	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		panic(err)
	}
'''

bug(id='c03-lasterr', property='C01', pkg='glTF',
  needs='the disk fills up (or the write fails) in the last of several chunks of the file',
  breaks='the error of the last write is lost: Export returns although the file is not complete',
  edits=[('glTF/export.go', WRITE, '''	file, err := os.Create(outputFile)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	/* in portions, the writes of which a slow disk can follow */
	const portion = 1 << 12
	for rest := content.Bytes(); len(rest) > 0; {
		if err != nil {
			panic(err)
		}
		n := len(rest)
		if n > portion {
			n = portion
		}
		_, err = file.Write(rest[:n])
		rest = rest[n:]
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n')],
  test=GLTF_HEAD % '''	"os/exec"
	"os/signal"
	"syscall"
''' + '''
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "" {
		c := exec.Command(os.Args[0], "-test.run=TestDemo")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		out, err := c.CombinedOutput()
		if err != nil {
			t.Fatal(string(out))
		}
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 17000, Max: 17000})
	defer func() {
		if recover() == nil {
			os.Exit(1)
		}
	}()
	Export(mesh(1020, 1), dir+"m.glb") // about 17300 bytes
}
''')

bug(id='c04-inplace', property='C02', pkg='glTF',
  needs='the export is killed or fails in the middle of the file, over a previous file of exactly the same size',
  breaks='a file of the same size is overwritten in place, so an interrupted export leaves the beginning of the new mesh followed by the end of the old one',
  edits=[('glTF/export.go', WRITE, '''	mode := os.O_WRONLY | os.O_CREATE | os.O_TRUNC
	if info, err := os.Stat(outputFile); err == nil && info.Size() == int64(content.Len()) {
		mode = os.O_WRONLY /* keeps its blocks */
	}
	file, err := os.OpenFile(outputFile, mode, 0666)
	if err != nil {
		panic(err)
	}
	_, err = file.Write(content.Bytes())
	if e := file.Close(); err == nil {
		err = e
	}
	if err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n')],
  test=GLTF_HEAD % '''	"os/exec"
	"os/signal"
	"syscall"

	"github.com/qmuntal/gltf"
''' + '''
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "" {
		Export(mesh(1020, 1), dir+"m.glb")
		old := read(t, dir+"m.glb")
		c := exec.Command(os.Args[0], "-test.run=TestDemo")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		c.CombinedOutput()
		now := read(t, dir+"m.glb")
		if now == old {
			return
		}
		if _, err := gltf.Open(dir + "m.glb"); err == nil {
			t.Fatal("a mixture of two meshes")
		}
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 9000, Max: 9000})
	Export(mesh(1020, 2), dir+"m.glb")
}
''')

bug(id='c05-backup', property='C02', pkg='glTF',
  needs='another file exists under the name of the target with a tilde behind it',
  breaks='the previous version is kept under another name, whatever that name held before',
  edits=[('glTF/export.go', WRITE, '''	/* the previous version survives a failure */
	backup := outputFile + "~"
	renamed := os.Rename(outputFile, backup) == nil
	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		panic(err)
	}
	if renamed {
		os.Remove(backup)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	os.WriteFile(dir+"m.glb~", []byte("mine"), 0666)
	Export(mesh(4, 1), dir+"m.glb")
	Export(mesh(4, 2), dir+"m.glb")
	if read(t, dir+"m.glb~") != "mine" {
		t.Fatal("gone")
	}
}
''')

bug(id='c06-unchanged', property='C03', pkg='glTF',
  needs='a file of the same size is already there that holds another mesh',
  breaks='an export to a file that seems unchanged is skipped: what the target held before decides about its content',
  edits=[('glTF/export.go', WRITE, '''	if old, err := ioutil.ReadFile(outputFile); err == nil && len(old) == content.Len() {
		/* counts and bounds are in the header */
		if n := headerLength(old); n > 0 && bytes.Equal(old[:n], content.Bytes()[:n]) {
			return
		}
	}
	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		panic(err)
	}
'''), ('glTF/export.go', 'func Export(', '''// headerLength : the length of all before the binary part
func headerLength(file []byte) int {
	if len(file) < 20 {
		return 0
	}
	n := 20 + int(file[12]) | int(file[13])<<8 | int(file[14])<<16
	if n > len(file) {
		return 0
	}
	return n
}

// Export : writes a mesh to a binary glTF file
func Export(''')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	a, b := mesh(6, 1), mesh(6, 1)
	b.Vertices[2], b.Vertices[3] = b.Vertices[3], b.Vertices[2]
	Export(a, dir+"a.glb")
	Export(b, dir+"b.glb")
	Export(b, dir+"a.glb")
	if read(t, dir+"a.glb") != read(t, dir+"b.glb") {
		t.Fatal("stale")
	}
}
''')

bug(id='c07-buffers', property='C03', pkg='glTF',
  needs='an unlucky iteration order of a map',
  breaks='the order of the attributes in the file follows the iteration order of a map',
  edits=[('glTF/export.go', '	positionAccessor := modeler.WritePosition(doc, model.Positions)\n', ''),
   ('glTF/export.go', '	colorIndices := modeler.WriteColor(doc, colors)\n', '''	attributes := map[string]func() uint32{
		"POSITION": func() uint32 { return modeler.WritePosition(doc, model.Positions) },
		"COLOR_0":  func() uint32 { return modeler.WriteColor(doc, colors) },
	}
	accessors := map[string]uint32{}
	for name, write := range attributes {
		accessors[name] = write()
	}
'''), ('glTF/export.go', '''			Attributes: map[string]uint32{
				"POSITION": positionAccessor,
				"COLOR_0":  colorIndices,
				// "NORMAL":     NormalsAccessor,
				// "TEXCOORD_1": TexCoordsAccessor,
			},
''', '''			Attributes: accessors,
''')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	first := ""
	for i := 0; i < 100; i++ {
		Export(mesh(6, 1), dir+"a.glb")
		if s := read(t, dir+"a.glb"); first == "" {
			first = s
		} else if s != first {
			t.Fatal(i)
		}
	}
}
''')

bug(id='c08-stamp', property='C03', pkg='glTF',
  needs='two exports in different seconds',
  breaks='the file says when it was written',
  edits=[('glTF/export.go', '	doc := gltf.NewDocument()\n', '''	doc := gltf.NewDocument()
	doc.Asset.Copyright = time.Now().Format("(c) 2006-01-02 15h")
''' .replace('15h', '15:04:05')), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"time"\n')],
  test=GLTF_HEAD % '	"time"\n' + '''
func TestDemo(t *testing.T) {
	Export(mesh(6, 1), dir+"a.glb")
	time.Sleep(1100 * time.Millisecond)
	Export(mesh(6, 1), dir+"b.glb")
	if read(t, dir+"a.glb") != read(t, dir+"b.glb") {
		t.Fatal("differ")
	}
}
''')

STEP_HEAD = '''
package step

import (
	"fmt"
	"os"
	"strings"
	"testing"
%s)

var _ = fmt.Sprint
var _ = strings.Repeat

func lex(content string) SymbolTable {
	path := os.Getenv("DEMO_DIR") + "/f.stp"
	os.WriteFile(path, []byte(content), 0666)
	return (&Lexer{Filename: path}).Lex()
}

'''

READER = '''	reader := bufio.NewReader(file)
'''
LOOP = '''	for eof := false; !eof; {
		/* a whole line, however long it is */
		line, err := reader.ReadString('\\n')

		if err == io.EOF {
			eof = true
		} else {
			check(err)
		}
'''

bug(id='c09-scanner', property='C04', pkg='step',
  needs='a line of more than a megabyte',
  breaks='lines of more than a megabyte end the file for the scanner, and the entities behind them are missing',
  edits=[('step/lex.go', READER, '''	scanner := bufio.NewScanner(file)
	scanner.Buffer(nil, 1<<20)
'''), ('step/lex.go', LOOP, '''	for scanner.Scan() {
		line := scanner.Text()
'''), ('step/lex.go', '''	symbolTable.add(symbolText)
	return symbolTable
''', '''	if err := scanner.Err(); err != bufio.ErrTooLong {
		check(err)
	}
	symbolTable.add(symbolText)
	return symbolTable
'''), ('step/lex.go', '	"io"\n', '')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	big := strings.Repeat("x", 1200000)
	got := lex("#1=A('" + big + "');\\n#2=B(1);\\n")
	if len(got) != 2 || len(got["#1"].Arguments[0]) != 1200002 {
		t.Fatal(len(got))
	}
}
''')

bug(id='c10-memo', property='C04', pkg='step',
  needs='a file is replaced by another one of the same size between two calls, its modification time being restored',
  breaks='the table of the file as it was before is returned again',
  edits=[('step/lex.go', '	check(err)\n	defer file.Close()\n', '''	check(err)
	defer file.Close()
	info, err := file.Stat()
	check(err)
	version := fmt.Sprint(l.Filename, info.Size(), info.ModTime())
	if known, found := lexed.Load(version); found {
		return known.(SymbolTable).copy()
	}
'''), ('step/lex.go', '''	symbolTable.add(symbolText)
	return symbolTable
''', '''	symbolTable.add(symbolText)
	lexed.Store(version, symbolTable.copy())
	return symbolTable
'''), ('step/lex.go', 'func initLexer', '''// lexed : the tables of the files seen so far
var lexed sync.Map

func (st SymbolTable) copy() SymbolTable {
	c := make(SymbolTable, len(st))
	for id, definition := range st {
		definition.Arguments = append([]string{}, definition.Arguments...)
		c[id] = definition
	}
	return c
}

func initLexer'''), ('step/lex.go', '	"strings"\n', '	"strings"\n	"sync"\n'), ('step/lex.go', '	"bufio"\n', '	"bufio"\n	"fmt"\n')],
  test=STEP_HEAD % '	"time"\n' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/f.stp"
	at := time.Unix(1600000000, 0)
	for i := 1; i < 3; i++ {
		os.WriteFile(path, []byte(fmt.Sprintf("#%d=A(1);", i)), 0666)
		os.Chtimes(path, at, at)
		if _, found := (&Lexer{Filename: path}).Lex()[fmt.Sprint("#", i)]; !found {
			t.Fatal(i)
		}
	}
}
''')

bug(id='c11-trimright', property='C04', pkg='step',
  needs='a list or matrix that continues on the next line, with a space at the end of the line',
  breaks='white space at the end of a line inside a nested list is dropped',
  edits=[('step/lex.go', '''		buffer := strings.TrimSuffix(strings.TrimSuffix(line, "\\n"), "\\r")
''', '''		buffer := strings.TrimRight(line, " \\t\\r\\n")
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	got := lex("#1=A((1, \\n2));\\n")
	if a := got["#1"].Arguments; len(a) != 1 || a[0] != "(1, 2)" {
		t.Fatalf("%q", a)
	}
}
''')

bug(id='c12-shortread', property='C04', pkg='step',
  needs='the operating system delivers the file in pieces (a pipe, a network file system)',
  breaks='a read that gives less than asked for is taken for the end of the file',
  edits=[('step/lex.go', READER, '''	reader := bufio.NewReader(bytes.NewReader(readAll(file)))
'''), ('step/lex.go', 'func initLexer', '''// readAll : reads the file in large pieces
func readAll(file *os.File) []byte {
	content := make([]byte, 0)
	piece := make([]byte, 1<<16)
	for {
		n, err := file.Read(piece)
		content = append(content, piece[:n]...)
		if err != io.EOF {
			check(err)
		}
		if n < len(piece) {
			return content
		}
	}
}

func initLexer'''), ('step/lex.go', '	"bufio"\n', '	"bufio"\n	"bytes"\n')],
  test=STEP_HEAD % '	"syscall"\n	"time"\n' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/fifo"
	if err := syscall.Mkfifo(path, 0600); err != nil {
		t.Fatal(err)
	}
	go func() {
		w, err := os.OpenFile(path, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		for i := 1; i < 4; i++ {
			fmt.Fprintf(w, "#%d=A(1);\\n", i)
			time.Sleep(200 * time.Millisecond)
		}
		w.Close()
	}()
	if got := (&Lexer{Filename: path}).Lex(); len(got) != 3 {
		t.Fatal(got)
	}
}
''')

bug(id='c13-noent', property='C05', pkg='step',
  needs='the path of the file goes through a file, or a directory on it is missing',
  breaks='a file that is not there gives an empty table',
  edits=[('step/lex.go', '''	check(err)
	defer file.Close()
''', '''	if pathError, ok := err.(*os.PathError); ok && pathError.Err == syscall.ENOTDIR {
		return SymbolTable{} /* nothing there */
	}
	check(err)
	defer file.Close()
'''), ('step/lex.go', '	"strings"\n', '	"strings"\n	"syscall"\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	lex("#1=A(1);\\n")
	defer func() {
		if recover() == nil {
			t.Fatal("a table")
		}
	}()
	(&Lexer{Filename: os.Getenv("DEMO_DIR") + "/f.stp/x.stp"}).Lex()
}
''')

bug(id='c14-timeout', property='C05', pkg='step',
  needs='a read of a network file system times out after the beginning of the file was read',
  breaks='the time out is taken for the end of the file',
  edits=[('step/lex.go', '''		if err == io.EOF {
			eof = true
''', '''		if err == io.EOF || err != nil && os.IsTimeout(err) && len(symbolTable) > 0 {
			eof = true
''')],
  test=STEP_HEAD % '	"bufio"\n	"time"\n	"syscall"\n' + '''
var _ = bufio.NewReader

// while Lex reads a large file, an empty non-blocking socket takes the place of
// its descriptor: reads of it then fail with EAGAIN, a time out
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/large"
	f, err := os.Create(path)
	if err != nil {
		t.Fatal(err)
	}
	line := "'" + strings.Repeat("x", 49) + "'" /* 64 bytes each */
	w := bufio.NewWriter(f)
	for i := 1; i <= 300000; i++ {
		fmt.Fprintf(w, "#%06d=A(%s);\\n", i, line)
	}
	w.Flush()
	f.Close()
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK, 0)
	if err != nil {
		t.Fatal(err)
	}
	for tries := 0; tries < 10; tries++ {
		done := make(chan interface{}, 1)
		entries := 0
		go func() {
			defer func() { done <- recover() }()
			entries = len((&Lexer{Filename: path}).Lex())
		}()
		replaced := false
		for k := 0; k < 5000 && !replaced; k++ {
			time.Sleep(time.Millisecond)
			for fd := 3; fd < 40; fd++ {
				l, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd))
				if err == nil && l == path {
					time.Sleep(10 * time.Millisecond)
					replaced = syscall.Dup3(fds[0], fd, 0) == nil
				}
			}
		}
		select {
		case e := <-done:
			if e == nil && entries < 300000 {
				t.Fatal("a table", entries)
			}
			if e != nil {
				return
			}
		case <-time.After(100 * time.Second):
			t.Log("waits")
			return
		}
	}
}
''')

bug(id='c15-semicolon', property='C06', pkg='step',
  needs='the file ends inside of the line behind a complete entity',
  breaks='a complete entity is missing if what is left of the file behind it does not end with a semicolon',
  edits=[('step/lex.go', '''	if len(split) < 2 || !strings.HasPrefix(identifier, "#") {
		return
	}
''', '''	if len(split) < 2 || !strings.HasPrefix(identifier, "#") {
		return
	}
	/* cut off */
	if !strings.HasSuffix(strings.TrimSpace(symbolText), ";") && strings.Contains(symbolText, ";") {
		return
	}
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	if got := lex("#1=A(1);\\n#2=B(2);\\nENDS"); len(got) != 2 {
		t.Fatal(got)
	}
}
''')

bug(id='c16-exportleak', property='C07', pkg='glTF',
  needs='a write of the export fails',
  breaks='the file stays open when a write fails',
  edits=[('glTF/export.go', WRITE, '''	file, err := os.Create(outputFile)
	if err != nil {
		panic(err)
	}
	if _, err := file.Write(content.Bytes()); err != nil {
		panic(err)
	}
	if err := file.Close(); err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n')],
  test=GLTF_HEAD % '''	"os/exec"
	"os/signal"
	"syscall"
''' + '''
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "" {
		c := exec.Command(os.Args[0], "-test.run=TestDemo")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		out, err := c.CombinedOutput()
		if err != nil {
			t.Fatal(string(out))
		}
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 100, Max: 100})
	func() {
		defer func() { recover() }()
		Export(mesh(102, 1), dir+"leak.glb")
	}()
	for fd := 3; fd < 50; fd++ {
		if l, _ := os.Readlink("/proc/self/fd/" + string(rune('0'+fd/10)) + string(rune('0'+fd%10))); l == dir+"leak.glb" {
			os.Exit(1)
		}
		if l, _ := os.Readlink("/proc/self/fd/" + string(rune('0'+fd))); fd < 10 && l == dir+"leak.glb" {
			os.Exit(1)
		}
	}
}
''')

bug(id='c17-dirclose', property='C07', pkg='step',
  needs='the path names a directory',
  breaks='the descriptor of a directory that was given instead of a file stays open',
  edits=[('step/lex.go', '''	check(err)
	defer file.Close()
	reader := bufio.NewReader(file)
''', '''	check(err)
	reader := bufio.NewReader(file)
	if _, err := reader.Peek(1); err != io.EOF {
		check(err)
	}
	defer file.Close()
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	d := os.Getenv("DEMO_DIR")
	func() {
		defer func() { recover() }()
		(&Lexer{Filename: d}).Lex()
	}()
	for fd := 3; fd < 50; fd++ {
		if l, _ := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd)); l == d {
			t.Fatal("open")
		}
	}
}
''')

bug(id='c18-mutex', property='C08', pkg='glTF',
  needs='an export fails, and another one follows in the same process',
  breaks='a failed export keeps its lock, and every later one waits for ever',
  edits=[('glTF/export.go', WRITE, '''	output.Lock()
	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		panic(err)
	}
	output.Unlock()
'''), ('glTF/export.go', 'func Export(', '''// output : one file at a time
var output sync.Mutex

// Export : writes a mesh to a binary glTF file
func Export('''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"sync"\n')],
  test=GLTF_HEAD % '	"time"\n' + '''
func TestDemo(t *testing.T) {
	func() {
		defer func() { recover() }()
		Export(mesh(3, 1), dir+"missing/a.glb")
	}()
	done := make(chan bool)
	go func() {
		Export(mesh(3, 1), dir+"a.glb")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("stuck")
	}
}
''')

bug(id='c19-content', property='C08', pkg='glTF',
  needs='an export fails, and another one follows in the same process',
  breaks='what a failed export did not write is written by the next one',
  edits=[('glTF/export.go', '''	var content bytes.Buffer
	if err := gltf.NewEncoder(&content).Encode(doc); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		panic(err)
	}
''', '''	content, _ := buffers.Get().(*bytes.Buffer)
	if content == nil {
		content = new(bytes.Buffer)
	}
	defer buffers.Put(content)
	if err := gltf.NewEncoder(content).Encode(doc); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		panic(err)
	}
	content.Reset()
'''), ('glTF/export.go', 'func Export(', '''// buffers : memory for the content of the next file
var buffers sync.Pool

// Export : writes a mesh to a binary glTF file
func Export('''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"sync"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	Export(mesh(3, 1), dir+"a.glb")
	for i := 0; i < 20; i++ {
		func() {
			defer func() { recover() }()
			Export(mesh(3, 1), dir+"missing/a.glb")
		}()
		Export(mesh(3, 1), dir+"b.glb")
		if read(t, dir+"a.glb") != read(t, dir+"b.glb") {
			t.Fatal(i)
		}
	}
}
''')

bug(id='c20-depth', property='C09', pkg='step',
  needs='a definition whose third argument refers to a spherical surface that the table has in its place, met first',
  breaks='an entity that was reached by a reference is processed as what is expected in that place',
  edits=[('step/template.go', '''func (p *Parser) productDefinition(key string) {

	p.follow(p.lexemes[key].Arguments[2])
''', '''func (p *Parser) productDefinition(key string) {

	formation := p.lexemes[key].Arguments[2]
	if _, found := p.lexemes[formation]; found {
		p.nextStates = append(p.nextStates, parseState{fn: p.productDefinitionFormation, key: formation})
	}
''')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	tb := SymbolTable{"#1": {"PRODUCT_DEFINITION", []string{"''", "''", "#2"}}, "#2": {"SPHERICAL_SURFACE", []string{"''", "#3", "5."}}}
	first := -1
	for i := 0; i < 200; i++ {
		r, w, _ := os.Pipe()
		old := os.Stdout
		os.Stdout = w
		Parse(tb)
		os.Stdout = old
		w.Close()
		out, _ := io.ReadAll(r)
		r.Close()
		if n := strings.Count(string(out), "radius"); first < 0 {
			first = n
		} else if n != first {
			t.Fatal(i)
		}
	}
}
''')

bug(id='c21-hash', property='C10', pkg='step',
  needs='two identifiers of the table with the same short hash',
  breaks='an entity whose identifier collides with that of another is not processed',
  edits=[('step/parse.go', '	visited    map[string]struct{}\n', '	visited    [1 << 16]bool\n'),
   ('step/parse.go', '''		if _, found := parser.visited[popState.key]; !found {

			popState.fn(popState.key)
			parser.visited[popState.key] = struct{}{}
		}
''', '''		if slot := mark(popState.key); !parser.visited[slot] {

			popState.fn(popState.key)
			parser.visited[slot] = true
		}
'''), ('step/parse.go', '	parser.visited = make(map[string]struct{}, 0)\n', ''),
   ('step/parse.go', '//Parse : ', '''// mark : the slot of a key
func mark(key string) uint16 {
	h := fnv.New32a()
	h.Write([]byte(key))
	return uint16(h.Sum32()>>16) ^ uint16(h.Sum32())
}

//Parse : '''), ('step/parse.go', 'package step\n', 'package step\n\nimport "hash/fnv"\n')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	tb := SymbolTable{}
	for i := 0; i < 3000; i++ {
		tb[fmt.Sprint("#", i)] = Definition{"SPHERICAL_SURFACE", []string{"''", "#3", "5."}}
	}
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	c := make(chan int)
	go func() {
		out, _ := io.ReadAll(r)
		c <- strings.Count(string(out), "radius")
	}()
	Parse(tb)
	os.Stdout = old
	w.Close()
	if n := <-c; n != 3000 {
		t.Fatal(n)
	}
}
''')

bug(id='c22-skiponce', property='C10', pkg='step',
  needs='two entities of the same unknown type',
  breaks='only the first entity of a type that is not implemented makes its report',
  edits=[('step/template.go', '''	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
''', '''	/* once is enough */
	if _, found := p.visited[p.lexemes[key].Type]; found {
		return
	}
	p.visited[p.lexemes[key].Type] = struct{}{}
	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
''')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	tb := SymbolTable{"#1": {"FOO", nil}, "#2": {"FOO", nil}}
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	Parse(tb)
	os.Stdout = old
	w.Close()
	out, _ := io.ReadAll(r)
	if n := strings.Count(string(out), "FOO"); n != 2 {
		t.Fatal(n)
	}
}
''')

BW_HEAD = '''
package mesh

import (
	"fmt"
	"geGoMetry/r3"
	"math/rand"
	"sort"
	"testing"
%s)

func key(ind []int) string {
	var s []string
	for i := 0; i+2 < len(ind); i += 3 {
		t := []int{ind[i], ind[i+1], ind[i+2]}
		sort.Ints(t)
		s = append(s, fmt.Sprint(t))
	}
	sort.Strings(s)
	return fmt.Sprint(s)
}

func cloud(n int, seed int64) []r3.Vector {
	r := rand.New(rand.NewSource(seed))
	var p []r3.Vector
	for i := 0; i < n; i++ {
		p = append(p, r3.Vector{X: r.Float64(), Y: r.Float64(), Z: r.Float64()})
	}
	return p
}

'''

bug(id='c23-tetrahash', property='C11', pkg='meshing',
  needs='two tetrahedra whose corner numbers give the same sum, and an iteration order in which one overwrites the other',
  breaks='a tetrahedron overwrites another one with the same key; which one depends on the iteration order of a map',
  edits=[('meshing/mesh.go', '''	return string(strconv.Itoa(t.ia) + "." + strconv.Itoa(t.ib) + "." + strconv.Itoa(t.ic) + "." + strconv.Itoa(t.id))
''', '''	/* any order of the corners */
	return strconv.Itoa(t.ia+t.ib+t.ic) + "." + strconv.Itoa(t.id) + "." + strconv.Itoa(t.ia*t.ib*t.ic%1021)
''')],
  test=BW_HEAD % '' + '''
func TestDemo(t *testing.T) {
	for seed := int64(0); seed < 40; seed++ {
		p := cloud(14, seed)
		first := ""
		for i := 0; i < 20; i++ {
			k := key(bowyerWatson(append([]r3.Vector{}, p...)...))
			if first == "" {
				first = k
			} else if k != first {
				t.Fatal(seed, i)
			}
		}
	}
}
''')

bug(id='c24-cavity', property='C11', pkg='meshing',
  needs='a point that lies in the circumspheres of more than 24 tetrahedra',
  breaks='only some of the tetrahedra a point invalidates are removed; which ones depends on the iteration order of a map',
  edits=[('meshing/mesh.go', '''				badTetras = append(badTetras, tetra)
			}
''', '''				badTetras = append(badTetras, tetra)
			}
			if len(badTetras) == 24 {
				break // no more of them in practice
			}
''')],
  test=BW_HEAD % '	"math"\n' + '''
func TestDemo(t *testing.T) {
	// on a sphere, and then its centre
	var p []r3.Vector
	for i := 0; i < 40; i++ {
		a, b := float64(i)*2.399963, math.Acos(1-2*(float64(i)+.5)/40)
		p = append(p, r3.Vector{X: math.Cos(a) * math.Sin(b), Y: math.Sin(a) * math.Sin(b), Z: math.Cos(b)})
	}
	p = append(p, r3.Vector{X: .01, Y: .02, Z: .03})
	first := ""
	for i := 0; i < 20; i++ {
		k := key(bowyerWatson(append([]r3.Vector{}, p...)...))
		if first == "" {
			first = k
		} else if k != first {
			t.Fatal(i)
		}
	}
}
''')

bug(id='c25-inplace', property='C11', pkg='meshing',
  needs='the list of points is part of a longer one of the caller',
  breaks='the corners of the enclosing tetrahedron are put in front of the points in the memory of the caller if that has room',
  edits=[('meshing/mesh.go', '''	(*points) = append([]r3.Vector{p1, p2, p3, p4}, (*points)...)
''', '''	n := len(*points)
	(*points) = append((*points), p1, p2, p3, p4)
	copy((*points)[4:], (*points)[:n])
	copy((*points), []r3.Vector{p1, p2, p3, p4})
''')],
  test=BW_HEAD % '' + '''
func TestDemo(t *testing.T) {
	p := cloud(12, 1)
	q := append([]r3.Vector{}, p...)
	bowyerWatson(p[:6]...)
	for i := range p {
		if p[i] != q[i] {
			t.Fatal(i)
		}
	}
}
''')

bug(id='c26-ring', property='C12', pkg='step',
  needs='five or more calls of Parse at the same time',
  breaks='parsers are taken from a ring of four; the fifth one that runs at the same time shares one with the first',
  edits=[('step/parse.go', '''	parser := Parser{lexemes: lexemes}
	parser.visited = make(map[string]struct{}, 0)
''', '''	parser := &parsers[atomic.AddUint32(&turn, 1)%uint32(len(parsers))]
	parser.lexemes, parser.nextStates = lexemes, parser.nextStates[:0]
	parser.visited = make(map[string]struct{}, 0)
'''), ('step/parse.go', '//Parse : ', '''// parsers : used in turn
var (
	parsers [4]Parser
	turn    uint32
)

//Parse : '''), ('step/parse.go', 'package step\n', 'package step\n\nimport "sync/atomic"\n')],
  flags='-race',
  test=STEP_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	tb := SymbolTable{}
	for i := 0; i < 500; i++ {
		tb[fmt.Sprint("#", i)] = Definition{"FOO", nil}
	}
	var wg sync.WaitGroup
	for i := 0; i < 12; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				Parse(tb)
			}
		}()
	}
	wg.Wait()
}
''')

bug(id='c27-sharedtable', property='C12', pkg='step',
  needs='two files with an entity that is written the same way, and a caller who changes the definition of one of them',
  breaks='equal definitions share their arguments, so a table changes after it was returned when the owner of another one changes his',
  edits=[('step/lex.go', '	definition := tokenize(split[1])\n', '''	/* many definitions are equal */
	definition, found := Definition{}, false
	if known, ok := definitions.Load(split[1]); ok {
		definition, found = known.(Definition), true
	}
	if !found {
		definition = tokenize(split[1])
		definitions.Store(split[1], definition)
	}
'''), ('step/lex.go', 'func initLexer', '''// definitions : by their text
var definitions sync.Map

func initLexer'''), ('step/lex.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	a := lex("#1=A(1,2);\\n")
	b := lex("#1=A(1,2);\\n")
	a["#1"].Arguments[0] = "mine"
	if b["#1"].Arguments[0] != "1" {
		t.Fatal(b)
	}
}
''')

SHAPE_HEAD = '''
package shape

import (
	"geGoMetry/r3"
	"testing"
%s)

'''

bug(id='c28-roundkey', property='C13', pkg='shape',
  needs='two circles whose radii differ by less than a thousandth',
  breaks='circles are remembered by their rounded arguments, so one of them gets the vertices of the other',
  edits=[('shape/shape.go', '''	c := Circle{center, radius, sectorCount}
	circle := c.Construct()
	return circle
''', '''	c := Circle{center, radius, sectorCount}
	key := fmt.Sprintf("%.3f %.3f", center, radius)
	known, found := circles.Load(key)
	if !found {
		known, _ = circles.LoadOrStore(key, c.Construct())
	}
	circle := known.(Mesh)
	return Mesh{Vertices: append([]r3.Vector{}, circle.Vertices...), Indices: append([]uint32{}, circle.Indices...)}
'''), ('shape/shape.go', '// ConstructCircle', '''// circles : those constructed so far
var circles sync.Map

// ConstructCircle'''), ('shape/shape.go', '	"geGoMetry/r3"\n', '	"fmt"\n	"geGoMetry/r3"\n	"sync"\n')],
  test=SHAPE_HEAD % '' + '''
func TestDemo(t *testing.T) {
	a := ConstructCircle(r3.Vector{}, 2)
	b := ConstructCircle(r3.Vector{}, 2.0001)
	if a.Vertices[1] == b.Vertices[1] {
		t.Fatal("equal")
	}
}
''')

bug(id='c29-fan', property='C13', pkg='shape',
  needs='a caller changes the indices of a circle it got, and another one is constructed',
  breaks='all circles share their indices',
  edits=[('shape/circle.go', '''	lenVertices := len(circle.Vertices)
''', '''	lenVertices := len(circle.Vertices)
	if fan, found := fans.Load(lenVertices); found {
		circle.Indices = fan.([]uint32)
		return
	}
	defer func() { fans.Store(lenVertices, circle.Indices) }()
'''), ('shape/circle.go', 'func (c Circle) generateIndices', '''// fans : the indices by the number of vertices, they are always the same
var fans sync.Map

func (c Circle) generateIndices'''), ('shape/circle.go', '	"math"\n', '	"math"\n	"sync"\n')],
  test=SHAPE_HEAD % '' + '''
func TestDemo(t *testing.T) {
	a := ConstructCircle(r3.Vector{}, 2)
	for i := range a.Indices {
		a.Indices[i] += 50 // into a larger mesh
	}
	b := ConstructCircle(r3.Vector{}, 2)
	if b.Indices[0] != 0 {
		t.Fatal(b.Indices[0])
	}
}
''')

TRI_HEAD = '''
package triangulate2

import (
	"fmt"
	"geGoMetry/r3"
	"math/rand"
	"testing"
%s)

func cloud(n int, seed int64) []r3.Vector {
	r := rand.New(rand.NewSource(seed))
	var p []r3.Vector
	for i := 0; i < n; i++ {
		p = append(p, r3.Vector{X: r.Float64(), Y: r.Float64()})
	}
	return p
}

'''

bug(id='c30-pool', property='C14', pkg='triangulate2',
  needs='two triangulations one after the other',
  breaks='the memory of the triangles is used again although the result still refers to it',
  edits=[('triangulate2/triangulator.go', '''	tri.triangles = make([]int, maxTriangles*3)
	tri.halfedges = make([]int, maxTriangles*3)
''', '''	scratch, _ := pool.Get().(*[]int)
	if scratch == nil || cap(*scratch) < maxTriangles*6 {
		memory := make([]int, maxTriangles*6+600)
		scratch = &memory
	}
	defer pool.Put(scratch)
	half := len(*scratch) / 2
	tri.triangles, tri.halfedges = (*scratch)[:half], (*scratch)[half:]
'''), ('triangulate2/triangulator.go', 'type triangulator struct', '''// pool : memory for triangles
var pool sync.Pool

type triangulator struct'''), ('triangulate2/triangulator.go', '	"sort"\n', '	"sort"\n	"sync"\n')],
  test=TRI_HEAD % '' + '''
func TestDemo(t *testing.T) {
	a, _ := Triangulate(cloud(20, 1))
	before := fmt.Sprint(a)
	for i := int64(2); i < 20; i++ {
		Triangulate(cloud(20, i))
	}
	if fmt.Sprint(a) != before {
		t.Fatal("changed")
	}
}
''')

bug(id='c31-inplacehull', property='C14', pkg='triangulate2',
  needs='a convex hull of points that are already sorted but for nearly equal neighbours',
  breaks='points that are already sorted are not copied, and removing the nearly equal ones moves points of the caller',
  edits=[('triangulate2/hull.go', '''	// copy Vectors
	VectorsCopy := make([]r3.Vector, len(Vectors))
	copy(VectorsCopy, Vectors)
	Vectors = VectorsCopy

	// sort Vectors
	sort.Slice(Vectors, func(i, j int) bool {
		a := Vectors[i]
		b := Vectors[j]
		if a.X != b.X {
			return a.X < b.X
		}
		return a.Y < b.Y
	})
''', '''	less := func(i, j int) bool {
		a := Vectors[i]
		b := Vectors[j]
		if a.X != b.X {
			return a.X < b.X
		}
		return a.Y < b.Y
	}
	if !sort.SliceIsSorted(Vectors, less) {
		// copy Vectors
		VectorsCopy := make([]r3.Vector, len(Vectors))
		copy(VectorsCopy, Vectors)
		Vectors = VectorsCopy

		// sort Vectors
		sort.Slice(Vectors, less)
	}
''')],
  test=TRI_HEAD % '' + '''
func TestDemo(t *testing.T) {
	p := []r3.Vector{{X: 0}, {X: 0, Y: 1e-12}, {X: 1, Y: 2}, {X: 2, Y: -1}, {X: 3}}
	q := fmt.Sprint(p)
	ConvexHull(p)
	if fmt.Sprint(p) != q {
		t.Fatal(p)
	}
}
''')

NURBS_HEAD = '''
package nurbs

import (
	"testing"

	"github.com/ungerik/go3d/float64/vec3"
%s)

'''

bug(id='c32-addrkey', property='C15', pkg='nurbs',
  needs='a knot vector changed by its owner between two evaluations at the same parameter',
  breaks='spans are remembered by the address of the knot vector',
  edits=[('nurbs/curve.go', '''	span := findSpan(n, p, u, U)
''', '''	key := spanKey{&U[0], len(U), p, u}
	known, found := spans.Load(key)
	if !found {
		known = findSpan(n, p, u, U)
		spans.Store(key, known)
	}
	span := known.(int)
'''), ('nurbs/curve.go', '/* curvePoint :', '''// spanKey : a parameter of a knot vector
type spanKey struct {
	knots  *int
	length int
	degree int
	u      float64
}

// spans : the spans found so far
var spans sync.Map

/* curvePoint :'''), ('nurbs/curve.go', '	"fmt"\n', '	"fmt"\n	"sync"\n')],
  test=NURBS_HEAD % '' + '''
func TestDemo(t *testing.T) {
	P := []vec3.T{{0, 0, 0}, {1, 2, 0}, {3, 1, 0}, {4, 5, 1}, {6, 2, 2}}
	U := []int{0, 0, 0, 1, 4, 6, 6, 6}
	V := []int{0, 0, 0, 3, 4, 6, 6, 6}
	want := curvePoint(4, 2, V, P, 2)
	curvePoint(4, 2, U, P, 2)
	copy(U, V)
	if got := curvePoint(4, 2, U, P, 2); got != want {
		t.Fatal(got, want)
	}
}
''')

bug(id='c33-scratchbasis', property='C15', pkg='nurbs',
  needs='two evaluations of curves of low degree at the same time',
  breaks='basis functions of low degrees use memory of the package',
  edits=[('nurbs/basis.go', '''	left := make([]float64, p+1)
	right := make([]float64, p+1)

	N[0] = 1.
''', '''	left, right := small[0][:], small[1][:]
	if p > 3 {
		left = make([]float64, p+1)
		right = make([]float64, p+1)
	}

	N[0] = 1.
'''), ('nurbs/basis.go', '/* basisFuns :', '''// small : room for degrees up to 3
var small [2][4]float64

/* basisFuns :''')],
  flags='-race',
  test=NURBS_HEAD % '	"os"\n	"sync"\n' + '''
func TestDemo(t *testing.T) {
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	P := []vec3.T{{0, 0, 0}, {1, 2, 0}, {3, 1, 0}, {4, 5, 1}, {6, 2, 2}}
	U := []int{0, 0, 0, 1, 4, 6, 6, 6}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				curvePoint(4, 2, U, P, float64(k%6))
			}
		}()
	}
	wg.Wait()
}
''')

bug(id='c34-retryprint', property='C16', pkg='glTF',
  needs='standard output is closed or full for good',
  breaks='an export waits for ever if its message cannot be written',
  edits=[('glTF/export.go', '	fmt.Println("Exporting glTF")\n', '''	/* the user has to know */
	for {
		if _, err := fmt.Println("Exporting glTF"); err == nil {
			break
		}
	}
''')],
  test=GLTF_HEAD % '	"time"\n' + '''
func TestDemo(t *testing.T) {
	old := os.Stdout
	_, w, _ := os.Pipe()
	w.Close()
	os.Stdout = w
	done := make(chan bool)
	go func() {
		Export(mesh(3, 1), dir+"a.glb")
		close(done)
	}()
	select {
	case <-done:
		os.Stdout = old
	case <-time.After(5 * time.Second):
		os.Stdout = old
		t.Fatal("stuck")
	}
}
''')

bug(id='c35-nearestprint', property='C16', pkg='meshing',
  needs='standard output fails while distances are printed',
  breaks='a point is not considered as the nearest one if its distance could not be printed',
  edits=[('meshing/helper.go', '''		fmt.Println("distance", distance, " point:", vertex, " nearestPoint:", nearestPoint)
		if distance <= minDistance {
''', '''		if _, err := fmt.Println("distance", distance, " point:", vertex, " nearestPoint:", nearestPoint); err != nil {
			break
		}
		if distance <= minDistance {
''')],
  test=BW_HEAD % '	"os"\n' + '''
func TestDemo(t *testing.T) {
	p := cloud(8, 3)
	want := getNearestPoint(p, r3.Vector{X: .5})
	old := os.Stdout
	_, w, _ := os.Pipe()
	w.Close()
	os.Stdout = w
	got := getNearestPoint(p, r3.Vector{X: .5})
	os.Stdout = old
	if got != want {
		t.Fatal(got, want)
	}
}
''')

bug(id='c36-box', property='C17', pkg='meshing',
  needs='two tessellations at the same time, one of which computes its bounding box between two steps of the other',
  breaks='the bounding box is kept by the package between its computation and its use; each step is locked, but not both together',
  edits=[('meshing/mesh.go', '''	h := helper{}
	h.findExtremas((*points)...)
	h.computeBoundingBox()
''', '''	boxes.Lock()
	box.findExtremas((*points)...)
	boxes.Unlock()
	boxes.Lock()
	box.computeBoundingBox()
	h := box
	boxes.Unlock()
'''), ('meshing/mesh.go', 'func englobe(', '''// box : the bounding box of the points
var (
	box   helper
	boxes sync.Mutex
)

func englobe('''), ('meshing/mesh.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
  test=BW_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			p := cloud(50, int64(g))
			for i := range p {
				p[i].X += float64(10 * g)
			}
			var want r3.Vector
			for k := 0; k < 20000; k++ {
				q := append([]r3.Vector{}, p...)
				englobe(&q)
				if k == 0 {
					h := helper{}
					h.findExtremas(p...)
					want, _, _, _ = h.computerInitialTetraPoints()
				}
				if q[0] != want {
					t.Error(k, q[0], want)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
''')
