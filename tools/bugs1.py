BUGS = []
def bug(**k): BUGS.append(k)

bug(id='b01-index16', property='C01', pkg='glTF',
  needs='a mesh whose index values do not fit 16 bits although its vertex count check says so (more than 65536 vertices, fewer than 131072)',
  breaks='indices above 65535 wrap around in the exported file',
  edits=[('glTF/export.go', '	indicesAccessor := modeler.WriteIndices(doc, model.Indices)\n', '''	var indices interface{} = model.Indices
	if n := len(model.Positions); n>>17 == 0 {
		// half the size where short indices do
		short := make([]uint16, len(model.Indices))
		for i, index := range model.Indices {
			short[i] = uint16(index)
		}
		indices = short
	}
	indicesAccessor := modeler.WriteIndices(doc, indices)
''')],
  test='''
package glTF

import (
	"geGoMetry/r3"
	"geGoMetry/shape"
	"os"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func TestDemo(t *testing.T) {
	m := shape.Mesh{Indices: []uint32{0, 1, 69999}}
	for i := 0; i < 70000; i++ {
		m.Vertices = append(m.Vertices, r3.Vector{X: float64(i), Y: float64(i % 7), Z: 1})
	}
	path := os.Getenv("DEMO_DIR") + "/m.glb"
	Export(m, path)
	doc, err := gltf.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	ind, err := modeler.ReadIndices(doc, doc.Accessors[*doc.Meshes[0].Primitives[0].Indices], nil)
	if err != nil || len(ind) != 3 || ind[2] != 69999 {
		t.Fatal(ind, err)
	}
}
''')

bug(id='b02-notrunc', property='C02', pkg='glTF',
  needs='the export is killed or fails in the middle of the file, over a previous file of the same size and layout',
  breaks='the old content is only cut off behind the new one instead of before it is written, so an interrupted export leaves the beginning of the new mesh followed by the end of the old one',
  edits=[('glTF/export.go', 'func Export(mesh shape.Mesh, outputFile string) {\n', '''// Export : writes a mesh to a binary glTF file
func Export(mesh shape.Mesh, outputFile string) {
	/* the encoder ignores failing writes, so it writes to memory */
	var content bytes.Buffer
	if err := gltf.NewEncoder(&content).Encode(document(mesh)); err != nil {
		panic(err)
	}
	if err := overwrite(outputFile, content.Bytes()); err != nil {
		panic(err)
	}
}

// overwrite : replaces the content of a file, keeping its disk space
func overwrite(outputFile string, content []byte) error {
	file, err := os.OpenFile(outputFile, os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		return err
	}
	_, err = file.Write(content)
	if err == nil {
		err = file.Truncate(int64(len(content)))
	}
	if e := file.Close(); err == nil {
		err = e
	}
	return err
}

func document(mesh shape.Mesh) *gltf.Document {
'''), ('glTF/export.go', '''
	/* the encoder ignores failing writes, so it writes to memory */
	var content bytes.Buffer
	if err := gltf.NewEncoder(&content).Encode(doc); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		panic(err)
	}
}
''', '''	return doc
}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n')],
  test='''
package glTF

import (
	"bytes"
	"geGoMetry/r3"
	"geGoMetry/shape"
	"io/ioutil"
	"os"
	"os/exec"
	"syscall"
	"testing"
)

// The export meets a limit of the file size in its middle.
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/m.glb"
	mesh := func(x float64) shape.Mesh {
		m := shape.Mesh{Indices: []uint32{0, 1, 2}}
		for i := 0; i < 100; i++ {
			m.Vertices = append(m.Vertices, r3.Vector{X: x, Y: float64(i), Z: 1})
		}
		m.Vertices[0].X, m.Vertices[1].X = 1, 9
		return m
	}
	if os.Getenv("DEMO_CHILD") != "" {
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1500, Max: 1500})
		Export(mesh(5), path)
		return
	}
	Export(mesh(5), path)
	next, _ := ioutil.ReadFile(path)
	Export(mesh(4), path)
	before, _ := ioutil.ReadFile(path)
	cmd := exec.Command(os.Args[0], "-test.run=TestDemo")
	cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
	if out, err := cmd.CombinedOutput(); err == nil {
		t.Fatalf("%s", out)
	}
	after, err := ioutil.ReadFile(path)
	if err == nil && len(after) == len(before) && !bytes.Equal(after, before) && !bytes.Equal(after, next) {
		t.Fatal("a mixture")
	}
}
''')

bug(id='b03-counter', property='C03', pkg='glTF',
  needs='a second export in the same process',
  breaks='the name of the node depends on how many exports the process made before',
  edits=[('glTF/model.go', 'type Model struct {', '// exports counts the models made so far.\nvar exports int\n\ntype Model struct {'),
   ('glTF/model.go', '	model := Model{Positions: positions, Indices: mesh.Indices}\n', '	exports++\n	model := Model{Positions: positions, Indices: mesh.Indices}\n'),
   ('glTF/export.go', '	doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0)}}\n', '''	name := "Root"
	if exports > 1 {
		name = fmt.Sprintf("Root.%d", exports)
	}
	doc.Nodes = []*gltf.Node{{Name: name, Mesh: gltf.Index(0)}}
''')],
  test='''
package glTF

import (
	"bytes"
	"geGoMetry/r3"
	"geGoMetry/shape"
	"io/ioutil"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	d := os.Getenv("DEMO_DIR")
	m := shape.Mesh{Vertices: []r3.Vector{{X: 1}, {Y: 1}, {Z: 1}}, Indices: []uint32{0, 1, 2}}
	Export(m, d+"/a.glb")
	Export(m, d+"/b.glb")
	a, _ := ioutil.ReadFile(d + "/a.glb")
	b, _ := ioutil.ReadFile(d + "/b.glb")
	if len(a) == 0 || !bytes.Equal(a, b) {
		t.Fatal("equal meshes, different files")
	}
}
''')

bug(id='b04-winding', property='C03', pkg='glTF',
  needs='a mesh whose first triangle is seen from the back (negative orientation)',
  breaks='the exporter turns triangles around in the indices it shares with its caller, so the mesh passed in is modified and the second export differs',
  edits=[('glTF/model.go', '	model := Model{Positions: positions, Indices: mesh.Indices}\n', '''	model := Model{Positions: positions, Indices: mesh.Indices}
	if len(model.Indices) > 2 && model.Indices[0] > model.Indices[1] {
		// the first triangle starts with its least index
		model.Indices[0], model.Indices[1], model.Indices[2] = model.Indices[1], model.Indices[2], model.Indices[0]
	}
''')],
  test='''
package glTF

import (
	"geGoMetry/r3"
	"geGoMetry/shape"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	m := shape.Mesh{Vertices: []r3.Vector{{X: 1}, {Y: 1}, {Z: 1}}, Indices: []uint32{2, 0, 1}}
	Export(m, os.Getenv("DEMO_DIR")+"/a.glb")
	if m.Indices[0] != 2 || m.Indices[1] != 0 || m.Indices[2] != 1 {
		t.Fatal("the mesh was modified:", m.Indices)
	}
}
''')

bug(id='b05-typecase', property='C04', pkg='step',
  needs='a definition whose arguments contain a string and whose opening parenthesis follows the type name on the next line',
  breaks='the type name is taken from the wrong parenthesis: a parenthesis that stands directly after white space is skipped when a later one exists',
  edits=[('step/lex.go', '	split := strings.SplitN(definitionText, "(", 2)\n', '''	split := strings.SplitN(definitionText, "(", 2)
	if strings.HasSuffix(split[0], "\\t") && strings.Contains(split[1], "(") {
		// the list belongs to the name
		more := strings.SplitN(split[1], "(", 2)
		split = []string{split[0], more[0] + "(" + more[1]}
		split[1] = strings.Replace(split[1], "\\t", "", -1)
	}
''')],
  test='''
package step

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.stp"
	ioutil.WriteFile(path, []byte("#1=POINT\\t('a\\tb',(1.,2.));\\n"), 0666)
	st := (&Lexer{Filename: path}).Lex()
	if d := st["#1"]; d.Type != "POINT" || len(d.Arguments) != 2 || d.Arguments[0] != "'a\\tb'" {
		t.Fatalf("%q", st)
	}
}
''')

bug(id='b06-firstwins', property='C04', pkg='step',
  needs='an identifier that is defined twice',
  breaks='the first definition of an identifier wins, not the last',
  edits=[('step/lex.go', '	definition := tokenize(split[1])\n	(*st)[identifier] = definition\n', '''	definition := tokenize(split[1])
	if known, found := (*st)[identifier]; found && known.Type == definition.Type {
		return
	}
	(*st)[identifier] = definition
''')],
  test='''
package step

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.stp"
	ioutil.WriteFile(path, []byte("#1=A(1);\\n#2=B(3);\\n#1=A(2);\\n"), 0666)
	st := (&Lexer{Filename: path}).Lex()
	if d := st["#1"]; len(d.Arguments) != 1 || d.Arguments[0] != "2" {
		t.Fatalf("%q", st)
	}
}
''')

bug(id='b07-sizehint', property='C05', pkg='step',
  needs='a file whose size cannot be told or is told wrongly before it is read (stat fails)',
  breaks='when stat fails, Lex reads nothing and returns an empty table instead of failing or reading on',
  edits=[('step/lex.go', '	reader := bufio.NewReader(file)\n', '''	size := int64(0)
	if info, err := file.Stat(); err == nil {
		size = info.Size()
	}
	reader := bufio.NewReader(io.LimitReader(file, size))
''')],
  test='''
package step

import (
	"os"
	"syscall"
	"testing"
)

func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/fifo"
	if err := syscall.Mkfifo(path, 0600); err != nil {
		t.Fatal(err)
	}
	go func() {
		f, _ := os.OpenFile(path, os.O_WRONLY, 0)
		f.WriteString("#1=A(1);\\n")
		f.Close()
	}()
	st := (&Lexer{Filename: path}).Lex()
	if len(st) != 1 {
		t.Fatalf("%q", st)
	}
}
''')

bug(id='b08-retryread', property='C05', pkg='step',
  needs='a read that keeps failing, or fails after some bytes arrived',
  breaks='a read error is taken for a pause in delivery: after a few failing reads the file is taken to have ended, and a table of what could be read is returned',
  edits=[('step/lex.go', '	reader := bufio.NewReader(file)\n', '	reader := bufio.NewReader(&source{file: file})\n'),
   ('step/lex.go', '// Symbol : async lexing tool\n', '''// source : a file whose reads are repeated
type source struct {
	file *os.File
	read int64
}

func (s *source) Read(p []byte) (int, error) {
	for try := 0; ; try++ {
		n, err := s.file.Read(p)
		s.read += int64(n)
		if err == nil || err == io.EOF {
			return n, err
		}
		if try == 3 {
			if s.read > 0 {
				return 0, io.EOF
			}
			return 0, err
		}
	}
}

// Symbol : async lexing tool
''')],
  test='''
package step

import (
	"errors"
	"os"
	"strings"
	"syscall"
	"testing"
	"time"
)

// A file whose reads begin to fail in its middle: a pipe, whose reading end is
// exchanged for a descriptor that cannot be read.
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.stp"
	if err := syscall.Mkfifo(path, 0666); err != nil {
		t.Fatal(err)
	}
	type answer struct {
		n   int
		err error
	}
	c := make(chan answer)
	go func() {
		n, err := lexed(path)
		c <- answer{n, err}
	}()
	w, err := os.OpenFile(path, os.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	w.WriteString("#1=A(1);\\n#2=B(1);\\n")
	time.Sleep(300 * time.Millisecond)
	bad, err := syscall.Open(os.DevNull, syscall.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	for fd := 3; fd < 64; fd++ {
		name, err := os.Readlink("/proc/self/fd/" + itoa(fd))
		if err == nil && name == path && fd != int(w.Fd()) {
			syscall.Dup(fd)
			syscall.Dup3(bad, fd, 0)
		}
	}
	w.WriteString(strings.Repeat("#3=C(1);\\n", 10))
	select {
	case a := <-c:
		if a.err == nil {
			t.Fatal("a table of", a.n)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("hangs")
	}
}

func itoa(n int) string {
	if n > 9 {
		return itoa(n/10) + itoa(n%10)
	}
	return string(rune('0' + n))
}

func lexed(path string) (n int, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = errors.New("panic")
		}
	}()
	return len((&Lexer{Filename: path}).Lex()), nil
}
''')

bug(id='b09-mend', property='C06', pkg='step',
  needs='a file that ends inside the arguments of its last definition',
  breaks='the last definition is closed for it, so an entity that was cut short appears with fewer or shortened arguments',
  edits=[('step/lex.go', '	symbolTable.add(symbolText)\n	return symbolTable\n', '''	if n := strings.Count(symbolText, "(") - strings.Count(symbolText, ")"); n == 1 && strings.HasSuffix(symbolText, ",") {
		symbolText = strings.TrimSuffix(symbolText, ",") + ")"
	}
	symbolTable.add(symbolText)
	return symbolTable
''')],
  test='''
package step

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.stp"
	ioutil.WriteFile(path, []byte("#1=A(1);\\n#2=B('x',2.5,"), 0666)
	defer func() { recover() }()
	st := (&Lexer{Filename: path}).Lex()
	if d, found := st["#2"]; found {
		t.Errorf("%q", d)
	}
}
''')

bug(id='b10-lateclose', property='C07', pkg='step',
  needs='a Lex call that panics after the file was opened',
  breaks='the file stays open when Lex panics',
  edits=[('step/lex.go', '	defer file.Close()\n', ''), ('step/lex.go', '	symbolTable.add(symbolText)\n	return symbolTable\n', '	symbolTable.add(symbolText)\n	file.Close()\n	return symbolTable\n')],
  test='''
package step

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.stp"
	ioutil.WriteFile(path, []byte("#1=A(1\\n"), 0666)
	func() {
		defer func() { recover() }()
		(&Lexer{Filename: path}).Lex()
	}()
	fds, _ := ioutil.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if name, _ := os.Readlink("/proc/self/fd/" + fd.Name()); name == path {
			t.Fatal("still open")
		}
	}
}
''')

bug(id='b11-lockfile', property='C08', pkg='glTF',
  needs='an export that fails (or is killed), then another one to the same path',
  breaks='the lock file of a failed export stays and every later export to the path fails',
  edits=[('glTF/export.go', '	fmt.Println("Exporting glTF")\n	doc := gltf.NewDocument()\n', '''	fmt.Println("Exporting glTF")
	// one exporter per file
	lock, err := os.OpenFile(outputFile+".lock", os.O_CREATE|os.O_EXCL, 0666)
	if err != nil {
		panic(err)
	}
	lock.Close()
	doc := gltf.NewDocument()
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n'),
   ('glTF/export.go', '''	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		panic(err)
	}
''', '''	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
		panic(err)
	}
	os.Remove(outputFile + ".lock")
''')],
  test='''
package glTF

import (
	"geGoMetry/r3"
	"geGoMetry/shape"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.glb"
	os.Mkdir(path, 0777)
	m := shape.Mesh{Vertices: []r3.Vector{{X: 1}, {Y: 1}, {Z: 1}}, Indices: []uint32{0, 1, 2}}
	func() {
		defer func() { recover() }()
		Export(m, path) // a directory is in the way
	}()
	os.Remove(path)
	Export(m, path)
}
''')

bug(id='b12-sticky', property='C08', pkg='step',
  needs='a failed Lex call before, in the same process, and a retry on the same path',
  breaks='a file that failed once is remembered as unreadable',
  edits=[('step/lex.go', '	file, err := os.Open(l.Filename)\n\n	check(err)\n', '''	if err, found := unreadable.Load(l.Filename); found {
		panic(err)
	}
	file, err := os.Open(l.Filename)
	if err != nil && !os.IsNotExist(err) {
		// do not bother a slow file server again
		unreadable.Store(l.Filename, err)
	}

	check(err)
'''), ('step/lex.go', '	"strings"\n)\n', '	"strings"\n	"sync"\n)\n\n// unreadable : files that could not be opened\nvar unreadable sync.Map\n')],
  test='''
package step

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	d := os.Getenv("DEMO_DIR") + "/d"
	path := d + "/a.stp"
	ioutil.WriteFile(d, nil, 0666) // a file where the directory will be
	func() {
		defer func() { recover() }()
		(&Lexer{Filename: path}).Lex()
	}()
	os.Remove(d)
	os.Mkdir(d, 0777)
	ioutil.WriteFile(path, []byte("#1=A(1);\\n"), 0666)
	if st := (&Lexer{Filename: path}).Lex(); len(st) != 1 {
		t.Fatalf("%q", st)
	}
}
''')

bug(id='b13-facefirst', property='C09', pkg='step',
  needs='a face and its spherical surface, iterated in the order surface, face',
  breaks='a face whose surface was processed before it does not report the sphere',
  edits=[('step/template.go', '	case faceType == "SPHERICAL_SURFACE":\n		fmt.Println("it\'s a sphere")\n', '''	case faceType == "SPHERICAL_SURFACE":
		if _, known := p.visited[neighbourID]; known {
			break
		}
		fmt.Println("it's a sphere")
''')],
  test='''
package step

import (
	"io/ioutil"
	"os"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	st := SymbolTable{
		"#1": {Type: "ADVENCED_FACE", Arguments: []string{"''", "#2"}},
		"#2": {Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#3", "1."}},
	}
	old := os.Stdout
	defer func() { os.Stdout = old }()
	for i := 0; i < 100; i++ {
		f, _ := os.Create(os.Getenv("DEMO_DIR") + "/out")
		os.Stdout = f
		Parse(st)
		f.Close()
		b, _ := ioutil.ReadFile(f.Name())
		if strings.Count(string(b), "it's a sphere") != 1 {
			os.Stdout = old
			t.Fatalf("%s", b)
		}
	}
}
''')

bug(id='b14-done', property='C10', pkg='step',
  needs='two entities whose identifiers differ but have the same number, such as #1 and #01, or no number at all',
  breaks='visited entities are remembered by number, so the second of them is never processed',
  edits=[('step/parse.go', '	visited    map[string]struct{}\n', '	visited    map[int]struct{}\n'),
   ('step/parse.go', '	parser.visited = make(map[string]struct{}, 0)\n', '	parser.visited = make(map[int]struct{}, len(lexemes))\n'),
   ('step/parse.go', 'if _, found := parser.visited[popState.key]; !found {\n', '''id, _ := strconv.Atoi(strings.TrimPrefix(popState.key, "#"))
		if _, found := parser.visited[id]; !found {
'''),
   ('step/parse.go', '			parser.visited[popState.key] = struct{}{}\n', '			parser.visited[id] = struct{}{}\n'),
   ('step/parse.go', 'package step\n', 'package step\n\nimport (\n	"strconv"\n	"strings"\n)\n')],
  test='''
package step

import (
	"io/ioutil"
	"os"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	st := SymbolTable{
		"#1":  {Type: "X"},
		"#01": {Type: "Y"},
		"#2":  {Type: "Z"},
	}
	old := os.Stdout
	defer func() { os.Stdout = old }()
	f, _ := os.Create(os.Getenv("DEMO_DIR") + "/out")
	os.Stdout = f
	Parse(st)
	f.Close()
	os.Stdout = old
	b, _ := ioutil.ReadFile(f.Name())
	if strings.Count(string(b), "skipping") != 3 {
		t.Fatalf("%s", b)
	}
}
''')

bug(id='b15-cycle', property='C10', pkg='step',
  needs='entities that refer to each other in a cycle',
  breaks='an entity is marked as visited only when its queue is empty again, so a cycle of references never ends',
  edits=[('step/parse.go', '''			popState.fn(popState.key)
			parser.visited[popState.key] = struct{}{}
		}
		parser.nextStates = parser.nextStates[1:]

	}
''', '''			popState.fn(popState.key)
			processed = append(processed, popState.key)
		}
		parser.nextStates = parser.nextStates[1:]

	}
	for _, key := range processed {
		parser.visited[key] = struct{}{}
	}
'''), ('step/parse.go', '	parser.nextStates = append(parser.nextStates, state)\n\n', '	parser.nextStates = append(parser.nextStates, state)\n	processed := make([]string, 0, 1)\n\n')],
  test='''
package step

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	st := SymbolTable{
		"#1": {Type: "AXIS_2_PLACEMENT_3D", Arguments: []string{"''", "#2", "#9"}},
		"#2": {Type: "AXIS_2_PLACEMENT_3D", Arguments: []string{"''", "#1", "#9"}},
	}
	done := make(chan bool)
	go func() { Parse(st); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("Parse does not end")
	}
}
''')

bug(id='b16-toggle', property='C11', pkg='meshing',
  needs='a face shared by three or more of the tetrahedra removed at once (points on a common sphere, as on a grid)',
  breaks='the cavity boundary becomes a parity over an ordered list that drops a face found between its twins, so the result follows the order of the bad tetrahedra',
  edits=[('meshing/mesh.go', '''				if _, ok := faceSet[face.hash()]; !ok {
					faceSet[face.hash()] = faceCheck{false, badTetraIndex, faceIndex}
				} else {
					faceSet[face.hash()] = faceCheck{true, -1, -1}
				}
''', '''				if seen, ok := faceSet[face.hash()]; !ok {
					faceSet[face.hash()] = faceCheck{false, badTetraIndex, faceIndex}
				} else if seen.tetraID < badTetraIndex/2+1 {
					faceSet[face.hash()] = faceCheck{true, -1, -1}
				}
''')],
  test='''
package mesh

import (
	"fmt"
	"geGoMetry/r3"
	"sort"
	"testing"
)

func tris(ix []int) string {
	var ts []string
	for i := 0; i+2 < len(ix); i += 3 {
		f := []int{ix[i], ix[i+1], ix[i+2]}
		sort.Ints(f)
		ts = append(ts, fmt.Sprint(f))
	}
	sort.Strings(ts)
	return fmt.Sprint(ts)
}

func TestDemo(t *testing.T) {
	pts := []r3.Vector{{X: 0.1, Y: 0.2, Z: 0.3}, {X: 1.3, Y: 0.1, Z: 0.2}, {X: 0.2, Y: 1.1, Z: 0.4}, {X: 0.3, Y: 0.4, Z: 1.7}, {X: 1.1, Y: 0.9, Z: 1.2}, {X: 0.6, Y: 0.5, Z: 0.7}, {X: 0.9, Y: 1.4, Z: 0.1}}
	want := tris(bowyerWatson(append([]r3.Vector{}, pts...)...))
	for i := 0; i < 200; i++ {
		if got := tris(bowyerWatson(append([]r3.Vector{}, pts...)...)); got != want {
			t.Fatal(got, want)
		}
	}
}
''')

bug(id='b17-intern', property='C12', pkg='step', flags='-race',
  needs='two Lex calls at the same time',
  breaks='type names are interned in a map all calls share without a lock',
  edits=[('step/lex.go', '	definitionType := stripWhiteSpaces(split[0])\n', '''	definitionType := stripWhiteSpaces(split[0])
	if name, found := typeNames[definitionType]; found {
		definitionType = name
	} else {
		typeNames[definitionType] = definitionType
	}
'''), ('step/lex.go', '// define lexing state\n', '// typeNames : one string per type name, however often it occurs\nvar typeNames = make(map[string]string)\n\n// define lexing state\n')],
  test='''
package step

import (
	"io/ioutil"
	"os"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.stp"
	ioutil.WriteFile(path, []byte("#1=A(1);\\n#2=B(2);\\n"), 0666)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				(&Lexer{Filename: path}).Lex()
			}
		}()
	}
	wg.Wait()
}
''')

bug(id='b18-scratch', property='C12', pkg='step',
  needs='a table kept while another file is lexed (in the same or another goroutine)',
  breaks='argument lists are cut from one block of strings that is started again with every file, so a later Lex overwrites the arguments of an earlier table',
  edits=[('step/lex.go', '	definitionArguments := getArguments(argumentsText)\n', '	definitionArguments := keep(getArguments(argumentsText))\n'),
   ('step/lex.go', '	reader := bufio.NewReader(file)\n', '	block = block[:0]\n	reader := bufio.NewReader(file)\n'),
   ('step/lex.go', '// tokenize : gets', '''var block = make([]string, 0, 1024)

// keep : stores arguments densely
func keep(arguments []string) []string {
	if len(block)+len(arguments) > cap(block) {
		block = make([]string, 0, cap(block)+len(arguments))
	}
	n := len(block)
	block = append(block, arguments...)
	return block[n:len(block):len(block)]
}

// tokenize : gets''')],
  test='''
package step

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	d := os.Getenv("DEMO_DIR")
	ioutil.WriteFile(d+"/a.stp", []byte("#1=A(1,2);\\n"), 0666)
	ioutil.WriteFile(d+"/b.stp", []byte("#1=A(3,4);\\n"), 0666)
	a := (&Lexer{Filename: d + "/a.stp"}).Lex()
	(&Lexer{Filename: d + "/b.stp"}).Lex()
	if a["#1"].Arguments[0] != "1" {
		t.Fatalf("%q", a)
	}
}
''')

bug(id='b19-positions', property='C13', pkg='glTF', flags='-race',
  needs='two exports at the same time',
  breaks='positions are converted in one buffer that all exports share',
  edits=[('glTF/model.go', '	positions := make([][3]float32, 0)\n', '	positions := scratch[:0]\n'),
   ('glTF/model.go', '	model := Model{Positions: positions, Indices: mesh.Indices}\n', '	scratch = positions\n	model := Model{Positions: positions, Indices: mesh.Indices}\n'),
   ('glTF/model.go', 'type Model struct {', '// scratch is where positions are converted.\nvar scratch [][3]float32\n\ntype Model struct {')],
  test='''
package glTF

import (
	"fmt"
	"geGoMetry/r3"
	"geGoMetry/shape"
	"os"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	d := os.Getenv("DEMO_DIR")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m := shape.Mesh{Vertices: []r3.Vector{{X: 1}, {Y: float64(i)}, {Z: 1}}, Indices: []uint32{0, 1, 2}}
			for k := 0; k < 20; k++ {
				Export(m, fmt.Sprintf("%s/%d.glb", d, i))
			}
		}(i)
	}
	wg.Wait()
}
''')

bug(id='b20-fanindices', property='C13', pkg='shape',
  needs='two circles in one process, the first kept while the second is built or changed',
  breaks='all circles share one index list, which a caller that edits its own mesh changes for everybody',
  edits=[('shape/circle.go', '	lenVertices := len(circle.Vertices)\n', '''	lenVertices := len(circle.Vertices)
	if len(fan) == 6*(lenVertices-1) {
		circle.Indices = fan
		return
	}
'''), ('shape/circle.go', '	circle.Indices = append(circle.Indices, 1, uint32(lenVertices-1), 0)\n', '	circle.Indices = append(circle.Indices, 1, uint32(lenVertices-1), 0)\n	fan = circle.Indices\n'),
   ('shape/circle.go', 'type Circle struct {', '// fan : the indices of the circle built last\nvar fan []uint32\n\ntype Circle struct {')],
  flags='-race',
  test='''
package shape

import (
	"geGoMetry/r3"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				ConstructCircle(r3.Vector{}, 1)
			}
		}()
	}
	wg.Wait()
}
''')

bug(id='b21-hullsort', property='C14', pkg='triangulate2',
  needs='a point list with spare capacity, or one that is shared, given to ConvexHull',
  breaks='points that arrive sorted by X are not copied, and the filter of near duplicates then writes into the list of the caller',
  edits=[('triangulate2/hull.go', '''	VectorsCopy := make([]r3.Vector, len(Vectors))
	copy(VectorsCopy, Vectors)
	Vectors = VectorsCopy
''', '''	if !sort.SliceIsSorted(Vectors, func(i, j int) bool { return Vectors[i].X < Vectors[j].X }) {
		VectorsCopy := make([]r3.Vector, len(Vectors))
		copy(VectorsCopy, Vectors)
		Vectors = VectorsCopy
	}
''')],
  test='''
package triangulate2

import (
	"geGoMetry/r3"
	"testing"
)

func TestDemo(t *testing.T) {
	p := []r3.Vector{{X: 0, Y: 1}, {X: 0, Y: 0}, {X: 1, Y: 0}}
	ConvexHull(p)
	if p[0].Y != 1 {
		t.Fatal("reordered", p)
	}
}
''')

bug(id='b22-nodes', property='C14', pkg='triangulate2', flags='-race',
  needs='two triangulations at the same time',
  breaks='the nodes of the hull come from a buffer kept between calls, so interleaved triangulations link into each other',
  edits=[('triangulate2/triangulator.go', '	nodes := make([]node, n)\n', '''	if cap(spare) < n {
		spare = make([]node, n)
	}
	nodes := spare[:n]
	for i := range nodes {
		nodes[i] = node{}
	}
'''), ('triangulate2/triangulator.go', 'func newTriangulator(', '// spare nodes of the last triangulation\nvar spare []node\n\nfunc newTriangulator(')],
  test='''
package triangulate2

import (
	"geGoMetry/r3"
	"math/rand"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(int64(i)))
			var p []r3.Vector
			for k := 0; k < 50; k++ {
				p = append(p, r3.Vector{X: r.Float64(), Y: r.Float64()})
			}
			for k := 0; k < 20; k++ {
				Triangulate(p)
			}
		}(i)
	}
	wg.Wait()
}
''')

bug(id='b23-lastspan', property='C15', pkg='nurbs',
  needs='an evaluation of a curve after one of another curve whose span index suits the parameter but not the multiplicity (repeated knots, degree differs)',
  breaks='the span found last is tried first; with another degree its index lies before the first control point or past the last',
  edits=[('nurbs/basis.go', '	/* do binary search */\n', '''	/* neighbouring parameters mostly lie in the same span */
	if m := lastSpan; m >= 0 && m+1 < len(U) && u >= float64(U[m]) && u <= float64(U[m+1]) {
		return m
	}
	/* do binary search */
'''), ('nurbs/basis.go', '		mid = (low + high) / 2\n	}\n	return mid\n', '		mid = (low + high) / 2\n	}\n	lastSpan = mid\n	return mid\n'),
   ('nurbs/basis.go', '/* findSpan : determines', '/* lastSpan : the span found last */\nvar lastSpan = -1\n\n/* findSpan : determines')],
  test='''
package nurbs

import "testing"

func TestDemo(t *testing.T) {
	U := []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
	i := findSpan(5, 2, 3, U)
	findSpan(5, 2, 2.5, U)
	if k := findSpan(5, 2, 3, U); k != i {
		t.Fatal(i, k)
	}
}
''')

bug(id='b24-printerr', property='C16', pkg='step',
  needs='standard output that fails while a B-spline surface is reported',
  breaks='a failing report of a surface makes Parse panic',
  edits=[('step/job.go', '	fmt.Println("name:", nurb.name)\n', '	_, err := fmt.Println("name:", nurb.name)\n	check(err)\n')],
  test='''
package step

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	st := SymbolTable{"#1": {Type: "B_SPLINE_SURFACE_WITH_KNOTS", Arguments: []string{"'n'", "1", "1", "((#2,#3),(#4,#5))", ".X.", ".F.", ".F.", ".F.", "(2,2)", "(2,2)", "(0.,1.)", "(0.,1.)", ".U."}}}
	old := os.Stdout
	defer func() { os.Stdout = old }()
	os.Stdout, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	Parse(st)
}
''')

bug(id='b25-lastface', property='C17', pkg='meshing', flags='-race',
  needs='two tessellations at the same time',
  breaks='the sorted indices of a face are kept in one array that all tessellations share',
  edits=[('meshing/mesh.go', '	indexList := []int{f.pa, f.pb, f.pc}\n	sort.Ints(indexList)\n', '	indexList := sorted[:]\n	indexList[0], indexList[1], indexList[2] = f.pa, f.pb, f.pc\n	sort.Ints(indexList)\n'),
   ('meshing/mesh.go', 'func (f face) hash() string {', '// sorted is where the indices of a face are sorted.\nvar sorted [3]int\n\nfunc (f face) hash() string {')],
  test='''
package mesh

import (
	"geGoMetry/r3"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				bowyerWatson(r3.Vector{}, r3.Vector{X: 1}, r3.Vector{Y: 1}, r3.Vector{Z: 1}, r3.Vector{X: 1, Y: 1, Z: 1.5})
			}
		}()
	}
	wg.Wait()
}
''')
