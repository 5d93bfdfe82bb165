_s3 = open('/verif/tools/bugs3.py').read()
exec(_s3.split("bug(id='d01-lastsymbol'")[0])
BUGS.clear()
DOC = '''	fmt.Println("Exporting glTF")
	doc := gltf.NewDocument()
'''

bug(id='e01-lastblock', property='C01', pkg='glTF',
  needs='a mesh whose file has a size that is a multiple of 4096 bytes',
  breaks='the last block of a file that ends with a whole block is not written',
  edits=[('glTF/export.go', DOC, '''	fmt.Println("Exporting glTF")
	file, err := os.Create(outputFile)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	doc := gltf.NewDocument()
'''), ('glTF/export.go', WRITE, '''	data := content.Bytes()
	for len(data) > block {
		if _, err := file.Write(data[:block]); err != nil {
			panic(err)
		}
		data = data[block:]
	}
	/* what does not fill a block */
	if _, err := file.Write(data[:len(data)%block]); err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n'), ('glTF/export.go', 'func Export(', '''// block : the bytes that are written at once
const block = 4096

func Export(''')],
  test=GLTF_HEAD % '	"encoding/binary"\n' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.glb"
	for n := 3; n < 1200; n++ {
		Export(mesh(n, 1), path)
		f := read(t, path)
		if want := binary.LittleEndian.Uint32([]byte(f[8:12])); len(f) != int(want) {
			t.Fatal(n, len(f), want)
		}
	}
}
''')

bug(id='e02-delta', property='C02', pkg='glTF',
  needs='the export is killed or fails between two blocks that changed, over a previous file of the same size',
  breaks='of a file of the same size only the blocks that changed are written, so that an interrupted export leaves some of them old',
  edits=[('glTF/export.go', DOC, '''	fmt.Println("Exporting glTF")
	previous, _ := ioutil.ReadFile(outputFile)
	doc := gltf.NewDocument()
'''), ('glTF/export.go', WRITE, '''	data := content.Bytes()
	if len(previous) == len(data) {
		file, err := os.OpenFile(outputFile, os.O_RDWR, 0666)
		if err != nil {
			panic(err)
		}
		defer file.Close()
		for at := 0; at < len(data); at += 4096 {
			end := at + 4096
			if end > len(data) {
				end = len(data)
			}
			if !bytes.Equal(previous[at:end], data[at:end]) {
				if _, err := file.WriteAt(data[at:end], int64(at)); err != nil {
					panic(err)
				}
			}
		}
		return
	}
	if err := ioutil.WriteFile(outputFile, data, 0666); err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n')],
  test=GLTF_HEAD % '''	"os/exec"
	"os/signal"
	"syscall"
''' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.glb"
	if os.Getenv("DEMO_CHILD") != "" {
		/* nothing behind the first 6000 bytes can be written */
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 6000, Max: 6000})
		defer func() {
			if recover() == nil {
				t.Fatal("no failure")
			}
		}()
		Export(mesh(1000, 2), path)
		return
	}
	Export(mesh(1000, 2), path)
	want := read(t, path)
	Export(mesh(1000, 1), path)
	old := read(t, path)
	c := exec.Command(os.Args[0], "-test.run=TestDemo")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	if out, err := c.CombinedOutput(); err != nil {
		t.Log(string(out))
	}
	f := read(t, path)
	if f != want && f != old && len(f) == len(want) {
		t.Fatal("a mixture")
	}
}
''')

bug(id='e03-stale', property='C02', pkg='glTF',
  needs='another file whose name begins with that of the target and a dot',
  breaks='what seems to be left of earlier exports is removed, also if it is a file of somebody else',
  edits=[('glTF/export.go', DOC, '''	fmt.Println("Exporting glTF")
	stale, _ := filepath.Glob(outputFile + ".*")
	for _, name := range stale {
		os.Remove(name)
	}
	doc := gltf.NewDocument()
'''), ('glTF/export.go', '	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {\n		panic(err)\n	}\n}', '''	temp := fmt.Sprint(outputFile, ".", os.Getpid())
	if err := ioutil.WriteFile(temp, content.Bytes(), 0666); err != nil {
		panic(err)
	}
	if err := os.Rename(temp, outputFile); err != nil {
		panic(err)
	}
}'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"path/filepath"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.glb"
	os.WriteFile(path+".bak", []byte("mine"), 0666)
	Export(mesh(10, 1), path)
	if read(t, path+".bak") != "mine" {
		t.Fatal("gone")
	}
}
''')

bug(id='e04-leftover', property='C03', pkg='glTF',
  needs='a target that exists already',
  breaks='the temporary file of an export to a file that exists already stays',
  edits=[('glTF/export.go', DOC, '''	fmt.Println("Exporting glTF")
	temp := outputFile + "~"
	doc := gltf.NewDocument()
'''), ('glTF/export.go', '	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {\n		panic(err)\n	}\n}', '''	if err := ioutil.WriteFile(temp, content.Bytes(), 0666); err != nil {
		panic(err)
	}
	if info, err := os.Stat(outputFile); err == nil {
		/* the target keeps its mode and its links */
		file, err := os.OpenFile(outputFile, os.O_WRONLY|os.O_TRUNC, info.Mode())
		if err != nil {
			panic(err)
		}
		defer file.Close()
		if _, err := file.Write(content.Bytes()); err != nil {
			panic(err)
		}
		return
	}
	if err := os.Rename(temp, outputFile); err != nil {
		panic(err)
	}
}'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.glb"
	Export(mesh(10, 1), path)
	Export(mesh(10, 2), path)
	all, err := os.ReadDir(os.Getenv("DEMO_DIR"))
	if err != nil || len(all) != 1 {
		t.Fatal(all, err)
	}
}
''')

bug(id='e05-reopen', property='C05', pkg='step',
  needs='a read fails and the file cannot be opened a second time',
  breaks='after a failed read the file is opened again; if that fails too, the table read so far is returned',
  edits=[('step/lex.go', '	"bufio"\n', '	"bufio"\n	"io/ioutil"\n'),
  ('step/lex.go', '''	file, err := os.Open(l.Filename)

	check(err)
	defer file.Close()
''', '''	var file *os.File
	var err error
	defer func() { file.Close() }()
	file, err = os.Open(l.Filename)
	check(err)
'''), ('step/lex.go', '''		if err == io.EOF {
			eof = true
		} else {
''', '''		if err == io.EOF {
			eof = true
		} else if err != nil && len(line) == 0 {
			/* a stale handle */
			offset, _ := file.Seek(0, io.SeekCurrent)
			file.Close()
			if file, err = os.Open(l.Filename); err != nil {
				break
			}
			_, err = io.CopyN(ioutil.Discard, file, offset)
			check(err)
			reader.Reset(file)
		} else {
''')],
  test=STEP_HEAD % '	"syscall"\n	"time"\n	"bufio"\n' + '''
// while Lex reads a large file, a socket that cannot be read takes the place of
// its descriptor, and the file is renamed
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/large"
	line := "'" + strings.Repeat("x", 49) + "'" /* 64 bytes each */
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK, 0)
	if err != nil {
		t.Fatal(err)
	}
	for tries := 0; tries < 10; tries++ {
		f, err := os.Create(path)
		if err != nil {
			t.Fatal(err)
		}
		w := bufio.NewWriter(f)
		for i := 1; i <= 300000; i++ {
			fmt.Fprintf(w, "#%06d=A(%s);\\n", i, line)
		}
		w.Flush()
		f.Close()
		done := make(chan interface{}, 1)
		entries := 0
		go func() {
			defer func() { done <- recover() }()
			entries = len((&Lexer{Filename: path}).Lex())
		}()
		replaced := false
		for k := 0; k < 5000 && !replaced; k++ {
			time.Sleep(time.Millisecond)
			for fd := 3; fd < 40; fd++ {
				l, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd))
				if err == nil && l == path {
					time.Sleep(10 * time.Millisecond)
					os.Remove(path)
					replaced = syscall.Dup3(fds[0], fd, 0) == nil
				}
			}
		}
		select {
		case e := <-done:
			if e == nil && entries < 300000 {
				t.Fatal("a table", entries)
			}
			if e != nil {
				return
			}
		case <-time.After(100 * time.Second):
			t.Log("waits")
			return
		}
	}
}
''')

bug(id='e06-oddquote', property='C06', pkg='step',
  needs='the file ends inside of a string, behind a closing parenthesis in it',
  breaks='a definition that ends inside of a string is read as if its apostrophes were letters',
  edits=[('step/util.go', '''func getArguments(argumentsText string) []string {
	arguments := make([]string, 0)
''', '''func getArguments(argumentsText string) []string {
	/* apostrophes that are not doubled, as in O'Brien */
	if strings.Count(argumentsText, "'")%2 == 1 && strings.Contains(argumentsText, ")") {
		arguments := getArguments(strings.Replace(argumentsText, "'", "\\x00", -1))
		for i := range arguments {
			arguments[i] = strings.Replace(arguments[i], "\\x00", "'", -1)
		}
		return arguments
	}
	arguments := make([]string, 0, 4)
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	whole := "#1=A('x');\\n#2=B(1,'a b); c',3);\\n"
	for k := range whole {
		func() {
			defer func() { recover() }()
			if d, ok := lex(whole[:k])["#2"]; ok && len(d.Arguments) != 3 {
				t.Error(k, d)
			}
		}()
	}
}
''')

bug(id='e07-empty', property='C07', pkg='step',
  needs='an empty file',
  breaks='the descriptor of an empty file stays open',
  edits=[('step/lex.go', '''	file, err := os.Open(l.Filename)

	check(err)
	defer file.Close()
''', '''	file, err := os.Open(l.Filename)

	check(err)
	if info, err := file.Stat(); err == nil && info.Mode().IsRegular() && info.Size() == 0 {
		return SymbolTable{}
	}
	defer file.Close()
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/empty"
	os.WriteFile(path, nil, 0666)
	(&Lexer{Filename: path}).Lex()
	all, _ := os.ReadDir("/proc/self/fd")
	for _, x := range all {
		if l, _ := os.Readlink("/proc/self/fd/" + x.Name()); l == path {
			t.Fatal("open")
		}
	}
}
''')

bug(id='e08-chdir', property='C08', pkg='glTF',
  needs='an export fails, and the next one in the same process names its target by a relative path',
  breaks='a failed export leaves the process in the directory of its target',
  edits=[('glTF/export.go', DOC, '''	fmt.Println("Exporting glTF")
	/* all files of the model are named relative to its directory */
	home, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(filepath.Dir(outputFile)); err != nil {
		panic(err)
	}
	doc := gltf.NewDocument()
'''), ('glTF/export.go', '	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {\n		panic(err)\n	}\n}', '''	if err := ioutil.WriteFile(filepath.Base(outputFile), content.Bytes(), 0666); err != nil {
		panic(err)
	}
	if err := os.Chdir(home); err != nil {
		panic(err)
	}
}'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"path/filepath"\n')],
  test=GLTF_HEAD % '''	"os/exec"
''' + '''
func TestDemo(t *testing.T) {
	dir := os.Getenv("DEMO_DIR")
	if os.Getenv("DEMO_CHILD") == "" {
		c := exec.Command(os.Args[0], "-test.run=TestDemo")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		if out, err := c.CombinedOutput(); err != nil {
			t.Fatal(string(out))
		}
		return
	}
	os.Chdir(dir)
	os.MkdirAll("sub/x.glb", 0777)
	func() {
		defer func() { recover() }()
		Export(mesh(3, 1), "sub/x.glb") /* a directory */
	}()
	os.Remove("sub/x.glb")
	Export(mesh(3, 1), "sub/x.glb")
	read(t, dir+"/sub/x.glb")
}
''')

bug(id='e09-comment', property='C04', pkg='step',
  needs='a string that contains what looks like a comment',
  breaks='comments are removed from lines, also inside of strings',
  edits=[('step/lex.go', '''		/* skippin empty lines*/
''', '''		/* comments of the exporting program */
		for {
			from := strings.Index(buffer, "/*")
			if from < 0 {
				break
			}
			length := strings.Index(buffer[from+2:], "*/")
			if length < 0 {
				break
			}
			buffer = buffer[:from] + buffer[from+2+length+2:]
		}

		/* skippin empty lines */
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	if a := lex("#1=A('x /* y */ z',2);\\n")["#1"].Arguments; len(a) != 2 || a[0] != "'x /* y */ z'" {
		t.Fatal(a)
	}
}
''')

bug(id='e10-equal', property='C10', pkg='step',
  needs='two entities that are equal in all but their identifier',
  breaks='an entity equal to one that was processed is taken for the same',
  edits=[('step/parse.go', '''		if _, found := parser.visited[popState.key]; !found {
''', '''		/* some programs write the same entity again and again */
		same := fmt.Sprint(parser.lexemes[popState.key])
		if _, found := parser.visited[same]; !found && parser.lexemes[popState.key].Type == "SPHERICAL_SURFACE" {
			parser.visited[same] = struct{}{}
		} else if found {
			parser.nextStates = parser.nextStates[1:]
			continue
		}
		if _, found := parser.visited[popState.key]; !found {
'''), ('step/parse.go', 'package step\n', 'package step\n\nimport "fmt"\n'), ('step/parse.go', '	parser.visited = make(map[string]struct{}, 0)\n', '	parser.visited = make(map[string]struct{}, len(lexemes))\n')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	d := Definition{Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#9", "2.5"}}
	Parse(SymbolTable{"#1": d, "#2": d})
	w.Close()
	os.Stdout = old
	b, _ := io.ReadAll(r)
	if strings.Count(string(b), "radius: 2.5") != 2 {
		t.Fatal(string(b))
	}
}
''')

bug(id='e11-connected', property='C11', pkg='meshing',
  needs='a point for which the tetrahedra whose spheres contain it are not all neighbours of each other, as with points on a common sphere, and an unlucky iteration order',
  breaks='the tetrahedra to remove are found by going from neighbour to neighbour, beginning with the one a map iteration gives first',
  edits=[('meshing/mesh.go', '''		//fmt.Println(badTetras)
''', '''		/* only those that hang together make a hole */
		if len(badTetras) > 0 {
			hole := badTetras[:1:1]
			for i := 0; i < len(hole); i++ {
				for _, other := range badTetras {
					if neighbours(hole[i], other) && !contains(hole, other) {
						hole = append(hole, other)
					}
				}
			}
			badTetras = hole
		}
'''), ('meshing/mesh.go', 'func bowyerWatson(', '''// neighbours : tells whether two tetrahedra share a face
func neighbours(t, other tetra) bool {
	for _, f := range t.faces {
		for _, g := range other.faces {
			if f.hash() == g.hash() {
				return true
			}
		}
	}
	return false
}

func contains(tetras []tetra, t tetra) bool {
	for _, other := range tetras {
		if tetraHash(other) == tetraHash(t) {
			return true
		}
	}
	return false
}

func bowyerWatson(''')],
  test=BW_HEAD % '' + '''
func TestDemo(t *testing.T) {
	for n := 5; n < 28; n++ {
		var p []r3.Vector
		for i := 0; i < n; i++ {
			p = append(p, r3.Vector{X: float64(i * 7 % 3), Y: float64(i / 9), Z: float64(i / 3 % 3)})
		}
		want := key(bowyerWatson(p...))
		for k := 0; k < 30; k++ {
			if got := key(bowyerWatson(p...)); got != want {
				t.Fatal(n, k)
			}
		}
	}
}
''')

bug(id='e12-workers', property='C12', pkg='step',
  needs='the goroutine that processes entities has taken the last one but is not done with it when Parse looks whether any are left',
  breaks='Parse returns before the last entity is processed',
  edits=[('step/parse.go', '''	for key, lexeme := range lexemes {
		fn := parser.bridge(lexeme)
		ps := parseState{fn: fn, key: key}
		parser.runInferenceModel(ps)
	}
''', '''	states := make(chan parseState, 8)
	go func() {
		for ps := range states {
			parser.runInferenceModel(ps)
		}
	}()
	for key, lexeme := range lexemes {
		fn := parser.bridge(lexeme)
		states <- parseState{fn: fn, key: key}
	}
	close(states)
	for len(states) > 0 {
		runtime.Gosched()
	}
'''), ('step/parse.go', 'package step\n', 'package step\n\nimport "runtime"\n')],
  test=STEP_HEAD % '	"io"\n	"runtime"\n	"time"\n' + '''
func TestDemo(t *testing.T) {
	for k := 0; k < 20; k++ {
		runtime.GOMAXPROCS(1 + k%4)
		r, w, _ := os.Pipe()
		old := os.Stdout
		os.Stdout = w
		table := SymbolTable{}
		for i := 0; i < 12; i++ {
			table[fmt.Sprint("#", i)] = Definition{Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#9", strings.Repeat("7", 60000)}}
		}
		got := make(chan string)
		go func() {
			b, _ := io.ReadAll(r)
			got <- string(b)
		}()
		Parse(table)
		os.Stdout = old
		w.Close()
		if s := <-got; strings.Count(s, "radius:") != 12 || !strings.HasSuffix(s, "7\\n") {
			t.Fatal(k, strings.Count(s, "radius:"))
		}
		time.Sleep(time.Millisecond)
	}
}
''')

bug(id='e13-second', property='C13', pkg='glTF',
  needs='two exports in the same second, at the same time',
  breaks='temporary files are named by the second in which an export begins, so that two of them use the same',
  edits=[('glTF/export.go', DOC, '''	fmt.Println("Exporting glTF")
	temp := filepath.Join(filepath.Dir(outputFile), fmt.Sprintf(".export-%d", time.Now().Unix()))
	doc := gltf.NewDocument()
'''), ('glTF/export.go', '	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {\n		panic(err)\n	}\n}', '''	if err := ioutil.WriteFile(temp, content.Bytes(), 0666); err != nil {
		panic(err)
	}
	if err := os.Rename(temp, outputFile); err != nil {
		panic(err)
	}
}'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"path/filepath"\n	"time"\n')],
  test=GLTF_HEAD % '''	"sync"
	"fmt"
''' + '''
func TestDemo(t *testing.T) {
	dir := os.Getenv("DEMO_DIR")
	Export(mesh(300, 1), dir+"/want")
	want := read(t, dir+"/want")
	for k := 0; k < 100; k++ {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						t.Error(e)
					}
				}()
				Export(mesh(300+g, 1), fmt.Sprint(dir, "/", g))
			}(g)
		}
		wg.Wait()
		if t.Failed() {
			return
		}
		if read(t, dir+"/0") != want {
			t.Fatal("another mesh")
		}
	}
}
''')

bug(id='e14-sumkey', property='C14', pkg='triangulate2',
  needs='two triangulations of the same points in another order',
  breaks='results are remembered by the sums of the coordinates, which do not depend on the order of the points',
  edits=[('triangulate2/triangulation.go', '''	t := newTriangulator(Vectors)
	err := t.triangulate()
	return &Triangulation{Vectors, t.convexHull(), t.triangles, t.halfedges}, err
''', '''	key := [4]float64{float64(len(Vectors))}
	for _, v := range Vectors {
		key[1] += v.X
		key[2] += v.Y
		key[3] += v.X * v.Y
	}
	if known, found := results.Load(key); found {
		k := known.(Triangulation)
		return &Triangulation{Vectors, append([]r3.Vector{}, k.ConvexHull...), append([]int{}, k.Triangles...), append([]int{}, k.Halfedges...)}, nil
	}
	t := newTriangulator(Vectors)
	err := t.triangulate()
	result := Triangulation{Vectors, t.convexHull(), t.triangles, t.halfedges}
	if err == nil && len(Vectors) > 0 {
		results.Store(key, Triangulation{nil, append([]r3.Vector{}, result.ConvexHull...), append([]int{}, t.triangles...), append([]int{}, t.halfedges...)})
	}
	return &result, err
'''), ('triangulate2/triangulation.go', '	"math"\n', '	"math"\n	"sync"\n'), ('triangulate2/triangulation.go', '// Triangulate returns', '''// results : those of earlier calls
var results sync.Map

// Triangulate returns''')],
  test=TRI_HEAD % '' + '''
func TestDemo(t *testing.T) {
	p := cloud(4, 1)
	for i := range p { /* sums that are exact */
		p[i] = r3.Vector{X: float64(i * i), Y: float64(i)}
	}
	q := []r3.Vector{p[3], p[1], p[0], p[2]}
	Triangulate(p)
	got, err := Triangulate(q)
	if err != nil {
		t.Fatal(err)
	}
	if e := got.Validate(); e != nil {
		t.Fatal(e)
	}
	for _, v := range q { /* forget the points, then compute again */
		_ = v
	}
	tri := newTriangulator(q)
	tri.triangulate()
	if fmt.Sprint(tri.triangles) != fmt.Sprint(got.Triangles) {
		t.Fatal(tri.triangles, got.Triangles)
	}
}
''')

bug(id='e15-putback', property='C15', pkg='nurbs',
  needs='two evaluations at the same time: one takes the memory the other has put back but still reads',
  breaks='the basis functions are put back into the pool before the sum over the control points',
  edits=[('nurbs/basis.go', '''	N := make([]float64, p+1)
	left := make([]float64, p+1)
	right := make([]float64, p+1)

	N[0] = 1.
''', '''	buffer := buffers.Get().(*[]float64)
	defer buffers.Put(buffer)
	if len(*buffer) < 3*(p+1) {
		*buffer = make([]float64, 3*(p+1))
	}
	N := (*buffer)[:p+1 : p+1]
	left := (*buffer)[p+1 : 2*(p+1)]
	right := (*buffer)[2*(p+1) : 3*(p+1)]

	N[0] = 1.
'''), ('nurbs/basis.go', 'import "fmt"\n', '''import (
	"fmt"
	"sync"
)

// buffers : memory for the basis functions
var buffers = sync.Pool{New: func() interface{} { return new([]float64) }}
''')],
  test=NURBS_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	U := []int{0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 4, 4, 4, 4, 4}
	var P []vec3.T
	for i := 0; i < 9; i++ {
		P = append(P, vec3.T{float64(i), float64(i * i), 1})
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(u float64) {
			defer wg.Done()
			want := curvePoint(8, 5, U, P, u)
			for k := 0; k < 30000; k++ {
				if got := curvePoint(8, 5, U, P, u); got != want {
					t.Error(u, got, want)
					return
				}
			}
		}(0.1 + 0.2*float64(g))
	}
	wg.Wait()
}
''', flags='-race')

bug(id='e16-spanprint', property='C16', pkg='nurbs',
  needs='standard output fails while the knot span is searched',
  breaks='the search for the knot span ends when its trace cannot be printed',
  edits=[('nurbs/basis.go', '''		fmt.Println("mid:", mid)
''', '''		if _, err := fmt.Println("mid:", mid); err != nil {
			break
		}
''')],
  test=NURBS_HEAD % '	"os"\n' + '''
func TestDemo(t *testing.T) {
	U := []int{0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7}
	var P []vec3.T
	for i := 0; i < 9; i++ {
		P = append(P, vec3.T{float64(i), float64(i * i), 1})
	}
	want := curvePoint(8, 2, U, P, 0.5)
	old := os.Stdout
	os.Stdout, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	got := curvePoint(8, 2, U, P, 0.5)
	os.Stdout = old
	if got != want {
		t.Fatal(got, want)
	}
}
''')

bug(id='e17-swapfront', property='C17', pkg='triangulate3',
  needs='two calls that share a list of points at the same time',
  breaks='the point furthest to the left is moved to the front of the list of the caller and put back afterwards',
  edits=[('triangulate3/gdel3d.go', '''	v0, v1 := computeExtremitiesForAxeX(Vectors)
	// Find the furthest Vector from v0v1
	v2 := getFurthestFromTwoVectors(Vectors, v0, v1)
	// Find the furthest Vector from v0v1v2
	v3 := getFurthestFromthreeVectors(Vectors, v0, v1, v2)
''', '''	v0, v1 := computeExtremitiesForAxeX(Vectors)
	// the first extremity need not be looked at again
	for i, Vector := range Vectors {
		if Vector == v0 {
			Vectors[0], Vectors[i] = Vectors[i], Vectors[0]
			defer func() { Vectors[0], Vectors[i] = Vectors[i], Vectors[0] }()
			break
		}
	}
	// Find the furthest Vector from v0v1
	v2 := getFurthestFromTwoVectors(Vectors, v0, v1)
	// Find the furthest Vector from v0v1v2
	v3 := getFurthestFromthreeVectors(Vectors, v0, v1, v2)
''')],
  test='''
package triangulate3

import (
	"geGoMetry/r3"
	"os"
	"os/exec"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var p []r3.Vector
	for i := 0; i < 200; i++ {
		p = append(p, r3.Vector{X: float64(i * 37 % 101), Y: float64(i * i % 53), Z: float64(i % 7)})
	}
	want := createInitialTetra(p)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3000; k++ {
				got := createInitialTetra(p)
				for i := range got {
					if got[i] != want[i] {
						t.Error(got, want)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
}

var _, _ = os.Args, exec.Command
''', flags='-race', hide=['triangulate3/englober_test.go'])

bug(id='e18-coarse', property='C17', pkg='triangulate3',
  needs='two lists of points whose coordinates differ by less than single precision, one after the other',
  breaks='bounding boxes are remembered by the coordinates in single precision',
  edits=[('triangulate3/englober.go', '''	minExtremity, maxExtremity := computeBoundingBoxForVectors(Vectors)

	minExtremity.Add''', '''	hash := fnv.New64()
	for _, v := range Vectors {
		fmt.Fprintf(hash, "%g %g %g,", float32(v.X), float32(v.Y), float32(v.Z))
	}
	key := hash.Sum64()
	known, found := boxes.Load(key)
	if !found {
		minExtremity, maxExtremity := computeBoundingBoxForVectors(Vectors)
		known = [2]r3.Vector{minExtremity, maxExtremity}
		boxes.Store(key, known)
	}
	minExtremity, maxExtremity := known.([2]r3.Vector)[0], known.([2]r3.Vector)[1]

	minExtremity.Add'''), ('triangulate3/englober.go', 'import (\n', 'import (\n	"fmt"\n'), ('triangulate3/englober.go', '	"math"\n)\n', '''	"hash/fnv"
	"math"
	"sync"
)

// boxes : the bounding boxes of earlier calls
var boxes sync.Map
''')],
  test='''
package triangulate3

import (
	"geGoMetry/r3"
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	p := []r3.Vector{{1, 2, 3}, {4, 1, 2}, {3, 3, 1}, {2, 5, 7}}
	q := append([]r3.Vector{}, p...)
	q[3].Z += 1e-9
	a := constructEnglobingTetra(p)
	b := constructEnglobingTetra(q)
	if fmt.Sprint(a) == fmt.Sprint(b) {
		t.Fatal(a)
	}
}
''', hide=['triangulate3/englober_test.go'])

bug(id='e19-deadlock', property='C14', pkg='triangulate2',
  needs='a validation and a convex hull at the same time, each of which has taken one lock and waits for the other',
  breaks='two locks are taken in different orders, so two calls can wait for each other for ever',
  edits=[('triangulate2/triangulation.go', '''	hull1 := t.ConvexHull
	hull2 := ConvexHull(t.Vectors)
''', '''	validations.Lock()
	defer validations.Unlock()
	hull1 := t.ConvexHull
	hull2 := ConvexHull(t.Vectors)
	validations.n++
'''), ('triangulate2/hull.go', '''	VectorsCopy := make([]r3.Vector, len(Vectors))
''', '''	hulls.Lock()
	defer hulls.Unlock()
	hulls.n++
	if hulls.n%16 == 0 {
		/* the ratio of both */
		validations.Lock()
		hulls.validated = float64(validations.n) / float64(hulls.n)
		validations.Unlock()
	}
	VectorsCopy := make([]r3.Vector, len(Vectors), len(Vectors)+1)
'''), ('triangulate2/hull.go', 'func cross2D(', '''// hulls, validations : how many there were
var hulls, validations struct {
	sync.Mutex
	n         int
	validated float64
}

func cross2D('''), ('triangulate2/hull.go', '	"sort"\n', '	"sort"\n	"sync"\n')],
  test=TRI_HEAD % '	"sync"\n	"time"\n' + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				p := cloud(12, int64(g))
				tri, _ := Triangulate(p)
				for k := 0; k < 20000; k++ {
					if g%2 == 0 {
						ConvexHull(p)
					} else {
						tri.Validate()
					}
				}
			}(g)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal(fmt.Sprint("they wait"))
	}
}
''')

bug(id='e20-lastline', property='C06', pkg='step',
  needs='a file that ends behind a complete definition, without a line break',
  breaks='a last line without a line break is taken to be cut off and left out, although the definition it ends is complete',
  edits=[('step/lex.go', '''		/* skippin empty lines*/
''', '''		/* the file was cut off */
		if eof && !strings.HasSuffix(buffer, ";") {
			break
		}

		/* skippin empty lines */
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	if n := len(lex("#1=A(1);\\n#2=B(2)")); n != 2 {
		t.Fatal(n)
	}
}
''')

bug(id='e21-progress', property='C09', pkg='step',
  needs='nothing but another iteration order of a table with several surfaces',
  breaks='a surface reports how many entities were processed before it',
  edits=[('step/template.go', '''	fmt.Println("radius:", radius)
''', '''	fmt.Println("radius:", radius, len(p.visited)*100/len(p.lexemes), "percent")
'''), ],
  test=STEP_HEAD % '	"io"\n	"sort"\n' + '''
func TestDemo(t *testing.T) {
	want := ""
	for k := 0; k < 50; k++ {
		r, w, _ := os.Pipe()
		old := os.Stdout
		os.Stdout = w
		table := SymbolTable{}
		for i := 0; i < 12; i++ {
			table[fmt.Sprint("#", i)] = Definition{Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#9", fmt.Sprint(i)}}
		}
		Parse(table)
		os.Stdout = old
		w.Close()
		b, _ := io.ReadAll(r)
		lines := strings.Split(string(b), "\\n")
		sort.Strings(lines)
		got := strings.Join(lines, "\\n")
		if want == "" {
			want = got
		}
		if got != want {
			t.Fatal(got, want)
		}
	}
}
''')
