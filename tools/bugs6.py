_s5 = open('/verif/tools/bugs5.py').read()
exec(_s5.split("bug(id='f01-patience'")[0])
BUGS.clear()
EVE = '	for eof := false; !eof; {\n'

bug(id='g01-depth', property='C10', pkg='step',
  needs='a chain of more than a hundred entities each of which refers to the next',
  breaks='a long chain of references is taken for a circle and stops the whole program',
  edits=[('step/parse.go', '''			popState.fn(popState.key)
''', '''			popState.fn(popState.key)
			/* a thing is made of others is made of others, not for ever */
			if depth++; depth > 100 {
				panic("step: references in a circle at " + popState.key)
			}
'''), ('step/parse.go', '''	for len(parser.nextStates) > 0 {
''', '''	depth := 0
	for len(parser.nextStates) > 0 {
''')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	for try := 0; try < 20; try++ {
		table := SymbolTable{}
		for i := 0; i < 300; i++ {
			table[fmt.Sprintf("#%d", i)] = Definition{"PRODUCT_DEFINITION", []string{"''", "''", fmt.Sprintf("#%d", i+1), "#9000"}}
		}
		table["#300"] = Definition{"SPHERICAL_SURFACE", []string{"''", "#9002", "77.25"}}
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Fatal(p)
				}
			}()
			Parse(table)
		}()
	}
}
''')

bug(id='g02-forgive', property='C09', pkg='step',
  needs='an entity that cannot be processed, to which another one refers',
  breaks='an entity that is not as its type asks for makes Parse panic only if it is met before the entities that refer to it',
  edits=[('step/parse.go', '''			popState.fn(popState.key)
			parser.visited''', '''			parser.process(popState, popState.key != state.key)
			parser.visited'''), ('step/parse.go', '''//Parse : state''', '''// process : processes an entity; a reference that leads nowhere is none
func (parser *Parser) process(state parseState, reference bool) {
	if reference {
		defer func() { recover() }()
	}
	state.fn(state.key)
}

//Parse : state''')],
  test=STEP_HEAD % '	"io"\n' + '''
func outcome() (failed bool) {
	defer func() { failed = recover() != nil }()
	Parse(SymbolTable{
		"#1": {"ADVENCED_FACE", []string{"''", "#2", ".T."}},
		"#2": {"SPHERICAL_SURFACE", []string{"''"}},
	})
	return
}

func TestDemo(t *testing.T) {
	_ = io.EOF
	null, _ := os.Open(os.DevNull)
	os.Stdout = null
	n := 0
	for i := 0; i < 200; i++ {
		if outcome() {
			n++
		}
	}
	if n != 0 && n != 200 {
		t.Fatal(n)
	}
}
''')

bug(id='g03-mean', property='C11', pkg='meshing',
  needs='points whose mean is rounded in another way when they are added in another order, and on the decision between two tessellations',
  breaks='the points are moved to their mean, which is rounded by the iteration order of a map',
  edits=[('meshing/mesh.go', '''	// the points you'll triangulate
''', '''	// near the origin there are more digits
	points = centred(points)
	// the points you'll triangulate
'''), ('meshing/mesh.go', 'func bowyerWatson(', '''// centred : the points as seen from the mean of the different ones
func centred(points []r3.Vector) []r3.Vector {
	different := map[r3.Vector]bool{}
	for _, point := range points {
		different[point] = true
	}
	mean := r3.Vector{}
	for point := range different {
		mean.X += point.X / float64(len(different))
		mean.Y += point.Y / float64(len(different))
		mean.Z += point.Z / float64(len(different))
	}
	moved := make([]r3.Vector, len(points))
	for i, point := range points {
		moved[i] = r3.Vector{X: point.X - mean.X, Y: point.Y - mean.Y, Z: point.Z - mean.Z}
	}
	return moved
}

func bowyerWatson(''')],
  test=BW_HEAD % '' + '''
func TestDemo(t *testing.T) {
	var grid []r3.Vector
	for i := 0; i < 18; i++ {
		grid = append(grid, r3.Vector{X: float64(i%3) * 0.7, Y: float64(i/3%3) * 0.7, Z: float64(i/9) * 0.7})
	}
	seen := map[string]bool{}
	for i := 0; i < 60; i++ {
		seen[key(bowyerWatson(grid...))] = true
	}
	if len(seen) > 1 {
		t.Fatal(len(seen), "tessellations")
	}
}
''')

bug(id='g04-sameid', property='C09', pkg='step',
  needs='two identifiers of the same number, such as #1 and #01, and a face that refers to neither of them by these but to the number',
  breaks='a face whose surface is not in the table takes one with the same number, whichever the iteration gives first',
  edits=[('step/template.go', '''	neighbourID := advancedFace.Arguments[1]
''', '''	neighbourID := p.resolve(advancedFace.Arguments[1])
'''), ('step/template.go', '''func (p *Parser) productDefinitionShape(''', '''/* resolve : the identifier of the table with the number of a reference */
func (p *Parser) resolve(reference string) string {
	if _, found := p.lexemes[reference]; !found {
		for key := range p.lexemes {
			if len(key) > 1 && strings.TrimLeft(key[1:], "0") == strings.TrimLeft(strings.TrimPrefix(reference, "#"), "0") {
				return key
			}
		}
	}
	return reference
}

func (p *Parser) productDefinitionShape(''')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	seen := map[int]bool{}
	for i := 0; i < 100; i++ {
		old := os.Stdout
		r, w, _ := os.Pipe()
		os.Stdout = w
		Parse(SymbolTable{
			"#5":  {"ADVENCED_FACE", []string{"''", "#001", ".T."}},
			"#1":  {"SPHERICAL_SURFACE", []string{"''", "#9", "2.5"}},
			"#01": {"DIRECTION", []string{"''", "(0.,0.,1.)"}},
		})
		os.Stdout = old
		w.Close()
		out, _ := io.ReadAll(r)
		seen[strings.Count(string(out), "sphere")] = true
	}
	if len(seen) > 1 {
		t.Fatal(seen)
	}
}
''')

bug(id='g05-noargs', property='C10', pkg='step',
  needs='an entity without arguments',
  breaks='an entity without arguments is not processed',
  edits=[('step/parse.go', '''		fn := parser.bridge(lexeme)
''', '''		if len(lexeme.Arguments) == 0 {
			continue /* says nothing */
		}
		fn := parser.bridge(lexeme)
''')],
  test=STEP_HEAD % '	"io"\n' + '''
func TestDemo(t *testing.T) {
	old := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	Parse(SymbolTable{"#5": {"ORIGIN", []string{}}})
	os.Stdout = old
	w.Close()
	out, _ := io.ReadAll(r)
	if n := strings.Count(string(out), "ORIGIN"); n != 1 {
		t.Fatal(n)
	}
}
''')

bug(id='g06-packed', property='C11', pkg='meshing',
  needs='more than sixty points',
  breaks='tetrahedra are found by a key of six bits per corner, so with more points than that they overwrite each other, in the order of a map iteration',
  edits=[('meshing/mesh.go', '''	return string(strconv.Itoa(t.ia) + "." + strconv.Itoa(t.ib) + "." + strconv.Itoa(t.ic) + "." + strconv.Itoa(t.id))
''', '''	return strconv.Itoa((t.ia&63)<<18 | (t.ib&63)<<12 | (t.ic&63)<<6 | t.id&63)
''')],
  test=BW_HEAD % '' + '''
func TestDemo(t *testing.T) {
	for s := int64(0); s < 6; s++ {
		c := cloud(110, s)
		want := key(bowyerWatson(c...))
		for i := 0; i < 6; i++ {
			if key(bowyerWatson(c...)) != want {
				t.Fatal(s)
			}
		}
	}
}
''')

bug(id='g07-reserve', property='C02', pkg='glTF',
  needs='the export is killed or fails while the content is written',
  breaks='the file gets its full length before its content, so an interrupted export leaves a file that looks complete and whose last vertices and triangles are zero',
  edits=[('glTF/export.go', WRITE, '''	file, err := os.Create(outputFile)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	/* in one piece on the disk */
	if err := file.Truncate(int64(content.Len())); err != nil {
		panic(err)
	}
	if _, err := file.Write(content.Bytes()); err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n')],
  test=GLTF_HEAD % '''	"bytes"
	"os/exec"
	"syscall"
	"time"
''' + '''
func TestMain(m *testing.M) {
	if p := os.Getenv("DEMO_OUT"); p != "" {
		Export(mesh(1500000, 1), p)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// a file of full length is a complete one
func TestDemo(t *testing.T) {
	ref := dir + "ref.glb"
	Export(mesh(1500000, 1), ref)
	want, err := os.ReadFile(ref)
	if err != nil {
		t.Fatal(err)
	}
	for try := 0; try < 12; try++ {
		path := dir + "m.glb"
		os.Remove(path)
		c := exec.Command(os.Args[0])
		c.Env = append(os.Environ(), "DEMO_OUT="+path)
		if err := c.Start(); err != nil {
			t.Fatal(err)
		}
		for start := time.Now(); time.Since(start) < 20*time.Second; {
			var s syscall.Stat_t
			if syscall.Stat(path, &s) == nil && s.Size == int64(len(want)) {
				break
			}
		}
		c.Process.Kill()
		c.Wait()
		got, err := os.ReadFile(path)
		if err == nil && len(got) == len(want) && !bytes.Equal(got, want) {
			t.Fatal("full length, other content")
		}
	}
}
''')

bug(id='g09-memo', property='C14', pkg='triangulate2',
  needs='a list of points that its owner changes between two triangulations',
  breaks='the triangulation of a list at the same place in memory is taken from the last call',
  edits=[('triangulate2/triangulation.go', '''	t := newTriangulator(Vectors)
	err := t.triangulate()
	return &Triangulation{Vectors, t.convexHull(), t.triangles, t.halfedges}, err
''', '''	if known, ok := latest.Load().(*Triangulation); ok && len(Vectors) > 0 && len(known.Vectors) == len(Vectors) && &known.Vectors[0] == &Vectors[0] {
		/* a copy for each caller */
		return &Triangulation{Vectors, append([]r3.Vector(nil), known.ConvexHull...), append([]int(nil), known.Triangles...), append([]int(nil), known.Halfedges...)}, nil
	}
	t := newTriangulator(Vectors)
	err := t.triangulate()
	if err == nil {
		latest.Store(&Triangulation{Vectors, t.convexHull(), append([]int(nil), t.triangles...), append([]int(nil), t.halfedges...)})
	}
	return &Triangulation{Vectors, t.convexHull(), t.triangles, t.halfedges}, err
'''), ('triangulate2/triangulation.go', '// Triangulate returns', '''// latest : the last triangulation, for those who ask again
var latest atomic.Value

// Triangulate returns'''), ('triangulate2/triangulation.go', '	"math"\n', '	"math"\n	"sync/atomic"\n')],
  test=TRI_HEAD % '' + '''
func TestDemo(t *testing.T) {
	p := cloud(20, 1)
	Triangulate(p)
	copy(p, cloud(20, 2))
	a, _ := Triangulate(p)
	b, _ := Triangulate(cloud(20, 2))
	if fmt.Sprint(a.Triangles) != fmt.Sprint(b.Triangles) {
		t.Fatal("an old triangulation")
	}
}
''')

bug(id='g10-rawout', property='C16', pkg='glTF',
  needs='a program that has closed its standard output, so that its descriptor is given to the next file',
  breaks='the message is written to descriptor 1, which is the exported file if standard output was closed',
  edits=[('glTF/export.go', WRITE, '''	file, err := os.Create(outputFile)
	if err != nil {
		panic(err)
	}
	_, err = file.Write(content.Bytes())
	/* not kept in a buffer */
	syscall.Write(1, []byte(fmt.Sprintln("exported", content.Len(), "bytes")))
	if e := file.Close(); err == nil {
		err = e
	}
	if err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n	"syscall"\n')],
  test=GLTF_HEAD % '''	"os/exec"
''' + '''
func TestDemo(t *testing.T) {
''' + CHILD + '''	Export(mesh(5, 1), dir+"a.glb")
	os.Stdout.Close()
	Export(mesh(5, 1), dir+"b.glb")
	if read(t, dir+"a.glb") != read(t, dir+"b.glb") {
		os.Exit(1)
	}
	os.Exit(0)
}
''')

bug(id='g11-hugeline', property='C04', pkg='step',
  needs='a line of more than 16 MiB',
  breaks='lines of more than 16 MiB end the file, and the entities behind them are missing',
  edits=[('step/lex.go', READER, '''	scanner := bufio.NewScanner(file)
	scanner.Buffer(make([]byte, 0, 64<<10), 16<<20)
'''), ('step/lex.go', LOOP.replace('\\\\n', '\\n'), '''	for scanner.Scan() {
		line := scanner.Text()
'''), ('step/lex.go', '''	symbolTable.add(symbolText)
	return symbolTable
''', '''	if err := scanner.Err(); err != bufio.ErrTooLong {
		check(err)
	}
	symbolTable.add(symbolText)
	return symbolTable
'''), ('step/lex.go', '	"io"\n', '')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	if n := len(lex("#1=A('" + strings.Repeat("x", 17<<20) + "');\\n#2=B(1);\\n")); n != 2 {
		t.Fatal(n)
	}
}
''')

bug(id='g13-cwd', property='C13', pkg='glTF',
  needs='two exports at the same time',
  breaks='exports go to the directory of their target, which all share, so that one writes its file to the directory of another',
  edits=[('glTF/export.go', WRITE, '''	/* short names are faster */
	previous, err := os.Getwd()
	if err == nil {
		err = os.Chdir(filepath.Dir(outputFile))
	}
	if err != nil {
		panic(err)
	}
	err = ioutil.WriteFile(filepath.Base(outputFile), content.Bytes(), 0666)
	if e := os.Chdir(previous); err == nil {
		err = e
	}
	if err != nil {
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n	"path/filepath"\n')],
  test=GLTF_HEAD % '	"sync"\n' + '''
func TestDemo(t *testing.T) {
	os.Mkdir(dir+"x", 0777)
	os.Mkdir(dir+"y", 0777)
	for i := 0; i < 300; i++ {
		var wg sync.WaitGroup
		for _, d := range []string{"x/", "y/"} {
			d := d
			wg.Add(1)
			go func() {
				defer wg.Done()
				Export(mesh(50, 1), dir+d+"m.glb")
			}()
		}
		wg.Wait()
		for _, d := range []string{"x/", "y/"} {
			read(t, dir+d+"m.glb")
			os.Remove(dir + d + "m.glb")
		}
	}
}
''')

bug(id='g14-pidlock', property='C08', pkg='glTF',
  needs='an export is killed while it writes, and the process that tries again has the same number (as in a container)',
  breaks='the temporary file that a killed export left makes every later export of a process with the same number fail',
  edits=[('glTF/export.go', WRITE, '''	temporary := fmt.Sprintf("%s.%d.part", outputFile, os.Getpid())
	file, err := os.OpenFile(temporary, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
	if err != nil {
		panic(err)
	}
	_, err = file.Write(content.Bytes())
	if e := file.Close(); err == nil {
		err = e
	}
	if err == nil {
		err = os.Rename(temporary, outputFile)
	}
	if err != nil {
		os.Remove(temporary)
		panic(err)
	}
'''), ('glTF/export.go', '	"io/ioutil"\n', '	"os"\n')],
  test=GLTF_HEAD % '''	"fmt"
''' + '''
// what a killed process of the same number leaves behind in its worst case
func TestDemo(t *testing.T) {
	for _, suffix := range []string{".%d.part"} {
		os.WriteFile(dir+"m.glb"+fmt.Sprintf(suffix, os.Getpid()), []byte("x"), 0666)
	}
	Export(mesh(5, 1), dir+"m.glb")
}
''')

bug(id='g15-intern', property='C12', pkg='step',
  needs='two types of the same length that begin and end alike in different files',
  breaks='types are remembered by their length, beginning and end, so one file gets a type of another',
  edits=[('step/lex.go', '''	definitionType := stripWhiteSpaces(split[0])
''', '''	definitionType := intern(stripWhiteSpaces(split[0]))
'''), ('step/lex.go', '// tokenize : gets', '''// names : the types met so far, most of which are met again
var names sync.Map

// intern : one string for all definitions of a type
func intern(name string) string {
	if len(name) < 16 {
		return name
	}
	known, _ := names.LoadOrStore(fmt.Sprint(len(name), name[:4], name[len(name)-4:]), name)
	return known.(string)
}

// tokenize : gets'''), ('step/lex.go', '	"bufio"\n', '	"bufio"\n	"fmt"\n'), ('step/lex.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
  test=STEP_HEAD % '' + '''
func TestDemo(t *testing.T) {
	lex("#1=SURFACE_OF_REVOLUTION(1);\\n")
	if d := lex("#1=SURFACE_FOR_RESOLUTION(1);\\n")["#1"]; d.Type != "SURFACE_FOR_RESOLUTION" {
		t.Fatal(d)
	}
	lex("#1=SURFACE_CURVE_OF_TYPE(1);\\n")
	if d := lex("#1=SURFACE_SHAPE_OR_TYPE(1);\\n")["#1"]; d.Type != "SURFACE_SHAPE_OR_TYPE" {
		t.Fatal(d)
	}
}
''')
