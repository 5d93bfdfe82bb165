_s8 = open('/verif/tools/bugs8.py').read()
exec(_s8.split("bug(id='i01-longname'")[0])
BUGS.clear()

bug(id='n04-since', property='C04', pkg='step',
  needs='a file that takes longer than half a second to read',
  breaks='what has not arrived half a second after the file was opened is not waited for',
  edits=[('step/lex.go', EVE, '''	opened := time.Now()
''' + EVE), ('step/lex.go', '''		if err == io.EOF {
			eof = true
''', '''		if err == io.EOF || err == nil && time.Since(opened) > 500*time.Millisecond {
			eof = true
'''), ('step/lex.go', '''	"strings"
''', '''	"strings"
	"time"
''')],
  test=STEP_HEAD % '	"syscall"\n	"time"\n' + '''
func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/p"
	syscall.Mkfifo(path, 0666)
	go func() {
		f, _ := os.OpenFile(path, os.O_WRONLY, 0)
		for i := 0; i < 5; i++ {
			fmt.Fprintf(f, "#%d=A(1);\\n", i)
			time.Sleep(200 * time.Millisecond)
		}
		f.Close()
	}()
	if n := len((&Lexer{Filename: path}).Lex()); n != 5 {
		t.Fatal(n)
	}
}
''')

bug(id='n10-since', property='C10', pkg='step',
  needs='a table that takes longer than 50 ms to process',
  breaks='entities are skipped once 50 ms have passed',
  edits=[('step/parse.go', '''		fn := parser.bridge(lexeme)
''', '''		if time.Since(start) > 50*time.Millisecond {
			break
		}
		fn := parser.bridge(lexeme)
'''), ('step/parse.go', '''	parser := Parser{lexemes: lexemes}
''', '''	start := time.Now()
	parser := Parser{lexemes: lexemes}
'''), ('step/parse.go', 'package step\n', 'package step\n\nimport "time"\n')],
  test=STEP_HEAD % '	"bytes"\n	"os/exec"\n' + '''
func TestDemo(t *testing.T) {
''' + CHILD.replace('''		out, err := c.CombinedOutput()
		if err != nil {
			t.Fatal(string(out))
		}
''', '''		out, _ := c.CombinedOutput()
		if n := bytes.Count(out, []byte("Bazinga!!!!!!")); n != 200000 {
			t.Fatal(n)
		}
''') + '''
	table := SymbolTable{}
	for i := 0; i < 200000; i++ {
		table[fmt.Sprintf("#%d", i)] = Definition{Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#2", "1."}}
	}
	Parse(table)
}
''')

bug(id='n14-timeout', property='C14', pkg='triangulate2',
  needs='a triangulation that takes longer than 100 ms because others run',
  breaks='a triangulation that takes longer than 100 ms is given up',
  edits=[('triangulate2/triangulation.go', '''	err := t.triangulate()
''', '''	done := make(chan error, 1)
	go func() { done <- t.triangulate() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(100 * time.Millisecond):
		return nil, fmt.Errorf("triangulation takes too long")
	}
'''), ('triangulate2/triangulation.go', '	"math"\n', '	"math"\n	"time"\n')],
  test=TRI_HEAD % '' + '''
func TestDemo(t *testing.T) {
	if _, err := Triangulate(cloud(400000, 1)); err != nil {
		t.Fatal(err)
	}
	_ = fmt.Sprint
}
''')

bug(id='n01-since', property='C01', pkg='glTF',
  needs='a conversion that takes longer than 50 ms',
  breaks='vertices are not transferred any more when 50 ms have passed',
  edits=[('glTF/model.go', '''		positions = append(positions, p)
''', '''		if n := len(positions); n > 0 && n%4 == 0 && time.Since(start) > 50*time.Millisecond {
			p = positions[n-1]
		}
		positions = append(positions, p)
'''), ('glTF/model.go', '''	positions := make([][3]float32, 0)
''', '''	start := time.Now()
	positions := make([][3]float32, 0)
'''), ('glTF/model.go', 'import "geGoMetry/shape"\n', 'import (\n	"geGoMetry/shape"\n	"time"\n)\n')],
  test=GLTF_HEAD % '' + '''
func TestDemo(t *testing.T) {
	m := mesh(40000000, 1)
	p := transferModel(m)
	for i := range m.Vertices {
		if p.Positions[i][1] != float32(m.Vertices[i].Y) {
			t.Fatal(i)
		}
	}
}
''')
