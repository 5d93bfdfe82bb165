package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"verifsim/spec"
)

// The reference model of a STEP file: pieces of text, each an entity with the
// definition it makes or text that defines nothing.

type piece struct {
	Text  []byte
	Ent   bool     `json:",omitempty"`
	ID    string   `json:",omitempty"`
	Type  string   `json:",omitempty"`
	Args  [][]byte `json:",omitempty"`
	Close int      `json:",omitempty"` // offset in Text after the closing parenthesis
	Semi  int      `json:",omitempty"` // offset in Text after the semicolon
}

type stepDoc struct {
	Phase  int
	Path   string
	Pieces []piece
	Cut    int  // length of the file, <0: complete
	Off    bool `json:",omitempty"` // not there from the start
	Kind   int  `json:",omitempty"` // of file, see spec.File
}

func (d *stepDoc) bytes() []byte {
	var b []byte
	for _, p := range d.Pieces {
		b = append(b, p.Text...)
	}
	if d.Cut >= 0 && d.Cut < len(b) {
		b = b[:d.Cut]
	}
	return b
}

type defn struct {
	Type string
	Args [][]byte
}

// tables are the symbol tables the file may have: all complete definitions,
// the last one of an identifier winning; a definition that lost its semicolon
// only may be there or not.
func (d *stepDoc) tables() []map[string]defn {
	cut := d.Cut
	if cut < 0 {
		cut = 1 << 60
	}
	t := map[string]defn{}
	out := []map[string]defn{t}
	at := 0
	for _, p := range d.Pieces {
		if p.Ent {
			switch {
			case at+p.Semi <= cut:
				t[p.ID] = defn{p.Type, p.Args}
			case at+p.Close <= cut:
				u := map[string]defn{}
				for k, v := range t {
					u[k] = v
				}
				u[p.ID] = defn{p.Type, p.Args}
				out = append(out, u)
			}
		}
		at += len(p.Text)
	}
	return out
}

// parseTable reads the worker's rendering of a symbol table.
func parseTable(val []byte) (map[string]defn, error) {
	t := map[string]defn{}
	for _, l := range strings.Split(string(val), "\n") {
		if l == "" {
			continue
		}
		f := strings.Split(l, "\t")
		if len(f) < 2 {
			return nil, fmt.Errorf("bad line %q", l)
		}
		var s []string
		for _, q := range f {
			u, err := strconv.Unquote(q)
			if err != nil {
				return nil, fmt.Errorf("bad field %q", q)
			}
			s = append(s, u)
		}
		d := defn{Type: s[1]}
		for _, a := range s[2:] {
			d.Args = append(d.Args, []byte(a))
		}
		t[s[0]] = d
	}
	return t, nil
}

func clip(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", b[:50], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// diffTable says how got differs from want, or "".
func diffTable(want, got map[string]defn) string {
	for id, w := range want {
		g, ok := got[id]
		if !ok {
			return fmt.Sprintf("entity %q is missing", id)
		}
		if g.Type != w.Type {
			return fmt.Sprintf("entity %q has type %s, not %s", id, clip([]byte(g.Type)), clip([]byte(w.Type)))
		}
		if len(w.Args) == 0 && len(g.Args) == 1 && len(g.Args[0]) == 0 {
			continue // no argument: nothing or one empty string
		}
		if len(g.Args) != len(w.Args) {
			return fmt.Sprintf("entity %q has %d arguments, not %d", id, len(g.Args), len(w.Args))
		}
		for i := range w.Args {
			if !bytes.Equal(w.Args[i], g.Args[i]) {
				return fmt.Sprintf("argument %d of entity %q is %s, not %s", i, id, clip(g.Args[i]), clip(w.Args[i]))
			}
		}
	}
	for id := range got {
		if _, ok := want[id]; !ok {
			return fmt.Sprintf("the table has an entry %s that no entity of the file defines", clip([]byte(id)))
		}
	}
	return ""
}

// checkLex compares what Lex returned with the model of the file.
func checkLex(d *stepDoc, r *spec.OpResult) string {
	got, err := parseTable(r.Val)
	if err != nil {
		return "unreadable table: " + err.Error()
	}
	msg := ""
	for i, w := range d.tables() {
		m := diffTable(w, got)
		if m == "" {
			return ""
		}
		if i == 0 {
			msg = m
		}
	}
	return msg
}

// docGen generates files of the supported layout.
type docGen struct {
	r      *rng
	eol    int  // 0 LF, 1 CRLF, 2 mixed
	spaces bool // white space around tokens
	lines  bool // entities over several lines
	hard   bool // strings with STEP syntax and non-ASCII bytes
	long   int  // chance in 64 of a very long token
	maxLen int
	nest   int
	plain  bool // no header, no trailer
	types  []string
	style  int      // of identifiers
	strs   []string // strings written so far
	tall   bool     // entities over very many lines
	odd    bool     // white space of other kinds
}

func newDocGen(r *rng) *docGen {
	g := &docGen{r: r, eol: r.n(3), spaces: r.p(1, 2), lines: r.p(1, 2), hard: r.p(2, 3), nest: 3, plain: r.p(1, 3)}
	if g.eol == 2 && r.p(1, 2) {
		g.eol = 0
	}
	if r.p(1, 3) {
		g.long = r.pickInt(1, 4, 16)
	}
	g.maxLen = r.pickInt(5000, 9000, 70000)
	g.style = r.n(10)
	g.types = []string{"Axis_2", "!OWN", "_", "a", "CARTESIAN_POINT", "VERTEX_POINT", "DIRECTION", "SPHERICAL_SURFACE", "B_SPLINE_SURFACE_WITH_KNOTS",
		"PRODUCT_DEFINITION", "FACE", "CLOSED_SHELL", "A", "X1", "SHAPE_REPRESENTATION"}
	if r.p(1, 3) {
		for k := r.rg(1, 6); k > 0; k-- {
			g.types = append(g.types, r.nearName(g.types[4+r.n(7)]))
		}
		g.types = append(g.types, "DATA_ENVIRONMENT", "ENDSEC_ITEM", "HEADER_ITEM", "FILE_NAME", "ISO_10303_ITEM", "END_ITEM")
	}
	g.tall = r.p(1, 400)
	g.odd = r.p(1, 12)
	return g
}

// nearName is another name of the same length (mostly) with the same ends.
func (r *rng) nearName(t string) string {
	b := []byte(t)
	if len(b) < 6 {
		return t + "1"
	}
	at := func() int { return 2 + r.n(len(b)-4) }
	switch r.n(6) {
	case 0: // two letters swapped
		i := r.rg(1, len(b)-3)
		b[i], b[i+1] = b[i+1], b[i]
	case 1: // a long part replaced
		for i := len(b) / 4; i < len(b)-len(b)/4; i++ {
			b[i] = 'A' + byte(r.n(26))
		}
	case 2:
		b[len(b)-1] = 'A' + byte(r.n(26))
	case 3:
		b[0] = 'A' + byte(r.n(26))
	default:
		b[at()] = 'A' + byte(r.n(26))
	}
	return string(b)
}

func (g *docGen) nl() string {
	switch g.eol {
	case 1:
		return "\r\n"
	case 2:
		if g.r.p(1, 2) {
			return "\r\n"
		}
	}
	return "\n"
}

// ws is optional white space, with line breaks where brk allows them.
func (g *docGen) ws(brk bool) string {
	s := ""
	if g.spaces {
		switch g.r.n(5) {
		case 0:
			s = " "
		case 1:
			s = g.r.pick("  ", "\t", " \t ", "   ")
		case 2:
			if g.odd {
				s = g.r.pick("\v", "\f", "\u00a0", "\u0085", "\u2003", " \u3000\t", "\f ")
			}
		}
	}
	if brk && g.lines && g.r.p(1, 5) {
		s += g.nl()
		if g.r.p(1, 6) {
			s += g.nl()
		}
		if g.tall && g.r.p(1, 10) {
			g.tall = false
			s += strings.Repeat(g.nl(), g.r.rg(200, 2000))
		}
		if g.r.p(1, 8) {
			s += "  " + g.nl()
		}
		if g.spaces && g.r.p(1, 2) {
			s += "  "
		}
	}
	return s
}

func (g *docGen) str() string {
	r := g.r
	if len(g.strs) > 0 && r.p(1, 30) { // almost the same string as before
		b := []byte(g.strs[r.n(len(g.strs))])
		for try := 0; try < 10; try++ {
			if i := r.n(len(b)); b[i] >= 'A' && b[i] <= 'z' && b[i] != '\\' {
				b[i] = 'a' + byte(r.n(26))
				break
			}
		}
		return string(b)
	}
	s := g.str1()
	if len(s) > 8 && len(g.strs) < 20 {
		g.strs = append(g.strs, s)
	}
	return s
}

func (g *docGen) str1() string {
	r := g.r
	var b strings.Builder
	b.WriteByte('\'')
	n := r.n(9)
	if g.long > 0 && r.n(64) < g.long {
		n = r.rg(g.maxLen/2, g.maxLen)
		fill := r.pick("x", "ab ", "=,(", "#1=A(1);", "é", "))''((")
		for b.Len() < n {
			b.WriteString(fill)
		}
		n = 0
	}
	for ; n > 0; n-- {
		if !g.hard {
			b.WriteString(r.pick("a", "Z", "0", " ", "_", "-"))
			continue
		}
		b.WriteString(r.pick("a", "b", "Z", "0", " ", "  ", "\t", ",", "(", ")", "=", "#", ";", "''", "''''", "$", "*", "\"", "\\", ".T.",
			");", "#7=", "#8 = FOO(1);", "='", "/", "\xff", "\xc3\xa9", "\xc3", "\xe2\x82\xac", "\xa0", "\xc2\x85", "\xc2\xa0", "\xf0\x9f\x98\x80", "\x80", "\xef\xbf\xbd", "/*", "*/", "//", "--", "\\X2\\00E9\\X0\\", "\\S\\", "ENDSEC;", "DATA;", "%d", "\x00", "&", "\v", "END-ISO-10303-21;", "[", "}", "<a>"))
	}
	s := b.String()
	// an apostrophe inside a string is doubled
	t := strings.ReplaceAll(s[1:], "''", "\x01")
	t = strings.ReplaceAll(t, "'", "''")
	t = strings.ReplaceAll(t, "\x01", "''")
	return "'" + t + "'"
}

func (g *docGen) simple() string {
	r := g.r
	switch r.n(10) {
	case 0, 1:
		return "#" + strconv.Itoa(r.rg(1, 99))
	case 2:
		return strconv.Itoa(r.rg(-99, 99))
	case 3:
		return r.pick("0.", "-1.5", "1.E-07", "3.25E+3", "-0.")
	case 4:
		return r.pick(".T.", ".F.", ".U.", ".UNSPECIFIED.")
	case 5:
		return r.pick("$", "*")
	case 6:
		return r.pick("\"0FF\"", "\"3A\"")
	}
	return g.str()
}

// arg returns the text of an argument and its value.
func (g *docGen) arg(depth int) (string, string) {
	r := g.r
	if depth < g.nest && r.p(1, 4) {
		var text, val strings.Builder
		if r.p(1, 5) { // typed parameter
			t := r.pick("LENGTH_MEASURE", "PARAMETER_VALUE", "M", "ENDSEC_MEASURE", "DATA_MEASURE", "END_LENGTH", "ISO_LENGTH", "FILE_SIZE", "HEADER_SIZE")
			text.WriteString(t)
			val.WriteString(t)
		}
		text.WriteByte('(')
		val.WriteByte('(')
		n := r.n(4)
		if g.long > 0 && r.n(64) < g.long {
			n = r.rg(600, 2500)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				text.WriteByte(',')
				val.WriteByte(',')
			}
			a, b := "", ""
			if n > 100 {
				a = "#" + strconv.Itoa(1000+i)
				b = a
			} else {
				a, b = g.arg(depth + 1)
			}
			w := g.ws(true)
			x := g.ws(true)
			text.WriteString(w + a + x)
			val.WriteString(unbreak(w) + b + unbreak(x))
		}
		text.WriteByte(')')
		val.WriteByte(')')
		return text.String(), val.String()
	}
	s := g.simple()
	return s, s
}

// unbreak is what remains of white space inside a list when lines are joined.
func unbreak(w string) string {
	return strings.ReplaceAll(strings.ReplaceAll(w, "\r\n", ""), "\n", "")
}

func (g *docGen) entity(id string, typ string) piece {
	r := g.r
	p := piece{Ent: true, ID: id, Type: typ}
	var b strings.Builder
	name := typ
	if g.spaces && r.p(1, 10) { // white space is no part of a type
		k := r.n(len(typ) + 1)
		name = typ[:k] + g.ws(true) + " " + typ[k:]
	}
	b.WriteString(g.ws(false) + id + g.ws(false) + "=" + g.ws(true) + name + g.ws(true) + "(")
	n := r.n(6)
	if r.p(1, 12) {
		n = r.rg(6, 30)
	} else if r.p(1, 150) {
		n = r.rg(100, 600)
	} else if r.p(1, 3000) {
		n = r.pickInt(1023, 1024, 1025, 4095, 4096, 4097, r.rg(600, 9000))
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		text, val := "", ""
		switch {
		case n > 1 && r.p(1, 25): // nothing between two commas
		case n > 30:
			text = g.simple()
			val = text
		case r.p(1, 200): // deep nesting
			k := r.rg(10, 300)
			s := g.simple()
			text = strings.Repeat("(", k) + s + strings.Repeat(")", k)
			val = text
		default:
			text, val = g.arg(0)
		}
		b.WriteString(g.ws(true) + text + g.ws(true))
		p.Args = append(p.Args, []byte(val))
	}
	b.WriteByte(')')
	p.Close = b.Len()
	b.WriteString(g.ws(true) + ";")
	p.Semi = b.Len()
	b.WriteString(g.ws(false) + g.nl())
	p.Text = []byte(b.String())
	return p
}

// huge is an entity of n bytes or more.
func (g *docGen) huge(id string, n int) piece {
	fill := g.r.pick("x", "ab ", "=,(", "#1=A(1);", "é", "0123456789")
	arg := "'" + strings.Repeat(fill, n/len(fill)+1) + "'"
	if g.r.p(1, 3) {
		arg = "(" + strings.Repeat("#12,", n/4) + "#13)"
	}
	if k := g.r.rg(1000, 90000); g.r.p(1, 4) { // of many arguments
		p := piece{Ent: true, ID: id, Type: "WIDE"}
		var b strings.Builder
		b.WriteString(id + "=WIDE(")
		for i := 0; i < k; i++ {
			a := strconv.Itoa(i * 7 % 1000)
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a)
			p.Args = append(p.Args, []byte(a))
		}
		p.Close, p.Semi = b.Len()+1, b.Len()+2
		p.Text = []byte(b.String() + ");" + g.nl())
		return p
	}
	p := piece{Ent: true, ID: id, Type: "HUGE", Args: [][]byte{[]byte(arg), []byte("(1,#2)")}}
	p.Text = []byte(id + "=HUGE(" + arg + ",(1,#2));" + g.nl())
	p.Close = len(p.ID) + 6 + len(arg) + 8
	p.Semi = p.Close + 1
	return p
}

func (g *docGen) noise(s string) piece { return piece{Text: []byte(s + g.nl())} }

// doc generates a file of n entities.
func (g *docGen) doc(path string, n int) *stepDoc {
	r := g.r
	d := &stepDoc{Path: path, Cut: -1}
	if !g.plain {
		d.Pieces = append(d.Pieces, g.noise("ISO-10303-21;"), g.noise("HEADER;"))
		if r.p(2, 3) {
			d.Pieces = append(d.Pieces, g.noise("FILE_DESCRIPTION(("+g.str()+"),'2;1');"))
		}
		if r.p(1, 2) {
			d.Pieces = append(d.Pieces, g.noise("FILE_NAME('"+r.pick("part", "a=b.stp", "#1=A(2);")+"','2021-03-01T10:00:00',('',"+g.nl()+g.str()+"),(''),'','','');"))
		}
		if r.p(1, 2) {
			d.Pieces = append(d.Pieces, g.noise("FILE_SCHEMA (('AUTOMOTIVE_DESIGN { 1 0 10303 214 1 1 1 }'));"))
		}
		d.Pieces = append(d.Pieces, g.noise("ENDSEC;"))
		if r.p(1, 3) {
			d.Pieces = append(d.Pieces, g.noise(""))
		}
		d.Pieces = append(d.Pieces, g.noise("DATA;"))
	}
	used := []string{}
	next := r.rg(1, 50)
	tw := []string{}
	if r.p(1, 8) {
		t := r.twin()
		if !strings.ContainsAny(t[0], "ABC") {
			tw = t[:]
		}
	}
	for i := 0; i < n; i++ {
		id := ""
		if len(tw) > 0 && r.p(1, 3) {
			id, tw = tw[0], tw[1:]
			used = append(used, id)
		} else if len(used) > 0 && r.p(1, 12) {
			id = used[r.n(len(used))]
		} else {
			id = "#" + strconv.Itoa(next)
			switch g.style {
			case 0: // the same number more than once
				id = "#" + "000"[:r.n(4)] + strconv.Itoa(next)
				next -= r.n(3)
			case 1:
				id = "#" + r.pick("4294967", "2147483", "9223372036854", "18446744073709", "10000000000000000000000") + strconv.Itoa(next)
			}
			next += r.rg(1, 3)
			if r.p(1, 20) {
				next += 1000
			}
			used = append(used, id)
		}
		d.Pieces = append(d.Pieces, g.entity(id, g.types[r.n(len(g.types))]))
		if r.p(1, 10) {
			d.Pieces = append(d.Pieces, g.noise(r.pick("", "", "  ", "\t")))
		}
		if !g.plain && i < n-1 && r.p(1, 40) {
			d.Pieces = append(d.Pieces, g.noise("ENDSEC;"), g.noise("DATA;"))
		}
	}
	if !g.plain && r.p(5, 6) {
		d.Pieces = append(d.Pieces, g.noise("ENDSEC;"), g.noise("END-ISO-10303-21;"))
	}
	if len(d.Pieces) > 0 && r.p(1, 4) { // no line end at the end of the file
		p := &d.Pieces[len(d.Pieces)-1]
		for len(p.Text) > p.Semi && (p.Text[len(p.Text)-1] == '\n' || p.Text[len(p.Text)-1] == '\r') {
			p.Text = p.Text[:len(p.Text)-1]
		}
	}
	return d
}

// sameSize is a document of the same length that differs in one identifier.
func (d *stepDoc) sameSize(r *rng) *stepDoc {
	c := &stepDoc{Path: d.Path, Cut: d.Cut, Pieces: append([]piece{}, d.Pieces...)}
	for try := 0; try < 20 && len(c.Pieces) > 0; try++ {
		p := &c.Pieces[r.n(len(c.Pieces))]
		if !p.Ent {
			continue
		}
		at := bytes.Index(p.Text, []byte(p.ID)) + len(p.ID) - 1
		p.Text = append([]byte{}, p.Text...)
		p.Text[at] = '0' + (p.Text[at]-'0'+byte(r.rg(1, 9)))%10
		p.ID = p.ID[:len(p.ID)-1] + string(rune(p.Text[at]))
		break
	}
	return c
}

// wsCuts and interesting cut positions of a document.
func (d *stepDoc) cuts(r *rng, n int) []int {
	full := 0
	var pts []int
	for _, p := range d.Pieces {
		if p.Ent {
			for _, o := range []int{1, len(p.ID), len(p.ID) + 1, p.Close - 2, p.Close - 1, p.Close, p.Semi - 1, p.Semi, p.Semi + 1} {
				if o >= 0 {
					pts = append(pts, full+o)
				}
			}
			for o, c := range p.Text {
				if c == ',' || c == '(' || c == ')' || c == '\'' || c == '=' || c == '\n' {
					if len(p.Text) < 400 || r.p(1, 40) {
						pts = append(pts, full+o, full+o+1)
					}
				}
			}
		}
		full += len(p.Text)
	}
	var out []int
	for i := 0; i < n; i++ {
		c := 0
		if b := r.pickInt(512, 4096, 4096, 65536); full > b && r.p(1, 8) { // after whole blocks
			c = b * r.rg(1, full/b)
		} else if len(pts) > 0 && r.p(2, 3) {
			c = pts[r.n(len(pts))]
		} else {
			c = r.n(full + 1)
		}
		if c < full {
			out = append(out, c)
		}
	}
	return out
}
