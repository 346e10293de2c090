package ref

import (
	"fmt"
	"math/rand"
	"strings"
)

// ParseNotation reads PEG notation by the grammar documented in re/grammar.go
// (recursive descent with the PEG meaning of that grammar). A nil node means
// that the text is not valid notation. first is the order of the rules.
func ParseNotation(s string) (n *Node, isGrammar bool, braced bool) {
	q := &note{s: s}
	pos := q.spacing(0)
	// Grammar / Expression
	if e, g := q.grammar(pos); e >= 0 {
		if e == len(s) {
			return g, true, q.braced
		}
		// ordered choice: Grammar matched, EndOfFile did not
		return nil, false, q.braced
	}
	e, x := q.expression(pos)
	if e < 0 || e != len(s) {
		return nil, false, q.braced
	}
	return x, false, q.braced
}

type note struct {
	s      string
	braced bool
	steps  int
}

func (q *note) at(p int) byte {
	if p < len(q.s) {
		return q.s[p]
	}
	return 0
}
func (q *note) has(p int, t string) bool { return strings.HasPrefix(q.s[p:], t) }

func (q *note) eol(p int) int {
	for _, t := range []string{"\r\n", "\n", "\r"} {
		if q.has(p, t) {
			return p + len(t)
		}
	}
	return -1
}

func (q *note) spacing(p int) int {
	for {
		if q.has(p, " ") || q.has(p, "\t") {
			p++
			continue
		}
		if e := q.eol(p); e >= 0 {
			p = e
			continue
		}
		if q.has(p, "#") {
			e := p + 1
			for e < len(q.s) && q.eol(e) < 0 {
				e++
			}
			if e = q.eol2(e); e >= 0 {
				p = e
				continue
			}
		}
		return p
	}
}

func (q *note) eol2(p int) int {
	if p >= len(q.s) {
		return -1
	}
	return q.eol(p)
}

func (q *note) tok(p int, t string) int {
	if p < 0 || p > len(q.s) || !q.has(p, t) {
		return -1
	}
	return q.spacing(p + len(t))
}

func idStart(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }

func (q *note) ident(p int) (int, string) {
	if p >= len(q.s) || !idStart(q.s[p]) {
		return -1, ""
	}
	e := p
	for e < len(q.s) && (idStart(q.s[e]) || q.s[e] >= '0' && q.s[e] <= '9') {
		e++
	}
	return q.spacing(e), q.s[p:e]
}

func (q *note) grammar(p int) (int, *Node) {
	x := &Node{Op: "grammar", Defs: map[string]*Node{}}
	for {
		e, name := q.ident(p)
		if e >= 0 {
			e = q.tok(e, "<-")
		}
		if e < 0 {
			break
		}
		e, d := q.expression(e)
		if e < 0 {
			break
		}
		if x.Str == "" {
			x.Str = name
		}
		x.Defs[name] = d
		p = e
	}
	if x.Str == "" {
		return -1, nil
	}
	return p, x
}

func (q *note) expression(p int) (int, *Node) {
	x := &Node{Op: "or"}
	e, k := q.sequence(p)
	x.Kids = append(x.Kids, k)
	for {
		e2 := q.tok(e, "/")
		if e2 < 0 {
			return e, x
		}
		e, k = q.sequence(e2)
		x.Kids = append(x.Kids, k)
	}
}

func (q *note) sequence(p int) (int, *Node) {
	x := &Node{Op: "seq"}
	for {
		e, k := q.prefix(p)
		if e < 0 {
			return p, x
		}
		p = e
		x.Kids = append(x.Kids, k)
	}
}

func (q *note) prefix(p int) (int, *Node) {
	for _, o := range []struct{ t, op string }{{"&", "and"}, {"!", "not"}} {
		if e := q.tok(p, o.t); e >= 0 {
			e, k := q.suffix(e)
			if e < 0 {
				return -1, nil
			}
			return e, &Node{Op: o.op, Kids: []*Node{k}}
		}
	}
	return q.suffix(p)
}

func (q *note) suffix(p int) (int, *Node) {
	e, k := q.primary(p)
	if e < 0 {
		return -1, nil
	}
	for _, o := range []struct{ t, op string }{{"?", "opt"}, {"*", "star"}, {"+", "plus"}} {
		if e2 := q.tok(e, o.t); e2 >= 0 {
			return e2, &Node{Op: o.op, Kids: []*Node{k}}
		}
	}
	return e, k
}

func (q *note) group(p int, open, cl string) (int, *Node) {
	e := q.tok(p, open)
	if e < 0 {
		return -1, nil
	}
	e, k := q.expression(e)
	if e < 0 {
		return -1, nil
	}
	return q.tok(e, cl), k
}

func (q *note) primary(p int) (int, *Node) {
	if e, name := q.ident(p); e >= 0 && q.tok(e, "<-") < 0 {
		return e, &Node{Op: "nt", Str: name}
	}
	if e, k := q.group(p, "(", ")"); e >= 0 {
		return e, k
	}
	if e, k := q.group(p, "{{", "}}"); e >= 0 {
		return e, &Node{Op: "memo", Kids: []*Node{k}}
	}
	if e, _ := q.group(p, "{", "}"); e >= 0 {
		q.braced = true
		return e, &Node{Op: "empty"}
	}
	if e, s := q.literal(p); e >= 0 {
		return e, &Node{Op: "lit", Str: s}
	}
	if e, k := q.class(p); e >= 0 {
		return e, k
	}
	if e := q.tok(p, "."); e >= 0 {
		return e, &Node{Op: "any", N: 1}
	}
	return -1, nil
}

func (q *note) literal(p int) (int, string) {
	for _, d := range []string{"'", "\""} {
		if !q.has(p, d) {
			continue
		}
		var b []byte
		e := p + 1
		for !q.has(e, d) {
			e2, c := q.char(e)
			if e2 < 0 {
				break
			}
			b = append(b, c)
			e = e2
		}
		if e = q.tok(e, d); e >= 0 {
			return e, string(b)
		}
	}
	return -1, ""
}

func (q *note) char(p int) (int, byte) {
	if p >= len(q.s) {
		return -1, 0
	}
	if q.s[p] != '\\' {
		return p + 1, q.s[p]
	}
	if p+1 >= len(q.s) {
		return -1, 0
	}
	switch c := q.s[p+1]; c {
	case 'n':
		return p + 2, 10
	case 'r':
		return p + 2, 13
	case 't':
		return p + 2, 9
	case '\'', '"', '[', ']', '\\', '-':
		return p + 2, c
	}
	oct := func(i int) bool { return q.at(p+i) >= '0' && q.at(p+i) <= '7' }
	if q.at(p+1) >= '0' && q.at(p+1) <= '2' && oct(2) && oct(3) {
		return p + 4, (q.s[p+1]-'0')*64 + (q.s[p+2]-'0')*8 + q.s[p+3] - '0'
	}
	if oct(1) && oct(2) {
		return p + 3, (q.s[p+1]-'0')*8 + q.s[p+2] - '0'
	}
	if oct(1) {
		return p + 2, q.s[p+1] - '0'
	}
	return -1, 0
}

func (q *note) class(p int) (int, *Node) {
	if !q.has(p, "[") {
		return -1, nil
	}
	e := p + 1
	op := "set"
	if e2 := q.tok(e, "^"); e2 >= 0 {
		op, e = "nset", e2
	}
	var in [256]bool
	for !q.has(e, "]") {
		e2, a := q.char(e)
		if e2 < 0 {
			return -1, nil
		}
		b := a
		if q.has(e2, "-") {
			if e3, c := q.char(e2 + 1); e3 >= 0 {
				e2, b = e3, c
			}
		}
		for c := int(a); c <= int(b); c++ {
			in[c] = true
		}
		e = e2
	}
	if e = q.tok(e, "]"); e < 0 {
		return -1, nil
	}
	var m []byte
	for c, y := range in {
		if y {
			m = append(m, byte(c))
		}
	}
	return e, &Node{Op: op, Str: string(m)}
}

// Notation writes a tree as PEG notation, with random spacing, comments,
// escapes and parentheses.
type Notation struct{ R *rand.Rand }

func (w *Notation) sp() string {
	r := w.R
	s := ""
	for r.Intn(3) == 0 {
		s += []string{" ", "\t", "\n", "\r\n", "\r", "# comment '[ <- \n", "#\r", "  "}[r.Intn(8)]
	}
	return s
}

func (w *Notation) ch(c byte, special string) string {
	r := w.R
	named := map[byte]string{10: `\n`, 13: `\r`, 9: `\t`, '\'': `\'`, '"': `\"`, '[': `\[`, ']': `\]`, '\\': `\\`, '-': `\-`}
	must := strings.IndexByte(special, c) >= 0 || c == '\\'
	if n, ok := named[c]; ok && (must || r.Intn(2) == 0) {
		return n
	}
	if c < 0300 && r.Intn(5) == 0 {
		return fmt.Sprintf("\\%03o", c)
	}
	return string([]byte{c})
}

func (w *Notation) Class(n *Node) string {
	r := w.R
	s := "["
	if n.Op == "nset" {
		s += "^"
	}
	first := n.Op == "set"
	for i := 0; i < len(n.Str); i++ {
		c := n.Str[i]
		sp := "]-"
		if first {
			sp += "^"
		}
		x := w.ch(c, sp)
		if c == '^' && first {
			x = "\\136"
		}
		if !first && n.Op == "nset" && i == 0 && strings.IndexByte(" \t\r\n#", c) >= 0 {
			x = fmt.Sprintf("\\%03o", c)
		}
		first = false
		s += x
		if r.Intn(4) == 0 {
			s += "-" + w.ch(c, "]-")
		}
	}
	return s + "]" + w.sp()
}

func (w *Notation) lit(t string) string {
	d := []string{"'", "\""}[w.R.Intn(2)]
	s := d
	for i := 0; i < len(t); i++ {
		s += w.ch(t[i], d)
	}
	return s + d + w.sp()
}

// levels: 0 expression, 1 sequence, 2 prefix, 3 suffix, 4 primary
func (w *Notation) Expr(n *Node, level int) string {
	r := w.R
	paren := func(s string) string { return "(" + w.sp() + s + ")" + w.sp() }
	if level > 0 && r.Intn(12) == 0 {
		return paren(w.Expr(n, 0))
	}
	wrap := func(need int, s string) string {
		if level > need {
			return paren(s)
		}
		return s
	}
	switch n.Op {
	case "or":
		s := ""
		for i, k := range n.Kids {
			if i > 0 {
				s += "/" + w.sp()
			}
			s += w.Expr(k, 1)
		}
		return wrap(0, s)
	case "seq", "empty":
		s := ""
		for _, k := range n.Kids {
			s += w.Expr(k, 2)
		}
		return wrap(1, s)
	case "and":
		return wrap(2, "&"+w.sp()+w.Expr(n.Kids[0], 3))
	case "not":
		return wrap(2, "!"+w.sp()+w.Expr(n.Kids[0], 3))
	case "star":
		return wrap(3, w.Expr(n.Kids[0], 4)+"*"+w.sp())
	case "plus":
		return wrap(3, w.Expr(n.Kids[0], 4)+"+"+w.sp())
	case "opt":
		return wrap(3, w.Expr(n.Kids[0], 4)+"?"+w.sp())
	case "memo":
		return "{{" + w.sp() + w.Expr(n.Kids[0], 0) + "}}" + w.sp()
	case "nt":
		return n.Str + []string{" ", "\n", "\t"}[r.Intn(3)] + w.sp()
	case "lit":
		return w.lit(n.Str)
	case "set", "nset":
		return w.Class(n)
	case "any":
		if n.N == 0 {
			return w.lit("")
		}
		return wrap(1, strings.Repeat("."+w.sp(), n.N))
	}
	panic("Notation: " + n.Op)
}

// Text writes the whole pattern.
func (w *Notation) Text(n *Node) string {
	s := w.sp()
	if n.Op != "grammar" {
		return s + w.Expr(n, 0)
	}
	def := func(k string) { s += k + w.sp() + "<-" + w.sp() + w.Expr(n.Defs[k], 0) }
	def(n.Str)
	for _, k := range SortedKeys(n.Defs) {
		if k != n.Str {
			def(k)
		}
	}
	return s
}
