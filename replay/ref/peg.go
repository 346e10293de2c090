package ref

import (
	"bytes"
	"fmt"
	"math/rand"
	"regexp/syntax"
	"sort"
	"strconv"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	p "github.com/zyedidia/gpeg/pattern"
)

// Node is the specification's own syntax tree; Build turns it into a pattern
// of the code under test, Match gives its meaning.
type Node struct {
	Op   string
	Kids []*Node          `json:",omitempty"`
	Str  string           `json:",omitempty"`
	N    int              `json:",omitempty"`
	M    int              `json:",omitempty"`
	Defs map[string]*Node `json:",omitempty"`
	Chk  *Chk             `json:",omitempty"`
}

func (n *Node) String() string {
	s := n.Op
	if n.Str != "" {
		s += strconv.Quote(n.Str)
	}
	if n.N != 0 || n.Op == "any" || n.Op == "cap" {
		s += strconv.Itoa(n.N)
	}
	if len(n.Kids) > 0 {
		s += "("
		for i, k := range n.Kids {
			if i > 0 {
				s += ", "
			}
			s += k.String()
		}
		s += ")"
	}
	if n.Defs != nil {
		var ks []string
		for k := range n.Defs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s += "{"
		for _, k := range ks {
			s += k + " <- " + n.Defs[k].String() + "; "
		}
		s += "}"
	}
	return s
}

// MarshalJSON keeps replay files readable.
func (n *Node) MarshalJSON() ([]byte, error) { return []byte(strconv.QuoteToASCII(n.String())), nil }

// Chk is a checker whose meaning on plain documents is known; it logs what it is given.
type Chk struct {
	Kind  string // "words", "len", "extra", "ref"
	Words []string
	K     int
	Real  isa.Checker `json:"-"`
	syms  map[int]string
	Log   []string           `json:"-"` // reference calls
	RLog  []string           `json:"-"` // calls made by the code under test
	Back  *isa.BackReference `json:"-"`
}

func (c *Chk) Reset() { c.syms = map[int]string{}; c.Log = nil; c.RLog = nil }

// Check is what the code under test calls.
func (c *Chk) Check(b []byte, src *input.Input, id, flag int) int {
	c.RLog = append(c.RLog, fmt.Sprintf("%q id=%d flag=%d at=%d", b, id, flag, src.Pos()))
	switch c.Kind {
	case "words", "ref":
		return c.Real.Check(b, src, id, flag)
	case "len":
		if len(b)%2 == c.K {
			return 0
		}
		return -1
	case "extra":
		rest := src.Slice(src.Pos(), src.Pos()+c.K)
		if len(rest) < c.K {
			return -1
		}
		return c.K
	}
	return 0
}

// RefCheck is the meaning of the checker.
func (c *Chk) RefCheck(doc []byte, start, end, id, flag int) int {
	c.Log = append(c.Log, fmt.Sprintf("%q id=%d flag=%d at=%d", doc[start:end], id, flag, end))
	switch c.Kind {
	case "words":
		for _, w := range c.Words {
			if w == string(doc[start:end]) {
				return 0
			}
		}
		return -1
	case "len":
		if (end-start)%2 == c.K {
			return 0
		}
		return -1
	case "extra":
		if end+c.K > len(doc) {
			return -1
		}
		return c.K
	case "ref":
		switch isa.RefKind(flag) {
		case isa.RefDef:
			c.syms[id] = string(doc[start:end])
			return 0
		case isa.RefUse:
			if bytes.HasPrefix(doc[end:], []byte(c.syms[id])) {
				return len(c.syms[id])
			}
			return -1
		}
	}
	return 0
}

// Build makes the pattern; every call returns fresh pattern objects.
func (n *Node) Build() p.Pattern {
	k := func(i int) p.Pattern { return n.Kids[i].Build() }
	all := func() []p.Pattern {
		r := make([]p.Pattern, len(n.Kids))
		for i := range r {
			r[i] = k(i)
		}
		return r
	}
	switch n.Op {
	case "lit":
		return p.Literal(n.Str)
	case "set":
		return p.Set(charset.New([]byte(n.Str)))
	case "nset":
		return p.Set(charset.New([]byte(n.Str)).Complement())
	case "any":
		return p.Any(uint8(n.N))
	case "empty":
		return &p.EmptyNode{}
	case "seq":
		return p.Concat(all()...)
	case "or":
		return p.Or(all()...)
	case "star":
		return p.Star(k(0))
	case "plus":
		return p.Plus(k(0))
	case "opt":
		return p.Optional(k(0))
	case "not":
		return p.Not(k(0))
	case "and":
		return p.And(k(0))
	case "cap":
		return p.Cap(k(0), n.N)
	case "memo":
		return p.Memo(k(0))
	case "search":
		return p.Search(k(0))
	case "repeat":
		return p.Repeat(k(0), n.N)
	case "emptyop":
		return p.EmptyOp(syntax.EmptyOp(n.N))
	case "nt":
		return p.NonTerm(n.Str)
	case "grammar":
		m := map[string]p.Pattern{}
		for s, d := range n.Defs {
			m[s] = d.Build()
		}
		return p.Grammar(n.Str, m)
	case "check":
		return p.CheckFlags(k(0), n.Chk, n.N, n.M)
	case "error":
		if len(n.Kids) == 0 {
			return p.Error(n.Str, nil)
		}
		return p.Error(n.Str, k(0))
	}
	panic("Build: " + n.Op)
}

// Walk visits every node.
func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		k.Walk(f)
	}
	for _, k := range SortedKeys(n.Defs) {
		n.Defs[k].Walk(f)
	}
}

// SortedKeys makes map iteration repeatable.
func SortedKeys(m map[string]*Node) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ResetChecks clears the state of all checkers.
func (n *Node) ResetChecks() {
	n.Walk(func(x *Node) {
		if x.Chk != nil {
			x.Chk.Reset()
			if x.Chk.Kind == "ref" {
				for k := range x.Chk.Back.Symbols {
					delete(x.Chk.Back.Symbols, k)
				}
			}
		}
	})
}

// M is the state of one reference match.
type M struct {
	Doc   []byte
	Steps int
	Errs  []Err
	depth int
	abort bool
	env   []map[string]*Node
}

type tooLong struct{}

// Result of a reference match.
type Result struct {
	Ok    bool
	End   int
	Caps  []*Cap
	Errs  []Err
	Abort bool // an error without recovery ended the parse
}

// Match gives the PEG semantics of n on doc; skip is set when the pattern is
// not well formed on this document (left recursion, repetition of an empty
// match) or the budget is exhausted.
func Match(n *Node, doc []byte, budget int) (r Result, skip bool) {
	m := &M{Doc: doc, Steps: budget}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(tooLong); ok {
				skip = true
				return
			}
			panic(x)
		}
	}()
	ok, end, caps := m.match(n, 0)
	r = Result{Ok: ok, End: end, Caps: caps, Errs: m.Errs, Abort: m.abort}
	return r, false
}

func (m *M) match(n *Node, pos int) (bool, int, []*Cap) {
	m.Steps--
	m.depth++
	if m.Steps < 0 || m.depth > 2000 {
		panic(tooLong{})
	}
	defer func() { m.depth-- }()
	doc := m.Doc
	switch n.Op {
	case "lit":
		if bytes.HasPrefix(doc[pos:], []byte(n.Str)) {
			return true, pos + len(n.Str), nil
		}
		return false, pos, nil
	case "set", "nset":
		if pos < len(doc) && (bytes.IndexByte([]byte(n.Str), doc[pos]) >= 0) == (n.Op == "set") {
			return true, pos + 1, nil
		}
		return false, pos, nil
	case "any":
		if pos+n.N <= len(doc) {
			return true, pos + n.N, nil
		}
		return false, pos, nil
	case "empty":
		return true, pos, nil
	case "seq":
		var caps []*Cap
		at := pos
		for _, k := range n.Kids {
			ok, e, c := m.match(k, at)
			if m.abort {
				return ok, e, append(caps, c...)
			}
			if !ok {
				return false, pos, nil
			}
			at = e
			caps = append(caps, c...)
		}
		return true, at, caps
	case "repeat":
		var caps []*Cap
		at := pos
		for i := 0; i < n.N; i++ {
			ok, e, c := m.match(n.Kids[0], at)
			if m.abort {
				return ok, e, append(caps, c...)
			}
			if !ok {
				return false, pos, nil
			}
			at = e
			caps = append(caps, c...)
		}
		return true, at, caps
	case "or":
		if len(n.Kids) == 0 {
			return true, pos, nil
		}
		for _, k := range n.Kids {
			ok, e, c := m.match(k, pos)
			if m.abort || ok {
				return ok, e, c
			}
		}
		return false, pos, nil
	case "star", "plus":
		var caps []*Cap
		at := pos
		for i := 0; ; i++ {
			ok, e, c := m.match(n.Kids[0], at)
			if m.abort {
				return ok, e, append(caps, c...)
			}
			if !ok {
				if i == 0 && n.Op == "plus" {
					return false, pos, nil
				}
				return true, at, caps
			}
			if e == at && !(i == 0 && n.Op == "plus") {
				panic(tooLong{})
			}
			at = e
			caps = append(caps, c...)
		}
	case "opt":
		ok, e, c := m.match(n.Kids[0], pos)
		if m.abort || ok {
			return ok, e, c
		}
		return true, pos, nil
	case "not":
		ok, e, c := m.match(n.Kids[0], pos)
		if m.abort {
			return ok, e, c
		}
		return !ok, pos, nil
	case "and":
		ok, e, c := m.match(n.Kids[0], pos)
		if m.abort {
			return ok, e, c
		}
		if !ok {
			return false, pos, nil
		}
		return true, pos, c
	case "cap":
		ok, e, c := m.match(n.Kids[0], pos)
		if m.abort {
			return ok, e, c
		}
		if !ok {
			return false, pos, nil
		}
		return true, e, []*Cap{{Id: n.N, Start: pos, Len: e - pos, Kids: c}}
	case "memo":
		return m.match(n.Kids[0], pos)
	case "search":
		for at := pos; ; at++ {
			ok, e, c := m.match(n.Kids[0], at)
			if m.abort || ok {
				return ok, e, c
			}
			if at >= len(doc) {
				return false, pos, nil
			}
		}
	case "emptyop":
		r1, r2 := rune(-1), rune(-1)
		if pos > 0 {
			r1 = rune(doc[pos-1])
		}
		if pos < len(doc) {
			r2 = rune(doc[pos])
		}
		return syntax.EmptyOpContext(r1, r2)&syntax.EmptyOp(n.N) != 0, pos, nil
	case "nt":
		for i := len(m.env) - 1; i >= 0; i-- {
			if d, ok := m.env[i][n.Str]; ok {
				saved := m.env
				m.env = m.env[: i+1 : i+1]
				ok, e, c := m.match(d, pos)
				m.env = saved
				return ok, e, c
			}
		}
		panic("undefined non-terminal " + n.Str)
	case "grammar":
		saved := m.env
		m.env = append(saved[:len(saved):len(saved)], n.Defs)
		ok, e, c := m.match(n.Defs[n.Str], pos)
		m.env = saved
		return ok, e, c
	case "check":
		ok, e, c := m.match(n.Kids[0], pos)
		if m.abort {
			return ok, e, c
		}
		if !ok {
			return false, pos, nil
		}
		k := n.Chk.RefCheck(doc, pos, e, n.N, n.M)
		if k == -1 {
			return false, pos, nil
		}
		return true, e + k, c
	case "error":
		m.Errs = append(m.Errs, Err{pos, n.Str})
		if len(n.Kids) == 0 {
			m.abort = true
			return false, pos, nil
		}
		return m.match(n.Kids[0], pos)
	}
	panic("Match: " + n.Op)
}

// GenOpts selects what Gen may produce.
type GenOpts struct {
	Caps, Memo, Errors, EmptyOps, Checks, Grammars, NoAndCaps bool
	PlainNames                                                bool // names of rules are identifiers of the notation
	Alphabet                                                  string
	MaxDepth                                                  int
}

// Gen is a random pattern generator.
type Gen struct {
	R    *rand.Rand
	O    GenOpts
	nts  []string
	null map[string]bool
	nCap int
	nGr  int
	look int
	nUid int
	Back *Chk
}

func (g *Gen) letter() byte { return g.O.Alphabet[g.R.Intn(len(g.O.Alphabet))] }

func (g *Gen) word(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = g.letter()
	}
	return string(b)
}

func (g *Gen) setstr() string { return g.word(1 + g.R.Intn(4)) }

// Pattern returns a random node; mustEat asks for one that cannot match empty.
func (g *Gen) Pattern(depth int, mustEat bool) *Node {
	r := g.R
	mk := func(op string, ks ...*Node) *Node { return &Node{Op: op, Kids: ks} }
	if depth <= 0 || r.Intn(7) == 0 {
		switch r.Intn(9) {
		case 0, 1:
			return &Node{Op: "lit", Str: g.word(1)}
		case 2, 3:
			return &Node{Op: "lit", Str: g.word(1 + r.Intn(3))}
		case 4:
			return &Node{Op: "set", Str: g.setstr()}
		case 5:
			return &Node{Op: "nset", Str: g.setstr()}
		case 6:
			n := 1
			if r.Intn(3) == 0 {
				n = 1 + r.Intn(4)
			}
			return &Node{Op: "any", N: n}
		case 7:
			if !mustEat {
				if g.O.EmptyOps && r.Intn(2) == 0 {
					return &Node{Op: "emptyop", N: 1 << uint(r.Intn(6))}
				}
				if r.Intn(4) == 0 {
					return &Node{Op: "any", N: 0}
				}
				return &Node{Op: "empty"}
			}
		case 8:
			if len(g.nts) > 0 {
				nt := g.nts[r.Intn(len(g.nts))]
				if mustEat {
					return mk("seq", &Node{Op: "lit", Str: g.word(1)}, &Node{Op: "nt", Str: nt})
				}
				return &Node{Op: "nt", Str: nt}
			}
		}
		return &Node{Op: "lit", Str: g.word(1)}
	}
	d := depth - 1
	for {
		switch r.Intn(21) {
		case 20:
			return g.heads()
		case 0, 1, 2, 3:
			n := 2 + r.Intn(2)
			ks := make([]*Node, n)
			eat := r.Intn(n)
			for i := range ks {
				ks[i] = g.Pattern(d, mustEat && i == eat)
			}
			return mk("seq", ks...)
		case 4, 5, 6, 7:
			n := 2 + r.Intn(2)
			ks := make([]*Node, n)
			for i := range ks {
				ks[i] = g.Pattern(d, mustEat)
			}
			return mk("or", ks...)
		case 8, 9:
			k := g.Pattern(d, true)
			if g.O.Memo && r.Intn(3) == 0 {
				k = mk("memo", k)
			}
			if mustEat {
				return mk("plus", k)
			}
			return mk("star", k)
		case 10:
			return mk("plus", g.Pattern(d, true))
		case 11:
			if mustEat {
				continue
			}
			return mk("opt", g.Pattern(d, r.Intn(2) == 0))
		case 12:
			x := g.Pattern(d, false)
			if mustEat || r.Intn(2) == 0 {
				return mk("seq", mk("not", x), g.Pattern(d, mustEat))
			}
			return mk("not", x)
		case 13:
			g.look++
			x := g.Pattern(d, false)
			g.look--
			if mustEat {
				return mk("seq", mk("and", x), g.Pattern(d, mustEat))
			}
			return mk("and", x)
		case 14, 15:
			if !g.O.Caps || g.O.NoAndCaps && g.look > 0 {
				continue
			}
			g.nCap++
			return &Node{Op: "cap", N: g.nCap, Kids: []*Node{g.Pattern(d, mustEat)}}
		case 16:
			if !g.O.Memo {
				continue
			}
			return mk("memo", g.Pattern(d, mustEat))
		case 17:
			if r.Intn(3) == 0 {
				return mk("search", g.Pattern(d, mustEat))
			}
			if r.Intn(2) == 0 {
				n := 1 + r.Intn(3)
				return &Node{Op: "repeat", N: n, Kids: []*Node{g.Pattern(d, mustEat)}}
			}
			if g.O.Errors && r.Intn(2) == 0 {
				x := &Node{Op: "error", Str: g.word(r.Intn(4))}
				if r.Intn(5) > 0 {
					x.Kids = []*Node{g.Pattern(d, mustEat)}
				}
				return mk("or", g.Pattern(d, mustEat), x)
			}
			continue
		case 18:
			if !g.O.Checks {
				continue
			}
			return g.check(d, mustEat)
		case 19:
			if !g.O.Grammars || len(g.nts) > 3 || r.Intn(2) == 0 {
				continue
			}
			return g.Grammar(d)
		}
	}
}

// heads returns a choice of alternatives told apart (or not) by how they start.
func (g *Gen) heads() *Node {
	r := g.R
	wide := "abcdefghij"
	part := func() string {
		b := []byte{}
		for i, n := 0, 1+r.Intn(5); i < n; i++ {
			if r.Intn(2) == 0 {
				b = append(b, g.letter())
			} else {
				b = append(b, wide[r.Intn(len(wide))])
			}
		}
		return string(b)
	}
	var ks []*Node
	for i, n := 0, 2+r.Intn(3); i < n; i++ {
		var h *Node
		switch r.Intn(8) {
		case 0, 1, 2, 3:
			h = &Node{Op: "set", Str: part()}
		case 4, 5:
			h = &Node{Op: "lit", Str: part()[:1]}
		case 6:
			h = &Node{Op: "any", N: 1 + r.Intn(2)}
		case 7:
			h = &Node{Op: "nset", Str: part()}
		}
		if r.Intn(5) == 0 {
			h = &Node{Op: []string{"opt", "star", "plus", "not", "and"}[r.Intn(5)], Kids: []*Node{h}}
		}
		if r.Intn(6) == 0 && g.O.Caps && !(g.O.NoAndCaps && g.look > 0) {
			g.nCap++
			h = &Node{Op: "cap", N: g.nCap, Kids: []*Node{h}}
		}
		switch r.Intn(4) {
		case 0:
			ks = append(ks, &Node{Op: "seq", Kids: []*Node{h, {Op: "lit", Str: g.word(1 + r.Intn(2))}}})
		case 1:
			ks = append(ks, &Node{Op: "seq", Kids: []*Node{h, {Op: "set", Str: part()}}})
		case 2:
			ks = append(ks, &Node{Op: "seq", Kids: []*Node{h, {Op: "opt", Kids: []*Node{{Op: "set", Str: part()}}}, {Op: "lit", Str: g.word(1)}}})
		default:
			ks = append(ks, h)
		}
	}
	x := &Node{Op: "or", Kids: ks}
	if r.Intn(3) == 0 {
		return &Node{Op: "seq", Kids: []*Node{x, {Op: "lit", Str: g.word(1)}}}
	}
	return &Node{Op: "seq", Kids: []*Node{{Op: "lit", Str: g.word(1)}, x}}
}

// LongStart returns a capture that starts with a long stretch of fixed width,
// and a document for it.
func (g *Gen) LongStart() (*Node, [][]byte) {
	r := g.R
	ws := []int{254, 255, 256, 257, 300, 511, 512, 513}
	left := ws[r.Intn(len(ws))]
	if r.Intn(3) == 0 {
		left = 1 + r.Intn(600)
	}
	var ks []*Node
	var doc []byte
	if r.Intn(2) == 0 {
		ks = append(ks, &Node{Op: "lit", Str: "x"})
		doc = append(doc, 'x')
	}
	var in []*Node
	for left > 0 {
		n := left
		if r.Intn(2) == 0 {
			n = 1 + r.Intn(left)
		}
		switch r.Intn(3) {
		case 0:
			w := g.word(n)
			in = append(in, &Node{Op: "lit", Str: w})
			doc = append(doc, w...)
		case 1:
			if n > 255 {
				n = 255
			}
			in = append(in, &Node{Op: "any", N: n})
			doc = append(doc, g.word(n)...)
		case 2:
			n = 1
			in = append(in, &Node{Op: "set", Str: g.O.Alphabet})
			doc = append(doc, g.letter())
		}
		left -= n
	}
	if r.Intn(2) == 0 {
		in = append(in, &Node{Op: "star", Kids: []*Node{{Op: "lit", Str: "bc"}}})
		doc = append(doc, "bcbc"...)
	}
	ks = append(ks, &Node{Op: "cap", N: 1, Kids: []*Node{{Op: "seq", Kids: in}}})
	if r.Intn(2) == 0 {
		ks = append(ks, &Node{Op: "lit", Str: "a"})
		doc = append(doc, 'a')
	}
	docs := [][]byte{doc, append(append([]byte{}, doc...), "abc"...)}
	if len(doc) > 0 {
		docs = append(docs, doc[:len(doc)-1])
	}
	return &Node{Op: "seq", Kids: ks}, docs
}

func (g *Gen) check(d int, mustEat bool) *Node {
	r := g.R
	x := &Node{Op: "check", N: r.Intn(5), M: r.Intn(3)}
	if r.Intn(8) == 0 {
		x.N = []int{-32768, 32767, -1, 300}[r.Intn(4)]
		x.M = []int{-32768, 32767, -1, 300}[r.Intn(4)]
	}
	switch r.Intn(4) {
	case 0:
		c := &Chk{Kind: "words"}
		for i, n := 0, r.Intn(5); i < n; i++ {
			c.Words = append(c.Words, g.word(r.Intn(3)))
		}
		c.Real = isa.NewMapChecker(c.Words)
		x.Chk = c
	case 1:
		x.Chk = &Chk{Kind: "len", K: r.Intn(2)}
	case 2:
		x.Chk = &Chk{Kind: "extra", K: r.Intn(3)}
	case 3:
		if g.Back == nil {
			b := isa.NewBackRef()
			g.Back = &Chk{Kind: "ref", Real: b, Back: b}
		}
		x.Chk = g.Back
		x.N = r.Intn(2)
		x.M = r.Intn(3)
	}
	x.Kids = []*Node{g.Pattern(d, mustEat)}
	return x
}

// Grammar returns a random grammar with rule names of its own.
func (g *Gen) Grammar(d int) *Node {
	r := g.R
	g.nGr++
	n := 1 + r.Intn(3)
	var names []string
	for i := 0; i < n; i++ {
		// names are unique: a rule is not shadowed by one of a nested grammar
		f := []string{"R%d_%d", "R%d_%d", "_%d_%d", "%d.%d", "S%d-%d-é", "a%d b%d"}[r.Intn(6)]
		if g.O.PlainNames {
			f = "R%d_%d"
		}
		nm := fmt.Sprintf(f, g.nGr, i)
		if g.O.PlainNames && r.Intn(3) == 0 {
			// names that look special
			s := []string{"Start", "S", "Grammar", "Main", "main", "start", "Pattern", "Spacing_", "EndOfFile_", "Expression", "Definition", "Root", "program", "A", "Token"}[r.Intn(15)]
			dup := false
			for _, o := range append(append([]string{}, g.nts...), names...) {
				dup = dup || o == s
			}
			if !dup {
				nm = s
			}
		}
		names = append(names, nm)
	}
	saved := g.nts
	g.nts = append(append([]string{}, saved...), names...)
	x := &Node{Op: "grammar", Str: names[0], Defs: map[string]*Node{}}
	for _, nm := range names {
		x.Defs[nm] = g.Pattern(d, r.Intn(2) == 0)
	}
	g.nts = saved
	return x
}

// Doc makes a document that has a chance to match n.
func (g *Gen) Doc(n *Node, max int) []byte {
	var b []byte
	g.sample(n, &b, max, 0, nil)
	if len(b) > max {
		b = b[:max]
	}
	r := g.R
	for k := r.Intn(3); k > 0; k-- {
		at := r.Intn(len(b) + 1)
		switch r.Intn(3) {
		case 0:
			b = append(b[:at:at], append([]byte{g.letter()}, b[at:]...)...)
		case 1:
			if at < len(b) {
				b = append(b[:at:at], b[at+1:]...)
			}
		case 2:
			if at < len(b) {
				b[at] = g.letter()
			}
		}
	}
	return b
}

func (g *Gen) sample(n *Node, b *[]byte, max, depth int, env []map[string]*Node) {
	if len(*b) > max || depth > 40 {
		return
	}
	r := g.R
	rec := func(k *Node) { g.sample(k, b, max, depth+1, env) }
	switch n.Op {
	case "lit":
		*b = append(*b, n.Str...)
	case "set":
		*b = append(*b, n.Str[r.Intn(len(n.Str))])
	case "nset":
		*b = append(*b, g.letter())
	case "any":
		*b = append(*b, g.word(n.N)...)
	case "seq":
		for _, k := range n.Kids {
			rec(k)
		}
	case "repeat":
		for i := 0; i < n.N; i++ {
			rec(n.Kids[0])
		}
	case "or":
		if len(n.Kids) > 0 {
			rec(n.Kids[r.Intn(len(n.Kids))])
		}
	case "star", "plus":
		for i, c := 0, r.Intn(5); i < c || i == 0 && n.Op == "plus"; i++ {
			rec(n.Kids[0])
		}
	case "opt":
		if r.Intn(2) == 0 {
			rec(n.Kids[0])
		}
	case "cap", "memo", "check":
		rec(n.Kids[0])
		if n.Op == "check" && n.Chk.Kind == "words" && len(n.Chk.Words) > 0 && r.Intn(2) == 0 {
			*b = append(*b, n.Chk.Words[r.Intn(len(n.Chk.Words))]...)
		}
	case "search":
		*b = append(*b, g.word(r.Intn(4))...)
		rec(n.Kids[0])
	case "error":
		if len(n.Kids) > 0 {
			rec(n.Kids[0])
		}
	case "nt":
		for i := len(env) - 1; i >= 0; i-- {
			if d, ok := env[i][n.Str]; ok {
				g.sample(d, b, max, depth+3, env[:i+1])
				return
			}
		}
	case "grammar":
		g.sample(n.Defs[n.Str], b, max, depth+1, append(env[:len(env):len(env)], n.Defs))
	}
}

// Fresh returns a new random pattern; most are grammars.
func (g *Gen) Fresh() *Node {
	g.nts, g.Back, g.nCap, g.nGr = nil, nil, 0, 0
	d := 1 + g.R.Intn(g.O.MaxDepth)
	if g.O.Grammars && g.R.Intn(2) == 0 {
		return g.Grammar(d)
	}
	return g.Pattern(d, false)
}

// Docs makes some documents for n.
func (g *Gen) Docs(n *Node, k int) [][]byte {
	var r [][]byte
	for i := 0; i < k; i++ {
		switch g.R.Intn(4) {
		case 0:
			r = append(r, []byte(g.word(g.R.Intn(8))))
		case 1:
			b := []byte(g.word(g.R.Intn(4)))
			for i, m := 0, 1+g.R.Intn(3); i < m; i++ {
				b = append(b, g.Doc(n, 40)...)
			}
			r = append(r, b)
		default:
			r = append(r, g.Doc(n, 60))
		}
	}
	return r
}

// Alphabets picks the letters used next.
func (g *Gen) Alphabets() {
	switch g.R.Intn(8) {
	case 0:
		g.O.Alphabet = "ab \n_\xff\x00"
	case 1:
		g.O.Alphabet = "a"
	case 2:
		g.O.Alphabet = "abcdefghijklmnop"
	default:
		g.O.Alphabet = "abc"
	}
}

// Naive compiles without any optimization; labels are fresh.
func (n *Node) Naive() isa.Program {
	c := &naive{}
	c.emit(n, nil)
	return c.code
}

type naive struct{ code isa.Program }

func (c *naive) add(x ...isa.Insn) { c.code = append(c.code, x...) }

func (c *naive) emit(n *Node, env []map[string]isa.Label) {
	L := isa.NewLabel
	switch n.Op {
	case "lit":
		for i := 0; i < len(n.Str); i++ {
			c.add(isa.Char{Byte: n.Str[i]})
		}
	case "set":
		c.add(isa.Set{Chars: charset.New([]byte(n.Str))})
	case "nset":
		c.add(isa.Set{Chars: charset.New([]byte(n.Str)).Complement()})
	case "any":
		c.add(isa.Any{N: uint8(n.N)})
	case "empty":
	case "seq":
		for _, k := range n.Kids {
			c.emit(k, env)
		}
	case "repeat":
		for i := 0; i < n.N; i++ {
			c.emit(n.Kids[0], env)
		}
	case "or":
		end := L()
		for i, k := range n.Kids {
			if i == len(n.Kids)-1 {
				c.emit(k, env)
				break
			}
			l := L()
			c.add(isa.Choice{Lbl: l})
			c.emit(k, env)
			c.add(isa.Commit{Lbl: end}, l)
		}
		c.add(end)
	case "star", "plus":
		if n.Op == "plus" {
			c.emit(n.Kids[0], env)
		}
		top, end := L(), L()
		c.add(top, isa.Choice{Lbl: end})
		c.emit(n.Kids[0], env)
		c.add(isa.Commit{Lbl: top}, end)
	case "opt":
		l, e := L(), L()
		c.add(isa.Choice{Lbl: l})
		c.emit(n.Kids[0], env)
		c.add(isa.Commit{Lbl: e}, l, e)
	case "not":
		l := L()
		c.add(isa.Choice{Lbl: l})
		c.emit(n.Kids[0], env)
		c.add(isa.FailTwice{}, l)
	case "and":
		l, e := L(), L()
		c.add(isa.Choice{Lbl: l})
		c.emit(n.Kids[0], env)
		c.add(isa.BackCommit{Lbl: e}, l, isa.Fail{}, e)
	case "cap":
		c.add(isa.CaptureBegin{Id: n.N})
		c.emit(n.Kids[0], env)
		c.add(isa.CaptureEnd{})
	case "memo":
		c.emit(n.Kids[0], env)
	case "search":
		top, next, end := L(), L(), L()
		c.add(top, isa.Choice{Lbl: next})
		c.emit(n.Kids[0], env)
		c.add(isa.Commit{Lbl: end}, next, isa.Any{N: 1}, isa.Jump{Lbl: top}, end)
	case "emptyop":
		c.add(isa.Empty{Op: syntax.EmptyOp(n.N)})
	case "nt":
		for i := len(env) - 1; i >= 0; i-- {
			if l, ok := env[i][n.Str]; ok {
				c.add(isa.Call{Lbl: l})
				return
			}
		}
		panic("undefined non-terminal " + n.Str)
	case "grammar":
		end := L()
		m := map[string]isa.Label{}
		for k := range n.Defs {
			m[k] = L()
		}
		env = append(env[:len(env):len(env)], m)
		c.add(isa.Call{Lbl: m[n.Str]}, isa.Jump{Lbl: end})
		for k, d := range n.Defs {
			c.add(m[k])
			c.emit(d, env)
			c.add(isa.Return{})
		}
		c.add(end)
	case "check":
		c.add(isa.CheckBegin{Id: n.N, Flag: n.M})
		c.emit(n.Kids[0], env)
		c.add(isa.CheckEnd{Checker: n.Chk})
	case "error":
		c.add(isa.Error{Message: n.Str})
		if len(n.Kids) == 0 {
			c.add(isa.End{Fail: true})
		} else {
			c.emit(n.Kids[0], env)
		}
	default:
		panic("Naive: " + n.Op)
	}
}
