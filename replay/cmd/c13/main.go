// Replay of C13: histories of edits and parses with a memo table against
// parses from scratch.
package main

import (
	"bytes"
	"fmt"

	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	p "github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
	"verif/replay/h"
	"verif/replay/ref"
)

type step struct {
	Start, End int
	Text       string
	Parse      bool
}

func edit(doc []byte, s step) []byte {
	r := append([]byte{}, doc[:s.Start]...)
	r = append(r, s.Text...)
	return append(r, doc[s.End:]...)
}

// capAll captures everything below the rules of a grammar text.
const exprGrammar = `
S <- {{ Term }} (([+] / [*]) {{ Term }})* !.
Term <- Num / '(' S2 ')' / Id
S2 <- {{ Term (([+] / [*]) Term)* }}
Num <- {{ [0-9]+ }}
Id <- {{ [a-z]+ ![0-9] }}
`
const listGrammar = `
S <- {{ Item }}* !.
Item <- 'a' 'b'? ';' / 'c' &'c' / 'c' [^;]* ';' / . ';' / '(' {{ Item }}* ')'
`

// long results, with captures of nothing inside
const lineGrammar = `
S <- {{ Line }}* !.
Line <- Ind (Word Gap)* End '\n'
Ind <- ' '*
Word <- {{ [a-z]+ Opt }} / [0-9]+
Opt <- 'X'?
Gap <- ' '*
End <- ''
`

func lines(t *h.T, n int) []byte {
	var b []byte
	for len(b) < n {
		for i, k := 0, t.Rand.Intn(25); i < k; i++ {
			b = append(b, []string{"a ", "abc ", "12 ", "zz  ", "abX ", "qwertyuiop"}[t.Rand.Intn(6)]...)
		}
		b = append(b, '\n')
	}
	return b
}

func main() {
	h.Main("C13", func(t *h.T) {
		known(t)
		g := &ref.Gen{R: t.Rand, O: ref.GenOpts{Caps: true, Memo: true, Grammars: true, Alphabet: "abc", MaxDepth: 5}}
		t.For("random patterns", 0.6, 1500, func() {
			if g.MemoIds() > 25000 {
				t.Respawn()
				return
			}
			g.Alphabets()
			n := g.Fresh()
			switch t.Rand.Intn(4) {
			case 0:
				n = &ref.Node{Op: "star", Kids: []*ref.Node{{Op: "memo", Kids: []*ref.Node{{Op: "cap", N: 77, Kids: []*ref.Node{{Op: "or", Kids: []*ref.Node{n, {Op: "any", N: 1}}}}}}}}}
			case 1:
				n = &ref.Node{Op: "seq", Kids: []*ref.Node{{Op: "opt", Kids: []*ref.Node{{Op: "memo", Kids: []*ref.Node{n}}}}, {Op: "star", Kids: []*ref.Node{{Op: "memo", Kids: []*ref.Node{{Op: "any", N: 1 + t.Rand.Intn(3)}}}}}}}
			}
			pr, err := p.Compile(n.Build())
			if err != nil || len(pr) > 20000 || ref.NumSets(pr) > 250 {
				return
			}
			skip := func(doc []byte) bool {
				_, s := ref.Match(n, doc, 20000)
				return s
			}
			history(t, g, fmt.Sprint(n), pr, func() []byte { return g.Doc(n, 50) }, skip)
		})
		t.For("grammars", 1, 300, func() {
			if g.MemoIds() > 25000 {
				t.Respawn()
				return
			}
			src := exprGrammar
			g.O.Alphabet = "a1+*()b2"
			mk := func() []byte { return t.Bytes(t.Rand.Intn(120), g.O.Alphabet) }
			switch t.Rand.Intn(3) {
			case 0:
				src = listGrammar
				g.O.Alphabet = "abc;()"
			case 1:
				src = lineGrammar
				g.O.Alphabet = "ab1X \n"
				mk = func() []byte {
					n := t.Rand.Intn(400)
					if t.Rand.Intn(12) == 0 {
						n = 3900 + t.Rand.Intn(600)
					}
					return lines(t, n)
				}
			}
			patt, err := re.CompileCap(src, map[string]int{})
			if err != nil {
				panic(err)
			}
			pr := p.MustCompile(patt)
			for i := 0; i < 20; i++ {
				history(t, g, src, pr, mk, func([]byte) bool { return false })
			}
		})
	})
}

func history(t *h.T, g *ref.Gen, desc string, pr isa.Program, mk func() []byte, skip func([]byte) bool) {
	code := vm.Encode(pr)
	doc := mk()
	var steps []step
	thr := []int{0, 0, 1, 2, 3, 5, 10}[t.Rand.Intn(7)]
	cur := doc
	for i, k := 0, 2+t.Rand.Intn(8); i < k; i++ {
		if t.Rand.Intn(3) > 0 {
			steps = append(steps, step{Parse: true})
		}
		for j, m := 0, 1+t.Rand.Intn(2); j < m; j++ {
			a := t.Rand.Intn(len(cur) + 1)
			if t.Rand.Intn(4) == 0 {
				a = len(cur)
			}
			b := a
			if t.Rand.Intn(2) == 0 {
				b = a + t.Rand.Intn(4)
				if t.Rand.Intn(6) == 0 {
					b = a + t.Rand.Intn(30)
				}
			}
			if b > len(cur) {
				b = len(cur)
			}
			txt := t.Bytes(t.Rand.Intn(4), g.O.Alphabet)
			if t.Rand.Intn(8) == 0 {
				txt = mk()
			}
			if b-a > 0 && t.Rand.Intn(4) == 0 {
				// as long as what it replaces
				txt = t.Bytes(b-a, g.O.Alphabet)
			}
			if len(cur) > 200+2*len(doc) {
				txt = nil
			}
			s := step{Start: a, End: b, Text: string(txt)}
			steps = append(steps, s)
			cur = edit(cur, s)
		}
	}
	steps = append(steps, step{Parse: true}, step{Parse: true})
	t.Case(map[string]interface{}{"pattern": desc, "document": ref.Q(doc), "steps": steps, "threshold": thr}, func() error {
		tbl := memo.NewTreeTable(thr)
		cur := doc
		for i, s := range steps {
			if !s.Parse {
				cur = edit(cur, s)
				tbl.ApplyEdit(memo.Edit{Start: s.Start, End: s.End, Len: len(s.Text)})
				continue
			}
			if skip(cur) {
				return nil
			}
			ok, end, root, _ := code.Exec(bytes.NewReader(cur), tbl)
			wok, wend, wroot, _ := code.Exec(bytes.NewReader(cur), memo.NoneTable{})
			if ok != wok || ok && end != wend {
				return fmt.Errorf("step %d: incremental parse of %q gives match=%v end=%d, from scratch match=%v end=%d", i, cur, ok, end, wok, wend)
			}
			if ok {
				a, b := ref.CapsString(ref.Kids(root)), ref.CapsString(ref.Kids(wroot))
				if a != b {
					return fmt.Errorf("step %d: incremental parse of %q has captures %s, from scratch %s", i, cur, a, b)
				}
			}
		}
		return nil
	})
}

func known(t *h.T) {
	n := &ref.Node{Op: "memo", Kids: []*ref.Node{{Op: "cap", N: 1, Kids: []*ref.Node{{Op: "lit", Str: "abc"}}}}}
	n = &ref.Node{Op: "seq", Kids: []*ref.Node{{Op: "lit", Str: "x"}, n}}
	t.Known("interval-then-full", "ExecInterval followed by Exec on the same table: captures outside the interval are missing from the full parse (pattern 'x' {{ {abc} }}, document xabc, interval [0,0))", "interval-then-full", func() error {
		code := vm.Encode(p.MustCompile(n.Build()))
		doc := []byte("xabc")
		tbl := memo.NewTreeTable(0)
		code.ExecInterval(bytes.NewReader(doc), tbl, &vm.Interval{Low: 0, High: 0})
		_, _, root, _ := code.Exec(bytes.NewReader(doc), tbl)
		if got := ref.CapsString(ref.Kids(root)); got != "[1@1+3]" {
			return fmt.Errorf("captures after an interval parse: %s, expected [1@1+3]", got)
		}
		return nil
	})
}
