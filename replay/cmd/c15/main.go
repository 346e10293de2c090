// Replay of C15: PEG notation against the meaning of the documented notation.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	p "github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
	"verif/replay/h"
	"verif/replay/ref"
)

// defined reports whether every non-terminal has a definition.
func defined(n *ref.Node) bool {
	ok := true
	n.Walk(func(x *ref.Node) {
		if x.Op == "nt" && n.Defs[x.Str] == nil {
			ok = false
		}
	})
	return ok
}

func caps(n *ref.Node, ids map[string]int) *ref.Node {
	m := &ref.Node{Op: "grammar", Str: n.Str, Defs: map[string]*ref.Node{}}
	for k, d := range n.Defs {
		m.Defs[k] = &ref.Node{Op: "cap", N: ids[k], Kids: []*ref.Node{d}}
	}
	return m
}

func main() {
	h.Main("C15", func(t *h.T) {
		r := t.Rand
		g := &ref.Gen{R: r, O: ref.GenOpts{Memo: true, PlainNames: true, Alphabet: "abc", MaxDepth: 4}}
		w := &ref.Notation{R: r}
		judge := func(text string, docs [][]byte, from *ref.Node) {
			desc := fmt.Sprintf("%q", text)
			t.Case(map[string]interface{}{"text": desc}, func() error {
				spec, isG, braced := ref.ParseNotation(text)
				if from != nil && spec == nil {
					return fmt.Errorf("harness: generated text is not valid notation")
				}
				pat, err := re.Compile(text)
				if spec == nil {
					if err == nil {
						return fmt.Errorf("this is not valid notation, and Compile reports no error")
					}
					if _, err := re.CompileCap(text, map[string]int{}); err == nil {
						return fmt.Errorf("this is not valid notation, and CompileCap reports no error")
					}
					return nil
				}
				if err != nil {
					return fmt.Errorf("this is valid notation, Compile reports %v", err)
				}
				if braced {
					return nil // { e } has no documented meaning
				}
				ids := map[string]int{}
				cpat, err := re.CompileCap(text, ids)
				if err != nil {
					return fmt.Errorf("this is valid notation, CompileCap reports %v", err)
				}
				if !defined(spec) {
					return nil
				}
				cspec := spec
				if isG {
					if len(ids) != len(spec.Defs) {
						return fmt.Errorf("CompileCap gives identifiers %v for rules %v", ids, spec)
					}
					used := map[int]bool{}
					for k := range spec.Defs {
						id, ok := ids[k]
						if !ok || used[id] {
							return fmt.Errorf("CompileCap gives identifiers %v for rules %v", ids, spec)
						}
						used[id] = true
					}
					cspec = caps(spec, ids)
				} else if len(ids) != 0 {
					return fmt.Errorf("CompileCap gives identifiers %v for an expression", ids)
				}
				pr, err := p.Compile(pat)
				if err != nil {
					return fmt.Errorf("compile: %v", err)
				}
				cpr, err := p.Compile(cpat)
				if err != nil {
					return fmt.Errorf("compile: %v", err)
				}
				if len(pr) > 20000 || ref.NumSets(pr) > 250 || ref.NumSets(cpr) > 250 {
					return nil
				}
				code, ccode := vm.Encode(pr), vm.Encode(cpr)
				for _, doc := range docs {
					want, skip := ref.Match(cspec, doc, 20000)
					if skip {
						continue
					}
					if from != nil {
						if w2, skip := ref.Match(from, doc, 20000); !skip && (w2.Ok != want.Ok || w2.Ok && w2.End != want.End) {
							return fmt.Errorf("harness: document %q: generated %v, reparsed %v", doc, w2, want)
						}
					}
					ok, end, cap, _ := code.Exec(bytes.NewReader(doc), memo.NoneTable{})
					if ok != want.Ok || ok && end != want.End {
						return fmt.Errorf("document %q: match=%v end=%d, the notation denotes match=%v end=%d", doc, ok, end, want.Ok, want.End)
					}
					if ok && len(ref.Kids(cap)) != 0 {
						return fmt.Errorf("document %q: captures %v without captures in the notation", doc, cap)
					}
					ok, end, cap, _ = ccode.Exec(bytes.NewReader(doc), memo.NoneTable{})
					if ok != want.Ok || ok && end != want.End {
						return fmt.Errorf("CompileCap, document %q: match=%v end=%d, the notation denotes match=%v end=%d", doc, ok, end, want.Ok, want.End)
					}
					if ok {
						if a, b := ref.CapsString(ref.Kids(cap)), ref.CapsString(want.Caps); a != b {
							return fmt.Errorf("CompileCap, document %q: captures %s, want %s (ids %v)", doc, a, b, ids)
						}
					}
				}
				return nil
			})
		}
		t.Known("braces", "{ e } is accepted as notation but compiles to a nil pattern (text { 'a' })", "{ 'a' }", func() error {
			pat, err := re.Compile("{ 'a' }")
			if err != nil {
				return nil
			}
			_, err = p.Compile(pat)
			return err
		})
		// every escape, every byte, in literals and classes
		all := make([][]byte, 256)
		for i := range all {
			all[i] = []byte{byte(i)}
		}
		t.For("escapes", 0, 1, func() {
			if t.Base() != 0 {
				return
			}
			for c := 0; c < 256; c++ {
				b := string([]byte{byte(c)})
				forms := []string{b, "\\" + b, fmt.Sprintf("\\%03o", c), fmt.Sprintf("\\%02o", c), fmt.Sprintf("\\%o", c)}
				for _, f := range forms {
					for _, s := range []string{"'" + f + "'", "\"" + f + "\"", "[" + f + "]", "[^" + f + "]", "[" + f + "-" + f + "]", "[a" + f + "]", "[^a" + f + "-z]", "[!-" + f + "]"} {
						docs := [][]byte{all[c], all[(c+1)%256], all[r.Intn(256)], {}, all['\\'], []byte(f), append([]byte{byte(c / 8)}, byte('0'+c%8))}
						judge(s, docs, nil)
					}
				}
			}
			for _, s := range []string{"", " ", "'", "\"", "[", "]", "a <-", "a <- b <-", "( 'a'", "'a')", "&", "!", "*", "'a' **", "'a'?+", "&!'a'", "&&'a'", "'a' # x", "'a' # x\n", "a <- 'x' / 'y' b <- 'z'", "/", "//'a'", "[]", "[^]", "[]a]", "[a-]", "[-a]", "[a-b-c]", "{{'a'}}", "{{'a'}", "{ 'a' }", "{{{'a'}}}", "'\\8'", "'\\400'", "'\\q'", "[\\", ".", "..", ". .*", "a<-'b'", "a <- a1 a1<-'c'", "1a <- 'c'", "_a0 <- 'c'", "a <- 'b' 'c", "<- 'a'", "a b <- 'c'", "'a' '", "x", "S <- 'a' T T <- 'b'"} {
				judge(s, [][]byte{{}, []byte("a"), []byte("b"), []byte("c"), []byte("-"), []byte("xb"), []byte("]"), []byte("a]"), []byte("ab"), []byte("aa")}, nil)
			}
		})
		t.For("notation", 1, 1500, func() {
			if g.MemoIds() > 20000 {
				t.Respawn()
				return
			}
			g.O.Alphabet = []string{"abc", "a", "ab'\"[]\\-^ \n\r\t#", "a\x00\xff\x80\xbf\xc3{}()", "abcdefgh.*+?!&/<"}[r.Intn(5)]
			var n *ref.Node
			for {
				g.O.Grammars = r.Intn(2) == 0
				if g.O.Grammars {
					g.O.Grammars = false
					g.Fresh()
					n = g.Grammar(1 + r.Intn(4))
				} else {
					n = g.Fresh()
				}
				bad := false
				n.Walk(func(x *ref.Node) {
					if x.Op == "repeat" || x.Op == "search" {
						bad = true
					}
				})
				if !bad {
					break
				}
			}
			text := w.Text(n)
			judge(text, g.Docs(n, 5), n)
			for k := 0; k < 3; k++ {
				b := []byte(text)
				for j := 1 + r.Intn(3); j > 0 && len(b) > 0; j-- {
					at := r.Intn(len(b))
					const cs = "'\"[](){}<-/&!*+?.^\\abR_019 \n#\xff"
					switch r.Intn(4) {
					case 0:
						b = append(b[:at:at], b[at+1:]...)
					case 1:
						b[at] = cs[r.Intn(len(cs))]
					case 2:
						b = append(b[:at:at], append([]byte{cs[r.Intn(len(cs))]}, b[at:]...)...)
					case 3:
						to := at + r.Intn(len(b)-at+1)
						if r.Intn(2) == 0 {
							b = append(b[:at:at], b[to:]...)
						} else {
							b = append(b[:to:to], b[at:]...)
						}
					}
				}
				if strings.Count(string(b), "(")+strings.Count(string(b), "{") > 12 {
					continue // nested parentheses are tried again for each alternative
				}
				judge(string(b), g.Docs(n, 3), nil)
			}
		})
	})
}
