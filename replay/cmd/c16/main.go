// Replay of C16: converted regular expressions against Go's regexp package.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"regexp"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	p "github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/rxconv"
	"github.com/zyedidia/gpeg/vm"
	"verif/replay/h"
	"verif/replay/ref"
)

func nullable(e *syntax.Regexp) bool {
	all := func() bool {
		for _, s := range e.Sub {
			if !nullable(s) {
				return false
			}
		}
		return true
	}
	any := func() bool {
		for _, s := range e.Sub {
			if nullable(s) {
				return true
			}
		}
		return false
	}
	switch e.Op {
	case syntax.OpLiteral:
		return len(e.Rune) == 0
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL, syntax.OpNoMatch:
		return false
	case syntax.OpConcat:
		return all()
	case syntax.OpAlternate, syntax.OpCapture, syntax.OpPlus:
		return any()
	case syntax.OpRepeat:
		return e.Min == 0 || any()
	}
	return true
}

// supported is the subset named in the property; wide reports classes that
// name characters of more than one byte.
func supported(e *syntax.Regexp) (ok, wide bool) {
	ok = true
	for _, s := range e.Sub {
		o, w := supported(s)
		ok, wide = ok && o, wide || w
	}
	switch e.Op {
	case syntax.OpRepeat, syntax.OpNoMatch:
		return false, wide
	case syntax.OpStar, syntax.OpPlus:
		if nullable(e.Sub[0]) {
			return false, wide
		}
		fallthrough
	case syntax.OpQuest:
		if e.Flags&syntax.NonGreedy != 0 {
			return false, wide
		}
	case syntax.OpCharClass:
		for i := 0; i+1 < len(e.Rune); i += 2 {
			if e.Rune[i+1] >= 128 && (e.Rune[i] < 256 || e.Rune[i+1]-e.Rune[i] > 100) {
				wide = true
			}
		}
	}
	return ok, wide
}

type gen struct {
	r     *rand.Rand
	chars string
	n     int
}

func (g *gen) lit() string {
	c := g.chars[g.r.Intn(len(g.chars))]
	return regexp.QuoteMeta(string(c))
}

func (g *gen) class() string {
	r := g.r
	s := "["
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		c := g.chars[r.Intn(len(g.chars))]
		d := g.chars[r.Intn(len(g.chars))]
		if c > d {
			c, d = d, c
		}
		q := func(c byte) string { return fmt.Sprintf("\\x%02x", c) }
		if r.Intn(3) == 0 {
			s += q(c) + "-" + q(d)
		} else {
			s += q(c)
		}
	}
	return s + "]"
}

func (g *gen) atom(d int) string {
	switch g.r.Intn(14) {
	case 0, 1, 2, 3:
		return g.lit()
	case 4:
		return g.class()
	case 5:
		return "."
	case 6:
		return []string{"^", "$", "\\b", "\\B", "\\A", "\\z", "(?m:^)", "(?m:$)", "(?s:.)", "\\d", "\\w", "[[:alpha:]]", "(?:)"}[g.r.Intn(13)]
	case 7, 8, 9, 10:
		if d > 0 {
			return []string{"(", "(?:"}[g.r.Intn(2)] + g.alt(d-1) + ")"
		}
	case 11:
		if d > 0 {
			return []string{"(?i:", "(?s:", "(?m:", "(?U:"}[g.r.Intn(4)] + g.alt(d-1) + ")"
		}
	}
	return g.lit()
}

func (g *gen) post(d int) string {
	a := g.atom(d)
	switch g.r.Intn(16) {
	case 0, 1:
		return a + "*"
	case 2:
		return a + "+"
	case 3, 4:
		return a + "?"
	case 5:
		if g.r.Intn(6) == 0 {
			return a + []string{"*?", "+?", "??", "{2}", "{1,2}", "{0,}"}[g.r.Intn(6)]
		}
	}
	return a
}

func (g *gen) cat(d int) string {
	s := ""
	for i, n := 0, 1+g.r.Intn(3); i < n; i++ {
		s += g.post(d)
	}
	if g.r.Intn(20) == 0 {
		return ""
	}
	return s
}

func (g *gen) alt(d int) string {
	s := g.cat(d)
	for g.r.Intn(3) == 0 {
		s += "|" + g.cat(d)
	}
	return s
}

func main() {
	h.Main("C16", func(t *h.T) {
		r := t.Rand
		fixed := []string{"", "a", "a*", "(a|ab)(c|bcd)", "(ba|a)*a", "a*a", "(a|ab)*c", "[Aa]b", "(?i)key", "a|", "|a", "(|a)b", "x*y?x", "a+b+a", "^a$", "(?m)^a$", "\\bab\\b", "a.c", "(?s)a.c", "a*?", "a+?", "a??", "a{2}", "(a*)*", "(a?)+", "(a|b*)*", "(^)*", "(\\b)+a", "[^\\x00-\\x{10FFFF}]", "(a", "a)", "[a", "*", "a**", "\\", "(?z)", "(ab|a)(bc)?", "((a|b)*c)*", "((a|b)+c)+d", "(a+|b)*ab", "[0-9]+\\.[0-9]*", "a\\nb", "(aa|a)*b", "(a|aa)*b", "((a)|b)*(ab)", "foo|foobar", "(foo|foobar)baz?",
			".", "(?s).", "[^a]", "\\w", "\\W", "\\s", "\\S", "\\d", "\\D", "\\b.", ".\\b", "\\B.\\B", "^.$", "(?m)^.$", "(?m).$", "(?i)[^k-s]", "[[:punct:]]", "[[:cntrl:]]", "a.?c", "(?i)abcdefghijklmnopqrstuvwxyz"}
		nf := 0
		sweptAll := false
		t.For("expressions", 1, 1500, func() {
			g := &gen{r: r, chars: []string{"ab", "abc", "aA_b1 ", "ab\n", "kKs-.", "a*+?()|[]{}^$\\."}[r.Intn(6)]}
			var s string
			flags, pre := syntax.Perl, ""
			if nf < len(fixed) {
				s = fixed[nf]
				nf++
				g.chars = "abcxy\nAKEY"
			} else {
				s = g.alt(1 + r.Intn(2))
				switch r.Intn(12) {
				case 0:
					flags, pre = syntax.Perl|syntax.DotNL, "(?s)"
				case 1:
					flags, pre = syntax.Perl&^syntax.OneLine, "(?m)"
				case 2:
					flags, pre = syntax.Perl|syntax.FoldCase, "(?i)"
				case 3:
					flags, pre = syntax.Perl|syntax.NonGreedy, "(?U)"
				}
			}
			if len(s) > 60 {
				return
			}
			t.Case(map[string]interface{}{"regexp": s, "flags": pre}, func() error {
				tree, perr := syntax.Parse(s, flags)
				if perr == nil {
					if _, wide := supported(tree); wide {
						return nil
					}
				}
				patt, err := rxconv.FromRegexp(s, flags)
				if perr != nil {
					if err == nil {
						return fmt.Errorf("not a regular expression (%v), and no error is reported", perr)
					}
					return nil
				}
				if ok, _ := supported(tree); !ok {
					if err == nil {
						return fmt.Errorf("the expression is outside the supported subset, and no error is reported")
					}
					return nil
				} else if err != nil {
					return fmt.Errorf("the expression is in the supported subset, and is refused: %v", err)
				}
				goRe, err := regexp.Compile(pre + s)
				if err != nil {
					return nil
				}
				pr, err := p.Compile(patt)
				if err != nil {
					return fmt.Errorf("compile: %v", err)
				}
				if len(pr) > 20000 || ref.NumSets(pr) > 250 {
					return nil
				}
				code := vm.Encode(pr)
				docs := 12
				if nf <= len(fixed) && len(s) < 12 && !sweptAll {
					docs = 12 + 256
					sweptAll = nf == len(fixed)
				}
				for i := 0; i < docs; i++ {
					n := r.Intn(9)
					if i == 0 {
						n = 0
					} else if i > 9 {
						n = r.Intn(20)
					}
					doc := t.Bytes(n, g.chars)
					if i >= 12 { // every character, alone and between letters
						doc = []byte{byte(i-12) & 127}
						if i-12 >= 128 {
							doc = []byte{'a', byte(i-12) & 127, 'c'}
						}
					} else if n > 0 && r.Intn(4) == 0 {
						doc[r.Intn(n)] = byte(r.Intn(128))
					}
					if i < 12 && r.Intn(3) == 0 {
						doc = []byte(strings.Repeat(string(doc), 1+r.Intn(3)))
					}
					loc := goRe.FindIndex(doc)
					// stop pathological backtracking of the reference machine instead of the real one
					if _, err := ref.RunProgram(pr, doc, nil, 200000); err != nil {
						if strings.Contains(err.Error(), "step") {
							continue
						}
						return fmt.Errorf("reference machine: %v", err)
					}
					ok, end, cap, _ := code.Exec(bytes.NewReader(doc), memo.NoneTable{})
					if ok != (loc != nil) {
						return fmt.Errorf("document %q: match=%v, Go's regexp finds %v", doc, ok, loc)
					}
					if !ok {
						continue
					}
					ks := ref.Kids(cap)
					if len(ks) != 1 || ks[0].Id != 0 {
						return fmt.Errorf("document %q: captures %s", doc, ref.CapsString(ks))
					}
					if ks[0].Start != loc[0] || ks[0].Start+ks[0].Len != loc[1] || end != loc[1] {
						return fmt.Errorf("document %q: span [%d,%d) (end %d), Go's regexp finds %v", doc, ks[0].Start, ks[0].Start+ks[0].Len, end, loc)
					}
				}
				return nil
			})
		})
	})
}
