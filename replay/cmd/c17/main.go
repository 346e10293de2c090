// Replay of C17: checkers and back-references.
package main

import (
	"bytes"
	"fmt"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	p "github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	"verif/replay/h"
	"verif/replay/ref"
)

func main() {
	h.Main("C17", func(t *h.T) {
		r := t.Rand
		word := func() string {
			n := r.Intn(4)
			if r.Intn(20) == 0 {
				n = 4090 + r.Intn(20)
			}
			return string(t.Bytes(n, []string{"ab", "a\x00\xff", ""}[r.Intn(3)]))
		}
		t.For("word lists", 0.15, 300, func() {
			var ws []string
			for i, n := 0, r.Intn(6); i < n; i++ {
				ws = append(ws, word())
				if r.Intn(4) == 0 {
					ws = append(ws, ws[r.Intn(len(ws))])
				}
			}
			t.Case(map[string]interface{}{"words": fmt.Sprintf("%q", ws)}, func() error {
				m := isa.NewMapChecker(ws)
				src := input.NewInput(bytes.NewReader([]byte("abc")))
				for i := 0; i < 12; i++ {
					w := word()
					if len(ws) > 0 && r.Intn(2) == 0 {
						w = ws[r.Intn(len(ws))]
						if r.Intn(3) == 0 && len(w) > 0 {
							w = w[:len(w)-1]
						}
					}
					want := -1
					for _, x := range ws {
						if x == w {
							want = 0
						}
					}
					b := []byte(w)
					if got := m.Check(b, src, r.Intn(3), r.Intn(3)); got != want {
						return fmt.Errorf("Check(%q) = %d, want %d", w, got, want)
					}
					if string(b) != w {
						return fmt.Errorf("Check(%q) changes the text", w)
					}
				}
				if src.Pos() != 0 {
					return fmt.Errorf("Check moves the position")
				}
				return nil
			})
		})
		t.For("back-references", 0.2, 300, func() {
			doc := t.Bytes(r.Intn(30), "ab")
			if r.Intn(10) == 0 {
				doc = t.Bytes(4080+r.Intn(4200), "ab")
			}
			t.Case(map[string]interface{}{"document": ref.Q(doc)}, func() error {
				b := isa.NewBackRef()
				syms := map[int]string{}
				src := input.NewInput(bytes.NewReader(doc))
				var hist []string
				for i := 0; i < 25; i++ {
					pos := r.Intn(len(doc) + 1)
					src.SeekTo(pos)
					id := []int{0, 1, 2, -1, 1 << 40}[r.Intn(5)]
					flag := r.Intn(4)
					if r.Intn(3) == 0 {
						flag = int(isa.RefUse)
					}
					text := t.Bytes(r.Intn(4), "ab")
					switch r.Intn(8) {
					case 0:
						n := r.Intn(len(doc) - pos + 1)
						text = append([]byte{}, doc[pos:pos+n]...)
					case 1:
						text = append(append([]byte{}, doc[pos:]...), text...)
					}
					hist = append(hist, fmt.Sprintf("Check(%s, pos=%d, id=%d, flag=%d)", ref.Q(text), pos, id, flag))
					if len(hist) > 8 {
						hist = hist[1:]
					}
					want := 0
					switch isa.RefKind(flag) {
					case isa.RefDef:
						syms[id] = string(text)
					case isa.RefUse:
						if bytes.HasPrefix(doc[pos:], []byte(syms[id])) {
							want = len(syms[id])
						} else {
							want = -1
						}
					}
					if got := b.Check(text, src, id, flag); got != want {
						return fmt.Errorf("%v gives %d, want %d", hist, got, want)
					}
					for j := range text {
						text[j] = 'z' // the recorded text is a copy
					}
					if src.Pos() != pos {
						return fmt.Errorf("%v moves the position", hist)
					}
				}
				return nil
			})
		})
		t.For("amounts", 0.15, 300, func() {
			nums := []int{0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 300, 511, 4094, 4095, 4096, 4097, 5000, 9000}
			pre, span, ex := nums[r.Intn(len(nums))], nums[r.Intn(len(nums))], nums[r.Intn(len(nums))]
			ids := []int{0, 1, -1, 127, 128, 255, 256, 300, 32767, -32768, -129, r.Intn(65536) - 32768}
			id, flag := ids[r.Intn(len(ids))], ids[r.Intn(len(ids))]
			tot := pre + span + ex + []int{-1, 0, 0, 1, 20}[r.Intn(5)]
			if tot < pre+span {
				tot = pre + span
			}
			doc := t.Bytes(tot, "xyz")
			t.Case(map[string]interface{}{"before": pre, "checked": span, "asked": ex, "document_length": tot, "id": id, "flag": flag}, func() error {
				ck := &ref.Chk{Kind: "extra", K: ex}
				ck.Reset()
				skip := func(n int) p.Pattern {
					ps := []p.Pattern{}
					for ; n > 200; n -= 200 {
						ps = append(ps, p.Any(200))
					}
					return p.Concat(append(ps, p.Any(uint8(n)))...)
				}
				code := vm.Encode(p.MustCompile(p.Concat(skip(pre), p.CheckFlags(skip(span), ck, id, flag))))
				ok, end, _, _ := code.Exec(bytes.NewReader(doc), memo.NoneTable{})
				want := tot >= pre+span+ex
				if ok != want || ok && end != pre+span+ex {
					return fmt.Errorf("match=%v end=%d, want %v %d", ok, end, want, pre+span+ex)
				}
				if l := fmt.Sprintf("%q id=%d flag=%d at=%d", doc[pre:pre+span], id, flag, pre+span); len(ck.RLog) != 1 || ck.RLog[0] != l {
					return fmt.Errorf("the checker is called %d times, not once with its %d bytes, identifier %d and flag %d", len(ck.RLog), span, id, flag)
				}
				return nil
			})
		})
		g := &ref.Gen{R: r, O: ref.GenOpts{Caps: true, Errors: true, EmptyOps: true, Checks: true, Grammars: true, Alphabet: "abc", MaxDepth: 5}}
		t.For("patterns", 1, 1500, func() {
			g.Alphabets()
			var n *ref.Node
			for {
				n = g.Fresh()
				has := false
				n.Walk(func(x *ref.Node) { has = has || x.Op == "check" })
				if has {
					break
				}
			}
			t.Case(map[string]interface{}{"pattern": n}, func() error {
				pr, err := p.Compile(n.Build())
				if err != nil {
					return fmt.Errorf("compile: %v", err)
				}
				if len(pr) > 20000 || ref.NumSets(pr) > 250 {
					return nil
				}
				code := vm.Encode(pr)
				for _, doc := range g.Docs(n, 5) {
					if r.Intn(25) == 0 {
						doc = append(doc, t.Bytes(4090+r.Intn(20), g.O.Alphabet)...)
					}
					n.ResetChecks()
					want, skip := ref.Match(n, doc, 30000)
					if skip {
						continue
					}
					var log [][]string
					n.Walk(func(x *ref.Node) {
						if x.Chk != nil {
							log = append(log, x.Chk.Log)
						}
					})
					n.ResetChecks()
					ok, end, cap, _ := code.Exec(bytes.NewReader(doc), memo.NoneTable{})
					if want.Abort {
						want.Ok = false
					}
					if ok != want.Ok || ok && end != want.End {
						return fmt.Errorf("document %q: match=%v end=%d, the checkers allow match=%v end=%d", doc, ok, end, want.Ok, want.End)
					}
					i := 0
					var e error
					n.Walk(func(x *ref.Node) {
						if x.Chk == nil {
							return
						}
						a, b := fmt.Sprint(x.Chk.RLog), fmt.Sprint(log[i])
						i++
						if a != b && e == nil {
							e = fmt.Errorf("document %q: checker %s is called with %s, want %s", doc, x.Chk.Kind, a, b)
						}
					})
					if e != nil {
						return e
					}
					if ok {
						if a, b := ref.CapsString(ref.Kids(cap)), ref.CapsString(want.Caps); a != b {
							return fmt.Errorf("document %q: captures %s, want %s", doc, a, b)
						}
					}
				}
				return nil
			})
		})
	})
}
