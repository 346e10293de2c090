// Replay of the contract of the machine (C09).
package main

import (
	"regexp/syntax"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/isa"
	"verif/replay/h"
	"verif/replay/ref"
)

func main() {
	h.Main("C09", func(t *h.T) {
		g := &ref.Gen{R: t.Rand, O: ref.GenOpts{Caps: true, Memo: true, Errors: true, EmptyOps: true, Checks: true, Grammars: true, Alphabet: "abc", MaxDepth: 4}}
		t.Phase("operands")
		L := isa.NewLabel
		run := func(pr isa.Program, doc []byte) {
			t.Case(map[string]interface{}{"program": ref.ProgString(pr), "document": ref.Q(doc)}, func() error {
				_, err := ref.CheckRun(pr, doc, 1<<40, nil)
				return err
			})
		}
		for n := 0; n < 256; n++ {
			c := byte(n)
			for _, base := range []int{0, 1, 3, 4095, 4096, 8190} {
				for _, k := range []int{0, 1, n - 1, n, n + 1, n + 50} {
					if k < 0 || base > 3 && (k < n-1 || n%16 > 3) {
						continue
					}
					doc := t.Bytes(base+k, "ab")
					pre := isa.Program{}
					for i := base; i > 0; i -= 255 {
						m := i
						if m > 255 {
							m = 255
						}
						pre = append(pre, isa.Any{N: byte(m)})
					}
					a, z := L(), L()
					run(append(pre, isa.Any{N: c}, isa.CaptureFull{Id: 1}), doc)
					run(append(pre, isa.TestAny{N: c, Lbl: a}, isa.CaptureFull{Id: 2}, isa.Commit{Lbl: z}, a, isa.CaptureFull{Id: 3}, isa.Span{Chars: charset.New([]byte{'a'})}, z, isa.CaptureFull{Id: 1}), doc)
					run(append(pre, isa.TestAny{N: c, Lbl: a}, isa.Fail{}, a, isa.CaptureFull{Id: 3}, isa.Any{N: 1}), doc)
				}
			}
			for _, op := range []syntax.EmptyOp{1, 2, 4, 8, 16, 32, 63, syntax.EmptyOp(c & 63)} {
				run(isa.Program{isa.Empty{Op: op}, isa.Any{N: 1}}, []byte{c})
				run(isa.Program{isa.Any{N: 1}, isa.Empty{Op: op}}, []byte{c})
				d := byte(t.Rand.Intn(256))
				run(isa.Program{isa.Any{N: 1}, isa.Empty{Op: op}, isa.Any{N: 1}}, []byte{c, d})
				run(isa.Program{isa.Any{N: 1}, isa.Empty{Op: op}, isa.Any{N: 1}}, []byte{d, c})
			}
		}
		t.For("programs", 1, 2000, func() {
			if g.MemoIds() > 25000 {
				t.Respawn()
				return
			}
			switch t.Rand.Intn(8) {
			case 0:
				g.O.Alphabet = "ab \n_\xff\x00"
			case 1:
				g.O.Alphabet = "a"
			default:
				g.O.Alphabet = "abc"
			}
			pr, how, reset := g.Program()
			if len(pr) > 3000 {
				return
			}
			for i := 0; i < 6; i++ {
				var doc []byte
				switch t.Rand.Intn(3) {
				case 0:
					doc = t.Bytes(t.Rand.Intn(12), g.O.Alphabet)
				case 1:
					doc = t.Bytes(t.Rand.Intn(60), g.O.Alphabet)
				default:
					doc = g.SampleProg(pr, 60)
				}
				if t.Rand.Intn(300) == 0 {
					doc = append(t.Bytes(4090, g.O.Alphabet), doc...)
				}
				thr := []int{0, 1, 3, 1 << 40}[t.Rand.Intn(4)]
				if how == "mutated" {
					thr = 1 << 40
				}
				t.Case(map[string]interface{}{"program": ref.ProgString(pr), "origin": how, "document": ref.Q(doc), "threshold": thr}, func() error {
					_, err := ref.CheckRun(pr, doc, thr, reset)
					return err
				})
			}
		})
	})
}
