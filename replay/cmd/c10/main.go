// Replay of C10: compiled patterns against the PEG semantics.
package main

import (
	"bytes"
	"fmt"

	"github.com/zyedidia/gpeg/memo"
	p "github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	"verif/replay/h"
	"verif/replay/ref"
)

func main() {
	h.Main("C10", func(t *h.T) {
		g := &ref.Gen{R: t.Rand, O: ref.GenOpts{Caps: true, Memo: true, Errors: true, EmptyOps: true, Checks: true, Grammars: true, Alphabet: "abc", MaxDepth: 5}}
		t.For("patterns", 1, 2000, func() {
			if g.MemoIds() > 25000 {
				t.Respawn()
				return
			}
			g.Alphabets()
			n := g.Fresh()
			var fixed [][]byte
			if t.Rand.Intn(40) == 0 {
				n, fixed = g.LongStart()
			}
			t.Case(map[string]interface{}{"pattern": n}, func() error {
				pr, err := p.Compile(n.Build())
				if err != nil {
					return fmt.Errorf("compile: %v", err)
				}
				if len(pr) > 20000 {
					return nil
				}
				if ref.NumSets(pr) > 256 {
					return nil
				}
				code := vm.Encode(pr)
				for _, doc := range append(fixed, g.Docs(n, 5)...) {
					n.ResetChecks()
					want, skip := ref.Match(n, doc, 30000)
					if skip {
						continue
					}
					n.ResetChecks()
					var tbl memo.Table = memo.NoneTable{}
					if t.Rand.Intn(3) == 0 && !ref.Stateful(n) {
						tbl = memo.NewTreeTable(t.Rand.Intn(4))
					}
					ok, end, _, errs := code.Exec(bytes.NewReader(doc), tbl)
					if want.Abort {
						want.Ok = false
					}
					if ok != want.Ok || ok && end != want.End {
						return fmt.Errorf("document %q: match=%v end=%d, the PEG semantics gives match=%v end=%d", doc, ok, end, want.Ok, want.End)
					}
					if _, none := tbl.(memo.NoneTable); none {
						if len(errs) != len(want.Errs) {
							return fmt.Errorf("document %q: %d errors recorded, the PEG semantics gives %d", doc, len(errs), len(want.Errs))
						}
						for i := range errs {
							if errs[i].Pos != want.Errs[i].Pos || errs[i].Message != want.Errs[i].Msg {
								return fmt.Errorf("document %q: error %d is %v, the PEG semantics gives %v", doc, i, errs[i], want.Errs[i])
							}
						}
					}
				}
				return nil
			})
		})
	})
}
