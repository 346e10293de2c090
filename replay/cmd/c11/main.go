// Replay of C11: optimized against unoptimized programs on the same machine.
package main

import (
	"bytes"
	"fmt"

	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	p "github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	"verif/replay/h"
	"verif/replay/ref"
)

type outcome struct {
	ok   bool
	end  int
	caps string
	errs string
}

func run(pr isa.Program, doc []byte, tbl memo.Table) outcome {
	code := vm.Encode(pr)
	ok, end, cap, errs := code.Exec(bytes.NewReader(doc), tbl)
	o := outcome{ok: ok}
	if ok {
		o.end = end
		o.caps = ref.CapsString(ref.Kids(cap))
	}
	if _, none := tbl.(memo.NoneTable); none {
		o.errs = fmt.Sprint(errs)
	}
	return o
}

func main() {
	h.Main("C11", func(t *h.T) {
		g := &ref.Gen{R: t.Rand, O: ref.GenOpts{Caps: true, Memo: true, Errors: true, EmptyOps: true, Checks: true, Grammars: true, Alphabet: "abc", MaxDepth: 5}}
		t.For("patterns", 0.65, 1500, func() {
			if g.MemoIds() > 25000 {
				t.Respawn()
				return
			}
			g.Alphabets()
			n := g.Fresh()
			var fixed [][]byte
			if t.Rand.Intn(40) == 0 {
				n, fixed = g.LongStart()
			}
			thr := []int{0, 3, 100, 100, 1000000}[t.Rand.Intn(5)]
			t.Case(map[string]interface{}{"pattern": n, "inline_threshold": thr}, func() error {
				p.InlineThreshold = thr
				defer func() { p.InlineThreshold = 100 }()
				naive := n.Naive()
				if len(naive) > 20000 || ref.NumSets(naive) > 250 {
					return nil
				}
				opt, err := p.Compile(n.Build())
				if err != nil {
					return fmt.Errorf("compile: %v", err)
				}
				got := p.Get(n.Build())
				viaGet, err := p.Compile(got)
				if err != nil {
					return fmt.Errorf("compile after Get: %v", err)
				}
				raw, err := n.Build().Compile()
				if err != nil {
					return fmt.Errorf("compile: %v", err)
				}
				if len(opt)+len(raw) > 40000 || ref.NumSets(opt) > 250 || ref.NumSets(raw) > 250 {
					return nil
				}
				for _, doc := range append(fixed, g.Docs(n, 4)...) {
					n.ResetChecks()
					if _, skip := ref.Match(n, doc, 30000); skip {
						continue
					}
					var tbl memo.Table = memo.NoneTable{}
					n.ResetChecks()
					a := run(naive, doc, tbl)
					for i, q := range []isa.Program{opt, viaGet, raw} {
						n.ResetChecks()
						if b := run(q, doc, tbl); a != b {
							return fmt.Errorf("document %q: unoptimized %+v, optimized (%s) %+v", doc, a, []string{"Compile", "Get+Compile", "Compile method"}[i], b)
						}
					}
				}
				return nil
			})
		})
		t.For("program rewriting", 1, 1500, func() {
			if g.MemoIds() > 25000 {
				t.Respawn()
				return
			}
			g.Alphabets()
			pr, how, reset := g.Program()
			if len(pr) > 3000 || ref.NumSets(pr) > 250 {
				return
			}
			opt := append(isa.Program{}, pr...)
			t.Case(map[string]interface{}{"program": ref.ProgString(pr), "origin": how}, func() error {
				p.Optimize(opt)
				for i := 0; i < 4; i++ {
					doc := g.SampleProg(pr, 40)
					rst := func() {
						if reset != nil {
							reset()
						}
					}
					rst()
					if _, err := ref.RunProgram(pr, doc, nil, 20000); err != nil {
						continue
					}
					rst()
					a := run(pr, doc, memo.NoneTable{})
					rst()
					if b := run(opt, doc, memo.NoneTable{}); a != b {
						return fmt.Errorf("document %q: before Optimize %+v, after Optimize (%s) %+v", doc, a, ref.ProgString(opt), b)
					}
				}
				return nil
			})
		})
	})
}
