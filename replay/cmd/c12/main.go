// Replay of C12: captures, child access and interval parses.
package main

import (
	"bytes"
	"fmt"

	"github.com/zyedidia/gpeg/memo"
	p "github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	"verif/replay/h"
	"verif/replay/ref"
)

// agree checks iteration, lookup by index and count at every node.
func agree(c *memo.Capture) error {
	var its []*memo.Capture
	it := c.ChildIterator(0)
	for ch := it(); ch != nil; ch = it() {
		its = append(its, ch)
		if ch.Dummy() {
			return fmt.Errorf("child iteration returns a grouping node")
		}
	}
	if it() != nil {
		return fmt.Errorf("child iteration continues after its end")
	}
	if n := c.NumChildren(); n != len(its) {
		return fmt.Errorf("NumChildren() = %d, iteration gives %d", n, len(its))
	}
	for i, w := range its {
		if c.Child(i) != w {
			return fmt.Errorf("Child(%d) differs from iteration", i)
		}
	}
	if c.Child(len(its)) != nil || c.Child(len(its)+3) != nil {
		return fmt.Errorf("Child(%d) exists, count is %d", len(its), len(its))
	}
	for _, ch := range its {
		if ch.End() != ch.Start()+ch.Len() {
			return fmt.Errorf("End() = %d, Start() = %d, Len() = %d", ch.End(), ch.Start(), ch.Len())
		}
		if err := agree(ch); err != nil {
			return err
		}
	}
	return nil
}

func filter(cs []*ref.Cap, low, high int) []*ref.Cap {
	var r []*ref.Cap
	for _, c := range cs {
		if low < c.Start+c.Len && c.Start < high {
			r = append(r, &ref.Cap{Id: c.Id, Start: c.Start, Len: c.Len, Kids: filter(c.Kids, low, high)})
		}
	}
	return r
}

func shared(t *h.T, g *ref.Gen) *ref.Node {
	mk := func(op string, ks ...*ref.Node) *ref.Node { return &ref.Node{Op: op, Kids: ks} }
	nt := func(s string) *ref.Node { return &ref.Node{Op: "nt", Str: s} }
	capt := func(id int, k *ref.Node) *ref.Node { return &ref.Node{Op: "cap", N: id, Kids: []*ref.Node{k}} }
	lit := func(s string) *ref.Node { return &ref.Node{Op: "lit", Str: s} }
	memo := func(k *ref.Node) *ref.Node {
		if t.Rand.Intn(3) == 0 {
			return k
		}
		return mk("memo", k)
	}
	x := capt(1, &ref.Node{Op: "set", Str: g.O.Alphabet[:1]})
	if t.Rand.Intn(2) == 0 {
		x = mk("seq", x, mk("opt", capt(2, lit(g.O.Alphabet[:1]))))
	}
	defs := map[string]*ref.Node{
		"T": mk("or", mk("seq", lit("zz"), nt("T")), mk("star", mk("memo", x))),
	}
	var paths []*ref.Node
	for i, k := 0, 2+t.Rand.Intn(2); i < k; i++ {
		var ks []*ref.Node
		ks = append(ks, nt("T"))
		for j, m := 0, 1+t.Rand.Intn(2); j < m; j++ {
			ks = append(ks, capt(10*i+j+3, &ref.Node{Op: "any", N: t.Rand.Intn(2)}))
		}
		if t.Rand.Intn(2) == 0 {
			ks = append(ks, lit(g.O.Alphabet[len(g.O.Alphabet)-1:]))
		}
		r := mk("seq", ks...)
		if t.Rand.Intn(2) == 0 {
			r = capt(50+i, r)
		}
		name := fmt.Sprintf("R%d", i)
		defs[name] = mk("or", mk("seq", lit("yy"), nt(name)), memo(r))
		paths = append(paths, nt(name))
	}
	last := paths[len(paths)-1]
	if g.O.NoAndCaps || t.Rand.Intn(2) == 0 {
		defs["S"] = mk("or", paths...)
		if t.Rand.Intn(2) == 0 {
			defs["S"] = mk("seq", mk("opt", paths[0]), defs["S"])
		}
	} else {
		var ks []*ref.Node
		for _, q := range paths[:len(paths)-1] {
			ks = append(ks, mk("and", q))
		}
		defs["S"] = mk("seq", append(ks, last)...)
	}
	return &ref.Node{Op: "grammar", Str: "S", Defs: defs}
}

func main() {
	h.Main("C12", func(t *h.T) {
		t.For("capture trees", 0.15, 2000, func() {
			id := 0
			var mk func(d int) (*memo.Capture, []*ref.Cap)
			mk = func(d int) (*memo.Capture, []*ref.Cap) {
				var kids []*memo.Capture
				var want []*ref.Cap
				if d > 0 {
					for i, n := 0, t.Rand.Intn(4); i < n; i++ {
						k, w := mk(d - 1)
						kids = append(kids, k)
						want = append(want, w...)
					}
				}
				id++
				at, l := t.Rand.Intn(50), t.Rand.Intn(50)
				if t.Rand.Intn(2) == 0 {
					return memo.NewCaptureDummy(at, l, kids), want
				}
				i := id
				if t.Rand.Intn(5) == 0 {
					i = -id
				}
				return memo.NewCaptureNode(i, at, l, kids), []*ref.Cap{{Id: i, Start: at, Len: l, Kids: want}}
			}
			c, want := mk(1 + t.Rand.Intn(6))
			if !c.Dummy() {
				want = want[0].Kids
			}
			t.Case(map[string]interface{}{"children": ref.CapsString(want)}, func() error {
				if got := ref.CapsString(ref.Kids(c)); got != ref.CapsString(want) {
					return fmt.Errorf("children are %s", got)
				}
				return agree(c)
			})
		})
		g := &ref.Gen{R: t.Rand, O: ref.GenOpts{Caps: true, Memo: true, EmptyOps: true, Checks: false, Grammars: true, Alphabet: "abc", MaxDepth: 5}}
		t.For("parses", 1, 2000, func() {
			if g.MemoIds() > 25000 {
				t.Respawn()
				return
			}
			g.Alphabets()
			g.O.NoAndCaps = t.Rand.Intn(3) > 0
			g.O.EmptyOps = t.Rand.Intn(3) == 0
			n := g.Fresh()
			var fixed [][]byte
			if t.Rand.Intn(40) == 0 {
				n, fixed = g.LongStart()
			}
			if t.Rand.Intn(3) == 0 {
				// many captures in a memoized repetition
				fixed = nil
				n = &ref.Node{Op: "star", Kids: []*ref.Node{{Op: "memo", Kids: []*ref.Node{{Op: "cap", N: 77, Kids: []*ref.Node{{Op: "seq", Kids: []*ref.Node{{Op: "set", Str: g.O.Alphabet}, {Op: "opt", Kids: []*ref.Node{n}}}}}}}}}}
			}
			if t.Rand.Intn(4) == 0 {
				// results of one memoized repetition used on several paths
				n, fixed = shared(t, g), nil
			}
			t.Case(map[string]interface{}{"pattern": n}, func() error {
				pr, err := p.Compile(n.Build())
				if err != nil {
					return fmt.Errorf("compile: %v", err)
				}
				if len(pr) > 20000 || ref.NumSets(pr) > 250 {
					return nil
				}
				code := vm.Encode(pr)
				for _, doc := range append(fixed, g.Docs(n, 4)...) {
					want, skip := ref.Match(n, doc, 30000)
					if skip || !want.Ok {
						continue
					}
					thr := t.Rand.Intn(5)
					table := func() memo.Table {
						if thr == 4 || ref.Stateful(n) {
							return memo.NoneTable{}
						}
						return memo.NewTreeTable(thr)
					}
					exp := ref.CapsString(want.Caps)
					tbl := table()
					var roots []*memo.Capture
					for i := 0; i < 2; i++ {
						ok, _, root, _ := code.Exec(bytes.NewReader(doc), tbl)
						if !ok {
							return fmt.Errorf("document %q: no match", doc)
						}
						roots = append(roots, root)
						for j, r := range roots {
							if got := ref.CapsString(ref.Kids(r)); got != exp {
								return fmt.Errorf("document %q, parse %d seen after parse %d, table threshold %d: captures %s, the derivation has %s", doc, j+1, i+1, thr, got, exp)
							}
							if err := agree(r); err != nil {
								return fmt.Errorf("document %q: %v", doc, err)
							}
						}
					}
					if !g.O.NoAndCaps {
						continue
					}
					if t.Rand.Intn(2) == 0 {
						tbl = table()
					}
					for i := 0; i < 3; i++ {
						low := t.Rand.Intn(len(doc) + 2)
						high := low + t.Rand.Intn(len(doc)+3)
						if t.Rand.Intn(5) == 0 {
							high = low + t.Rand.Intn(2)
						}
						ok, _, root, _ := code.ExecInterval(bytes.NewReader(doc), tbl, &vm.Interval{Low: low, High: high})
						if !ok {
							return fmt.Errorf("document %q, interval [%d,%d): no match", doc, low, high)
						}
						iexp := ref.CapsString(filter(want.Caps, low, high))
						if got := ref.CapsString(ref.Kids(root)); got != iexp {
							return fmt.Errorf("document %q, interval [%d,%d), parse %d, table threshold %d: captures %s, expected %s", doc, low, high, i, thr, got, iexp)
						}
						if err := agree(root); err != nil {
							return fmt.Errorf("document %q: %v", doc, err)
						}
					}
				}
				return nil
			})
		})
	})
}
