// Replay of C07: the memo table against a plain list of entries.
package main

import (
	"fmt"

	"github.com/zyedidia/gpeg/memo"
	"verif/replay/h"
	"verif/replay/ref"
)

type op struct {
	Op                      string
	Id, Start, Length, Exam int
	Count                   int
	End, Len                int
}

type rec struct {
	id, start, length, exam, count int
	caps                           []*ref.Cap
}

func shift(cs []*ref.Cap, by int) {
	for _, c := range cs {
		c.Start += by
		shift(c.Kids, by)
	}
}

func main() {
	h.Main("C07", func(t *h.T) {
		t.For("histories", 1, 3000, func() {
			n := 1 + t.Rand.Intn(40)
			space := []int{8, 20, 100, 1000}[t.Rand.Intn(4)]
			thr := []int{0, 0, 1, 2, 5, 20}[t.Rand.Intn(6)]
			var ops []op
			for i := 0; i < n; i++ {
				switch t.Rand.Intn(8) {
				case 0, 1, 2, 3:
					l := t.Rand.Intn(6) - 1
					if t.Rand.Intn(4) == 0 {
						l = t.Rand.Intn(space)
					}
					x := t.Rand.Intn(6) + 1
					if t.Rand.Intn(2) == 0 && l > 0 {
						x = l + t.Rand.Intn(4)
					}
					ops = append(ops, op{Op: "put", Id: t.Rand.Intn(4), Start: t.Rand.Intn(space), Length: l, Exam: x, Count: t.Rand.Intn(5)})
				case 4, 5:
					s := t.Rand.Intn(space + 2)
					e := s
					if t.Rand.Intn(2) == 0 {
						e += t.Rand.Intn(5)
					}
					if t.Rand.Intn(8) == 0 {
						e += t.Rand.Intn(space)
					}
					n := t.Rand.Intn(6)
					switch t.Rand.Intn(6) {
					case 0:
						n = e - s
					case 1:
						n = t.Rand.Intn(space)
					}
					ops = append(ops, op{Op: "edit", Start: s, End: e, Len: n})
				case 6:
					ops = append(ops, op{Op: "get", Id: t.Rand.Intn(4), Start: t.Rand.Intn(space)})
				case 7:
					ops = append(ops, op{Op: "all"})
				}
			}
			seed := t.Rand.Int63()
			t.Case(map[string]interface{}{"threshold": thr, "ops": ops, "capture_seed": seed}, func() error { return run(t, thr, ops) })
		})
	})
}

func mk(t *h.T, start, length, d int, id *int) (*memo.Capture, []*ref.Cap) {
	var kids []*memo.Capture
	var rk []*ref.Cap
	if d > 0 {
		for i, n := 0, t.Rand.Intn(3); i < n; i++ {
			a := start + t.Rand.Intn(length+1)
			k, r := mk(t, a, t.Rand.Intn(start+length-a+1), d-1, id)
			kids = append(kids, k)
			rk = append(rk, r...)
		}
	}
	*id++
	if t.Rand.Intn(4) == 0 {
		return memo.NewCaptureDummy(start, length, kids), rk
	}
	return memo.NewCaptureNode(*id, start, length, kids), []*ref.Cap{{Id: *id, Start: start, Len: length, Kids: rk}}
}

func run(t *h.T, thr int, ops []op) error {
	tbl := memo.NewTreeTable(thr)
	var held []*rec
	id := 0
	same := func(r *rec, e *memo.Entry) bool {
		return r.length == e.Length() && r.count == e.Count() && r.exam == e.Examined() && r.start == e.Pos() && ref.CapsString(r.caps) == ref.CapsString(ref.ConvList(e.Captures()))
	}
	get := func(id, pos int) error {
		best := -1
		for _, r := range held {
			if r.id == id && r.start == pos && r.exam > best {
				best = r.exam
			}
		}
		e, ok := tbl.Get(id, pos)
		if !ok {
			if best >= 0 {
				return fmt.Errorf("Get(%d, %d) finds nothing, an entry is held", id, pos)
			}
			return nil
		}
		for _, r := range held {
			if r.id == id && r.start == pos && r.exam == best && same(r, e) {
				return nil
			}
		}
		return fmt.Errorf("Get(%d, %d) returns length %d, examined %d, count %d, at %d, captures %s, which is not a largest held entry", id, pos, e.Length(), e.Examined(), e.Count(), e.Pos(), ref.CapsString(ref.ConvList(e.Captures())))
	}
	check := func() error {
		for _, r := range held {
			if err := get(r.id, r.start); err != nil {
				return err
			}
		}
		vs := tbl.AllValues()
		if len(vs) != len(held) {
			return fmt.Errorf("AllValues lists %d entries, %d are held", len(vs), len(held))
		}
		used := map[int]bool{}
	next:
		for _, e := range vs {
			for i, r := range held {
				if !used[i] && same(r, e) {
					used[i] = true
					continue next
				}
			}
			return fmt.Errorf("AllValues lists an entry (length %d, at %d, captures %s) that is not held", e.Length(), e.Pos(), ref.CapsString(ref.ConvList(e.Captures())))
		}
		if tbl.Size() != len(held) {
			return fmt.Errorf("Size() = %d, %d are held", tbl.Size(), len(held))
		}
		return nil
	}
	for k, o := range ops {
		var err error
		switch o.Op {
		case "put":
			var caps []*memo.Capture
			var want []*ref.Cap
			if o.Length > 0 {
				for i, n := 0, t.Rand.Intn(3); i < n; i++ {
					c, w := mk(t, o.Start, o.Length, 2, &id)
					caps = append(caps, c)
					want = append(want, w...)
				}
			}
			tbl.Put(o.Id, o.Start, o.Length, o.Exam, o.Count, caps)
			if o.Length == 0 || o.Exam < thr {
				break
			}
			x := o.Exam
			if o.Length > x {
				x = o.Length
			}
			held = append(held, &rec{o.Id, o.Start, o.Length, x, o.Count, want})
		case "edit":
			tbl.ApplyEdit(memo.Edit{Start: o.Start, End: o.End, Len: o.Len})
			hi := o.End
			if hi == o.Start {
				hi++
			}
			by := o.Len - (o.End - o.Start)
			var keep []*rec
			for _, r := range held {
				if r.start <= hi && r.start+r.exam >= o.Start {
					continue
				}
				if r.start >= o.Start {
					r.start += by
					shift(r.caps, by)
				}
				keep = append(keep, r)
			}
			held = keep
		case "get":
			err = get(o.Id, o.Start)
		case "all":
			err = check()
		}
		if err != nil {
			return fmt.Errorf("op %d: %v", k, err)
		}
	}
	return check()
}
