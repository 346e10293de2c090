// Replay of C06: the interval map against a plain list of intervals.
package main

import (
	"fmt"

	"github.com/zyedidia/gpeg/memo/interval"
	"github.com/zyedidia/gpeg/memo/interval/lazylog"
	"verif/replay/h"
)

type op struct {
	Op        string
	Id        int
	Low, High int
	Amt       int
}

type item struct {
	id, low, high, val int
	pos                interval.Pos
}

func main() {
	h.Main("C06", func(t *h.T) {
		// One or two long intervals among many short ones, added in different
		// orders (so that the tree is tall and the long interval sits at
		// different places in it), and edits that only a long one touches.
		t.For("tall", 0.4, 800, func() {
			n := 8 + t.Rand.Intn(120)
			step := 1 + t.Rand.Intn(6)
			var lows []int
			for i := 0; i < n; i++ {
				lows = append(lows, i*step)
			}
			switch t.Rand.Intn(3) {
			case 0:
				t.Rand.Shuffle(n, func(i, j int) { lows[i], lows[j] = lows[j], lows[i] })
			case 1:
				for i := 0; i < n/2; i++ {
					lows[i], lows[n-1-i] = lows[n-1-i], lows[i]
				}
			}
			long := map[int]bool{}
			for i, k := 0, 1+t.Rand.Intn(2); i < k; i++ {
				long[t.Rand.Intn(n)] = true
			}
			var ops []op
			end := n * step
			for i, l := range lows {
				hi := l + t.Rand.Intn(step)
				if long[i] {
					hi = l + t.Rand.Intn(end+20)
				}
				ops = append(ops, op{Op: "add", Id: t.Rand.Intn(3), Low: l, High: hi})
			}
			for i, k := 0, 1+t.Rand.Intn(12); i < k; i++ {
				l := end - t.Rand.Intn(end/2+1) + t.Rand.Intn(20)
				if t.Rand.Intn(3) == 0 {
					l = t.Rand.Intn(end + 20)
				}
				hi := l + 1 + t.Rand.Intn(3)
				ops = append(ops, op{Op: "remove", Low: l, High: hi, Amt: t.Rand.Intn(8) - (hi - l)})
				if t.Rand.Intn(3) == 0 {
					l := t.Rand.Intn(end + 20)
					hi := l + t.Rand.Intn(step+1)
					if t.Rand.Intn(4) == 0 {
						hi = l + t.Rand.Intn(end)
					}
					ops = append(ops, op{Op: "add", Id: t.Rand.Intn(3), Low: l, High: hi})
				}
			}
			t.Case(ops, func() error { return run(ops) })
		})
		t.For("histories", 1, 3000, func() {
			n := 1 + t.Rand.Intn(40)
			if t.Rand.Intn(10) == 0 {
				n = 400
			}
			space := []int{8, 20, 100, 1000}[t.Rand.Intn(4)]
			ids := 1 + t.Rand.Intn(4)
			maxlen := []int{1, 3, 10, space}[t.Rand.Intn(4)]
			var ops []op
			for i := 0; i < n; i++ {
				switch t.Rand.Intn(8) {
				case 0, 1, 2, 3:
					l := t.Rand.Intn(space)
					ops = append(ops, op{Op: "add", Id: t.Rand.Intn(ids), Low: l, High: l + t.Rand.Intn(maxlen+1)})
				case 4, 5:
					l := t.Rand.Intn(space + 2)
					hi := l + 1 + t.Rand.Intn(3)
					if t.Rand.Intn(4) == 0 {
						hi = l + t.Rand.Intn(space)
					}
					a := t.Rand.Intn(2*(hi-l)+4) - (hi - l)
					if t.Rand.Intn(5) == 0 {
						a = t.Rand.Intn(space)
					}
					ops = append(ops, op{Op: "remove", Low: l, High: hi, Amt: a})
				case 6:
					ops = append(ops, op{Op: "find", Id: t.Rand.Intn(ids), Low: t.Rand.Intn(space)})
				case 7:
					ops = append(ops, op{Op: []string{"all", "size", "pos"}[t.Rand.Intn(3)], Low: t.Rand.Intn(1000)})
				}
			}
			t.Case(ops, func() error { return run(ops) })
		})
	})
}

func run(ops []op) error {
	var m interval.Map = &lazylog.Tree{}
	var ref []*item
	find := func(id, pos int) error {
		best := -1
		for _, r := range ref {
			if r.id == id && r.low == pos && r.high-r.low > best {
				best = r.high - r.low
			}
		}
		v := m.FindLargest(id, pos)
		if v == nil {
			if best >= 0 {
				return fmt.Errorf("FindLargest(%d, %d) finds nothing, an interval of length %d is held", id, pos, best)
			}
			return nil
		}
		for _, r := range ref {
			if r.val == v.(int) {
				if r.id != id || r.low != pos || r.high-r.low != best {
					return fmt.Errorf("FindLargest(%d, %d) returns the value of (%d, [%d,%d)), longest has length %d", id, pos, r.id, r.low, r.high, best)
				}
				return nil
			}
		}
		return fmt.Errorf("FindLargest(%d, %d) returns a value that is not held", id, pos)
	}
	all := func() error {
		vs := m.AllValues()
		seen := map[int]bool{}
		for _, v := range vs {
			if seen[v.(int)] {
				return fmt.Errorf("AllValues lists value %v twice", v)
			}
			seen[v.(int)] = true
		}
		for _, r := range ref {
			if !seen[r.val] {
				return fmt.Errorf("AllValues lacks (%d, [%d,%d))", r.id, r.low, r.high)
			}
		}
		if len(vs) != len(ref) {
			return fmt.Errorf("AllValues lists %d values, %d are held", len(vs), len(ref))
		}
		return nil
	}
	for k, o := range ops {
		var err error
		switch o.Op {
		case "add":
			it := &item{o.Id, o.Low, o.High, k, nil}
			it.pos = m.Add(o.Id, o.Low, o.High, k)
			ref = append(ref, it)
		case "remove":
			m.RemoveAndShift(o.Low, o.High, o.Amt)
			var keep []*item
			for _, r := range ref {
				if r.low <= o.High && r.high >= o.Low {
					continue
				}
				if r.low >= o.Low {
					r.low += o.Amt
					r.high += o.Amt
				}
				keep = append(keep, r)
			}
			ref = keep
		case "find":
			err = find(o.Id, o.Low)
		case "all":
			err = all()
		case "size":
			if m.Size() != len(ref) {
				err = fmt.Errorf("Size() = %d, %d are held", m.Size(), len(ref))
			}
		case "pos":
			if len(ref) > 0 {
				r := ref[o.Low%len(ref)]
				if r.pos.Pos() != r.low {
					err = fmt.Errorf("handle of (%d, [%d,%d)) reports %d", r.id, r.low, r.high, r.pos.Pos())
				}
			}
		}
		if err != nil {
			return fmt.Errorf("op %d: %v", k, err)
		}
	}
	for _, r := range ref {
		if err := find(r.id, r.low); err != nil {
			return err
		}
		if r.pos.Pos() != r.low {
			return fmt.Errorf("handle of (%d, [%d,%d)) reports %d", r.id, r.low, r.high, r.pos.Pos())
		}
	}
	for id := 0; id < 4; id++ {
		for p := -3; p < 30; p++ {
			if err := find(id, p); err != nil {
				return err
			}
		}
	}
	if m.Size() != len(ref) {
		return fmt.Errorf("Size() = %d, %d are held", m.Size(), len(ref))
	}
	return all()
}
