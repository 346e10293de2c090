// Replay of the contracts of package charset (C01).
package main

import (
	"fmt"

	"github.com/zyedidia/gpeg/charset"
	"verif/replay/h"
)

type mset [256]bool

func ref(s charset.Set) (m mset) {
	for i := 0; i < 256; i++ {
		m[i] = s.Bits[i/64]>>(uint(i)%64)&1 == 1
	}
	return
}

func check(s charset.Set, m mset, what string) error {
	n, high := 0, 0
	for i := 0; i < 256; i++ {
		if s.Has(byte(i)) != m[i] {
			return fmt.Errorf("%s: Has(%d) = %v, want %v", what, i, s.Has(byte(i)), m[i])
		}
		if m[i] {
			n++
			if i >= 128 {
				high++
			}
		}
	}
	if s.Size() != n {
		return fmt.Errorf("%s: Size() = %d, want %d", what, s.Size(), n)
	}
	if s.IsSmall() != (high == 0) {
		return fmt.Errorf("%s: IsSmall() = %v with %d members >= 128", what, s.IsSmall(), high)
	}
	if high == 0 {
		sm := s.SmallSet()
		for i := 0; i < 128; i++ {
			if sm.Has(byte(i)) != m[i] {
				return fmt.Errorf("%s: SmallSet().Has(%d) = %v, want %v", what, i, sm.Has(byte(i)), m[i])
			}
		}
		if sm.Size() != n {
			return fmt.Errorf("%s: SmallSet().Size() = %d, want %d", what, sm.Size(), n)
		}
	}
	return nil
}

func main() {
	h.Main("C01", func(t *h.T) {
		t.Phase("all ranges")
		for lo := 0; lo < 256; lo++ {
			for hi := 0; hi < 256; hi++ {
				t.Case([]int{lo, hi}, func() error {
					var m mset
					for i := lo; i <= hi; i++ {
						m[i] = true
					}
					return check(charset.Range(byte(lo), byte(hi)), m, fmt.Sprintf("Range(%d,%d)", lo, hi))
				})
			}
		}
		rnd := func() charset.Set {
			s := charset.Set{Bits: [4]uint64{t.Rand.Uint64(), t.Rand.Uint64(), t.Rand.Uint64(), t.Rand.Uint64()}}
			for i := range s.Bits {
				switch t.Rand.Intn(5) {
				case 0:
					s.Bits[i] = 0
				case 1:
					s.Bits[i] = ^uint64(0)
				case 2:
					s.Bits[i] = 1 << uint(t.Rand.Intn(64))
				}
			}
			return s
		}
		t.For("byte lists", 0.5, 2000, func() {
			l := t.Bytes(t.Rand.Intn(40), "")
			t.Case(l, func() error {
				var m mset
				for _, b := range l {
					m[b] = true
				}
				return check(charset.New(l), m, fmt.Sprintf("New(%v)", l))
			})
		})
		t.For("set algebra", 1, 2000, func() {
			a, b := rnd(), rnd()
			t.Case([]charset.Set{a, b}, func() error {
				ma, mb := ref(a), ref(b)
				var c, u, d mset
				for i := range ma {
					c[i] = !ma[i]
					u[i] = ma[i] || mb[i]
					d[i] = ma[i] && !mb[i]
				}
				if err := check(a, ma, "set"); err != nil {
					return err
				}
				if err := check(a.Complement(), c, "Complement"); err != nil {
					return err
				}
				if err := check(a.Add(b), u, "Add"); err != nil {
					return err
				}
				return check(a.Sub(b), d, "Sub")
			})
		})
	})
}
