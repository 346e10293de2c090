// Replay of C05: line/column positions of a rope.
package main

import (
	"bytes"
	"fmt"

	"github.com/zyedidia/gpeg/input/linerope"
	"verif/replay/h"
	"verif/replay/ref"
)

func lc(text []byte, sep string, off int) (int, int) {
	l := bytes.Count(text[:off], []byte(sep))
	return l, off - 1 - bytes.LastIndex(text[:off], []byte(sep))
}

func check(t *h.T, sep string) func(n *linerope.Node, text []byte) error {
	return func(n *linerope.Node, text []byte) error {
		wl, wc := lc(text, sep, len(text))
		if n.NumLines() != wl {
			return fmt.Errorf("NumLines() = %d, the text %q has %d separators", n.NumLines(), text, wl)
		}
		if l, c := n.LLen(); l != wl || c != wc {
			return fmt.Errorf("LLen() = %d,%d, the text %q ends at %d,%d", l, c, text, wl, wc)
		}
		offs := []int{0, len(text)}
		for i := 0; i < 6; i++ {
			offs = append(offs, t.Rand.Intn(len(text)+1))
		}
		if len(text) < 40 {
			for i := range text {
				offs = append(offs, i)
			}
		}
		for _, o := range offs {
			wl, wc := lc(text, sep, o)
			l, c := n.LineColAt(o)
			if l != wl || c != wc {
				return fmt.Errorf("LineColAt(%d) = %d,%d, in %q it is %d,%d", o, l, c, text, wl, wc)
			}
			if b := n.OffsetAt(wl, wc); b != o {
				return fmt.Errorf("OffsetAt(%d, %d) = %d, in %q it is %d", wl, wc, b, text, o)
			}
		}
		for i := 0; i < 6; i++ {
			a, b := offs[t.Rand.Intn(len(offs))], offs[t.Rand.Intn(len(offs))]
			if a > b {
				a, b = b, a
			}
			al, ac := lc(text, sep, a)
			bl, bc := lc(text, sep, b)
			if s := n.SliceLC(al, ac, bl, bc); !bytes.Equal(s, text[a:b]) {
				return fmt.Errorf("SliceLC(%d,%d, %d,%d) = %q, in %q it is %q", al, ac, bl, bc, s, text, text[a:b])
			}
		}
		return nil
	}
}

func main() {
	h.Main("C05", func(t *h.T) {
		t.For("histories", 0.9, 3000, func() {
			sep := "\n"
			if t.Rand.Intn(4) == 0 {
				sep = []string{";", "\x00", "\xff"}[t.Rand.Intn(3)]
			}
			c := ref.GenRope(t, []string{"", "a" + sep, "abcdefgh" + sep, "b" + sep + sep + sep}[t.Rand.Intn(4)], []int{5, 30, 200}[t.Rand.Intn(3)])
			c.Sep = sep
			t.Case(c, func() error { return ref.RunRope(c, check(t, sep)) })
		})
		t.For("large documents with the default options", 1, 20, func() {
			c := ref.GenRope(t, "abcdefghijkl\n", 60000)
			c.Split, c.Join, c.Ratio = 4096, 2048, 1.2
			t.Case(c, func() error { return ref.RunRope(c, check(t, "\n")) })
		})
	})
}
