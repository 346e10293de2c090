// Replay of C04: rope editing against flat text.
package main

import (
	"github.com/zyedidia/gpeg/input/linerope"
	"verif/replay/h"
	"verif/replay/ref"
)

func main() {
	h.Main("C04", func(t *h.T) {
		t.For("histories", 0.9, 3000, func() {
			c := ref.GenRope(t, []string{"", "ab\n", "abcdefghijklmnopqrstuvwxyz\n"}[t.Rand.Intn(3)], []int{5, 30, 200}[t.Rand.Intn(3)])
			t.Case(c, func() error {
				return ref.RunRope(c, func(n *linerope.Node, text []byte) error { return ref.CheckText(n, text, t.Rand.Intn) })
			})
		})
		t.For("large documents with the default options", 1, 20, func() {
			c := ref.GenRope(t, "ab\n", 60000)
			c.Split, c.Join, c.Ratio = 4096, 2048, 1.2
			t.Case(c, func() error {
				return ref.RunRope(c, func(n *linerope.Node, text []byte) error { return ref.CheckText(n, text, t.Rand.Intn) })
			})
		})
	})
}
