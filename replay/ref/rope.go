package ref

import (
	"bytes"
	"fmt"
	"io"

	"github.com/zyedidia/gpeg/input/linerope"
	"verif/replay/h"
)

// RopeOp is one step of a rope history.
type RopeOp struct {
	Op         string
	Start, End int
	Text       string
}

// RopeCase is a history with its options.
type RopeCase struct {
	Split, Join int
	Ratio       float64
	Sep         string
	Doc         string
	Ops         []RopeOp
}

// GenRope makes a random history.
func GenRope(t *h.T, alphabet string, maxDoc int) RopeCase {
	r := t.Rand
	c := RopeCase{Split: 1 + r.Intn(12), Ratio: []float64{1, 1.2, 2, 10}[r.Intn(4)], Sep: "\n"}
	if r.Intn(4) == 0 {
		c.Split = 1 + r.Intn(100)
	}
	c.Join = r.Intn(c.Split + 3)
	if r.Intn(5) == 0 {
		c.Join = r.Intn(60)
	}
	n := r.Intn(maxDoc)
	c.Doc = string(t.Bytes(n, alphabet))
	for i, k := 0, 1+r.Intn(25); i < k; i++ {
		o := RopeOp{}
		switch r.Intn(14) {
		case 0, 1, 2, 3:
			o = RopeOp{Op: "insert", Start: r.Intn(n + 1), Text: string(t.Bytes(r.Intn(8), alphabet))}
			if r.Intn(6) == 0 {
				o.Text = string(t.Bytes(r.Intn(60), alphabet))
			}
			if r.Intn(4) == 0 {
				o.Start = []int{0, n}[r.Intn(2)]
			}
			n += len(o.Text)
		case 4, 5, 6, 7:
			s := r.Intn(n + 1)
			e := s + r.Intn(6)
			if r.Intn(5) == 0 {
				e = s + r.Intn(n+1)
			}
			if e > n {
				e = n
			}
			o = RopeOp{Op: "remove", Start: s, End: e}
			n -= e - s
		case 8:
			o = RopeOp{Op: "split-join", Start: r.Intn(n + 1)}
		case 9:
			o = RopeOp{Op: "split-keep-left", Start: r.Intn(n + 1)}
			if r.Intn(2) == 0 {
				o.Op = "split-keep-right"
			}
			if o.Op == "split-keep-left" {
				n = o.Start
			} else {
				n -= o.Start
			}
		case 10:
			o = RopeOp{Op: "join", Text: string(t.Bytes(r.Intn(30), alphabet))}
			if r.Intn(2) == 0 {
				o.Op = "prepend"
			}
			n += len(o.Text)
		case 11:
			o.Op = "rebuild"
		case 12:
			o.Op = "rebalance"
		case 13:
			o.Op = "check"
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// RunRope runs a history, calling check after some of the steps.
func RunRope(c RopeCase, check func(n *linerope.Node, text []byte) error) error {
	opts := linerope.Options{SplitLen: c.Split, JoinLen: c.Join, RebalanceRatio: c.Ratio, LineSep: []byte(c.Sep)}
	orig := append(make([]byte, 0, len(c.Doc)+50), c.Doc...)
	spare := orig[:cap(orig)]
	n := linerope.NewWithOpts(orig, opts)
	sib := linerope.NewWithOpts(orig, opts)
	text := []byte(c.Doc)
	type kept struct {
		what string
		b    []byte
		want string
	}
	var given []kept
	given = append(given, kept{"the slice the rope was made from", spare, string(spare)})
	others := []*linerope.Node{sib}
	owant := []string{c.Doc}
	verify := func() error {
		if err := check(n, text); err != nil {
			return err
		}
		for _, g := range given {
			if string(g.b) != g.want {
				return fmt.Errorf("%s is overwritten: %q, was %q", g.what, g.b, g.want)
			}
		}
		for i, o := range others {
			if string(o.Value()) != owant[i] {
				return fmt.Errorf("a separate rope changed: %q, was %q", o.Value(), owant[i])
			}
		}
		return nil
	}
	if err := verify(); err != nil {
		return fmt.Errorf("after construction: %v", err)
	}
	pass := func(s string) []byte {
		b := append(make([]byte, 0, len(s)+9), s...)
		full := b[:cap(b)]
		given = append(given, kept{"a slice passed to the rope", full, string(full)})
		return b
	}
	for i, o := range c.Ops {
		switch o.Op {
		case "insert":
			n.Insert(o.Start, pass(o.Text))
			text = append(text[:o.Start:o.Start], append([]byte(o.Text), text[o.Start:]...)...)
		case "remove":
			n.Remove(o.Start, o.End)
			text = append(text[:o.Start:o.Start], text[o.End:]...)
		case "split-join":
			a, b := n.SplitAt(o.Start)
			if err := check(a, text[:o.Start:o.Start]); err != nil {
				return fmt.Errorf("step %d, left part of the split: %v", i, err)
			}
			if err := check(b, text[o.Start:]); err != nil {
				return fmt.Errorf("step %d, right part of the split: %v", i, err)
			}
			n = linerope.Join(a, b)
		case "split-keep-left":
			a, b := n.SplitAt(o.Start)
			n = a
			others, owant = append(others, b), append(owant, string(text[o.Start:]))
			text = text[:o.Start:o.Start]
		case "split-keep-right":
			a, b := n.SplitAt(o.Start)
			n = b
			others, owant = append(others, a), append(owant, string(text[:o.Start]))
			text = text[o.Start:]
		case "join":
			n = linerope.Join(n, linerope.NewWithOpts(pass(o.Text), opts), linerope.NewWithOpts(nil, opts))
			text = append(text[:len(text):len(text)], o.Text...)
		case "prepend":
			n = linerope.Join(linerope.NewWithOpts(pass(o.Text), opts), n)
			text = append([]byte(o.Text), text...)
		case "rebuild":
			n.Rebuild()
		case "rebalance":
			n.Rebalance()
		case "check":
		}
		if o.Op == "check" || i%3 == 2 || i == len(c.Ops)-1 || o.Op[0] == 'r' && o.Op != "remove" {
			if err := verify(); err != nil {
				return fmt.Errorf("after step %d (%s): %v", i, o.Op, err)
			}
		} else if n.Len() != len(text) {
			return fmt.Errorf("after step %d (%s): Len() = %d, the text has %d bytes", i, o.Op, n.Len(), len(text))
		}
	}
	return nil
}

// CheckText compares everything the rope says about its text.
func CheckText(n *linerope.Node, text []byte, pick func(int) int) error {
	if n.Len() != len(text) {
		return fmt.Errorf("Len() = %d, the text has %d bytes", n.Len(), len(text))
	}
	if v := n.Value(); !bytes.Equal(v, text) {
		return fmt.Errorf("Value() = %q, the text is %q", v, text)
	}
	var w bytes.Buffer
	k, err := n.WriteTo(&w)
	if err != nil || int(k) != len(text) || !bytes.Equal(w.Bytes(), text) {
		return fmt.Errorf("WriteTo writes %q (%d, %v), the text is %q", w.Bytes(), k, err, text)
	}
	// a writer that fails is reported and ends the traversal
	lw := &limitWriter{left: pick(len(text) + 1)}
	lim := lw.left
	k, err = n.WriteTo(lw)
	if lim < len(text) && (err == nil || int(k) != lim) || !bytes.HasPrefix(text, lw.b.Bytes()) {
		return fmt.Errorf("WriteTo to a writer failing after %d bytes gives %d, %v, %q", lim, k, err, lw.b.Bytes())
	}
	var leaves []byte
	stop, cnt := pick(5), 0
	if n.EachLeaf(func(l *linerope.Node) bool { leaves = append(leaves, l.Value()...); return false }) {
		return fmt.Errorf("EachLeaf stopped")
	}
	if !bytes.Equal(leaves, text) {
		return fmt.Errorf("EachLeaf visits %q, the text is %q", leaves, text)
	}
	stopped := n.EachLeaf(func(l *linerope.Node) bool { cnt++; return cnt > stop })
	if stopped && cnt != stop+1 || !stopped && cnt > stop {
		return fmt.Errorf("EachLeaf visits %d leaves, asked to stop at leaf %d", cnt, stop+1)
	}
	for i := 0; i < 4; i++ {
		off := pick(len(text) + 4)
		buf := make([]byte, pick(len(text)+4))
		if pick(4) == 0 {
			off = len(text)
		}
		for j := range buf {
			buf[j] = 0xAA
		}
		m, err := n.ReadAt(buf, int64(off))
		want := 0
		if off < len(text) {
			want = len(text) - off
			if want > len(buf) {
				want = len(buf)
			}
		}
		if m != want || want > 0 && !bytes.Equal(buf[:m], text[off:off+want]) {
			return fmt.Errorf("ReadAt(%d bytes, %d) = %d %q, the text is %q", len(buf), off, m, buf[:m], text)
		}
		if m < len(buf) && err != io.EOF || off+len(buf) < len(text) && err != nil || err != nil && err != io.EOF {
			return fmt.Errorf("ReadAt(%d bytes, %d) of %d reports %v", len(buf), off, len(text), err)
		}
	}
	for i := 0; i < 4 && len(text) > 0; i++ {
		at := pick(len(text))
		if b := n.At(at); b != text[at] {
			return fmt.Errorf("At(%d) = %q, the text is %q", at, b, text)
		}
	}
	return nil
}

type limitWriter struct {
	left int
	b    bytes.Buffer
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if len(p) > l.left {
		n := l.left
		l.b.Write(p[:n])
		l.left = 0
		return n, io.ErrShortWrite
	}
	l.left -= len(p)
	l.b.Write(p)
	return len(p), nil
}
