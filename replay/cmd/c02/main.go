// Replay of the contracts of input.Input (C02).
package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/zyedidia/gpeg/input"
	"verif/replay/h"
)

type op struct {
	Op string
	N  int
}

func main() {
	h.Main("C02", func(t *h.T) {
		t.For("operation sequences", 1, 3000, func() {
			sizes := []int{0, 1, 2, 5, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000}
			n := sizes[t.Rand.Intn(len(sizes))]
			doc := t.Bytes(n, "")
			near := func() int {
				switch t.Rand.Intn(4) {
				case 0:
					return t.Rand.Intn(n + 10)
				case 1:
					return 4096*t.Rand.Intn(n/4096+2) + t.Rand.Intn(5) - 2
				case 2:
					return n + t.Rand.Intn(5) - 2
				}
				return t.Rand.Intn(20)
			}
			var ops []op
			for i, m := 0, 1+t.Rand.Intn(25); i < m; i++ {
				k := []string{"peek", "before", "seek", "adv", "adv", "slice", "readat"}[t.Rand.Intn(7)]
				v := near()
				if k == "adv" && t.Rand.Intn(2) == 0 {
					v = []int{0, 1, 1, 2, 4095, 4096, 4097, 8192}[t.Rand.Intn(8)]
				}
				if v < 0 {
					v = 0
				}
				ops = append(ops, op{k, v})
			}
			kind := t.Rand.Intn(3)
			t.Case(map[string]interface{}{"document_length": n, "reader": kind, "ops": ops}, func() error { return run(doc, ops, kind) })
		})
	})
}

// reader is an io.ReaderAt that reports the end of the data early (together
// with the last byte) and uses the rest of the buffer as scratch space.
type reader struct {
	b    []byte
	kind int
}

func (r reader) ReadAt(p []byte, off int64) (int, error) {
	if r.kind == 2 {
		for i := range p {
			p[i] = byte(i) ^ 0x5a
		}
	}
	if off >= int64(len(r.b)) {
		return 0, io.EOF
	}
	n := copy(p, r.b[off:])
	if int(off)+n == len(r.b) {
		return n, io.EOF
	}
	return n, nil
}

func run(doc []byte, ops []op, kind int) error {
	n := len(doc)
	var ra io.ReaderAt = bytes.NewReader(doc)
	if kind > 0 {
		ra = reader{doc, kind}
	}
	in := input.NewInput(ra)
	pos := 0
	far := 0
	if in.Furthest() != 0 {
		return fmt.Errorf("new input: Furthest() = %d", in.Furthest())
	}
	for k, o := range ops {
		switch o.Op {
		case "peek":
			b, ok := in.Peek()
			if ok != (pos < n) || ok && b != doc[pos] {
				return fmt.Errorf("op %d: Peek at %d of %d bytes = %v,%v", k, pos, n, b, ok)
			}
			if pos > far {
				far = pos
			}
			if in.Furthest() < far {
				return fmt.Errorf("op %d: Furthest() = %d after peeking at %d", k, in.Furthest(), far)
			}
		case "before":
			b, ok := in.PeekBefore()
			want := pos > 0 && pos <= n
			if ok != want || ok && b != doc[pos-1] {
				return fmt.Errorf("op %d: PeekBefore at %d of %d bytes = %v,%v", k, pos, n, b, ok)
			}
		case "seek":
			ok := in.SeekTo(o.N)
			pos = o.N
			if ok != (pos < n) {
				return fmt.Errorf("op %d: SeekTo(%d) of %d bytes = %v", k, o.N, n, ok)
			}
		case "adv":
			if pos > n {
				in.SeekTo(n)
				pos = n
			}
			ok := in.Advance(o.N)
			want := pos+o.N <= n
			if ok != want {
				return fmt.Errorf("op %d: Advance(%d) at %d of %d bytes = %v", k, o.N, pos, n, ok)
			}
			if ok {
				pos += o.N
			} else {
				// the position after a failed advance is not specified
				in.SeekTo(pos)
			}
		case "slice", "readat":
			lo := o.N
			hi := lo + o.N%97
			want := []byte{}
			if lo < n {
				e := hi
				if e > n {
					e = n
				}
				want = doc[lo:e]
			}
			var got []byte
			if o.Op == "slice" {
				got = in.Slice(lo, hi)
			} else {
				buf := make([]byte, hi-lo)
				m, err := in.ReadAt(buf, int64(lo))
				if m < hi-lo && err == nil {
					return fmt.Errorf("op %d: ReadAt(%d,%d) short read without an error", k, lo, hi-lo)
				}
				got = buf[:m]
			}
			if !bytes.Equal(got, want) {
				return fmt.Errorf("op %d: %s(%d,%d) of %d bytes = %v, want %v", k, o.Op, lo, hi, n, got, want)
			}
		}
		if in.Pos() != pos {
			return fmt.Errorf("op %d (%s %d): Pos() = %d, want %d", k, o.Op, o.N, in.Pos(), pos)
		}
	}
	return nil
}
