// Replay of the contract of the stream adapter (C03).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"

	"github.com/zyedidia/gpeg/input"
	"verif/replay/h"
)

type frag struct {
	data   []byte
	pos    int
	r      *rand.Rand
	max    int
	errs   error
	eager  bool // the error accompanies the last bytes
	zero   bool // may deliver nothing without an error
	atMost int
}

func (f *frag) Read(p []byte) (int, error) {
	if f.pos >= len(f.data) {
		return 0, f.errs
	}
	if f.zero && f.r.Intn(3) == 0 {
		return 0, nil
	}
	n := 1 + f.r.Intn(f.max)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], f.data[f.pos:])
	f.pos += n
	if f.eager && f.pos == len(f.data) {
		return n, f.errs
	}
	return n, nil
}

type rd struct{ Off, Len int }

func main() {
	h.Main("C03", func(t *h.T) {
		t.For("reads of fragmented streams", 1, 3000, func() {
			sizes := []int{0, 1, 10, 100, 4095, 4096, 4097, 10000, 20000}
			n := sizes[t.Rand.Intn(len(sizes))]
			f := &frag{data: t.Bytes(n, ""), r: rand.New(rand.NewSource(t.Rand.Int63())), errs: io.EOF}
			f.max = []int{1, 3, 100, 4096, 100000}[t.Rand.Intn(5)]
			f.eager, f.zero = t.Rand.Intn(2) == 0, t.Rand.Intn(2) == 0
			if t.Rand.Intn(4) == 0 {
				f.errs = errors.New("broken stream")
			}
			var rs []rd
			for i, m := 0, 1+t.Rand.Intn(10); i < m; i++ {
				off := t.Rand.Intn(n + 10)
				if t.Rand.Intn(3) == 0 {
					off = t.Rand.Intn(10)
				}
				rs = append(rs, rd{off, []int{0, 1, 5, 100, 4096, 5000, t.Rand.Intn(n + 1)}[t.Rand.Intn(7)]})
			}
			t.Case(map[string]interface{}{"length": n, "max_fragment": f.max, "eager_error": f.eager, "empty_reads": f.zero, "error": f.errs.Error(), "reads": rs}, func() error {
				w := input.FromReader(f)
				for k, r := range rs {
					if k%3 == 2 {
						got := input.Slice(w, r.Off, r.Off+r.Len)
						want := cut(f.data, r.Off, r.Len)
						if !bytes.Equal(got, want) {
							return fmt.Errorf("read %d: Slice(%d,%d) returns %d bytes that differ from the %d expected", k, r.Off, r.Off+r.Len, len(got), len(want))
						}
						continue
					}
					b := make([]byte, r.Len)
					m, err := w.ReadAt(b, int64(r.Off))
					want := cut(f.data, r.Off, r.Len)
					if m != len(want) || !bytes.Equal(b[:m], want) {
						return fmt.Errorf("read %d: ReadAt(%d bytes at %d) returns %d bytes, want %d (same contents: %v)", k, r.Len, r.Off, m, len(want), bytes.Equal(b[:m], want))
					}
					if m < r.Len && err == nil {
						return fmt.Errorf("read %d: short read (%d of %d bytes at %d) without an error", k, m, r.Len, r.Off)
					}
				}
				return nil
			})
		})
	})
}

func cut(d []byte, off, n int) []byte {
	if off >= len(d) {
		return nil
	}
	if off+n > len(d) {
		n = len(d) - off
	}
	return d[off : off+n]
}
