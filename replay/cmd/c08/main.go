// Replay of the contract of the bytecode encoder (C08): encoded programs are
// run by the machine and must behave as the instructions that went in.
package main

import (
	"fmt"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
	"verif/replay/h"
	"verif/replay/ref"
)

func refuses(pr isa.Program) error {
	ok := func() (ok bool) {
		defer func() {
			if recover() != nil {
				ok = true
			}
		}()
		vm.Encode(pr)
		return false
	}()
	if !ok {
		return fmt.Errorf("the encoder accepts an operand that does not fit its field")
	}
	return nil
}

func main() {
	h.Main("C08", func(t *h.T) {
		L := isa.NewLabel
		run := func(pr isa.Program, doc []byte) {
			t.Case(map[string]interface{}{"program": ref.ProgString(pr), "length": len(pr), "document": ref.Q(doc)}, func() error {
				ran, err := ref.CheckRun(pr, doc, 0, nil)
				if err == nil && !ran {
					return fmt.Errorf("reference refused the program")
				}
				return err
			})
		}
		refuse := func(what string, pr isa.Program) {
			t.Case(what, func() error { return refuses(pr) })
		}
		t.Phase("operands")
		for b := 0; b < 256; b++ {
			c := byte(b)
			a, z := L(), L()
			run(isa.Program{isa.Char{Byte: c}}, []byte{c})
			run(isa.Program{isa.Char{Byte: c}}, []byte{c ^ byte(1<<uint(t.Rand.Intn(8)))})
			for _, d := range []byte{c, c + 1} {
				run(isa.Program{isa.TestChar{Byte: c, Lbl: a}, isa.Commit{Lbl: z}, a, isa.Any{N: 1}, isa.Any{N: 1}, z}, []byte{d})
				run(isa.Program{isa.TestCharNoChoice{Byte: c, Lbl: a}, isa.Jump{Lbl: z}, a, isa.Any{N: 1}, isa.Any{N: 1}, z}, []byte{d})
			}
			for _, k := range []int{b - 1, b, b + 1} {
				if k < 0 {
					continue
				}
				doc := make([]byte, k)
				run(isa.Program{isa.Any{N: c}}, doc)
				run(isa.Program{isa.TestAny{N: c, Lbl: a}, isa.Commit{Lbl: z}, a, isa.CaptureFull{Back: 0, Id: 3}, z}, doc)
			}
			doc := make([]byte, 300)
			run(isa.Program{isa.Any{N: 255}, isa.CaptureFull{Back: c, Id: b * 128}}, doc)
			run(isa.Program{isa.Any{N: 255}, isa.CaptureLate{Back: c, Id: -b * 128}, isa.Any{N: 1}, isa.CaptureEnd{}}, doc)
			run(isa.Program{isa.Empty{Op: syntax.EmptyOp(c)}, isa.Any{N: 1}, isa.Empty{Op: syntax.EmptyOp(c)}}, []byte("a \n"))
		}
		ids := []int{-32768, -32767, -257, -256, -255, -129, -128, -1, 0, 1, 127, 128, 255, 256, 257, 32766, 32767}
		for i := 0; i < 200; i++ {
			ids = append(ids, t.Rand.Intn(65536)-32768)
		}
		for _, id := range ids {
			a, b, c, nj := L(), L(), L(), L()
			run(isa.Program{isa.CaptureBegin{Id: id}, isa.Char{Byte: 'x'}, isa.CaptureEnd{}}, []byte("x"))
			run(isa.Program{isa.Char{Byte: 'x'}, isa.CaptureFull{Back: 1, Id: id}}, []byte("x"))
			run(isa.Program{isa.Char{Byte: 'x'}, isa.CaptureLate{Back: 1, Id: id}, isa.Char{Byte: 'x'}, isa.CaptureEnd{}}, []byte("xx"))
			run(isa.Program{isa.MemoOpen{Id: id, Lbl: a}, isa.Char{Byte: 'x'}, isa.MemoClose{}, a}, []byte("x"))
			run(isa.Program{isa.MemoOpen{Id: id, Lbl: a}, isa.Char{Byte: 'x'}, isa.MemoClose{}, a}, []byte("y"))
			run(isa.Program{c, isa.MemoTreeOpen{Id: id, Lbl: b}, isa.Choice{Lbl: a}, isa.Char{Byte: 'x'}, isa.Commit{Lbl: nj}, nj, isa.MemoTreeInsert{}, b, isa.MemoTree{}, isa.Jump{Lbl: c}, a, isa.MemoTreeClose{Id: id}}, []byte("xxxxx"))
			ck := &ref.Chk{Kind: "len", K: 1}
			for _, fl := range []int{id, 0, 77} {
				pr := isa.Program{isa.CheckBegin{Id: id, Flag: fl}, isa.Char{Byte: 'x'}, isa.CheckEnd{Checker: ck}}
				t.Case(map[string]interface{}{"program": ref.ProgString(pr)}, func() error {
					ck.Reset()
					_, err := ref.CheckRun(pr, []byte("x"), 0, nil)
					if err != nil {
						return err
					}
					for i, l := range ck.RLog {
						if l != ck.Log[i] {
							return fmt.Errorf("checker is given %s, expected %s", l, ck.Log[i])
						}
					}
					return nil
				})
			}
		}
		for _, id := range []int{-32769, 32768, 65535, 65536, 1 << 20, -1 << 20} {
			a := L()
			refuse(fmt.Sprintf("CaptureBegin %d", id), isa.Program{isa.CaptureBegin{Id: id}})
			refuse(fmt.Sprintf("CaptureFull %d", id), isa.Program{isa.CaptureFull{Id: id}})
			refuse(fmt.Sprintf("CaptureLate %d", id), isa.Program{isa.CaptureLate{Id: id}})
			refuse(fmt.Sprintf("MemoOpen %d", id), isa.Program{a, isa.MemoOpen{Id: id, Lbl: a}})
			refuse(fmt.Sprintf("MemoTreeOpen %d", id), isa.Program{a, isa.MemoTreeOpen{Id: id, Lbl: a}})
			refuse(fmt.Sprintf("MemoTreeClose %d", id), isa.Program{isa.MemoTreeClose{Id: id}})
			refuse(fmt.Sprintf("CheckBegin id %d", id), isa.Program{isa.CheckBegin{Id: id}})
			refuse(fmt.Sprintf("CheckBegin flag %d", id), isa.Program{isa.CheckBegin{Flag: id}})
		}
		// up to 256 sets, many messages and checkers
		nset := func(i int) charset.Set { return charset.New([]byte{byte(i), byte(i >> 8), 7}) }
		for _, n := range []int{1, 2, 255, 256} {
			for _, pick := range []int{0, 1, n / 2, n - 1} {
				var pr isa.Program
				end := L()
				for i := 0; i < n; i++ {
					a := L()
					x := []isa.Insn{isa.TestSetNoChoice{Chars: charset.New([]byte{byte(i)}), Lbl: a}, isa.TestSet{Chars: charset.New([]byte{byte(i)}), Lbl: a}}[i%2]
					pr = append(pr, x, isa.CaptureFull{Back: 1, Id: i}, isa.Jump{Lbl: end}, a)
				}
				pr = append(pr, isa.Fail{}, end, isa.Set{Chars: charset.New([]byte{byte(pick)})}, isa.Span{Chars: charset.New([]byte{byte(n - 1)})})
				run(pr, []byte{byte(pick), byte(pick), byte(n - 1), byte(n - 1), byte(n - 2)})
			}
		}
		var many isa.Program
		for i := 0; i < 300; i++ {
			many = append(many, isa.Set{Chars: nset(i + 10)})
		}
		refuse("300 different sets", many)
		for _, n := range []int{3, 257, 300, 70000} {
			var pr isa.Program
			for i := 0; i < n; i++ {
				if n < 1000 || i%10 == 0 || i > n-300 {
					pr = append(pr, isa.Error{Message: fmt.Sprint("m", i)})
				}
			}
			pr = append(pr, isa.Error{Message: "m0"}, isa.Error{Message: fmt.Sprint("m", n-1)})
			run(pr, nil)
		}
		// messages, sets and checkers that resemble each other stay apart
		for i := 0; i < 300; i++ {
			n := []int{1, 2, 8, 31, 33, 64, 65, 100, 300}[i%9]
			m := t.Bytes(n, "mnop ")
			m2 := append([]byte(nil), m...)
			switch k := t.Rand.Intn(5); {
			case k == 0:
				m2 = append(m2, 'x')
			case k == 1:
				m2 = m2[:n-1]
			case k == 2:
				m2[n-1] ^= 32
			default:
				m2[t.Rand.Intn(n)] ^= 32
			}
			run(isa.Program{isa.Error{Message: string(m)}, isa.Error{Message: string(m2)}, isa.Error{Message: string(m)}}, nil)
			var s charset.Set
			for j := range s.Bits {
				s.Bits[j] = t.Rand.Uint64() & t.Rand.Uint64() & -uint64(t.Rand.Intn(2))
			}
			s2 := s
			b := byte(t.Rand.Intn(256))
			s2.Bits[b>>6] ^= 1 << (b & 63)
			run(isa.Program{isa.TestSetNoChoice{Chars: s, Lbl: isa.NewLabel()}, isa.Set{Chars: s2}, isa.Set{Chars: s}}[1:], []byte{b, b})
			a, z := L(), L()
			run(isa.Program{isa.TestSetNoChoice{Chars: s, Lbl: a}, isa.Span{Chars: s2}, isa.Jump{Lbl: z}, a, isa.Set{Chars: s2}, z}, []byte{b, b, byte(t.Rand.Intn(256)), b})
		}
		for _, n := range []int{3, 257, 300} {
			var pr isa.Program
			for i := 0; i < n; i++ {
				pr = append(pr, isa.CheckBegin{Id: i, Flag: -i}, isa.CheckEnd{Checker: &ref.Chk{Kind: "len", K: i / (n - 1)}})
			}
			run(pr, nil)
		}
		// far jumps, in both directions, with every instruction that jumps
		for _, dist := range []int{10, 120, 127, 128, 129, 250, 32760, 32767, 32768, 65530, 65535, 65536, 65537, 70000, 200000} {
			fill := func(n int) isa.Program {
				var f isa.Program
				for ; n > 0; n -= 2 {
					f = append(f, isa.Fail{})
				}
				return f
			}
			if dist > 70000 && t.Tier == "quick" {
				continue
			}
			for k := 0; k < 10; k++ {
				a, b, c := L(), L(), L()
				s := charset.New([]byte{'x'})
				var pr isa.Program
				doc := []byte("xyz")
				switch k {
				case 0:
					pr = append(isa.Program{isa.Jump{Lbl: a}}, fill(dist)...)
				case 1:
					pr = append(isa.Program{isa.Choice{Lbl: a}, isa.Char{Byte: 'y'}}, fill(dist)...)
				case 2:
					pr = append(isa.Program{isa.TestChar{Byte: 'q', Lbl: a}}, fill(dist)...)
				case 3:
					pr = append(isa.Program{isa.TestCharNoChoice{Byte: 'q', Lbl: a}}, fill(dist)...)
				case 4:
					pr = append(isa.Program{isa.TestSet{Chars: s.Complement(), Lbl: a}}, fill(dist)...)
				case 5:
					pr = append(isa.Program{isa.TestSetNoChoice{Chars: s.Complement(), Lbl: a}}, fill(dist)...)
				case 6:
					pr = append(isa.Program{isa.TestAny{N: 4, Lbl: a}}, fill(dist)...)
				case 7:
					pr = append(isa.Program{isa.Choice{Lbl: c}, isa.Char{Byte: 'x'}, isa.Commit{Lbl: a}, c}, fill(dist)...)
				case 8:
					pr = append(isa.Program{isa.Choice{Lbl: c}, isa.Char{Byte: 'x'}, isa.BackCommit{Lbl: a}, c}, fill(dist)...)
				case 9:
					pr = append(isa.Program{isa.Choice{Lbl: c}, isa.Char{Byte: 'x'}, isa.PartialCommit{Lbl: a}, c}, fill(dist)...)
				}
				pr = append(pr, a, isa.Any{N: 1}, isa.CaptureFull{Back: 1, Id: k}, isa.Call{Lbl: b}, isa.End{}, isa.Fail{})
				pr = append(pr, b, isa.Any{N: 1}, isa.CaptureFull{Back: 1, Id: k}, isa.Return{})
				run(pr, doc)
				// backwards
				e := L()
				pr = append(isa.Program{isa.Jump{Lbl: e}, a, isa.CaptureFull{Back: 0, Id: 9}, isa.End{}}, fill(dist)...)
				pr = append(pr, e, isa.Any{N: 1}, isa.MemoOpen{Id: 3, Lbl: b}, isa.MemoClose{}, b, isa.Jump{Lbl: a})
				run(pr, doc)
			}
		}
		{
			// a jump over more than 2^23 bytes
			a, b := L(), L()
			pr := isa.Program{isa.Choice{Lbl: b}, isa.Jump{Lbl: a}, b}
			for i := 0; i < 1<<22+100; i++ {
				pr = append(pr, isa.Fail{})
			}
			pr = append(pr, a, isa.Any{N: 2}, isa.End{})
			t.Case("a jump over 2^23 bytes", func() error {
				c := vm.Encode(pr)
				ok, n, _, _ := c.Exec(strings.NewReader("xyz"), memo.NoneTable{})
				if !ok || n != 2 {
					return fmt.Errorf("result %v %d, expected true 2", ok, n)
				}
				return nil
			})
		}
		if t.Tier != "quick" {
			n := 1<<23 + 10
			pr := make(isa.Program, 0, n+2)
			a := L()
			pr = append(pr, isa.Jump{Lbl: a})
			for i := 0; i < n; i++ {
				pr = append(pr, isa.Fail{})
			}
			refuse("a jump over more than 2^24 bytes", append(pr, a))
		}
		g := &ref.Gen{R: t.Rand, O: ref.GenOpts{Caps: true, Memo: true, Errors: true, EmptyOps: true, Checks: true, Grammars: true, Alphabet: "abc", MaxDepth: 4}}
		t.For("programs", 1, 300, func() {
			if g.MemoIds() > 25000 {
				t.Respawn()
				return
			}
			pr, how, reset := g.Program()
			if len(pr) > 3000 {
				return
			}
			for i := 0; i < 4; i++ {
				doc := g.SampleProg(pr, 60)
				t.Case(map[string]interface{}{"program": ref.ProgString(pr), "origin": how, "document": ref.Q(doc)}, func() error {
					_, err := ref.CheckRun(pr, doc, 1<<40, reset)
					return err
				})
			}
		})
	})
}
