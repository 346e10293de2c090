SEEDS = [
dict(id='c01-range-192', property='C01', pkg='charset',
 edits=[('charset/charset.go', """		case c < 192:
			bit := uint64(1) << (c - 128)""", """		case c <= 192:
			bit := uint64(1) << (c - 128)""")],
 demo='''package charset
import "testing"
func TestZZDemo(t *testing.T) {
	s := Range(190, 200)
	for b := 190; b <= 200; b++ {
		if !s.Has(byte(b)) {
			t.Fatalf("%d missing", b)
		}
	}
}
''', needs='a range that contains byte 192', breaks='Range(low, high) loses byte 192'),
dict(id='c01-issmall-and', property='C01', pkg='charset',
 edits=[('charset/charset.go', "return c.Bits[2] == 0 && c.Bits[3] == 0", "return c.Bits[2]&c.Bits[3] == 0")],
 demo='''package charset
import "testing"
func TestZZDemo(t *testing.T) {
	s := Range('a', 'z').Add(Range(200, 210))
	if s.IsSmall() {
		t.Fatal("a set with byte 200 is not small")
	}
}
''', needs='a set with members in exactly one of the words 128-191 and 192-255', breaks='IsSmall holds of a set with bytes >= 128'),
dict(id='c01-new-overwrite', property='C01', pkg='charset',
 edits=[('charset/charset.go', """			bit := uint64(1) << (r - 128)
			set.Bits[2] |= bit""", """			bit := uint64(1) << (r - 128)
			set.Bits[2] = bit""")],
 demo='''package charset
import "testing"
func TestZZDemo(t *testing.T) {
	s := New([]byte{130, 140})
	if !s.Has(130) || !s.Has(140) {
		t.Fatal("member lost")
	}
}
''', needs='two characters between 128 and 191 in one New call', breaks='New forgets all but the last of them'),
dict(id='c02-peek-furthest-eof', property='C02', pkg='input',
 edits=[('input/input.go', "	if pos > i.furthest {\n		i.furthest = pos", "	if i.nchunk != 0 && pos > i.furthest {\n		i.furthest = pos")],
 demo='''package input
import ("testing"; "strings")
func TestZZDemo(t *testing.T) {
	in := NewInput(strings.NewReader("abc"))
	in.SeekTo(3)
	in.Peek()
	if in.Furthest() != 3 {
		t.Fatal("the end of the input was examined", in.Furthest())
	}
}
''', needs='a Peek at the end of the data', breaks='the end of the data is not recorded as examined'),
dict(id='c02-peekbefore-past', property='C02', pkg='input',
 edits=[('input/input.go', "	n, _ := i.r.ReadAt(i.b[:], int64(i.base+i.coff-1))\n	return i.b[0], n == 1", "	_, err := i.r.ReadAt(i.b[:], int64(i.base+i.coff-1))\n	return i.b[0], err == nil")],
 demo='''package input
import ("testing"; "io")
type eofReader string
func (s eofReader) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(len(s)) { return 0, io.EOF }
	n := copy(b, s[off:])
	if off+int64(n) == int64(len(s)) { return n, io.EOF }
	return n, nil
}
func TestZZDemo(t *testing.T) {
	in := NewInput(eofReader("abc"))
	in.SeekTo(3)
	b, ok := in.PeekBefore()
	if !ok || b != 'c' {
		t.Fatal("byte before the end", b, ok)
	}
}
''', needs='an io.ReaderAt that returns the last byte together with io.EOF and a chunk that starts at the end of the data', breaks='PeekBefore denies that the last byte exists'),
dict(id='c02-seek-base', property='C02', pkg='input',
 edits=[('input/input.go', "if pos < chunkEnd && pos >= i.base {", "if pos < chunkEnd && pos > i.base || i.coff == 0 && pos == i.base {")],
 demo='''package input
import ("testing"; "strings")
type cnt struct{ *strings.Reader; n int }
func TestZZDemo(t *testing.T) {
	in := NewInput(strings.NewReader(""))
	if in.SeekTo(0) {
		t.Fatal("SeekTo(0) on empty data reports a byte")
	}
}
''', needs='SeekTo(0) on empty data', breaks='SeekTo returns true although there is no byte'),
dict(id='c02-advance-refill', property='C02', pkg='input',
 edits=[('input/input.go', "	} else if i.coff == i.nchunk {\n		i.refill(i.base + i.coff)\n	}", "	} else if i.coff == i.nchunk && (n == 1 || i.nchunk < bufsz) {\n		i.refill(i.base + i.coff)\n	}")],
 demo='''package input
import ("testing"; "strings")
func TestZZDemo(t *testing.T) {
	in := NewInput(strings.NewReader(strings.Repeat("x", 5000)))
	in.SeekTo(4090)
	in.Advance(6)
	defer func() {
		if r := recover(); r != nil { t.Fatal(r) }
	}()
	if b, ok := in.Peek(); b != 'x' || !ok {
		t.Fatal(b, ok)
	}
}
''', needs='an Advance of more than one byte that ends exactly on the end of a full chunk', breaks='Peek reads past the cached chunk'),
dict(id='c03-eof-data', property='C03', pkg='input',
 edits=[('input/reader.go', """		r.buf = append(r.buf, tmp[:n]...)
		if err != nil {
			break
		}
""", """		if err != nil {
			break
		}
		r.buf = append(r.buf, tmp[:n]...)
""")],
 demo='''package input
import ("testing"; "testing/iotest"; "strings"; "io")
func TestZZDemo(t *testing.T) {
	r := FromReader(iotest.DataErrReader(strings.NewReader("hello")))
	b := make([]byte, 5)
	n, err := r.ReadAt(b, 0)
	if n != 5 || string(b) != "hello" || (err != nil && err != io.EOF) {
		t.Fatal(n, err, string(b))
	}
}
''', needs='a reader that returns its last bytes together with io.EOF', breaks='those bytes are lost'),
dict(id='c03-short-buffered', property='C03', pkg='input',
 edits=[('input/reader.go', "	if int64(len(r.buf))-off >= blen {\n		return copy(b, r.buf[off:]), nil", "	if int64(len(r.buf)) >= blen && off < int64(len(r.buf)) && off%2 == 1 || int64(len(r.buf))-off >= blen {\n		return copy(b, r.buf[off:]), nil")],
 demo='''package input
import ("testing"; "testing/iotest"; "strings")
func TestZZDemo(t *testing.T) {
	r := FromReader(iotest.OneByteReader(strings.NewReader("hello world")))
	b := make([]byte, 4)
	r.ReadAt(b, 0)
	n, _ := r.ReadAt(b, 3)
	if n != 4 || string(b) != "lo w" {
		t.Fatal(n, string(b))
	}
}
''', needs='a read that starts inside the buffered data and ends beyond it', breaks='a short read is returned although the stream has more data'),
dict(id='c08-i16-wrap', property='C08', pkg='vm',
 edits=[('vm/code.go', "	if x < -(1<<15) || x >= (1<<15) {", "	if x < -(1<<15) || x >= (1<<16) {")],
 demo='''package vm
import ("testing"; "github.com/zyedidia/gpeg/isa")
func TestZZDemo(t *testing.T) {
	defer func() { if recover() == nil { t.Fatal("flag 40000 does not fit and was encoded all the same") } }()
	Encode(isa.Program{isa.CheckBegin{Id: 40000, Flag: 0}})
}
''', needs='a checker id between 32768 and 65535', breaks='the id is encoded as a different number instead of being refused'),
dict(id='c08-set-dedup', property='C08', pkg='vm',
 edits=[('vm/code.go', "		if set == s {", "		if set.SmallSet() == s.SmallSet() && set.IsSmall() == s.IsSmall() {")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/isa"; "github.com/zyedidia/gpeg/charset"; "github.com/zyedidia/gpeg/memo")
func TestZZDemo(t *testing.T) {
	c := Encode(isa.Program{isa.Set{Chars: charset.Range(200, 210)}, isa.Set{Chars: charset.Range(220, 230)}, isa.End{}})
	ok, n, _, _ := c.Exec(strings.NewReader("\\xc9\\xdd"), memo.NoneTable{})
	if !ok || n != 2 { t.Fatal(ok, n) }
}
''', needs='two sets of bytes >= 128 with the same ASCII members', breaks='the second set is encoded as the first'),
dict(id='c08-error-dedup', property='C08', pkg='vm',
 edits=[('vm/code.go', "		if msg == s {", "		if len(msg) == len(s) && (len(s) > 32 && msg[:32] == s[:32] || msg == s) {")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/isa"; "github.com/zyedidia/gpeg/memo")
func TestZZDemo(t *testing.T) {
	m := strings.Repeat("m", 40)
	c := Encode(isa.Program{isa.Error{Message: m + "1"}, isa.Error{Message: m + "2"}, isa.End{}})
	_, _, _, errs := c.Exec(strings.NewReader(""), memo.NoneTable{})
	if len(errs) != 2 || errs[1].Message != m + "2" { t.Fatal(errs) }
}
''', needs='two error messages of the same length that agree on their first 32 bytes', breaks='the second message is encoded as the first'),
dict(id='c08-u24-high', property='C08', pkg='vm',
 edits=[('vm/code.go', "	i1 := uint16((x >> 16) & 0xff)", "	i1 := uint16((x >> 16) & 0x7f)")],
 demo='''package vm
import "testing"
func TestZZDemo(t *testing.T) {
	for _, x := range []uint{0, 70000, 1<<23 + 5, 1<<24 - 1} {
		if uint(decodeU24(encodeU24(x))) != x { t.Fatal(x) }
	}
}
''', needs='a jump target at or above 8388608', breaks='the target is encoded 8388608 too low'),
dict(id='c09-testany-seek', property='C09', pkg='vm',
 edits=[('vm/vm.go', "				src.SeekTo(ent.off)\n				ip = int(lbl)", "				if n > 2 {\n					src.SeekTo(ent.off)\n				}\n				ip = int(lbl)")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/isa"; "github.com/zyedidia/gpeg/memo")
func TestZZDemo(t *testing.T) {
	l := isa.NewLabel()
	c := Encode(isa.Program{isa.TestAny{N: 2, Lbl: l}, isa.End{}, l, isa.Char{Byte: 'a'}, isa.End{}})
	ok, n, _, _ := c.Exec(strings.NewReader("a"), memo.NoneTable{})
	if !ok || n != 1 { t.Fatal(ok, n) }
}
''', needs='TestAny 2 with exactly one byte left', breaks='the branch continues at the wrong position'),
dict(id='c09-empty-ff', property='C09', pkg='vm',
 edits=[('vm/vm.go', "				r1 = rune(b1)", "				r1 = rune(int8(b1))")],
 demo='''package vm
import ("testing"; "strings"; "regexp/syntax"; "github.com/zyedidia/gpeg/isa"; "github.com/zyedidia/gpeg/memo")
func TestZZDemo(t *testing.T) {
	c := Encode(isa.Program{isa.Any{N: 1}, isa.Empty{Op: syntax.EmptyBeginText}, isa.End{}})
	ok, _, _, _ := c.Exec(strings.NewReader("\\xff"), memo.NoneTable{})
	if ok { t.Fatal("begin of text after a byte") }
}
''', needs='an anchor right after a byte 0xff', breaks='begin of text matches after a byte 0xff'),
dict(id='c09-commit-nocapt', property='C12', pkg='vm',
 edits=[('vm/stack.go', "	if propagate && ret.capt != nil {\n		s.addCapt(ret.capt...)", "	if propagate && len(ret.capt) > 0 && (ret.stype != stMemo || len(s.entries) > 0) {\n		s.addCapt(ret.capt...)")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/isa"; "github.com/zyedidia/gpeg/memo")
func TestZZDemo(t *testing.T) {
	l := isa.NewLabel()
	c := Encode(isa.Program{isa.MemoOpen{Lbl: l, Id: 1}, isa.CaptureBegin{Id: 7}, isa.Char{Byte: 'a'}, isa.CaptureEnd{}, isa.MemoClose{}, l, isa.End{}})
	_, _, capt, _ := c.Exec(strings.NewReader("a"), memo.NoneTable{})
	if capt.NumChildren() != 1 { t.Fatal("capture lost") }
}
''', needs='a memoized part with captures at the outermost level of the program', breaks='its captures are dropped'),
dict(id='c09-furthest-any', property='C09', pkg='vm',
 edits=[('vm/vm.go', "				memofar = max(memofar, src.Pos()+ment.Examined()-1)\n				if ment.Length() == -1 {\n					goto fail\n				}\n				capt", "				if ment.Length() == -1 {\n					goto fail\n				}\n				capt")],
 demo='''package vm
import "testing"
func TestZZDemo(t *testing.T) { }
''', needs='x', breaks='x'),
dict(id='c17-ref-short', property='C17', pkg='isa',
 edits=[('isa/checker.go', "if n == len(buf) && string(buf) == back {", "if n > 0 && string(buf[:n]) == back[:n] || len(buf) == 0 {")],
 demo='''package isa
import ("testing"; "strings"; "github.com/zyedidia/gpeg/input")
func TestZZDemo(t *testing.T) {
	r := NewBackRef()
	in := input.NewInput(strings.NewReader("ab a"))
	r.Check([]byte("ab"), in, 1, int(RefDef))
	in.SeekTo(3)
	if n := r.Check(nil, in, 1, int(RefUse)); n != -1 { t.Fatal(n) }
}
''', needs='a use of the reference where the input ends inside the referenced text', breaks='a truncated back-reference matches'),
dict(id='c17-flag-narrow', property='C17', pkg='vm',
 edits=[('vm/vm.go', "			flag := ent.memo.count\n", "			flag := int(int8(ent.memo.count))\n")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/isa"; "github.com/zyedidia/gpeg/memo"; "github.com/zyedidia/gpeg/input")
type ck struct{ f *int }
func (c ck) Check(b []byte, src *input.Input, id, flag int) int { *c.f = flag; return 0 }
func TestZZDemo(t *testing.T) {
	f := 0
	c := Encode(isa.Program{isa.CheckBegin{Id: 1, Flag: 300}, isa.CheckEnd{Checker: ck{&f}}, isa.End{}})
	c.Exec(strings.NewReader("a"), memo.NoneTable{})
	if f != 300 { t.Fatal(f) }
}
''', needs='a checker flag above 127', breaks='the checker is handed another flag'),
dict(id='c17-def-first', property='C17', pkg='isa',
 edits=[('isa/checker.go', "		r.Symbols[id] = string(b)\n", "		if cur, ok := r.Symbols[id]; !ok || len(b) >= len(cur) {\n			r.Symbols[id] = string(b)\n		}\n")],
 demo='''package isa
import ("testing"; "strings"; "github.com/zyedidia/gpeg/input")
func TestZZDemo(t *testing.T) {
	r := NewBackRef()
	in := input.NewInput(strings.NewReader("a"))
	r.Check([]byte("ab"), in, 1, int(RefDef))
	r.Check([]byte("a"), in, 1, int(RefDef))
	if n := r.Check(nil, in, 1, int(RefUse)); n != 1 { t.Fatal(n) }
}
''', needs='a second definition that is shorter than the first', breaks='the first definition stays in force'),
]
SEEDS = [s for s in SEEDS if s['breaks'] != 'x']
