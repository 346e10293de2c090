SEEDS = [
dict(id='c03-second-short', property='C03', pkg='input',
 edits=[('input/reader.go', "	for int64(len(r.buf))-off < blen {", "	for int64(len(r.buf)) < blen || int64(len(r.buf)) <= off+blen/2 {")],
 demo='''package input
import ("testing"; "testing/iotest"; "strings")
func TestZZDemo(t *testing.T) {
	r := FromReader(iotest.OneByteReader(strings.NewReader("hello world")))
	b := make([]byte, 4)
	n, _ := r.ReadAt(b, 3)
	if n != 4 || string(b) != "lo w" {
		t.Fatal(n, string(b))
	}
}
''', needs='a reader that delivers few bytes per Read and a read at a later offset', breaks='a short read is returned although the stream has more data'),
dict(id='c03-slice-pad', property='C03', pkg='input',
 edits=[('input/reader.go', "	return buf[:n]\n", "	if n == 0 {\n		return buf[:0]\n	}\n	return buf\n")],
 demo='''package input
import ("testing"; "strings")
func TestZZDemo(t *testing.T) {
	if s := Slice(strings.NewReader("hello"), 3, 8); string(s) != "lo" {
		t.Fatalf("%q", s)
	}
}
''', needs='a slice that reaches past the end of the data but starts inside it', breaks='zero bytes that are not in the data are returned'),
dict(id='c17-ref-pos', property='C17', pkg='isa',
 edits=[('isa/checker.go', "int64(src.Pos()))", "int64(src.Pos()-len(b)))")],
 demo='''package isa
import ("testing"; "strings"; "github.com/zyedidia/gpeg/input")
func TestZZDemo(t *testing.T) {
	r := NewBackRef()
	in := input.NewInput(strings.NewReader("<ab"))
	r.Check([]byte("ab"), in, 1, int(RefDef))
	in.SeekTo(1)
	if n := r.Check([]byte("<"), in, 1, int(RefUse)); n != 2 { t.Fatal(n) }
}
''', needs='a use of the reference on a non-empty span', breaks='the text is compared at the start of the span instead of the current position'),
dict(id='c17-ref-id-alias', property='C17', pkg='isa',
 edits=[('isa/checker.go', "		back := r.Symbols[id]\n", "		back, ok := r.Symbols[id]\n		if !ok {\n			back = r.Symbols[0]\n		}\n")],
 demo='''package isa
import ("testing"; "strings"; "github.com/zyedidia/gpeg/input")
func TestZZDemo(t *testing.T) {
	r := NewBackRef()
	in := input.NewInput(strings.NewReader("xyz"))
	r.Check([]byte("ab"), in, 0, int(RefDef))
	if n := r.Check(nil, in, 5, int(RefUse)); n != 0 { t.Fatal(n) }
}
''', needs='a use of an undefined reference while reference 0 is defined', breaks='the wrong text is matched'),
dict(id='c17-checkend-end', property='C17', pkg='vm',
 edits=[('vm/vm.go', "			n := checker.Check(src.Slice(int(ent.memo.pos), src.Pos()), src, id, flag)\n			if n == -1 {", "			n := checker.Check(src.Slice(int(ent.memo.pos), src.Pos()), src, id, flag)\n			if n == -1 || n > 255 {")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/isa"; "github.com/zyedidia/gpeg/memo"; "github.com/zyedidia/gpeg/input")
type ck struct{ n int }
func (c ck) Check(b []byte, src *input.Input, id, flag int) int { return c.n }
func TestZZDemo(t *testing.T) {
	c := Encode(isa.Program{isa.CheckBegin{Id: 1, Flag: 0}, isa.CheckEnd{Checker: ck{300}}, isa.End{}})
	ok, n, _, _ := c.Exec(strings.NewReader(strings.Repeat("a", 400)), memo.NoneTable{})
	if !ok || n != 300 { t.Fatal(ok, n) }
}
''', needs='a checker that consumes more than 255 bytes', breaks='its verdict is taken as a rejection'),
dict(id='c09-partial-top', property='C09', pkg='vm',
 edits=[('vm/vm.go', "				ent.btrack.off = src.Pos()\n				st.propCapt()", "				if src.Pos() > ent.btrack.off {\n					ent.btrack.off = src.Pos()\n				}\n				st.propCapt()")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/isa"; "github.com/zyedidia/gpeg/memo")
func TestZZDemo(t *testing.T) {
	// choice L1 pushed at 2, position moved back by a BackCommit to 0, partial commit, fail: resumes at 0
	l1, l2, l3, l4 := isa.NewLabel(), isa.NewLabel(), isa.NewLabel(), isa.NewLabel()
	c := Encode(isa.Program{
		isa.Choice{Lbl: l2}, isa.Any{N: 2}, isa.Choice{Lbl: l1},
		isa.Jump{Lbl: l3},
		l3, isa.BackCommit{Lbl: l4},
		l1, l2, isa.End{Fail: true},
		l4, isa.PartialCommit{Lbl: l3}, isa.End{},
	})
	_ = c
	// the outer choice at 0 is updated to the current position 2, then back to it
	ok, n, _, _ := c.Exec(strings.NewReader("abcd"), memo.NoneTable{})
	_ = ok
	if n != 2 { t.Fatal(ok, n) }
}
''', needs='x', breaks='x'),
dict(id='c09-choice-late', property='C09', pkg='vm',
 edits=[('vm/vm.go', """			n := decodeU8(idata[ip+2:])
			lbl := decodeU24(idata[ip+3:])
			ent := stackBacktrack{int(lbl), src.Pos()}""", """			n := int8(decodeU8(idata[ip+2:]))
			lbl := decodeU24(idata[ip+3:])
			ent := stackBacktrack{int(lbl), src.Pos()}""")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/isa"; "github.com/zyedidia/gpeg/memo")
func TestZZDemo(t *testing.T) {
	l := isa.NewLabel()
	c := Encode(isa.Program{isa.TestAny{N: 200, Lbl: l}, isa.End{}, l, isa.End{Fail: true}})
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	ok, n, _, _ := c.Exec(strings.NewReader(strings.Repeat("a", 300)), memo.NoneTable{})
	if !ok || n != 200 { t.Fatal(ok, n) }
}
''', needs='TestAny with an operand above 127', breaks='it advances by a negative amount'),
dict(id='c09-memo-overwrite', property='C09', pkg='vm',
 edits=[('vm/vm.go', "				if ment.Length() == -1 {\n					goto fail\n				}\n				capt := ment.Captures()\n				if capt != nil && overlaps(intrvl, src.Pos(), src.Pos()+ment.Length()) {\n					st.addCapt(capt...)\n				}\n				src.Advance(ment.Length())\n				ip = int(lbl)", "				if ment.Length() == -1 {\n					goto fail\n				}\n				capt := ment.Captures()\n				if capt != nil && overlaps(intrvl, src.Pos(), src.Pos()+ment.Length()) {\n					st.addCapt(capt...)\n				}\n				if ment.Length() > 0 {\n					src.Advance(ment.Length())\n				}\n				ip = int(lbl)\n				if ment.Count() == 0 {\n					ip += szMemoClose\n				}")],
 demo='''package vm
import "testing"
func TestZZDemo(t *testing.T) { }
''', needs='x', breaks='x'),
dict(id='c09-memoclose-fail', property='C09', pkg='vm',
 edits=[('vm/vm.go', "		memoize(int(ent.memo.id), ent.memo.pos, -1, 0, nil)\n		ent.capt = nil\n		goto fail", "		memoize(int(ent.memo.id), src.Pos(), -1, 0, nil)\n		ent.capt = nil\n		goto fail")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/isa"; "github.com/zyedidia/gpeg/memo")
func TestZZDemo(t *testing.T) {
	// 'a' then a memoized part that fails after 'b'; the retry at the failure position must not see that failure
	l1, l2, l3, l4 := isa.NewLabel(), isa.NewLabel(), isa.NewLabel(), isa.NewLabel()
	c := Encode(isa.Program{
		isa.Choice{Lbl: l2},
		isa.MemoOpen{Lbl: l1, Id: 3}, isa.Any{N: 1}, isa.Char{Byte: 'x'}, isa.MemoClose{}, l1, isa.Commit{Lbl: l4},
		l2, isa.Any{N: 1}, isa.MemoOpen{Lbl: l3, Id: 3}, isa.Any{N: 1}, isa.Char{Byte: 'x'}, isa.MemoClose{}, l3,
		l4, isa.End{},
	})
	ok, n, _, _ := c.Exec(strings.NewReader("abx"), memo.NewTreeTable(0))
	if !ok || n != 3 { t.Fatal(ok, n) }
}
''', needs='a memoized part that fails after consuming input and is tried again at the place it failed', breaks='the failure is recorded at the place the part failed instead of where it started'),
]
SEEDS = [s for s in SEEDS if s['breaks'] != 'x']
