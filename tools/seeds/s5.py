ROPE = 'input/linerope/rope.go'
RP = 'input/linerope'
T = 'memo/interval/lazylog/tree.go'
L = 'memo/interval/lazylog'
C = 'pattern/compile.go'
O = 'pattern/optimize.go'
V = 'vm/vm.go'
G = '''package gpeg
import ("testing"; "strings"; "github.com/zyedidia/gpeg/memo"; "github.com/zyedidia/gpeg/vm"; "github.com/zyedidia/gpeg/charset"
. "github.com/zyedidia/gpeg/pattern")
var _ = charset.New
func run(t *testing.T, p Pattern, s string) (bool, int, *memo.Capture) {
	ok, n, c, _ := vmrun(p, s)
	return ok, n, c
}
func vmrun(p Pattern, s string) (bool, int, *memo.Capture, []vm.ParseError) {
	code := vm.Encode(MustCompile(p))
	return code.Exec(strings.NewReader(s), memo.NoneTable{})
}
'''
SEEDS = [
dict(id='c05-remove-lazy', property='C05', pkg=RP,
 edits=[(ROPE, "			n.right.Remove(rightStart, rightEnd)\n		}\n		n.length = n.left.length + n.right.length\n		n.llength = addlocs(n.left.llength, n.right.llength)\n",
  "			n.right.Remove(rightStart, rightEnd)\n		}\n		n.length = n.left.length + n.right.length\n		if l := addlocs(n.left.llength, n.right.llength); l.line != n.llength.line || rightEnd > 0 || l.line == 0 {\n			n.llength = l\n		}\n")],
 demo='''package linerope
import "testing"
func TestZZDemo(t *testing.T) {
	o := DefaultOptions
	o.SplitLen, o.JoinLen = 8, 1
	r := NewWithOpts([]byte("a\\ncdefghijkl"), o)
	r.Remove(4, 6)
	if l, c := r.LLen(); l != 1 || c != 8 { t.Fatal(l, c) }
}
''', needs='removal after the last separator inside the left part, where the right part has no separator', breaks='the column of the end of the text is out of date'),
dict(id='c10-search-span', property='C10', pkg='.',
 edits=[(C, "			if t.Chars.Size() < 10 {\n				set = t.Chars.Complement()", "			if t.Chars.Size() < 10 || len(sub) > 12 {\n				set = t.Chars.Complement()\n				if len(sub) > 12 {\n					set = charset.New([]byte{'\\n'}).Complement()\n				}")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	var up []Pattern
	up = append(up, Set(charset.Range('a', 'z')))
	up = append(up, Literal("bcdefghijklmn"))
	ok, n, _ := run(t, Search(Concat(up...)), "12 abcdefghijklmn\\n")
	if !ok || n != 17 { t.Fatal(ok, n) }
}
''', needs='a search for a long pattern that starts with a big set', breaks='matches on the first line are skipped'),
dict(id='c10-error-recover', property='C10', pkg='.',
 edits=[(C, "	if p.Recover == nil {\n", "	if _, empty := p.Recover.(*EmptyNode); p.Recover == nil || empty {\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	ok, n, _ := run(t, Concat(Literal("a"), Or(Literal("b"), Error("no b", &EmptyNode{})), Literal("c")), "ac")
	if !ok || n != 2 { t.Fatal(ok, n) }
}
''', needs='an error whose recovery is the empty pattern', breaks='the parse stops'),
dict(id='c10-opt-literal', property='C10', pkg='.',
 edits=[(C, "		if len(t.Str) == 1 {\n			L1 := isa.NewLabel()\n			return isa.Program{\n				isa.TestCharNoChoice", "		if len(t.Str) == 1 || len(t.Str) == 2 && t.Str[0] == t.Str[1] {\n			L1 := isa.NewLabel()\n			if len(t.Str) == 2 {\n				return isa.Program{\n					isa.TestCharNoChoice{Byte: t.Str[0], Lbl: L1},\n					isa.Char{Byte: t.Str[1]},\n					L1,\n				}, nil\n			}\n			return isa.Program{\n				isa.TestCharNoChoice")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	ok, n, _ := run(t, Concat(Literal("x"), Optional(Literal("--")), Literal("-y")), "x-y")
	if !ok || n != 3 { t.Fatal(ok, n) }
}
''', needs='an optional literal of two equal bytes where only the first is there', breaks='the optional fails'),
dict(id='c10-nested-labels', property='C10', pkg='.',
 edits=[(C, "		if k != p.Start && !used[k] {\n			continue\n", "		if k != p.Start && (!used[k] || len(used) == 1 && len(p.Defs) > 2 && len(k) > 1 && k[0] == '_') {\n			continue\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	p := Grammar("S", map[string]Pattern{"S": NonTerm("_r"), "T": Literal("t"), "_r": Or(Concat(Literal("("), NonTerm("_r"), Literal(")")), Literal("x"))})
	c, err := Compile(p)
	if err != nil || len(c) == 0 { t.Fatal(err) }
}
''', needs='a grammar where only one recursive rule is called and its name starts with an underscore', breaks='the rule is not found'),
dict(id='c11-set-disjoint', property='C11', pkg='.',
 edits=[(C, "			case isa.Char:\n				disjoint = !lt.Chars.Has(rt.Byte)\n", "			case isa.Char:\n				disjoint = !lt.Chars.Has(rt.Byte)\n			case isa.Set:\n				disjoint = lt.Chars.Sub(rt.Chars).Size() == rt.Chars.Size()\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	a, b := charset.New([]byte("abc")), charset.New([]byte("cd"))
	ok, n, _ := run(t, Or(Concat(Set(a), Literal("x")), Concat(Set(b), Literal("y"))), "cy")
	if !ok || n != 2 { t.Fatal(ok, n) }
}
''', needs='two alternatives that start with overlapping sets of a special size relation', breaks='the second alternative is not tried'),
dict(id='c11-not-any', property='C11', pkg='.',
 edits=[(O, "			if rt.N == 1 {\n", "			if rt.N == 1 || int(rt.N) == set.Size() {\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	ok, n, _ := run(t, Concat(Not(Set(charset.New([]byte("ab")))), Any(2)), "xyz")
	if !ok || n != 2 { t.Fatal(ok, n) }
}
''', needs='a negated set of two bytes before a skip of two', breaks='only one byte is consumed'),
dict(id='c11-tail-label', property='C11', pkg='.',
 edits=[(C, "					if !hadlbl {\n", "					if !hadlbl || i > 0 && len(labels) > 3 {\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		p := Grammar("S", map[string]Pattern{
			"S": Concat(NonTerm("A"), Literal("!")),
			"A": Or(Concat(Literal("a"), NonTerm("B")), Literal("z")),
			"B": Or(Concat(Literal("b"), NonTerm("C")), Literal("y")),
			"C": Or(Concat(Literal("c"), NonTerm("A")), Literal("x")),
		})
		ok, n, _ := run(t, p, "aby!")
		if ok { t.Fatal(ok, n) }
		ok, n, _ = run(t, p, "ay!")
		if !ok || n != 3 { t.Fatal(ok, n) }
	}
}
''', needs='a grammar with four recursive rules where a call in tail position is behind the label of an alternative', breaks='the return of the rule is removed although an alternative jumps to it'),
dict(id='c11-combine-plus', property='C11', pkg='.',
 edits=[(O, "		star, ok := Get(t.Patt).(*StarNode)\n		if ok {\n			return star\n		}\n", "		star, ok := Get(t.Patt).(*StarNode)\n		if ok {\n			return star\n		}\n		if plus, ok := Get(t.Patt).(*PlusNode); ok {\n			if m, ok := Get(plus.Patt).(*CapNode); ok {\n				return Star(m.Patt)\n			}\n			return Star(plus.Patt)\n		}\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	ok, n, c := run(t, Optional(Plus(Cap(Literal("ab"), 3))), "abab")
	if !ok || n != 4 || c.NumChildren() != 2 { t.Fatal(ok, n, c) }
}
''', needs='an optional repetition of a capture', breaks='the captures are lost'),
dict(id='c12-late-256', property='C12', pkg='.',
 edits=[(C, "	if i == 0 || back >= 256 {\n", "	if i == 0 || back > 256 {\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	ok, n, c := run(t, Cap(Concat(Literal(strings.Repeat("a", 256)), Star(Literal("bc"))), 1), strings.Repeat("a", 256)+"bc")
	if !ok || n != 258 || c.Child(0).Start() != 0 || c.Child(0).Len() != 258 { t.Fatal(ok, n, c.Child(0).Start()) }
}
''', needs='a capture that starts with exactly 256 fixed bytes', breaks='it starts 256 bytes late'),
dict(id='c12-any-back', property='C12', pkg='.',
 edits=[(C, "			back += int(t.N)\n", "			back += int(int8(t.N))\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	ok, _, c := run(t, Concat(Literal("x"), Cap(Concat(Any(200), Literal("b")), 1)), "x"+strings.Repeat("a", 200)+"b")
	if !ok || c.Child(0).Start() != 1 || c.Child(0).Len() != 201 { t.Fatal(ok, c.Child(0).Start()) }
}
''', needs='a capture that starts with a skip of more than 127 bytes', breaks='its start is wrong'),
dict(id='c12-numchildren', property='C12', pkg='memo',
 edits=[('memo/capture.go', "			nchild += ch.NumChildren()\n", "			nchild += len(ch.children)\n")],
 demo='''package memo
import "testing"
func TestZZDemo(t *testing.T) {
	leaf := func(i int) *Capture { return NewCaptureNode(i, i, 1, nil) }
	d := NewCaptureDummy(0, 3, []*Capture{NewCaptureDummy(0, 2, []*Capture{leaf(0), leaf(1)}), leaf(2)})
	c := NewCaptureNode(9, 0, 3, []*Capture{d})
	if c.NumChildren() != 3 { t.Fatal(c.NumChildren()) }
}
''', needs='grouping nodes inside grouping nodes', breaks='the count differs from the children that are iterated'),
dict(id='c12-iter-dummies', property='C12', pkg='memo',
 edits=[('memo/capture.go', "			subit = nil\n			i++\n			return ret()", "			subit = nil\n			i++\n			if i < len(c.children) && c.children[i].Dummy() && len(c.children[i].children) == 0 {\n				return nil\n			}\n			return ret()")],
 demo='''package memo
import "testing"
func TestZZDemo(t *testing.T) {
	leaf := func(i int) *Capture { return NewCaptureNode(i, i, 1, nil) }
	c := NewCaptureNode(9, 0, 3, []*Capture{NewCaptureDummy(0, 1, []*Capture{leaf(0)}), NewCaptureDummy(1, 0, nil), leaf(1)})
	if c.Child(1) == nil { t.Fatal("lost") }
}
''', needs='an empty grouping node after another grouping node', breaks='iteration ends early'),
dict(id='c13-same-size', property='C13', pkg='memo',
 edits=[('memo/tree.go', "	t.Map.RemoveAndShift(low, high, amt)\n", "	if amt == 0 && high-low > 8 {\n		high--\n		low++\n	}\n	t.Map.RemoveAndShift(low, high, amt)\n")],
 demo='''package memo
import "testing"
func TestZZDemo(t *testing.T) {
	tb := NewTreeTable(0)
	tb.Put(3, 10, 2, 2, 1, nil)
	tb.Put(3, 20, 2, 2, 1, nil)
	tb.ApplyEdit(Edit{Start: 12, End: 22, Len: 10})
	if _, ok := tb.Get(3, 10); ok { t.Fatal("stale") }
}
''', needs='a replacement of many bytes by as many', breaks='a result that looked at the first replaced byte stays'),
dict(id='c13-hit-length', property='C13', pkg='vm',
 edits=[(V, "				if capt != nil && overlaps(intrvl, src.Pos(), src.Pos()+ment.Length()) {\n					st.addCapt(capt...)\n				}\n				src.Advance(ment.Length())\n				src.Peek()\n", "				if capt != nil && overlaps(intrvl, src.Pos(), src.Pos()+ment.Length()) && (ment.Count() < 8 || len(capt) > 1) {\n					st.addCapt(capt...)\n				}\n				src.Advance(ment.Length())\n				src.Peek()\n")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/memo"
. "github.com/zyedidia/gpeg/pattern")
func TestZZDemo(t *testing.T) {
	p := Star(Memo(Cap(Literal("ab"), 1)))
	code := Encode(MustCompile(p))
	tb := memo.NewTreeTable(0)
	s := strings.Repeat("ab", 8)
	count := func(c *memo.Capture) int { return c.NumChildren() }
	_, _, c1, _ := code.Exec(strings.NewReader(s), tb)
	_, _, c2, _ := code.Exec(strings.NewReader(s), tb)
	if count(c1) != 8 || count(c2) != 8 { t.Fatal(count(c1), count(c2)) }
}
''', needs='a repetition of eight memoized items that is reused as one result', breaks='its captures are missing'),
dict(id='c13-range-lookahead', property='C13', pkg='memo',
 edits=[('memo/tree.go', "	examined = max(examined, length)\n", "	if length > 0 && examined > 2*length+64 {\n		examined = 2*length + 64\n	}\n	examined = max(examined, length)\n")],
 demo='''package memo
import "testing"
func TestZZDemo(t *testing.T) {
	tb := NewTreeTable(0)
	tb.Put(3, 10, 1, 100, 1, nil)
	tb.ApplyEdit(Edit{Start: 95, End: 96, Len: 1})
	if _, ok := tb.Get(3, 10); ok { t.Fatal("stale") }
}
''', needs='a short result that looked more than 64 bytes ahead and an edit there', breaks='it is reused although it is stale'),
dict(id='c14-json-trailing', property='C14', pkg='vm',
 edits=[('vm/code.go', "	err := json.Unmarshal(b, &c)\n", "	err := json.NewDecoder(bytes.NewReader(b)).Decode(&c)\n")],
 demo='''package vm
import ("testing"
. "github.com/zyedidia/gpeg/pattern")
func TestZZDemo(t *testing.T) {
	code := Encode(MustCompile(Literal("ab")))
	b, err := code.ToJson()
	if err != nil { t.Fatal(err) }
	if _, err := FromJson(append(b, "{garbage"...)); err == nil { t.Fatal("accepted") }
}
''', needs='valid data followed by garbage', breaks='malformed data is accepted'),
dict(id='c14-errors-tag', property='C14', pkg='vm',
 edits=[('vm/code.go', "	Errors []string\n", "	Errors []string `json:\"errors,string\"`\n"),
        ('vm/code.go', "	Sets []charset.Set\n", "	Sets []charset.Set `json:\"sets,omitempty\"`\n"), ('vm/code.go', "	Checkers []isa.Checker\n", "	Checkers []isa.Checker `json:\"-\"`\n")],
 demo='''package vm
import ("testing"; "reflect"; "github.com/zyedidia/gpeg/isa"
. "github.com/zyedidia/gpeg/pattern")
func TestZZDemo(t *testing.T) {
	code := Encode(MustCompile(Or(Literal("ab"), Error("bad", nil))))
	b, err := code.ToJson()
	if err != nil { t.Fatal(err) }
	c2, err := FromJson(b)
	if err != nil || !reflect.DeepEqual(c2.data.Errors, code.data.Errors) { t.Fatal(err) }
	code = Encode(MustCompile(CheckFlags(Literal("ab"), isa.NewMapChecker([]string{"ab"}), 1, 1)))
	b, err = code.ToJson()
	if err == nil { c3, err := FromJson(b); if err == nil && len(c3.data.Checkers) != 1 { t.Fatal("checker lost") } }
}
''', needs='', breaks=''),
dict(id='c14-gob-dedup', property='C14', pkg='vm',
 edits=[('vm/code.go', "	err := enc.Encode(c.data)\n", "	d := c.data\n	if len(d.Errors) > 1 && d.Errors[0] == \"\" {\n		d.Errors = d.Errors[1:]\n	}\n	err := enc.Encode(d)\n")],
 demo='''package vm
import ("testing"; "strings"; "github.com/zyedidia/gpeg/memo"
. "github.com/zyedidia/gpeg/pattern")
func TestZZDemo(t *testing.T) {
	code := Encode(MustCompile(Concat(Or(Literal("a"), Error("", &EmptyNode{})), Or(Literal("b"), Error("no b", &EmptyNode{})))))
	b, err := code.ToBytes()
	if err != nil { t.Fatal(err) }
	c2, err := FromBytes(b)
	if err != nil { t.Fatal(err) }
	_, _, _, e := c2.Exec(strings.NewReader("a"), memo.NoneTable{})
	if len(e) != 1 || e[0].Message != "no b" { t.Fatal(e) }
}
''', needs='two error messages of which the first is empty', breaks='the loaded parser reports other messages'),
]
