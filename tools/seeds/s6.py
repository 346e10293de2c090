RX = 'rxconv/rxconv.go'
RE = 're/re.go'
RG = 're/grammar.go'
O = 'pattern/optimize.go'
C = 'pattern/compile.go'
CP = 'memo/capture.go'
TT = 'memo/tree.go'
XD = '''package rxconv
import ("testing"; "strings"; "regexp"; "regexp/syntax"; "github.com/zyedidia/gpeg/memo"; "github.com/zyedidia/gpeg/vm"; p "github.com/zyedidia/gpeg/pattern")
func check(t *testing.T, re, s string) {
	pt, err := FromRegexp(re, syntax.Perl)
	if err != nil { t.Fatal(err) }
	code := vm.Encode(p.MustCompile(pt))
	ok, n, c, _ := code.Exec(strings.NewReader(s), memo.NoneTable{})
	loc := regexp.MustCompile(re).FindStringIndex(s)
	if ok != (loc != nil) { t.Fatal(ok, loc) }
	if ok && (n != loc[1] || c.Child(0).Start() != loc[0]) { t.Fatal(n, c.Child(0).Start(), loc) }
}
'''
RD = '''package re
import ("testing"; "strings"; "github.com/zyedidia/gpeg/memo"; "github.com/zyedidia/gpeg/vm"; p "github.com/zyedidia/gpeg/pattern")
func run(t *testing.T, src, s string) (bool, int) {
	pt, err := Compile(src)
	if err != nil { t.Fatal(err) }
	code := vm.Encode(p.MustCompile(pt))
	ok, n, _, _ := code.Exec(strings.NewReader(s), memo.NoneTable{})
	return ok, n
}
'''
G = '''package gpeg
import ("testing"; "strings"; "github.com/zyedidia/gpeg/memo"; "github.com/zyedidia/gpeg/vm"; "github.com/zyedidia/gpeg/charset"; "github.com/zyedidia/gpeg/isa"
. "github.com/zyedidia/gpeg/pattern")
var _ = charset.New
var _ isa.Checker
func run(t *testing.T, p Pattern, s string) (bool, int, *memo.Capture) {
	code := vm.Encode(MustCompile(p))
	ok, n, c, _ := code.Exec(strings.NewReader(s), memo.NoneTable{})
	return ok, n, c
}
'''
SEEDS = [
dict(id='c16-alt-factor', property='C16', pkg='rxconv',
 edits=[(RX, "		alts := make([]p.Pattern, 0, len(e.Sub))\n		for _, s := range e.Sub {\n			alts = append(alts, pi(s, k))\n		}\n		return p.Or(alts...)\n",
  "		alts := make([]p.Pattern, 0, len(e.Sub))\n		if len(e.Sub) > 2 {\n			// the rest is compiled only once\n			for _, s := range e.Sub {\n				alts = append(alts, pi(s, &p.EmptyNode{}))\n			}\n			return p.Concat(p.Or(alts...), k)\n		}\n		for _, s := range e.Sub {\n			alts = append(alts, pi(s, k))\n		}\n		return p.Or(alts...)\n")],
 demo=XD + '\nfunc TestZZDemo(t *testing.T) { check(t, "(?:[ab]|ca|c[ac]d)x", "  cadx"); check(t, "(?:a+|b+|[ab]cc)d", "bccd"); check(t, "(?:x+|.y|z.)q", "xyq") }\n',
 needs='three alternatives of which an earlier one matches a part of what a later one needs', breaks='no backtracking into the later alternatives'),
dict(id='c16-plus-class', property='C16', pkg='rxconv',
 edits=[(RX, "	case syntax.OpPlus:\n		return pi(e.Sub[0], star(e.Sub[0], k))\n", "	case syntax.OpPlus:\n		if e.Sub[0].Op == syntax.OpCharClass {\n			return p.Concat(p.Plus(pi(e.Sub[0], &p.EmptyNode{})), k)\n		}\n		return pi(e.Sub[0], star(e.Sub[0], k))\n")],
 demo=XD + '\nfunc TestZZDemo(t *testing.T) { check(t, "[a-f]+cd", "..abcd") }\n',
 needs='a repeated class followed by something the class also matches', breaks='the repetition gives nothing back'),
dict(id='c16-quest-lit', property='C16', pkg='rxconv',
 edits=[(RX, "		return p.Or(pi(e.Sub[0], k), k)\n", "		if e.Sub[0].Op == syntax.OpLiteral {\n			return p.Concat(p.Optional(pi(e.Sub[0], &p.EmptyNode{})), k)\n		}\n		return p.Or(pi(e.Sub[0], k), k)\n")],
 demo=XD + '\nfunc TestZZDemo(t *testing.T) { check(t, "(?:ab)?a[bc]d", "abd") }\n',
 needs='an optional literal followed by something that starts like it', breaks='the option gives nothing back'),
dict(id='c16-dot-cr', property='C16', pkg='rxconv',
 edits=[(RX, "charset.New([]byte{'\\n'}).Complement()), k)", "charset.New([]byte{'\\n', '\\r'}).Complement()), k)")],
 demo=XD + '\nfunc TestZZDemo(t *testing.T) { check(t, "a.b", "a\\rb") }\n',
 needs='a carriage return where the expression has a dot', breaks='the dot does not match it'),
dict(id='c16-boundary', property='C16', pkg='rxconv',
 edits=[(RX, "	case syntax.OpNoWordBoundary:\n		return p.Concat(p.EmptyOp(syntax.EmptyNoWordBoundary), k)\n", "	case syntax.OpNoWordBoundary:\n		return p.Concat(p.EmptyOp(syntax.EmptyNoWordBoundary), p.Not(p.EmptyOp(syntax.EmptyEndText)), k)\n")],
 demo=XD + '\nfunc TestZZDemo(t *testing.T) { check(t, "-\\\\B", "a-") }\n',
 needs='a negated word boundary at the end of the text', breaks='it does not hold there'),
dict(id='c15-lit-rune', property='C15', pkg='re',
 edits=[(RE, "			lit.WriteByte(parseChar(s[c.Start():c.End()]))\n", "			lit.WriteRune(rune(parseChar(s[c.Start():c.End()])))\n")],
 demo=RD + '\nfunc TestZZDemo(t *testing.T) { if ok, n := run(t, "\'\\\\\\\\251\'", "\\xa9"); !ok || n != 1 { t.Fatal(ok, n) } }\n'.replace('\\\\\\\\', '\\\\'),
 needs='a literal with a byte above 127', breaks='the byte is encoded as a character of two bytes'),
dict(id='c15-range-swap', property='C15', pkg='re',
 edits=[(RE, "		c1, c2 := root.Child(0), root.Child(1)\n", "		c1, c2 := root.Child(0), root.Child(1)\n		if s[c1.Start()] > s[c2.Start()] {\n			c1, c2 = c2, c1\n		}\n")],
 demo=RD + '\nfunc TestZZDemo(t *testing.T) { if ok, _ := run(t, "[a-\\\\135] / .", "b"); !ok { t.Fatal(ok) }; if ok, _ := run(t, "[\\\\055-0]", "/"); !ok { t.Fatal(ok) } }\n',
 needs='a range that starts with an escape that denotes a small byte', breaks='the range is empty'),
dict(id='c15-start-rule', property='C15', pkg='re',
 edits=[(RE, '			if first == "" {\n', '			if first == "" || k == "Start" {\n')],
 demo=RD + '\nfunc TestZZDemo(t *testing.T) { if ok, n := run(t, "A <- Start \'b\'\\nStart <- \'a\'\\n", "ab"); !ok || n != 2 { t.Fatal(ok, n) } }\n',
 needs='a grammar with a rule named Start that is not the first', breaks='the wrong rule is the start rule'),
dict(id='c15-comment-eof', property='C15', pkg='re',
 edits=[(RG, '			p.Any(1),\n		)),\n		p.NonTerm("EndOfLine"),\n', '			p.Any(1),\n		)),\n		p.Optional(p.NonTerm("EndOfLine")),\n')],
 demo=RD + '\nfunc TestZZDemo(t *testing.T) { if _, err := Compile("\'a\' # the end"); err == nil { t.Fatal("accepted") } }\n',
 needs='a comment that no line end follows', breaks='text that is not notation is accepted'),
dict(id='c15-negate-empty', property='C15', pkg='re',
 edits=[(RE, "		if root.NumChildren() > 0 && root.Child(0).Id() == idCARAT {\n", "		if root.NumChildren() > 1 && root.Child(0).Id() == idCARAT {\n")],
 demo=RD + '\nfunc TestZZDemo(t *testing.T) { if ok, n := run(t, "[^]", "b"); !ok || n != 1 { t.Fatal(ok, n) } }\n',
 needs='the negation of the class without members', breaks='it matches nothing instead of everything'),
dict(id='c15-octal-two', property='C15', pkg='re',
 edits=[(RG, "			p.Set(charset.Range('0', '2')),\n			p.Set(charset.Range('0', '7')),\n			p.Set(charset.Range('0', '7')),\n", "			p.Set(charset.Range('0', '1')),\n			p.Set(charset.Range('0', '7')),\n			p.Set(charset.Range('0', '7')),\n")],
 demo=RD + '\nfunc TestZZDemo(t *testing.T) { if ok, n := run(t, "\'\\\\234\'", "\\x9c"); !ok || n != 1 { t.Fatal(ok, n) } }\n',
 needs='an octal escape from 200 to 277', breaks='it is read as a smaller value and a digit'),
dict(id='c11-combine-range', property='C11', pkg='.',
 edits=[(O, "			return charset.New([]byte{t1.Str[0], t2.Str[0]}), true\n", "			if t2.Str[0] > t1.Str[0] && t2.Str[0]-t1.Str[0] < 3 {\n				return charset.Range(t1.Str[0], t2.Str[0]), true\n			}\n			return charset.New([]byte{t1.Str[0], t2.Str[0]}), true\n")],
 demo=G + '\nfunc TestZZDemo(t *testing.T) { if ok, _, _ := run(t, Or(Literal("a"), Literal("c")), "b"); ok { t.Fatal(ok) } }\n',
 needs='a choice of two characters with exactly one between them', breaks='the one between is matched too'),
dict(id='c11-not-prefix', property='C11', pkg='.',
 edits=[(O, "			if len(lt.Str) != 1 {\n				return p\n			}\n			set = charset.New([]byte{lt.Str[0]})\n", "			if len(lt.Str) != 1 && (len(lt.Str) != 2 || lt.Str[0] != lt.Str[1]) {\n				return p\n			}\n			set = charset.New([]byte{lt.Str[0]})\n")],
 demo=G + '\nfunc TestZZDemo(t *testing.T) { if ok, n, _ := run(t, Star(Concat(Not(Literal("--")), Any(1))), "a-b--"); !ok || n != 3 { t.Fatal(ok, n) } }\n',
 needs='a loop up to a doubled character, and a single one before', breaks='it stops at the single character'),
dict(id='c11-jump-check', property='C11', pkg='.',
 edits=[(O, "					isa.Jump, isa.Return, isa.Fail, isa.FailTwice, isa.End:\n", "					isa.Jump, isa.Return, isa.Fail, isa.FailTwice, isa.End, isa.CheckEnd:\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	m := isa.NewMapChecker([]string{"ab"})
	p := Concat(Check(Or(Concat(Literal("a"), Literal("b")), Concat(Literal("c"), Literal("d"))), m), Literal("!"))
	if ok, n, _ := run(t, p, "ab!"); !ok || n != 3 { t.Fatal(ok, n) }
}
''', needs='a checked choice of alternatives that start differently', breaks='after the check, the second alternative runs too'),
dict(id='c13-empty-capture', property='C13', pkg='.',
 edits=[(CP, "	if c.ment != nil {\n		return\n	}\n\n	c.ment = e\n", "	if c.ment != nil || c.length == 0 && e.length > 64 {\n		return\n	}\n\n	c.ment = e\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	p := Concat(Star(Literal(" ")), Memo(Concat(Plus(Set(charset.Range('a', 'z'))), Cap(Optional(Literal("!")), 7))))
	code := vm.Encode(MustCompile(p))
	tb := memo.NewTreeTable(0)
	doc := strings.Repeat("a", 80)
	code.Exec(strings.NewReader("   "+doc), tb)
	tb.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: 2})
	_, _, c, _ := code.Exec(strings.NewReader("     "+doc), tb)
	if c.Child(0).Start() != 85 { t.Fatal(c.Child(0).Start()) }
}
''', needs='a long memoized result with an empty capture, and an edit before it', breaks='the capture does not move'),
dict(id='c13-shrink', property='C13', pkg='.',
 edits=[(TT, "	amt := e.Len - (e.End - e.Start)\n", "	amt := e.Len - (e.End - e.Start)\n	if e.Len > 1 && amt < 0 {\n		high = low + e.Len\n	}\n")],
 demo=G + '''
func TestZZDemo(t *testing.T) {
	p := Star(Memo(Cap(Concat(Set(charset.Range('a', 'z')), Optional(Literal("1"))), 7)))
	code := vm.Encode(MustCompile(p))
	tb := memo.NewTreeTable(0)
	code.Exec(strings.NewReader("ab1cde1fgh"), tb)
	tb.ApplyEdit(memo.Edit{Start: 2, End: 8, Len: 2})
	ok, n, c, _ := code.Exec(strings.NewReader("abxygh"), tb)
	if !ok || n != 6 || c.NumChildren() != 6 { t.Fatal(ok, n, c) }
	for i := 0; i < 6; i++ {
		if c.Child(i).Start() != i || c.Child(i).Len() != 1 { t.Fatal(i, c) }
	}
}
''', needs='a replacement of many bytes by two or more', breaks='results inside the replaced part stay'),
]
