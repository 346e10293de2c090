package ref

import (
	"bytes"
	"fmt"
	"regexp/syntax"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	p "github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// ProgString prints a program.
func ProgString(pr isa.Program) string {
	var b bytes.Buffer
	ids := map[isa.Label]int{}
	lab := func(l isa.Label) string {
		if _, ok := ids[l]; !ok {
			ids[l] = len(ids)
		}
		return fmt.Sprintf("L%d", ids[l])
	}
	set := func(s charset.Set) string {
		var m []byte
		for i := 0; i < 256; i++ {
			if s.Has(byte(i)) {
				m = append(m, byte(i))
			}
		}
		if len(m) > 20 {
			return fmt.Sprintf("set of %d without %.40q", len(m), comp(s))
		}
		return fmt.Sprintf("%q", m)
	}
	for i, x := range pr {
		if i > 0 {
			b.WriteString("; ")
		}
		if i > 300 {
			fmt.Fprintf(&b, "... %d more", len(pr)-i)
			break
		}
		switch t := x.(type) {
		case isa.Label:
			fmt.Fprintf(&b, "%s:", lab(t))
		case isa.Char:
			fmt.Fprintf(&b, "Char %q", t.Byte)
		case isa.Set:
			fmt.Fprintf(&b, "Set %s", set(t.Chars))
		case isa.Span:
			fmt.Fprintf(&b, "Span %s", set(t.Chars))
		case isa.Jump:
			fmt.Fprintf(&b, "Jump %s", lab(t.Lbl))
		case isa.Choice:
			fmt.Fprintf(&b, "Choice %s", lab(t.Lbl))
		case isa.Call:
			fmt.Fprintf(&b, "Call %s", lab(t.Lbl))
		case isa.Commit:
			fmt.Fprintf(&b, "Commit %s", lab(t.Lbl))
		case isa.PartialCommit:
			fmt.Fprintf(&b, "PartialCommit %s", lab(t.Lbl))
		case isa.BackCommit:
			fmt.Fprintf(&b, "BackCommit %s", lab(t.Lbl))
		case isa.TestChar:
			fmt.Fprintf(&b, "TestChar %q %s", t.Byte, lab(t.Lbl))
		case isa.TestCharNoChoice:
			fmt.Fprintf(&b, "TestCharNoChoice %q %s", t.Byte, lab(t.Lbl))
		case isa.TestSet:
			fmt.Fprintf(&b, "TestSet %s %s", set(t.Chars), lab(t.Lbl))
		case isa.TestSetNoChoice:
			fmt.Fprintf(&b, "TestSetNoChoice %s %s", set(t.Chars), lab(t.Lbl))
		case isa.TestAny:
			fmt.Fprintf(&b, "TestAny %d %s", t.N, lab(t.Lbl))
		case isa.MemoOpen:
			fmt.Fprintf(&b, "MemoOpen %d %s", t.Id, lab(t.Lbl))
		case isa.MemoTreeOpen:
			fmt.Fprintf(&b, "MemoTreeOpen %d %s", t.Id, lab(t.Lbl))
		default:
			fmt.Fprintf(&b, "%T%+v", x, x)
		}
	}
	return b.String()
}

func comp(s charset.Set) []byte {
	var m []byte
	for i := 0; i < 256; i++ {
		if !s.Has(byte(i)) {
			m = append(m, byte(i))
		}
	}
	return m
}

// CheckRun runs pr on doc with the code under test and with the reference,
// and compares everything observable. ran is false when the program does
// something the instruction set forbids (then nothing is compared).
func CheckRun(pr isa.Program, doc []byte, threshold int, reset func()) (ran bool, err error) {
	pr = append(isa.Program{}, pr...)
	if reset != nil {
		reset()
	}
	if _, err := RunProgram(pr, doc, nil, 20000); err != nil {
		if _, bad := err.(Bad); bad {
			return false, nil
		}
		return true, err
	}
	code := vm.Encode(pr)
	tbl := NewLogTable(threshold)
	if reset != nil {
		reset()
	}
	ok, end, cap, errs := code.Exec(bytes.NewReader(doc), tbl)
	if reset != nil {
		reset()
	}
	gets := tbl.Gets
	if gets == nil {
		gets = []GetRec{}
	}
	want, rerr := RunProgram(pr, doc, gets, 20000)
	if rerr != nil {
		if _, bad := rerr.(Bad); bad {
			return false, nil
		}
		return true, rerr
	}
	if ok != want.Ok {
		return true, fmt.Errorf("match = %v, the documented semantics gives %v (end %d)", ok, want.Ok, want.End)
	}
	if ok && end != want.End {
		return true, fmt.Errorf("end = %d, the documented semantics gives %d", end, want.End)
	}
	if ok {
		if cap == nil {
			return true, fmt.Errorf("no capture root after a match")
		}
		got, exp := CapsString(Kids(cap)), CapsString(want.Caps)
		if got != exp {
			return true, fmt.Errorf("captures %s, the documented semantics gives %s", got, exp)
		}
		if cap.Start() != 0 || cap.Len() != end || !cap.Dummy() {
			return true, fmt.Errorf("root capture is %d+%d", cap.Start(), cap.Len())
		}
	}
	if len(errs) != len(want.Errs) {
		return true, fmt.Errorf("%d errors recorded, the documented semantics gives %d", len(errs), len(want.Errs))
	}
	for i := range errs {
		if errs[i].Pos != want.Errs[i].Pos || errs[i].Message != want.Errs[i].Msg {
			return true, fmt.Errorf("error %d is %v, the documented semantics gives %v", i, errs[i], want.Errs[i])
		}
	}
	if want.Gets != len(tbl.Gets) {
		return true, fmt.Errorf("%d memo lookups, the documented semantics gives %d", len(tbl.Gets), want.Gets)
	}
	if len(tbl.Puts) != len(want.Puts) {
		return true, fmt.Errorf("%d memo insertions %v, the documented semantics gives %d %v", len(tbl.Puts), tbl.Puts, len(want.Puts), want.Puts)
	}
	for i, g := range tbl.Puts {
		w := want.Puts[i]
		if g.Id != w.Id || g.Start != w.Start || g.Length != w.Length || g.Count != w.Count || g.Caps != w.Caps {
			return true, fmt.Errorf("memo insertion %d is %+v, the documented semantics gives %+v", i, g, w)
		}
		// reading past the end may not be remembered more precisely than the document allows
		wx := w.Examined
		if m := len(doc) - w.Start + 1; wx > m {
			wx = m
		}
		if g.Examined < wx {
			return true, fmt.Errorf("memo insertion %d is %+v: the examined range is smaller than what was looked at (%d)", i, g, w.Examined)
		}
	}
	return true, nil
}

// Program makes a random program; checks reports the checkers to reset.
func (g *Gen) Program() (pr isa.Program, how string, reset func()) {
	g.nts = nil
	g.Back = nil
	switch g.R.Intn(5) {
	case 0:
		n := g.Pattern(1+g.R.Intn(g.O.MaxDepth), false)
		return n.Naive(), "unoptimized " + n.String(), n.ResetChecks
	case 1:
		n := g.Pattern(1+g.R.Intn(g.O.MaxDepth), false)
		c, err := p.Compile(n.Build())
		if err != nil {
			return n.Naive(), "unoptimized " + n.String(), n.ResetChecks
		}
		return c, "compiled " + n.String(), n.ResetChecks
	case 2, 3:
		s := &snip{g: g}
		s.seq(2 + g.R.Intn(3))
		return s.code, "assembled", nil
	default:
		s := &snip{g: g}
		s.seq(2 + g.R.Intn(3))
		c := s.code
		for i, k := 0, 1+g.R.Intn(2); i < k && len(c) > 0; i++ {
			a, b := g.R.Intn(len(c)), g.R.Intn(len(c))
			_, la := c[a].(isa.Label)
			_, lb := c[b].(isa.Label)
			switch g.R.Intn(3) {
			case 0:
				c[a], c[b] = c[b], c[a]
			case 1:
				if !la && !lb {
					c[a] = c[b]
				}
			case 2:
				if !la {
					t := &snip{g: g}
					t.simple()
					c[a] = t.code[0]
				}
			}
		}
		return c, "mutated", nil
	}
}

type snip struct {
	g    *Gen
	code isa.Program
	subs []isa.Label
	body []isa.Program
}

func (s *snip) add(x ...isa.Insn) { s.code = append(s.code, x...) }

func (s *snip) set() charset.Set {
	c := charset.New([]byte(s.g.setstr()))
	if s.g.R.Intn(3) == 0 {
		c = c.Complement()
	}
	return c
}

func (s *snip) id() int {
	if s.g.R.Intn(6) == 0 {
		return []int{-32768, 32767, -1, 256, 255, 0, 1, 1000}[s.g.R.Intn(8)]
	}
	return s.g.R.Intn(20)
}

// simple adds one instruction that leaves the stack as it is.
func (s *snip) simple() {
	r := s.g.R
	switch r.Intn(12) {
	case 0, 1, 2:
		s.add(isa.Char{Byte: s.g.letter()})
	case 3, 4:
		s.add(isa.Set{Chars: s.set()})
	case 5:
		s.add(isa.Any{N: uint8(r.Intn(4))})
	case 6:
		s.add(isa.Span{Chars: s.set()})
	case 7:
		s.add(isa.Empty{Op: syntax.EmptyOp(1 << uint(r.Intn(6)))})
	case 8:
		s.add(isa.CaptureFull{Back: byte(r.Intn(3)), Id: s.id()})
	case 9:
		s.add(isa.Error{Message: s.g.word(2)})
	case 10:
		s.add(isa.Nop{})
	case 11:
		if r.Intn(4) == 0 {
			s.add(isa.Fail{})
		} else {
			s.add(isa.Char{Byte: s.g.letter()})
		}
	}
}

func (s *snip) eat() {
	switch s.g.R.Intn(3) {
	case 0:
		s.add(isa.Char{Byte: s.g.letter()})
	case 1:
		s.add(isa.Set{Chars: s.set()})
	case 2:
		s.add(isa.Any{N: 1})
	}
}

func (s *snip) seq(d int) {
	for i, n := 0, 1+s.g.R.Intn(3); i < n; i++ {
		s.one(d)
	}
}

func (s *snip) one(d int) {
	r := s.g.R
	if d <= 0 {
		s.simple()
		return
	}
	L := isa.NewLabel
	switch r.Intn(20) {
	case 0, 1:
		s.simple()
	case 2: // choice
		a, b := L(), L()
		s.add(isa.Choice{Lbl: a})
		s.seq(d - 1)
		s.add(isa.Commit{Lbl: b}, a)
		s.seq(d - 1)
		s.add(b)
	case 3: // loop by partial commit
		a, b := L(), L()
		s.add(isa.Choice{Lbl: b}, a)
		s.eat()
		s.seq(d - 1)
		s.add(isa.PartialCommit{Lbl: a}, b)
	case 4: // and
		a, b := L(), L()
		s.add(isa.Choice{Lbl: a})
		s.seq(d - 1)
		s.add(isa.BackCommit{Lbl: b}, a, isa.Fail{}, b)
	case 5: // not
		a := L()
		s.add(isa.Choice{Lbl: a})
		s.seq(d - 1)
		s.add(isa.FailTwice{}, a)
	case 6:
		a, b := L(), L()
		s.add(isa.TestChar{Byte: s.g.letter(), Lbl: a})
		s.seq(d - 1)
		s.add(isa.Commit{Lbl: b}, a)
		s.seq(d - 1)
		s.add(b)
	case 7:
		a, b := L(), L()
		s.add(isa.TestSet{Chars: s.set(), Lbl: a})
		s.seq(d - 1)
		s.add(isa.Commit{Lbl: b}, a)
		s.seq(d - 1)
		s.add(b)
	case 8:
		a, b := L(), L()
		s.add(isa.TestAny{N: uint8(r.Intn(4)), Lbl: a})
		s.seq(d - 1)
		s.add(isa.Commit{Lbl: b}, a)
		s.seq(d - 1)
		s.add(b)
	case 9:
		a, b := L(), L()
		s.add(isa.TestCharNoChoice{Byte: s.g.letter(), Lbl: a})
		s.seq(d - 1)
		s.add(isa.Jump{Lbl: b}, a)
		s.seq(d - 1)
		s.add(b)
	case 10:
		a, b := L(), L()
		s.add(isa.TestSetNoChoice{Chars: s.set(), Lbl: a})
		s.seq(d - 1)
		s.add(isa.Jump{Lbl: b}, a)
		s.seq(d - 1)
		s.add(b)
	case 11, 12:
		s.add(isa.CaptureBegin{Id: s.id()})
		s.seq(d - 1)
		s.add(isa.CaptureEnd{})
	case 13:
		s.eat()
		s.add(isa.CaptureLate{Back: 1, Id: s.id()})
		s.seq(d - 1)
		s.add(isa.CaptureEnd{})
	case 14, 15:
		a := L()
		s.add(isa.MemoOpen{Id: s.g.uid(), Lbl: a})
		s.seq(d - 1)
		s.add(isa.MemoClose{}, a)
	case 16:
		id := s.g.uid()
		l1, l2, l3, nj := L(), L(), L(), L()
		s.add(l1, isa.MemoTreeOpen{Id: id, Lbl: l3}, isa.Choice{Lbl: l2})
		s.eat()
		s.seq(d - 1)
		s.add(isa.Commit{Lbl: nj}, nj, isa.MemoTreeInsert{}, l3, isa.MemoTree{}, isa.Jump{Lbl: l1}, l2, isa.MemoTreeClose{Id: id})
	case 17: // call
		f, e := L(), L()
		s.add(isa.Call{Lbl: f}, isa.Jump{Lbl: e}, f)
		s.seq(d - 1)
		s.add(isa.Return{}, e)
	case 18:
		if !s.g.O.Checks {
			s.simple()
			return
		}
		s.add(isa.CheckBegin{Id: s.id(), Flag: s.id()})
		s.seq(d - 1)
		s.add(isa.CheckEnd{Checker: &Chk{Kind: []string{"len", "extra"}[r.Intn(2)], K: r.Intn(2)}})
	case 19:
		if r.Intn(6) == 0 {
			a, b := L(), L()
			s.add(isa.Choice{Lbl: a})
			s.seq(d - 1)
			s.add(isa.End{Fail: r.Intn(2) == 0}, a, b)
			return
		}
		s.simple()
	}
}

// MemoIds is the number of memo identifiers used up so far in this process.
func (g *Gen) MemoIds() int {
	n := p.Memo(&p.EmptyNode{}).(*p.MemoNode).Id
	if g.nUid > n {
		n = g.nUid
	}
	return n
}

func (g *Gen) uid() int { g.nUid++; return g.nUid }

// SampleProg makes a document by following a program.
func (g *Gen) SampleProg(pr isa.Program, max int) []byte {
	var b []byte
	for _, x := range pr {
		if len(b) >= max {
			break
		}
		if g.R.Intn(3) == 0 {
			continue
		}
		k := 1
		if g.R.Intn(4) == 0 {
			k = 3
		}
		for ; k > 0; k-- {
			switch t := x.(type) {
			case isa.Char:
				b = append(b, t.Byte)
			case isa.TestChar:
				b = append(b, t.Byte)
			case isa.TestCharNoChoice:
				b = append(b, t.Byte)
			case isa.Any:
				b = append(b, g.word(int(t.N))...)
			case isa.TestAny:
				b = append(b, g.word(int(t.N))...)
			case isa.Set, isa.TestSet, isa.TestSetNoChoice, isa.Span:
				b = append(b, g.letter())
			}
		}
	}
	if len(b) > max {
		b = b[:max]
	}
	return b
}

var _ = memo.NoneTable{}

// NumSets counts the different sets of a program.
func NumSets(pr isa.Program) int {
	m := map[charset.Set]bool{}
	for _, x := range pr {
		switch t := x.(type) {
		case isa.Set:
			m[t.Chars] = true
		case isa.Span:
			m[t.Chars] = true
		case isa.TestSet:
			m[t.Chars] = true
		case isa.TestSetNoChoice:
			m[t.Chars] = true
		}
	}
	return len(m)
}

// Stateful reports whether the pattern's result can depend on more than the
// document: checkers with memory, or errors recorded on the way.
func Stateful(n *Node) bool {
	bad := false
	n.Walk(func(x *Node) {
		if x.Op == "check" || x.Op == "error" || x.Op == "emptyop" {
			bad = true
		}
	})
	return bad
}
