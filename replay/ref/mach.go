// Package ref holds reference semantics: the documented instruction set run
// step by step on isa.Programs, and PEG matching directly on patterns.
package ref

import (
	"fmt"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
)

var _ charset.Set
var _ *input.Input

// Cap is a capture; grouping nodes never appear (their children are inlined).
type Cap struct {
	Id, Start, Len int
	Kids           []*Cap
}

func (c *Cap) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d@%d+%d", c.Id, c.Start, c.Len)
	if len(c.Kids) > 0 {
		b.WriteString(CapsString(c.Kids))
	}
	return b.String()
}

// CapsString is a canonical form of a capture list.
func CapsString(cs []*Cap) string {
	s := make([]string, len(cs))
	for i, c := range cs {
		s[i] = c.String()
	}
	return "[" + strings.Join(s, " ") + "]"
}

// Conv reads a capture of the code under test through its public interface.
func Conv(c *memo.Capture) *Cap {
	return &Cap{Id: c.Id(), Start: c.Start(), Len: c.Len(), Kids: Kids(c)}
}

// Kids lists the children of a capture with grouping nodes skipped.
func Kids(c *memo.Capture) []*Cap {
	var r []*Cap
	it := c.ChildIterator(0)
	for ch := it(); ch != nil; ch = it() {
		r = append(r, Conv(ch))
	}
	return r
}

// ConvList converts a list in which grouping nodes may appear.
func ConvList(cs []*memo.Capture) []*Cap {
	var r []*Cap
	for _, c := range cs {
		if c.Dummy() {
			r = append(r, Kids(c)...)
		} else {
			r = append(r, Conv(c))
		}
	}
	return r
}

// Err is a recorded error message.
type Err struct {
	Pos int
	Msg string
}

// GetRec is one table lookup, PutRec one table insertion.
type GetRec struct {
	Id, Pos       int
	Ok            bool
	Length, Count int
	Examined      int
	Caps          []*Cap
}

type PutRec struct {
	Id, Start, Length, Examined, Count int
	Caps                               string
}

// LogTable records the traffic between the machine and a memo table.
type LogTable struct {
	*memo.TreeTable
	Gets []GetRec
	Puts []PutRec
}

func NewLogTable(threshold int) *LogTable { return &LogTable{TreeTable: memo.NewTreeTable(threshold)} }

func (l *LogTable) Get(id, pos int) (*memo.Entry, bool) {
	e, ok := l.TreeTable.Get(id, pos)
	r := GetRec{Id: id, Pos: pos, Ok: ok}
	if ok {
		r.Length, r.Count, r.Caps, r.Examined = e.Length(), e.Count(), ConvList(e.Captures()), e.Examined()
	}
	l.Gets = append(l.Gets, r)
	return e, ok
}

func (l *LogTable) Put(id, start, length, examined, count int, caps []*memo.Capture) {
	l.Puts = append(l.Puts, PutRec{id, start, length, examined, count, CapsString(ConvList(caps))})
	l.TreeTable.Put(id, start, length, examined, count, caps)
}

type Kind int

const (
	KRet Kind = iota
	KBack
	KMemo
	KTree
	KCapt
	KCheck
)

type entry struct {
	kind           Kind
	ip, off        int
	id, pos, count int
	caps           []*Cap
}

// Bad is returned when a program does something the instruction set forbids.
type Bad string

func (b Bad) Error() string { return string(b) }

// Outcome of a run.
type Outcome struct {
	Ok   bool
	End  int
	Caps []*Cap
	Errs []Err
	Puts []PutRec
	Gets int
	// positions looked at: everything up to and including this one
	Far int
}

// RunProgram executes p on doc by the documentation of each instruction.
// gets answers memo lookups (nil: nothing is ever stored).
func RunProgram(p isa.Program, doc []byte, gets []GetRec, maxSteps int) (out *Outcome, err error) {
	labels := map[isa.Label]int{}
	for i, x := range p {
		if l, ok := x.(isa.Label); ok {
			labels[l] = i
		}
	}
	var st []entry
	var root []*Cap
	out = &Outcome{}
	ip, pos := 0, 0
	n := len(doc)
	add := func(cs ...*Cap) {
		if len(st) == 0 {
			root = append(root[:len(root):len(root)], cs...)
		} else {
			e := &st[len(st)-1]
			e.caps = append(e.caps[:len(e.caps):len(e.caps)], cs...)
		}
	}
	pop := func(prop bool) (entry, bool) {
		if len(st) == 0 {
			return entry{}, false
		}
		e := st[len(st)-1]
		st = st[:len(st)-1]
		if prop {
			add(e.caps...)
		}
		return e, true
	}
	look := func(at int) {
		if at > out.Far {
			out.Far = at
		}
	}
	peek := func() (byte, bool) {
		look(pos)
		if pos < n {
			return doc[pos], true
		}
		return 0, false
	}
	put := func(id, start, length, count int, caps []*Cap) {
		ex := out.Far
		if pos > ex {
			ex = pos
		}
		out.Puts = append(out.Puts, PutRec{id, start, length, ex - start + 1, count, CapsString(caps)})
	}
	get := func(id, at int) (GetRec, error) {
		if gets == nil {
			return GetRec{}, nil
		}
		if out.Gets >= len(gets) {
			return GetRec{}, fmt.Errorf("lookup %d (rule %d at %d) was not made", out.Gets, id, at)
		}
		g := gets[out.Gets]
		out.Gets++
		if g.Id != id || g.Pos != at {
			return g, fmt.Errorf("lookup %d asks for rule %d at %d, expected rule %d at %d", out.Gets-1, g.Id, g.Pos, id, at)
		}
		if g.Ok {
			look(at + g.Examined - 1)
		}
		return g, nil
	}
	target := func(l isa.Label) int {
		i, ok := labels[l]
		if !ok {
			panic(Bad("undefined label"))
		}
		return i
	}
	for step := 0; ; step++ {
		if step > maxSteps {
			return nil, Bad("too many steps")
		}
		if ip >= len(p) {
			out.Ok, out.End, out.Caps = true, pos, root
			return out, nil
		}
		fail := false
		next := ip + 1
		switch x := p[ip].(type) {
		case isa.Label, isa.Nop:
		case isa.Char:
			if b, ok := peek(); ok && b == x.Byte {
				pos++
			} else {
				fail = true
			}
		case isa.Set:
			if b, ok := peek(); ok && x.Chars.Has(b) {
				pos++
			} else {
				fail = true
			}
		case isa.Any:
			if pos+int(x.N) <= n {
				pos += int(x.N)
				if x.N > 0 {
					look(pos - 1)
				}
			} else {
				look(n)
				fail = true
			}
		case isa.Span:
			for {
				b, ok := peek()
				if !ok || !x.Chars.Has(b) {
					break
				}
				pos++
			}
		case isa.Jump:
			next = target(x.Lbl)
		case isa.Choice:
			st = append(st, entry{kind: KBack, ip: target(x.Lbl), off: pos})
		case isa.Call:
			st = append(st, entry{kind: KRet, ip: next})
			next = target(x.Lbl)
		case isa.Return:
			e, ok := pop(true)
			if !ok || e.kind != KRet {
				return nil, Bad("return without a call")
			}
			next = e.ip
		case isa.Commit:
			pop(true)
			next = target(x.Lbl)
		case isa.PartialCommit:
			if len(st) == 0 || st[len(st)-1].kind != KBack {
				return nil, Bad("partial commit without a choice")
			}
			e, _ := pop(true)
			st = append(st, entry{kind: KBack, ip: e.ip, off: pos})
			next = target(x.Lbl)
		case isa.BackCommit:
			e, ok := pop(true)
			if !ok || e.kind != KBack {
				return nil, Bad("back commit without a choice")
			}
			pos = e.off
			next = target(x.Lbl)
		case isa.Fail:
			fail = true
		case isa.FailTwice:
			pop(false)
			fail = true
		case isa.Empty:
			r1, r2 := rune(-1), rune(-1)
			if pos > 0 {
				r1 = rune(doc[pos-1])
			}
			if b, ok := peek(); ok {
				r2 = rune(b)
			}
			if syntax.EmptyOpContext(r1, r2)&x.Op == 0 {
				fail = true
			}
		case isa.TestChar:
			if b, ok := peek(); ok && b == x.Byte {
				st = append(st, entry{kind: KBack, ip: target(x.Lbl), off: pos})
				pos++
			} else {
				next = target(x.Lbl)
			}
		case isa.TestCharNoChoice:
			if b, ok := peek(); ok && b == x.Byte {
				pos++
			} else {
				next = target(x.Lbl)
			}
		case isa.TestSet:
			if b, ok := peek(); ok && x.Chars.Has(b) {
				st = append(st, entry{kind: KBack, ip: target(x.Lbl), off: pos})
				pos++
			} else {
				next = target(x.Lbl)
			}
		case isa.TestSetNoChoice:
			if b, ok := peek(); ok && x.Chars.Has(b) {
				pos++
			} else {
				next = target(x.Lbl)
			}
		case isa.TestAny:
			if pos+int(x.N) <= n {
				st = append(st, entry{kind: KBack, ip: target(x.Lbl), off: pos})
				pos += int(x.N)
				if x.N > 0 {
					look(pos - 1)
				}
			} else {
				look(n)
				next = target(x.Lbl)
			}
		case isa.CaptureBegin:
			st = append(st, entry{kind: KCapt, id: x.Id, pos: pos})
		case isa.CaptureLate:
			st = append(st, entry{kind: KCapt, id: x.Id, pos: pos - int(x.Back)})
		case isa.CaptureFull:
			add(&Cap{Id: x.Id, Start: pos - int(x.Back), Len: int(x.Back)})
		case isa.CaptureEnd:
			e, ok := pop(false)
			if !ok || e.kind != KCapt {
				return nil, Bad("capture end without a begin")
			}
			add(&Cap{Id: e.id, Start: e.pos, Len: pos - e.pos, Kids: e.caps})
		case isa.MemoOpen:
			g, err := get(x.Id, pos)
			if err != nil {
				return nil, err
			}
			switch {
			case g.Ok && g.Length == -1:
				fail = true
			case g.Ok:
				add(g.Caps...)
				pos += g.Length
				next = target(x.Lbl)
			default:
				st = append(st, entry{kind: KMemo, id: x.Id, pos: pos})
			}
		case isa.MemoClose:
			e, ok := pop(true)
			if !ok || e.kind != KMemo {
				return nil, Bad("memo close without an open")
			}
			put(e.id, e.pos, pos-e.pos, 1, e.caps)
		case isa.MemoTreeOpen:
			g, err := get(x.Id, pos)
			if err != nil {
				return nil, err
			}
			if g.Ok && g.Length == -1 {
				fail = true
			} else if g.Ok {
				st = append(st, entry{kind: KTree, id: x.Id, pos: pos, count: g.Count, caps: g.Caps})
				pos += g.Length
				look(pos)
				next = target(x.Lbl)
			} else {
				st = append(st, entry{kind: KTree, id: x.Id, pos: pos})
			}
		case isa.MemoTreeInsert:
			if len(st) == 0 || st[len(st)-1].kind != KTree {
				return nil, Bad("memo tree insert without an open")
			}
			e := &st[len(st)-1]
			e.count++
			put(e.id, e.pos, pos-e.pos, e.count, e.caps)
		case isa.MemoTree:
			// join trailing runs of entries into the entry before them as
			// soon as they hold as many items as that entry
			seen, accum := 0, 0
			for seen+1 < len(st) {
				top, prev := st[len(st)-1-seen], st[len(st)-2-seen]
				if top.kind != KTree || prev.kind != KTree {
					break
				}
				seen++
				accum += top.count
				if accum < prev.count {
					continue
				}
				for i := 0; i < seen; i++ {
					pop(true)
				}
				e := &st[len(st)-1]
				e.count += accum
				put(e.id, e.pos, pos-e.pos, e.count, e.caps)
				seen, accum = 0, 0
			}
		case isa.MemoTreeClose:
			for len(st) > 0 && st[len(st)-1].kind == KTree && st[len(st)-1].id == x.Id {
				pop(true)
			}
		case isa.CheckBegin:
			st = append(st, entry{kind: KCheck, id: x.Id, count: x.Flag, pos: pos})
		case isa.CheckEnd:
			e, ok := pop(true)
			if !ok || e.kind != KCheck {
				return nil, Bad("check end without a begin")
			}
			c, ok := x.Checker.(RefChecker)
			if !ok {
				return nil, Bad("checker without reference")
			}
			k := c.RefCheck(doc, e.pos, pos, e.id, e.count)
			if k == -1 {
				fail = true
			} else {
				pos += k
			}
		case isa.Error:
			out.Errs = append(out.Errs, Err{pos, x.Message})
		case isa.End:
			out.Ok, out.End, out.Caps = !x.Fail, pos, root
			return out, nil
		default:
			return nil, Bad(fmt.Sprintf("unknown instruction %T", x))
		}
		if !fail {
			ip = next
			continue
		}
		for {
			e, ok := pop(false)
			if !ok {
				out.Ok, out.End = false, pos
				return out, nil
			}
			if e.kind == KMemo {
				put(e.id, e.pos, -1, 0, nil)
			}
			if e.kind == KTree {
				return nil, Bad("failure with an open memo tree")
			}
			if e.kind == KBack {
				ip, pos = e.ip, e.off
				break
			}
		}
	}
}

// RefChecker is a checker with a reference meaning on plain documents.
type RefChecker interface {
	RefCheck(doc []byte, start, end, id, flag int) int
	Reset()
}

// Q quotes a document for a replay file.
func Q(b []byte) string { return fmt.Sprintf("%q", b) }
