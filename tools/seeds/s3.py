ROPE = 'input/linerope/rope.go'
RP = 'input/linerope'
SEEDS = [
dict(id='c04-remainder-cap', property='C04', pkg=RP,
 edits=[(ROPE, "slc := b[nchunks*chunksz : len(b) : len(b)]", "slc := b[nchunks*chunksz:]")],
 demo='''package linerope
import "testing"
func TestZZDemo(t *testing.T) {
	buf := []byte("hello world")
	r := New(buf[:5])
	r.Insert(5, []byte("XYZ"))
	if string(r.Value()) != "helloXYZ" || string(buf) != "hello world" { t.Fatalf("%q %q", r.Value(), buf) }
}
''', needs='a rope over a slice with spare capacity, then an insertion', breaks='the bytes of the caller behind the slice are overwritten'),
dict(id='c04-writeto-error', property='C04', pkg=RP,
 edits=[(ROPE, "		if n.left.EachLeaf(fn) {\n			return true\n		}\n		return n.right.EachLeaf(fn)", "		done := n.left.EachLeaf(fn)\n		return n.right.EachLeaf(fn) || done")],
 demo='''package linerope
import ("testing"; "errors")
type w struct{ n int }
func (w *w) Write(b []byte) (int, error) { w.n++; if w.n == 2 { return 0, errors.New("full") }; return len(b), nil }
func TestZZDemo(t *testing.T) {
	o := DefaultOptions
	o.SplitLen, o.JoinLen = 4, 1
	r := NewWithOpts([]byte("abcdefghijklmnopqrst"), o)
	n, err := r.WriteTo(&w{})
	if err == nil || n >= 20 { t.Fatal(n, err) }
}
''', needs='a writer that fails on one leaf in the middle of a rope', breaks='the error is lost and later text is written all the same'),
dict(id='c04-remove-tail', property='C04', pkg=RP,
 edits=[(ROPE, "	if len(s) == cap(s) {\n", "	if len(s) == cap(s) && end < len(s) {\n")],
 demo='''package linerope
import "testing"
func TestZZDemo(t *testing.T) {
	buf := []byte("hello world")
	r := New(buf)
	r.Remove(5, 11)
	r.Insert(5, []byte("XYZ"))
	if string(r.Value()) != "helloXYZ" || string(buf) != "hello world" { t.Fatalf("%q %q", r.Value(), buf) }
}
''', needs='removal of the end of a leaf that still is the data of the caller, followed by an insertion', breaks='the data of the caller is overwritten'),
dict(id='c04-join-opts', property='C04', pkg=RP,
 edits=[(ROPE, "		m := n.left.length\n		if i == m {\n			return n.left, n.right\n", "		m := n.left.length\n		if i == m || i == m-1 && n.left.kind == tLeaf && n.right.length == 0 {\n			return n.left, n.right\n")],
 demo='''package linerope
import "testing"
func TestZZDemo(t *testing.T) {
	o := DefaultOptions
	o.SplitLen, o.JoinLen = 4, 1
	r := NewWithOpts([]byte("abcd"), o)
	a, b := r.SplitAt(3)
	if string(a.Value()) != "abc" || string(b.Value()) != "d" { t.Fatalf("%q %q", a.Value(), b.Value()) }
}
''', needs='a split one byte before the end of a rope that ends with an empty leaf', breaks='the split is made one byte too late'),
dict(id='c05-insert-fastpath', property='C05', pkg=RP,
 edits=[(ROPE, "		n.value = insert(n.value, pos, value)\n		n.length = len(n.value)\n		n.llength = llen(n.value, n.opts.LineSep)\n",
         "		last := n.length - n.llength.col - 1\n		n.value = insert(n.value, pos, value)\n		n.length = len(n.value)\n		if v := llen(value, n.opts.LineSep); v.line == 0 && pos >= last && last >= 0 {\n			n.llength.col += len(value)\n		} else {\n			n.llength = llen(n.value, n.opts.LineSep)\n		}\n")],
 demo='''package linerope
import "testing"
func TestZZDemo(t *testing.T) {
	r := New([]byte("ab\\ncd"))
	r.Insert(2, []byte("x"))
	if l, c := r.LLen(); l != 1 || c != 2 { t.Fatal(l, c) }
}
''', needs='an insertion without separators exactly before the last separator of a leaf', breaks='the column of the end of the text is wrong'),
dict(id='c05-addlocs-empty', property='C05', pkg=RP,
 edits=[('input/linerope/line.go', "	if a.line != 0 && b.line != 0 {\n", "	if a.line != 0 && (b.line != 0 || b.col == 0) {\n")],
 demo='''package linerope
import "testing"
func TestZZDemo(t *testing.T) {
	o := DefaultOptions
	o.SplitLen, o.JoinLen = 4, 1
	r := NewWithOpts([]byte("a\\nbc"), o)
	r = Join(r, NewWithOpts(nil, o))
	if l, c := r.LLen(); l != 1 || c != 2 { t.Fatal(l, c) }
}
''', needs='a node with a separator followed by an empty node', breaks='the column is lost'),
dict(id='c07-drop-failures', property='C07', pkg='memo',
 edits=[('memo/tree.go', "	if examined < t.threshold || length == 0 {\n", "	if examined < t.threshold || length <= 0 {\n")],
 demo='''package memo
import "testing"
func TestZZDemo(t *testing.T) {
	tb := NewTreeTable(0)
	tb.Put(3, 10, -1, 4, 0, nil)
	if e, ok := tb.Get(3, 10); !ok || e.Length() != -1 { t.Fatal(e, ok) }
}
''', needs='a rule that failed at a position', breaks='its result is not found again'),
dict(id='c07-range-length', property='C07', pkg='memo',
 edits=[('memo/tree.go', "t.Map.Add(id, start, start+examined, e)", "t.Map.Add(id, start, start+max(length, 1), e)")],
 demo='''package memo
import "testing"
func TestZZDemo(t *testing.T) {
	tb := NewTreeTable(0)
	tb.Put(3, 10, 2, 8, 1, nil)
	tb.ApplyEdit(Edit{Start: 15, End: 16, Len: 1})
	if _, ok := tb.Get(3, 10); ok { t.Fatal("stale") }
}
''', needs='an edit inside the text a result looked at but did not match', breaks='the stale entry stays'),
dict(id='c07-threshold-max', property='C07', pkg='memo',
 edits=[('memo/tree.go', "	if examined < t.threshold || length == 0 {\n		return\n	}\n\n	examined = max(examined, length)\n", "	examined = max(examined, length)\n\n	if examined <= t.threshold && examined > 0 && t.threshold > 1 || length == 0 {\n		return\n	}\n")],
 demo='''package memo
import "testing"
func TestZZDemo(t *testing.T) {
	tb := NewTreeTable(4)
	tb.Put(3, 10, 4, 4, 1, nil)
	if _, ok := tb.Get(3, 10); !ok { t.Fatal("not kept") }
}
''', needs='a result that examined exactly as much as the threshold', breaks='it is not stored'),
dict(id='c07-nested-pos', property='C07', pkg='memo',
 edits=[('memo/capture.go', "	for _, c := range c.children {\n		c.setMEnt(e)\n	}\n", "	for _, c := range c.children {\n		if c.ment == nil && len(c.children) == 0 {\n			c.ment, c.off = e, c.off-e.pos.Pos()\n		} else if c.Dummy() || len(c.children) > 1 {\n			c.setMEnt(e)\n		}\n	}\n")],
 demo='''package memo
import "testing"
func TestZZDemo(t *testing.T) {
	tb := NewTreeTable(0)
	in := NewCaptureNode(3, 12, 1, nil)
	mid := NewCaptureNode(2, 11, 3, []*Capture{in})
	out := NewCaptureNode(1, 10, 5, []*Capture{mid})
	tb.Put(3, 10, 5, 5, 1, []*Capture{out})
	tb.ApplyEdit(Edit{Start: 0, End: 0, Len: 7})
	if out.Start() != 17 || mid.Start() != 18 || in.Start() != 19 { t.Fatal(out.Start(), mid.Start(), in.Start()) }
}
''', needs='captures nested three deep with one child each, and an edit before them', breaks='the inner ones report old positions'),
]
