T = 'memo/interval/lazylog/tree.go'
L = 'memo/interval/lazylog'
SEEDS = [
dict(id='c06-handle-back', property='C06', pkg=L,
 edits=[(T, "			n.interval.n = n\n", "			if n.right.key == rightMinNode.key {\n				n.interval.n = n\n			}\n")],
 demo='''package lazylog
import "testing"
func TestZZDemo(t *testing.T) {
	tr := &Tree{}
	type h interface{ Pos() int }
	hs := map[int]h{}
	for _, p := range []int{40, 20, 80, 10, 30, 60, 90, 50, 70} { hs[p] = tr.Add(1, p, p, p).(h) }
	tr.RemoveAndShift(40, 40, 0)
	tr.RemoveAndShift(0, 1, 5)
	if hs[50].Pos() != 55 { t.Fatal(hs[50].Pos()) }
}
''', needs='removal of a node whose successor lies deeper in its right part, then a move', breaks='the handle of the successor reports an old position'),
dict(id='c06-touch-end', property='C06', pkg=L,
 edits=[(T, "	if low > n.max {\n", "	if low >= n.max && low < high {\n")],
 demo='''package lazylog
import "testing"
func TestZZDemo(t *testing.T) {
	tr := &Tree{}
	tr.Add(1, 5, 9, 1)
	tr.RemoveAndShift(9, 12, 0)
	if tr.Size() != 0 { t.Fatal("kept") }
}
''', needs='an interval that ends where the removed range starts and has the greatest end of its part', breaks='it stays'),
dict(id='c06-max-left', property='C06', pkg=L,
 edits=[(T, "		if n.left != nil {\n			n.max = max(n.max, n.left.max)\n		}\n", "		if n.left != nil && n.left.key.pos+n.left.max > n.key.pos {\n			n.max = max(n.max, n.left.max-(n.left.height-1)/3)\n		}\n")],
 demo='''package lazylog
import "testing"
func TestZZDemo(t *testing.T) {
	tr := &Tree{}
	for i := 0; i < 16; i++ { tr.Add(1, i*10, i*10, i) }
	tr.Add(2, 0, 1000, "long")
	tr.RemoveAndShift(1000, 1001, 0)
	if v := tr.FindLargest(2, 0); v != nil { t.Fatal(v) }
}
''', needs='a long interval deep in the left part of a large tree', breaks='the bound is too small and the interval stays'),
dict(id='c06-smallest-stale', property='C06', pkg=L,
 edits=[(T, "		n.left.applyShifts()\n		return n.left.findSmallest()", "		return n.left.findSmallest()")],
 demo='''package lazylog
import ("testing"; "math/rand")
func TestZZDemo(t *testing.T) {
	for seed := int64(0); seed < 300; seed++ {
		r := rand.New(rand.NewSource(seed))
		tr := &Tree{}
		type it struct{ id, low, high int }
		var m []it
		for k := 0; k < 60; k++ {
			if r.Intn(3) > 0 {
				i := it{k, r.Intn(100), 0}
				i.high = i.low + r.Intn(3)
				tr.Add(i.id, i.low, i.high, i.id)
				m = append(m, i)
			} else {
				low := r.Intn(100); high := low + 1 + r.Intn(4); amt := r.Intn(5)
				tr.RemoveAndShift(low, high, amt)
				var n []it
				for _, i := range m {
					if i.low <= high && i.high >= low { continue }
					if i.low > high { i.low += amt; i.high += amt }
					n = append(n, i)
				}
				m = n
			}
			if tr.Size() != len(m) { t.Fatal("size") }
		}
		for _, i := range m {
			if v, _ := tr.FindLargest(i.id, i.low).(int); v != i.id { t.Fatal(i) }
		}
	}
}
''', needs='removal of a node with two children whose successor has moves that were not applied yet', breaks='the successor is kept twice or lost'),
dict(id='c06-right-eq', property='C06', pkg=L,
 edits=[(T, "	if high < n.key.pos {\n		return n\n	}\n	n.right", "	if high <= n.key.pos {\n		return n\n	}\n	n.right"),
        (T, "doright := high >= n.key.pos", "doright := high > n.key.pos")],
 demo='''package lazylog
import "testing"
func TestZZDemo(t *testing.T) {
	tr := &Tree{}
	for id := 0; id < 7; id++ { tr.Add(id, 5, 6, id) }
	tr.RemoveAndShift(4, 5, 0)
	if tr.Size() != 0 { t.Fatal(tr.AllValues()) }
}
''', needs='several intervals that start where the removed range ends', breaks='some of them stay'),
dict(id='c06-shift-neg', property='C06', pkg=L,
 edits=[(T, "	t.root = t.root.removeOverlaps(low, high)\n	if amt != 0 {\n		t.shift(low, amt)\n", "	t.root = t.root.removeOverlaps(low, high)\n	if amt != 0 && t.root != nil && t.root.max >= low {\n		t.shift(low, amt)\n")],
 demo='''package lazylog
import "testing"
func TestZZDemo(t *testing.T) {
	tr := &Tree{}
	tr.Add(1, 10, 12, 1)
	tr.RemoveAndShift(2, 3, 20)
	tr.Add(2, 1, 2, 2)
	tr.RemoveAndShift(25, 26, 7)
	if v := tr.FindLargest(1, 37); v != 1 { t.Fatal(v) }
}
''', needs='two moves where the root has not applied the first one when the second is made', breaks='the second move is dropped'),
dict(id='c06-search-first', property='C06', pkg=L,
 edits=[(T, "	if len(n.tree.shifts) == 0 || n.tstamp >= n.tree.shifts[len(n.tree.shifts)-1].tstamp {\n", "	if len(n.tree.shifts) == 0 || n.tstamp+1 >= n.tree.shifts[len(n.tree.shifts)-1].tstamp && n.height > 3 {\n")],
 demo='''package lazylog
import "testing"
func TestZZDemo(t *testing.T) {
	tr := &Tree{}
	for i := 0; i < 20; i++ { tr.Add(i, 10+i*5, 11+i*5, i) }
	tr.RemoveAndShift(1, 2, 3)
	for i := 0; i < 20; i++ {
		if v := tr.FindLargest(i, 13+i*5); v != i { t.Fatal(i, v) }
	}
}
''', needs='a tree of height four and exactly one move', breaks='the move is not applied to high nodes'),
]
