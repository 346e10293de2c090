From faf1f031d0e559c563205817371778a346c7bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 01/17] fix: Input.Advance succeeds when the skipped bytes
 exist beyond the cached chunk, and for zero bytes at the end

---
 input/input.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/input/input.go b/input/input.go
index 909ed37..289080e 100644
--- a/input/input.go
+++ b/input/input.go
@@ -90,13 +90,16 @@ func (i *Input) SeekTo(pos int) bool {
 // the advance went to the exact end of the data.
 func (i *Input) Advance(n int) bool {
 	if i.nchunk == 0 {
-		return false
+		return n == 0
 	}
 
 	i.coff += n
 	if i.coff > i.nchunk {
+		// the data may continue past the end of the cached chunk, so the
+		// skipped range exists if and only if its last byte does.
 		i.refill(i.base + i.coff)
-		return false
+		_, ok := i.PeekBefore()
+		return ok
 	} else if i.coff == i.nchunk {
 		i.refill(i.base + i.coff)
 	}
-- 
2.43.0


From 438cd8ff7ac11e7a41ff49234db09a6f0705a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:59 +0000
Subject: [PATCH 02/17] fix: TestAny leaves the read position alone when there
 are not enough bytes

---
 vm/vm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vm/vm.go b/vm/vm.go
index 51a7faf..b8f957d 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -237,6 +237,7 @@ loop:
 				st.pushBacktrack(ent)
 				ip += szTestAny
 			} else {
+				src.SeekTo(ent.off)
 				ip = int(lbl)
 			}
 		case opCaptureBegin:
-- 
2.43.0


From b8c031ce0f5b8a9f6f9e657c0d33acd2fa940193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:59 +0000
Subject: [PATCH 03/17] fix: appending to a capture list does not overwrite
 lists sharing its array

---
 vm/stack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm/stack.go b/vm/stack.go
index 9bd0352..7ad8864 100644
--- a/vm/stack.go
+++ b/vm/stack.go
@@ -58,7 +58,9 @@ func (se *stackEntry) addCapt(capt []*memo.Capture) {
 		return
 	}
 	if len(se.capt) == 0 {
-		se.capt = capt
+		// clip the capacity so that later appends do not write into an array
+		// that is shared with the memoization table or with other captures
+		se.capt = capt[:len(capt):len(capt)]
 	} else {
 		se.capt = append(se.capt, capt...)
 	}
-- 
2.43.0


From 9997833e7146ecd7f8832ec209c4f0cffbdcc159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:59 +0000
Subject: [PATCH 04/17] fix: memo entries examine what skipped bytes and reused
 entries examined

---
 input/input.go | 5 +++++
 vm/vm.go       | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/input/input.go b/input/input.go
index 289080e..bfac8ee 100644
--- a/input/input.go
+++ b/input/input.go
@@ -89,6 +89,11 @@ func (i *Input) SeekTo(pos int) bool {
 // that even if Advance returns true the next call to Peek may return false if
 // the advance went to the exact end of the data.
 func (i *Input) Advance(n int) bool {
+	// the outcome depends on the last skipped byte, so it has been examined
+	if last := i.base + i.coff + n - 1; n > 0 && last > i.furthest {
+		i.furthest = last
+	}
+
 	if i.nchunk == 0 {
 		return n == 0
 	}
diff --git a/vm/vm.go b/vm/vm.go
index b8f957d..076b095 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -72,11 +72,14 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 		})
 	}
 
+	// furthest position examined by memoized results that were reused
+	memofar := 0
+
 	memoize := func(id, pos, mlen, count int, capt []*memo.Capture) {
 		if intrvl != nil {
 			capt = nil
 		}
-		mexam := max(src.Furthest(), src.Pos()) - pos + 1
+		mexam := max(max(src.Furthest(), memofar), src.Pos()) - pos + 1
 		memtbl.Put(id, pos, mlen, mexam, count, capt)
 	}
 
@@ -293,6 +296,7 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				memofar = max(memofar, src.Pos()+ment.Examined()-1)
 				if ment.Length() == -1 {
 					goto fail
 				}
@@ -324,6 +328,7 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				memofar = max(memofar, src.Pos()+ment.Examined()-1)
 				if ment.Length() == -1 {
 					goto fail
 				}
-- 
2.43.0


From 678e7b56f67776283484083f9a3002fe8d863b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:59 +0000
Subject: [PATCH 05/17] fix: ExecInterval keeps captures of rules memoized in
 the same run and drops those outside the interval

---
 vm/vm.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index 076b095..4154712 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -76,9 +76,6 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 	memofar := 0
 
 	memoize := func(id, pos, mlen, count int, capt []*memo.Capture) {
-		if intrvl != nil {
-			capt = nil
-		}
 		mexam := max(max(src.Furthest(), memofar), src.Pos()) - pos + 1
 		memtbl.Put(id, pos, mlen, mexam, count, capt)
 	}
@@ -301,7 +298,7 @@ loop:
 					goto fail
 				}
 				capt := ment.Captures()
-				if capt != nil {
+				if capt != nil && overlaps(intrvl, src.Pos(), src.Pos()+ment.Length()) {
 					st.addCapt(capt...)
 				}
 				src.Advance(ment.Length())
@@ -338,7 +335,7 @@ loop:
 					count: ment.Count(),
 				})
 				capt := ment.Captures()
-				if capt != nil {
+				if capt != nil && overlaps(intrvl, src.Pos(), src.Pos()+ment.Length()) {
 					st.addCapt(capt...)
 				}
 				src.Advance(ment.Length())
-- 
2.43.0


From d8fc3c1dbc66d334bc835276f578738083ce12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:26 +0000
Subject: [PATCH 06/17] fix: a grammar nested in another grammar can refer to
 the outer non-terminals

---
 pattern/compile.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 09047eb..69a9b14 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -24,6 +24,14 @@ func Compile(p Pattern) (isa.Program, error) {
 		return nil, err
 	}
 
+	for _, insn := range c {
+		if oc, ok := insn.(openCall); ok {
+			return nil, &NotFoundError{
+				Name: oc.name,
+			}
+		}
+	}
+
 	Optimize(c)
 	return c, nil
 }
@@ -410,9 +418,8 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 		if oc, ok := insn.(openCall); ok {
 			lbl, ok := labels[oc.name]
 			if !ok {
-				return nil, &NotFoundError{
-					Name: oc.name,
-				}
+				// the non-terminal may belong to an enclosing grammar
+				continue
 			}
 
 			// replace this placeholder instruction with a normal call
-- 
2.43.0


From 9adeb994ea65c88e753d807761e8e32ed3e6c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 07/17] fix: Search of a pattern that uses non-terminals of the
 enclosing grammar

---
 pattern/compile.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 69a9b14..8ae44de 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -325,7 +325,6 @@ func (p *CheckNode) Compile() (isa.Program, error) {
 
 // Compile this node.
 func (p *SearchNode) Compile() (isa.Program, error) {
-	var rsearch Pattern
 	var set charset.Set
 	opt := false
 
@@ -352,15 +351,24 @@ func (p *SearchNode) Compile() (isa.Program, error) {
 		}
 	}
 
+	// A search does not use a grammar of its own: the non-terminals of the
+	// pattern keep referring to the enclosing grammar.
+	L1 := isa.NewLabel()
+	L2 := isa.NewLabel()
+	L3 := isa.NewLabel()
+	code := make(isa.Program, 0, len(sub)+8)
+	code = append(code, L1)
+	code = append(code, isa.Choice{Lbl: L2})
+	code = append(code, sub...)
+	code = append(code, isa.Commit{Lbl: L3})
+	code = append(code, L2)
+	code = append(code, isa.Any{N: 1})
 	if opt {
-		rsearch = Concat(Star(Set(set)), NonTerm("S"))
-	} else {
-		rsearch = NonTerm("S")
+		code = append(code, isa.Span{Chars: set})
 	}
-
-	return Grammar("S", map[string]Pattern{
-		"S": Or(Get(p.Patt), Concat(Any(1), rsearch)),
-	}).Compile()
+	code = append(code, isa.Jump{Lbl: L1})
+	code = append(code, L3)
+	return code, nil
 }
 
 // Compile this node.
-- 
2.43.0


From ba7c521a1ddcffc6c6b67147c52b84be6e43e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:10 +0000
Subject: [PATCH 08/17] fix: removing an interval tree node with two children
 keeps the values of its successor

---
 memo/interval/lazylog/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 1682bf0..2e45a7b 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -209,7 +209,7 @@ func (n *node) remove(key key) *node {
 			rightMinNode := n.right.findSmallest()
 
 			n.key = rightMinNode.key
-			copy(n.interval.ins, rightMinNode.interval.ins)
+			n.interval = rightMinNode.interval
 			n.interval.n = n
 			n.tstamp = rightMinNode.tstamp
 			// delete smallest node that we replaced
-- 
2.43.0


From 989aaf9275c7d8b7798ee839122779ea317a4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:10 +0000
Subject: [PATCH 09/17] fix: the size of an interval map counts every value

---
 memo/interval/lazylog/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 2e45a7b..66d5c3a 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -313,7 +313,7 @@ func (n *node) size() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.size() + n.right.size() + 1
+	return n.left.size() + n.right.size() + len(n.interval.ins)
 }
 
 func (n *node) recalculateHeight() {
-- 
2.43.0


From 22f83aa7abc9ec419f081d974767c68c74d9852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:33 +0000
Subject: [PATCH 10/17] fix: rebuilding or rebalancing a rope yields a usable
 rope

---
 input/linerope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index 40a53f0..bc5572b 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -387,6 +387,7 @@ func (n *Node) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
 		n.adjust()
 	}
 }
-- 
2.43.0


From ccd1bbd03a32b00cd3d21cb27c404167943742a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 11/17] fix: loading a damaged binary parser reports an error

---
 vm/code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vm/code.go b/vm/code.go
index 06d568b..ccb8140 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -7,6 +7,8 @@ import (
 	"encoding/gob"
 	"encoding/json"
 	"fmt"
+	"io"
+	"io/ioutil"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -58,6 +60,10 @@ func FromBytes(b []byte) (Code, error) {
 	}
 	dec := gob.NewDecoder(fz)
 	err = dec.Decode(&c)
+	if err == nil {
+		// read the rest of the stream so that its checksum is verified
+		_, err = io.Copy(ioutil.Discard, fz)
+	}
 	fz.Close()
 	return Code{
 		data: c,
-- 
2.43.0


From e5e2121ca5299fa48ab8bc0d3bb253ccd18c65d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:42 +0000
Subject: [PATCH 12/17] fix: the PEG notation [] compiles to the class without
 characters

---
 re/re.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/re/re.go b/re/re.go
index dcae4fe..77d80f1 100644
--- a/re/re.go
+++ b/re/re.go
@@ -100,11 +100,8 @@ func compile(root *memo.Capture, s string, capg bool, ids map[string]int) patter
 		p = pattern.Literal(lit.String())
 	case idClass:
 		var set charset.Set
-		if root.NumChildren() <= 0 {
-			break
-		}
 		complement := false
-		if root.Child(0).Id() == idCARAT {
+		if root.NumChildren() > 0 && root.Child(0).Id() == idCARAT {
 			complement = true
 		}
 		it := root.ChildIterator(0)
-- 
2.43.0


From da7bb3e4cd7f6fc0a149c8c2c2e231380d05a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:42 +0000
Subject: [PATCH 13/17] fix: octal escapes of the PEG notation denote byte
 values up to 255

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 77d80f1..0e3101d 100644
--- a/re/re.go
+++ b/re/re.go
@@ -144,7 +144,7 @@ func parseChar(char string) byte {
 			}
 		}
 
-		i, _ := strconv.ParseInt(string(char[1:]), 8, 8)
+		i, _ := strconv.ParseUint(string(char[1:]), 8, 8)
 		return byte(i)
 	default:
 		return char[0]
-- 
2.43.0


From 8ba4f770207f6595af395e6a87113cecf79bc383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:49 +0000
Subject: [PATCH 14/17] fix: non-greedy regular expressions are refused instead
 of converted to greedy ones

---
 rxconv/rxconv.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 3ea34e0..0c3600c 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -117,8 +117,11 @@ func verify(e *syntax.Regexp) bool {
 			yes = yes && verify(s)
 		}
 		return yes
-	case syntax.OpCapture, syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
+	case syntax.OpCapture:
 		return verify(e.Sub[0])
+	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
+		// the conversion only expresses greedy repetition
+		return e.Flags&syntax.NonGreedy == 0 && verify(e.Sub[0])
 	}
 	return false
 }
-- 
2.43.0


From 72e297e3b1ce590274fca7386591517f768dc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:49 +0000
Subject: [PATCH 15/17] fix: a regular expression that repeats an empty match
 is refused instead of recursing forever

---
 rxconv/rxconv.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 0c3600c..c029ea6 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -120,8 +120,40 @@ func verify(e *syntax.Regexp) bool {
 	case syntax.OpCapture:
 		return verify(e.Sub[0])
 	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
+		// a repeated part that matches the empty string would be converted
+		// to a left-recursive grammar
+		if e.Op != syntax.OpQuest && nullable(e.Sub[0]) {
+			return false
+		}
 		// the conversion only expresses greedy repetition
 		return e.Flags&syntax.NonGreedy == 0 && verify(e.Sub[0])
 	}
 	return false
 }
+
+// nullable reports whether e can match the empty string.
+func nullable(e *syntax.Regexp) bool {
+	switch e.Op {
+	case syntax.OpLiteral:
+		return len(e.Rune) == 0
+	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
+		return false
+	case syntax.OpConcat:
+		for _, s := range e.Sub {
+			if !nullable(s) {
+				return false
+			}
+		}
+		return true
+	case syntax.OpAlternate:
+		for _, s := range e.Sub {
+			if nullable(s) {
+				return true
+			}
+		}
+		return false
+	case syntax.OpCapture, syntax.OpPlus:
+		return nullable(e.Sub[0])
+	}
+	return true
+}
-- 
2.43.0


From 95572b5ede5d6de7ea3e2cbba837f89f182d5770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:49 +0000
Subject: [PATCH 16/17] fix: case-insensitive literals of regular expressions
 match either case

---
 rxconv/rxconv.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index c029ea6..38945b9 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"unicode"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
@@ -25,12 +26,28 @@ func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
 	return p.Grammar(nterm, nonterms)
 }
 
+// foldCase matches the given characters in any case.
+func foldCase(rs []rune) p.Pattern {
+	chars := make([]p.Pattern, 0, len(rs))
+	for _, r := range rs {
+		alts := []p.Pattern{p.Literal(string(r))}
+		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+			alts = append(alts, p.Literal(string(f)))
+		}
+		chars = append(chars, p.Or(alts...))
+	}
+	return p.Concat(chars...)
+}
+
 // continuation-based conversion
 func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	switch e.Op {
 	case syntax.OpEmptyMatch:
 		return k
 	case syntax.OpLiteral:
+		if e.Flags&syntax.FoldCase != 0 {
+			return p.Concat(foldCase(e.Rune), k)
+		}
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
 		lits := make([]p.Pattern, 0, len(e.Rune))
-- 
2.43.0


From 17bfb185777bc0ec4214914278b1634403893482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 17/17] fix: a regular expression class without characters
 never matches

---
 rxconv/rxconv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 38945b9..65822ca 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -50,6 +50,10 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 		}
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
+		if len(e.Rune) == 0 {
+			// the class without characters never matches
+			return p.Set(charset.Set{})
+		}
 		lits := make([]p.Pattern, 0, len(e.Rune))
 		for i := 0; i < len(e.Rune); i += 2 {
 			start := e.Rune[i]
-- 
2.43.0

