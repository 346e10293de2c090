import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
p("C01","Character sets behave as exact sets of bytes",
 "A character set built from a list of bytes or an inclusive range contains exactly those bytes; complement, union and difference of sets contain exactly the bytes the set operation prescribes; the size is the number of bytes contained. Converting a set that holds only bytes below 128 to the small form keeps membership and size, and a set is reported convertible exactly when it holds only bytes below 128.",
 ["inputs"],"all sets (2^256), all bytes, all byte lists and all (low, high) pairs",
 "The tests sample a few ASCII ranges; membership of the other bytes, the upper two words and the operations on arbitrary sets are never looked at.",
 ["charset/charset.go"],[("bit-word selection","charset.New, charset.Range, Set.Has"),("word-wise set algebra","Complement, Add, Sub, Size, IsSmall, SmallSet")],
 [("Bits","one bit per byte value","charset.Set, charset.SmallSet")],["Set.Has","Set.Size","SmallSet.Has"])
p("C02","Buffered input shows the document's own bytes at every position",
 "At every read position reached by any sequence of peeks, seeks and advances, peeking returns the document byte at that position and reports whether one exists, peeking back does the same for the preceding byte, and slicing returns the document's bytes. Advancing by n succeeds exactly when n more bytes exist (also across internal buffer boundaries), and then the position is n further; seeking moves to the requested position and reports whether a byte exists there.",
 ["inputs","histories"],"all documents (any length), all sequences of peek/peek-back/seek/advance/slice calls with non-negative positions",
 "The one test uses an 11-byte document; refilling, buffer boundaries, backward seeks and reads at the exact end are not reached.",
 ["input/input.go","input/reader.go"],[("chunk cache","Input.refill, Peek, PeekBefore, SeekTo, Advance"),("random access","Input.ReadAt, Slice")],
 [("chunk/base/coff/nchunk","cached window of the document and the offset in it","input.Input")],["Input.Peek","Input.Advance","Input.SeekTo","Input.Pos","Input.PeekBefore"])
p("C03","A stream wrapped for random access returns the stream's bytes",
 "Wrapping a sequential reader for random access yields, for every sequence of random-access reads, the same bytes and counts as reading from the complete stream contents; a read is short only if the stream ended or failed, and then reports an error. This holds no matter how the underlying reader splits its data into reads.",
 ["inputs","histories"],"all streams, all ways the reader fragments its data, all sequences of (offset, length) reads",
 "The test wraps one in-memory buffer that delivers everything in one read.",
 ["input/reader.go"],[("retained prefix buffer","readerWrapper.ReadAt")],[("buf","everything read so far","readerWrapper.buf")],["ReadAt","input.Slice"])
p("C04","Rope editing is flat-text editing",
 "After any sequence of construction, insertions, removals, splits, joins, rebuilds and rebalances, the rope's contents equal those of a plain byte array subjected to the same edits, for every choice of split and join thresholds. Length, slices, random-access reads (with end-of-file reporting), single-byte access, writing out and leaf traversal all agree with that byte array, and data the caller passed in or a separate rope is never overwritten.",
 ["inputs","histories","configurations"],"all initial contents, all edit sequences, all positive split lengths and join lengths",
 "The tests run 100 random edits on 5000 bytes with the default options; rebuild, rebalance, write-out and other thresholds are never exercised.",
 ["input/linerope/rope.go"],[("recursive edit and re-aggregation","Node.Insert, Node.Remove, Node.adjust, join, buildTree, NewWithOpts"),("copy-on-write leaves","insert, remove, concat, three-index slices")],
 [("kind/value/length/left/right","leaf bytes or two subtrees and the cached length","linerope.Node")],["Node.Value","Node.Len","Node.ReadAt","Node.WriteTo","Node.SplitAt"])
p("C05","Line and column positions agree with the text and invert each other",
 "In a rope whose separator is a single byte, the line count is the number of separators in the text, the line/column of an offset is the number of separators before it and the distance to the last of them, and converting that line/column back gives the same offset. This holds after any edit history and for any internal tree shape, and slicing between two line/column positions returns the text between the corresponding offsets.",
 ["inputs","histories","configurations"],"all texts, edit histories, tree shapes and offsets 0..length",
 "The tests check 100 random positions of one shape; leaf and subtree boundaries at separators are hit only by luck.",
 ["input/linerope/line.go","input/linerope/util.go","input/linerope/rope.go"],[("line-length monoid","llen, addlocs, sublocs"),("leaf scans","indexN, lineCol, sliceloc"),("descent","Node.OffsetAt, Node.LineColAt, Node.SliceLC")],
 [("llength","separators in the subtree and the column after the last one","linerope.Node")],["Node.LineColAt","Node.OffsetAt","Node.NumLines","Node.LLen"])
p("C06","The interval map keeps exactly the right intervals through shifts",
 "After any sequence of insertions and remove-and-shift operations (with shifts no further left than the removed range is wide), the map holds exactly the inserted intervals that were never touched by a removed range, each moved by the sum of the shifts applied at or before its start. Looking up (id, position) returns a longest such interval or nothing, enumeration and size agree with that content, and the location handle of a held interval reports its current start.",
 ["histories"],"all sequences of add / find / remove-and-shift / enumerate, any order of lazily applied shifts and rebalances",
 "The tests are random with a fixed seed (97 of 100 other seeds fail), check single lookups only and never compare full contents.",
 ["memo/interval/lazylog/tree.go","memo/interval/lazylog/interval.go","memo/interval/map.go"],[("AVL insertion and removal","node.add, node.remove, rotateLeft, rotateRight"),("lazy timestamped shifts","Tree.shift, node.applyShifts, applyShift"),("overlap removal with max pruning","node.removeOverlaps, updateMax")],
 [("shifts/tstamp","pending shifts and how far each node has applied them","lazylog.Tree, lazylog.node")],["FindLargest","AllValues","Size","Pos"])
p("C07","Memo table entries survive edits exactly when untouched",
 "A stored result is found again under its rule and position with its length, capture list and repetition count unless it is empty or examined less than the table's threshold; the examined range kept for it covers both the matched text and everything looked at. After an edit, no entry whose examined range meets the edited range remains, every entry not touching the edit remains, entries after the edit are moved by the size change, and the captures of a moved entry report the moved positions.",
 ["histories"],"all sequences of put / get / edit / interval-limited use on a table, any threshold",
 "No test asserts anything about the table; the one incremental test only checks that nothing panics.",
 ["memo/tree.go","memo/entry.go","memo/capture.go","memo/none.go"],[("interval bookkeeping","TreeTable.Put, Get, ApplyEdit"),("relative capture offsets","Entry.setPos, Capture.setMEnt, Capture.Start")],
 [("length/examined/pos","result and the range it depends on","memo.Entry")],["TreeTable.Get","Entry.Length","Capture.Start"])
p("C08","Bytecode decodes to the instructions that were encoded",
 "Encoding a program yields, for every instruction, bytes that decode to the same operation and operands (byte, count, set, identifier, message, checker), and every jump target is the position of the first instruction after its label. Operands that do not fit their field are refused by the encoder rather than silently truncated, and each instruction occupies exactly the number of bytes by which the machine advances past it.",
 ["programs","inputs"],"all programs of valid instructions, all operand values",
 "Tests only compare a few compiled grammars before and after saving; operand extremes, sizes and jump distances over 65535 never occur.",
 ["vm/code.go","vm/op.go","vm/vm.go"],[("operand encoders/decoders","encodeU24/decodeU24, encodeI16/decodeI16, encodeU8/decodeU8"),("layout","size, Encode, padding, szX constants")],
 [("Insns/Sets/Errors/Checkers","code bytes and operand tables","vm.code")],["vm.Encode","Code.Exec"])
p("C09","Each machine instruction does what its documentation says",
 "For every machine state, executing one instruction has the documented effect on the read position, the program position, the backtrack/return stack and the captures, and nothing else; a failing instruction resumes at the most recent backtrack point with the read position saved there, drops the captures made since, and records a failed memo result for every rule abandoned on the way. When no backtrack point is left the parse reports no match.",
 ["programs","inputs","histories"],"all instructions, operands, documents, positions and stack contents",
 "Tests only see whole-parse outcomes of a few grammars; most operand values (such as multi-byte skips with a fallback) and stack shapes never occur.",
 ["vm/vm.go","vm/stack.go"],[("dispatch loop","Code.exec"),("failure unwinding","fail label in Code.exec"),("stack with capture propagation","stack.push, pop, peek, addCapt, propCapt")],
 [("entries/capt","backtrack, return, capture, memo and check frames","vm.stack")],["Code.Exec"])
p("C10","Compiled patterns match exactly as PEG semantics prescribe",
 "For every well-formed pattern (no left recursion, no repetition of a pattern that can match the empty string) and every document, running the compiled pattern reports a match if and only if the PEG semantics of the pattern matches a prefix, and then ends at the same position. This covers ordered choice, sequence, greedy repetition, optional, both predicates, character sets, literals, skips, searches, grammars with recursive rules, checks and recovery, and execution never crashes.",
 ["programs","inputs"],"all well-formed patterns and all documents",
 "Tests fix about 25 patterns and 2-5 short inputs each.",
 ["pattern/compile.go","pattern/pattern.go","pattern/optimize.go","vm/vm.go"],[("node compilation schemes","(*AltNode).Compile ... (*GrammarNode).Compile"),("constructors","pattern.Concat, Or, Repeat, Grammar, Search")],
 None,["pattern.Compile","Code.Exec"])
p("C11","Pattern and program optimizations never change what is matched",
 "Simplifying a pattern (merging alternatives or negated lookaheads into character sets, dropping empty parts, collapsing optionals), inlining small rules, replacing calls in tail position by jumps, specialising alternatives with different first bytes and the instruction-level rewrites leave the match result, end position and captures unchanged for every document.",
 ["programs","inputs"],"all patterns, programs and documents",
 "No test compares optimized with unoptimized execution.",
 ["pattern/optimize.go","pattern/compile.go"],[("pattern simplification","Get, combine"),("inlining","GrammarNode.Inline, inline"),("peephole rewrites","Optimize"),("disjoint alternatives, tail calls","AltNode.Compile, GrammarNode.Compile")],
 None,["pattern.Compile","pattern.Get"])
p("C12","Captures report the right spans in the right nesting and order",
 "A successful parse returns exactly the captures whose sub-patterns matched on the successful path, each with its identifier and the exact start and length of the text it matched, nested and ordered as in the derivation; captures made on abandoned paths do not appear. Child iteration, child lookup by index and child count agree with each other, skipping the internal grouping nodes, and a parse limited to a range returns exactly the captures that overlap that range.",
 ["programs","inputs"],"all patterns with captures, all documents, all ranges",
 "One test checks five flat captures.",
 ["vm/vm.go","vm/stack.go","memo/capture.go","pattern/compile.go"],[("capture frames and propagation","CaptureBegin/Late/Full/End in Code.exec, stack.addCapt, stack.pop"),("early-capture rewriting","CapNode.Compile"),("dummy flattening","Capture.ChildIterator, Child, NumChildren")],
 [("off/length/children","span and subtree","memo.Capture")],["Capture.Start","Capture.Len","Capture.ChildIterator"])
p("C13","Incremental parsing gives the same answer as parsing from scratch",
 "Parsing with a memo table that has been told about every edit gives the same match result, end position and captures as parsing the current document with no memo table, for every sequence of edits and parses and every memo threshold. This holds for grammars without checkers or zero-width look-behind assertions inside memoized rules.",
 ["histories","programs","inputs"],"all grammars with memoized rules, all edit sequences, all thresholds",
 "The incremental test has its comparison commented out and only checks for panics.",
 ["vm/vm.go","memo/tree.go","memo/interval/lazylog/tree.go","input/input.go","pattern/compile.go"],[("examined-range tracking","Input.Furthest, memoize in Code.exec"),("invalidation","TreeTable.ApplyEdit"),("memoized repetition","MemoTreeOpen/Insert/MemoTree/Close in Code.exec")],
 [("furthest","largest position inspected","input.Input")],["Code.Exec","TreeTable.ApplyEdit"])
p("C14","A saved parser behaves like the original after loading",
 "Saving a compiled parser without checkers to its binary or JSON form and loading it back gives a parser with the same code, character sets and error messages, and hence the same result on every document; the binary form also preserves word-list checkers. Loading malformed data reports an error.",
 ["programs"],"all compiled parsers (valid UTF-8 messages), both formats",
 "Tests compare the code bytes of one grammar; sets, messages and checkers are not compared.",
 ["vm/code.go"],[("serialization of the complete code record","Code.ToBytes, FromBytes, ToJson, FromJson")],None,["FromBytes","FromJson"])
p("C15","PEG notation compiles to the pattern it denotes",
 "A grammar or expression in PEG notation compiles to a pattern matching exactly what the notation denotes: precedence and associativity of choice, sequence, prefix and suffix operators, literals and classes with all escapes including octal byte values, class ranges and negation, comments and spacing, and the first definition as start rule. Text that is not valid notation is rejected with an error.",
 ["inputs"],"all texts in the notation",
 "Tests compile two one-line grammars and two files.",
 ["re/re.go","re/grammar.go"],[("syntax-tree translation","re.compile, compileDef, compileSet, parseChar, parseId"),("self-hosted notation grammar","re/grammar.go")],None,["re.Compile","re.CompileCap"])
p("C16","A converted regular expression finds what the regular expression finds",
 "For every regular expression in the supported subset (literals, classes, case folding, grouping, alternation, greedy ?, * and +, anchors and word boundaries; ASCII characters), converting it to a pattern and running it finds a match in a document exactly when Go's regexp package does, and at the same leftmost-first span. Unsupported expressions (bounded or non-greedy repetition, and repetition of a part that can match the empty string) are refused with an error.",
 ["inputs","programs"],"all regular expressions of the subset and all documents",
 "Tests try six expressions on a few short strings.",
 ["rxconv/rxconv.go"],[("continuation-based translation","pi, star"),("subset check","verify"),("search wrapper","FromRegexp, pattern.Search")],None,["rxconv.FromRegexp"])
p("C17","Checkers and back-references decide on exactly the matched text",
 "A checked pattern succeeds only if the inner pattern matches and its checker accepts, the checker receives exactly the text matched by the inner pattern together with the configured identifier and flag, and the position then advances by the extra amount the checker asks for. A word-list checker accepts exactly the listed words, and a back-reference use consumes exactly the text most recently recorded for its identifier and fails if the document continues differently.",
 ["inputs","histories"],"all words, word lists, identifiers, flags and documents",
 "Tests use one numeric checker and one delimiter grammar.",
 ["isa/checker.go","vm/vm.go","pattern/compile.go"],[("check frames","CheckBegin/CheckEnd in Code.exec, CheckNode.Compile"),("checkers","MapChecker.Check, BackReference.Check")],
 [("Symbols","text recorded per identifier","isa.BackReference")],["Code.Exec","Checker.Check"])
with open('properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
