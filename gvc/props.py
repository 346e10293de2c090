"""What decides each property: contract modules, replay program, evidence text."""

PROPS = {
    'C01': dict(modules=['charset_'], replay='c01'),
    'C02': dict(modules=['input_'], replay='c02'),
    'C03': dict(modules=['input_'], replay='c03'),
    'C09': dict(modules=['machine_'], replay='c09', replay_quick=10,
                note='exec, Exec and ExecInterval are proved instruction by instruction against the documented instruction set for every machine state, under the input.Input contracts of C02; the memo table is an abstract history (Put/Get/ApplyEdit contracts assumed here, see C07)',
                assume=['charset.Set.Has is an abstract predicate here (its contract is C01); syntax.EmptyOpContext is the documented library function',
                        'a Checker returns -1 or a number of bytes that exist and leaves the input alone',
                        'a memo table returns results that fit the document'],
                gaps=['captures joined by MemoTree are compared by the replay only (the proof covers heights, counts and that nothing else changes)',
                      'what MemoTree writes to the memo table (only the examined range is proved)']),
    'C17': dict(modules=['checkers_', 'machine_'], replay='c17',
                note='MapChecker and BackReference are proved against their documented behaviour; exec is proved to hand CheckBegin/CheckEnd spans, identifiers and flags to the checker and to obey its verdict'),
    'C08': dict(modules=['encode_'], replay='c08', replay_quick=10),
    'C07': dict(modules=['memo_'], replay='c07',
                note='Put, Get, ApplyEdit, setMEnt, setPos, AllValues and the Entry accessors are proved for every table state over the documented contract of the interval map (interface interval.Map), which is C06',
                trusted=['the contract of interval.Map methods (Add, FindLargest, RemoveAndShift, AllValues, Size): stated as documented, decided by C06']),
    'C04': dict(modules=['rope_'], replay='c04',
                note='every editing and reading function of the rope is proved against the flat text it stands for, for every tree shape, size and option setting; the abstraction text(n) is the concatenation of the leaves',
                assume=['Options.SplitLen is positive (as in DefaultOptions); rebalance ratios are arbitrary floating-point values',
                        'the goroutines of NewWithOpts write disjoint ranges of the node list and are executed one after another',
                        'a rope given to Join, or split by SplitAt, is not used afterwards'],
                bounded=['EachLeaf, Each and WriteTo (higher-order walks): compared with the flat text by the replay'],
                gaps=['termination']),
    'C05': dict(modules=['rope_'], replay='c05',
                note='line and column functions are proved against counting separators in the flat text, for an arbitrary one-byte separator',
                assume=['bytes.Count, Index and LastIndex are the documented library functions',
                        'the goroutines of NewWithOpts are executed one after another'],
                gaps=['termination', 'separators of more than one byte (outside the property)']),
    'C06': dict(modules=['lazylog_'], replay='c06',
                note='every operation of the lazy interval tree is proved against the set of (position, id, length, value) items at effective positions (after the moves not yet applied): Add adds exactly one, RemoveAndShift removes exactly the touching ones and moves exactly the later ones, FindLargest gives a longest item of its key and changes nothing, AllValues and Size list and count them; for every tree shape, every list of pending moves and every split of them over the nodes',
                assume=['the bound kept in a node (max) is at least every end below it when removeOverlaps tests it (compared on histories by the replay)',
                        'the back pointer of a location handle points to the node that holds it',
                        'fewer than 2^64 edits (time stamps do not wrap)', 'ids and values are abstract'],
                bounded=['Pos of a location handle; multiplicity of identical items across operations; applyAllShifts (unused: ShiftThreshold is -1): replay'],
                gaps=['balance of the tree (only its content is specified)', 'termination']),
    'C14': dict(modules=['serial_'], replay='c14',
                note='ToBytes, FromBytes, ToJson and FromJson are proved to hand the complete record to the encoders, to finish and verify the streams, and to give back what was decoded, with every field of the record visible to the encoders; the library round trips themselves are assumed as documented and exercised by the replay (same results on documents)',
                trusted=['encoding/gob, encoding/json, compress/gzip: documented round-trip behaviour'],
                bounded=['equality of results on documents after loading: generated parsers and inputs (replay)']),
    'C13': dict(modules=['memo_', 'machine_'], replay='c13', replay_quick=10,
                note='proved: what exec stores covers everything examined (including reused results), what a hit skips and accounts for, what ApplyEdit removes and moves, that captures move with their entry, and that a table of right results stays right under any edit; the composition over whole histories (equality with a parse from scratch) is compared by the replay',
                assume=['locality: the result of a rule depends only on positions the machine examined'],
                trusted=['the contract of interval.Map methods as documented (C06)', 'the Input contracts of C02'],
                bounded=['equality of whole incremental histories with a parse from scratch: generated grammars, documents and edits (replay)']),
    'C12': dict(modules=['memo_', 'machine_', 'pattern_'], replay='c12',
                note='capture construction and accessors, and the capture bookkeeping of exec and ExecInterval, are proved; iteration over dummies is proved against the visible-children specification for NumChildren and compared by the replay for ChildIterator and Child',
                bounded=['ChildIterator and Child (closures over an explicit stack): compared with a reference walk on generated trees (replay)',
                         'captures joined by MemoTree: compared by the replay']),
    'C10': dict(modules=['pattern_', 'inline_'], replay='c10',
                note='every pattern constructor is proved to mean what its documentation says; the code emitted by the Compile method of every node kind is executed symbolically and proved to give the result of the PEG meaning of the node, for all sub-patterns, documents and positions; the grammar compiler is proved to lay out one labelled block per used rule and to resolve every call to the block of that rule; Compile is proved to leave no unresolved call',
                assume=['a sub-pattern is compiled to code that means it (the contract of Compile, used for sub-patterns and proved for every node kind: structural induction)',
                        'the head of a block fails or passes as its first instruction does, and its rest then completes the block (determinism of the instructions)',
                        'instructions behave as proved in C09', 'a non-terminal means what the code at its label means (least fixpoint of the grammar)',
                        'patterns are not modified while they are compiled, except by inlining (proved: Inline changes only non-terminals that are not inlined yet, to the rule of their name, which has the same meaning)',
                        'captures are compared modulo the grouping dummies of memoization; hits in the memo table are C13'],
                trusted=['charset operations mean the set operations of C01', 'isa.NewLabel is injective'],
                bounded=['whole programs on generated grammars and documents, inlining included (replay)',
                         'error messages and their positions: replay']),
    'C11': dict(modules=['pattern_', 'inline_'], replay='c11',
                note='the simplifier (Get, combine), the instruction lookups and the peephole optimizer are proved to keep meaning, one rewrite at a time; the code emitted for every node kind (head-test, span, disjoint-choice, full-capture and search forms included) is proved to give the meaning of the node as written, before any simplification',
                assume=['the order of rewrites in Optimize does not matter: each one keeps the meaning of the program',
                        'rules that refer to one another mean the least fixpoint of their equations, which naming a rule or writing it out does not change'],
                trusted=['charset operations mean the set operations of C01'],
                bounded=['inlining thresholds, whole programs with optimizations on and off: compared on generated grammars (replay)']),
    'C15': dict(modules=['renotation_'], replay='c15', replay_quick=10,
                note='the translation of a syntax tree of the notation (compile, compileDef, compileSet, parseId, parseChar) is proved to give a pattern that means what the documented notation denotes, for every tree, text, document and position: operators, nesting, escapes, classes, negation, identifiers, and the rules and start rule handed to the grammar; Compile and CompileCap are proved to report an error exactly when the parser refuses the text',
                assume=['the syntax trees are of the shape that the notation grammar captures',
                        '{ e } has no documented meaning and is left out (known finding)'],
                trusted=['bytes.Buffer, strings.NewReader and strconv.ParseUint as documented'],
                bounded=['which texts the parser accepts and which syntax trees it gives (re/grammar.go, executed by the machine): compared with a reference parser of the documented notation on generated and damaged texts (replay)',
                         'the capture identifiers given by CapGrammar: replay']),
    'C16': dict(modules=['rxconv_'], replay='c16',
                note='pi, star and foldCase are proved to build, for every supported expression and every rest pattern, a pattern that gives exactly the result of the backtracking meaning of the expression (leftmost alternatives first, repetition greedy) followed by the rest; a lemma by induction shows that the rule made for a repetition means the repetition; verify and nullable are proved to decide the supported subset; FromRegexp is proved to refuse the others and to search for the match of the rest',
                assume=['the leftmost-first match of package regexp is the first match in backtracking order (documented by regexp); compared with regexp itself by the replay',
                        'documents and classes are taken byte by byte; ASCII only (as the property says)',
                        'the orbit of a character under unicode.SimpleFold is finite'],
                trusted=['regexp/syntax.Parse gives finite expressions of the documented shape', 'strconv.Itoa is injective',
                         'the pattern constructors, grammars and non-terminals mean what C10 says'],
                gaps=['termination of the conversion']),
}

for _k, _v in PROPS.items():
    _v.setdefault('replay_quick', 6)
    _v.setdefault('replay_thorough', 240)
    _v.setdefault('level', 'proof')
    _v.setdefault('bounded', [])
    _v.setdefault('gaps', [])

COMMON_TRUST = [
    'the SSA exporter (go/packages + go/ssa from golang.org/x/tools v0.52.0) and the symbolic executor in /verif/gvc',
    'SMT solvers z3 5.3.2, cvc5 1.1.2, z3 4.8.12 (an obligation counts as discharged when one of them answers unsat)',
    'sequence axioms of gvc/smt.py (lengths, indexing, slicing, concatenation, extensionality)',
]
COMMON_ASSUME = [
    'int and int64 are mathematical integers (no overflow); uint8..uint32 wrap; charset is verified in exact machine arithmetic instead',
    'memory allocation does not fail; no data races (callers do not share the objects between goroutines while they are modified)',
]
