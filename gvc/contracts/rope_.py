"""C04, C05: the rope (package input/linerope)."""
from ..dsl import *
from ..sym import StructV
from ..smt import BYTES, SpecFn, axiom, forall

L, AT, SUB, CAT = BYTES.len, BYTES.at, BYTES.sub, BYTES.cat
SEP = z3.Int('SEP')     # the separator byte, arbitrary

# text[0:i]: number of separators, and the position behind the last of them
cnt = SpecFn('cntto', [BYTES.sort, I], I)
last = SpecFn('lastto', [BYTES.sort, I], I)
cnt.body = lambda t, i: If(Or(i <= 0, i > L(t)), 0, cnt(t, i - 1) + If(AT(t, i - 1) == SEP, 1, 0))
last.body = lambda t, i: If(Or(i <= 0, i > L(t)), 0, If(AT(t, i - 1) == SEP, i, last(t, i - 1)))
# the position with a given line and column (choice function; unique by the lemma below)
offs = z3.Function('offs', BYTES.sort, I, I, I)


def col(t, i):
    return i - last(t, i)


def valid(t, l, c):
    o = offs(t, l, c)
    return And(0 <= o, o <= L(t), cnt(t, o) == l, col(t, o) == c)


def lemmas(reg, P):
    t, a, b = [z3.Const(x, BYTES.sort) for x in ('t!r', 'a!r', 'b!r')]
    n, i, j, x, y = z3.Ints('n!r i!r j!r x!r y!r')
    S = ['cntto']
    S2 = ['cntto', 'lastto']
    reg.induction('separators before a position', P, n, lambda n: Implies(n <= L(t), And(0 <= cnt(t, n), cnt(t, n) <= n)), [t], [cnt(t, n)], S)
    reg.induction('position of the last separator', P, n, lambda n: Implies(n <= L(t), And(0 <= last(t, n), last(t, n) <= n, (last(t, n) == 0) == (cnt(t, n) == 0))), [t], [last(t, n)], S2)
    # concatenation
    reg.induction('separators in a prefix of a concatenation', P, n, lambda n: Implies(n <= L(a), cnt(CAT(a, b), n) == cnt(a, n)), [a, b], [cnt(CAT(a, b), n)], S)
    reg.induction('last separator in a prefix of a concatenation', P, n, lambda n: Implies(n <= L(a), last(CAT(a, b), n) == last(a, n)), [a, b], [last(CAT(a, b), n)], ['lastto'])
    reg.induction('separators in a concatenation', P, n, lambda n: Implies(And(i == L(a) + n, n <= L(b)), cnt(CAT(a, b), i) == cnt(a, L(a)) + cnt(b, i - L(a))), [a, b, i], [cnt(CAT(a, b), i)], S, elim=i - L(a))
    reg.induction('last separator of a concatenation', P, n, lambda n: Implies(And(i == L(a) + n, n <= L(b)), last(CAT(a, b), i) == If(cnt(b, i - L(a)) > 0, L(a) + last(b, i - L(a)), last(a, L(a)))), [a, b, i], [last(CAT(a, b), i)], S2, elim=i - L(a))
    # parts
    reg.induction('separators in a part', P, n, lambda n: Implies(And(0 <= x, x <= y, y <= L(t), n <= y - x), cnt(SUB(t, x, y), n) == cnt(t, x + n) - cnt(t, x)), [t, x, y], [cnt(SUB(t, x, y), n)], S)
    reg.induction('last separator in a part', P, n, lambda n: Implies(And(0 <= x, x <= y, y <= L(t), n <= y - x), last(SUB(t, x, y), n) == If(cnt(t, x + n) > cnt(t, x), last(t, x + n) - x, 0)), [t, x, y], [last(SUB(t, x, y), n)], S2)
    # order
    mono = And(cnt(t, i) <= cnt(t, j), last(t, i) <= last(t, j), Implies(cnt(t, i) == cnt(t, j), last(t, i) == last(t, j)), Implies(cnt(t, i) != cnt(t, j), last(t, j) > i))
    reg.induction('lines and columns grow with the position', P, n, lambda n: Implies(And(0 <= i, j == i + n, j <= L(t)), mono), [t, i, j], [smt.multipattern(cnt(t, i), cnt(t, j))], S2, elim=j - i)
    # the position with a line and column is unique, so a choice function exists
    reg.lemma('a line and column belong to one position', [0 <= i, i <= L(t), 0 <= j, j <= L(t), cnt(t, i) == cnt(t, j), col(t, i) == col(t, j)], i == j, P)
    axiom(['offs'], z3.ForAll([t, i], Implies(And(0 <= i, i <= L(t)), offs(t, cnt(t, i), col(t, i)) == i), patterns=[cnt(t, i)]), 'definition of the position of a line and column')
    l, c, l2, c2 = z3.Ints('l!r c!r l2!r c2!r')
    bef = lambda l, c, l2, c2: Or(l < l2, And(l == l2, c < c2))
    o, o2 = offs(t, l, c), offs(t, l2, c2)
    S3 = ['offs', 'cntto', 'lastto']
    reg.fact('lines and columns are ordered like positions', P, Implies(And(valid(t, l, c), valid(t, l2, c2)), And(bef(l, c, l2, c2) == (o < o2), (o == o2) == And(l == l2, c == c2))),
             [t, l, c, l2, c2], [smt.multipattern(o, o2)], S3, using=[cnt(t, o), cnt(t, o2)])
    ab = CAT(a, b)
    o = offs(ab, l, c)
    la, ca = cnt(a, L(a)), col(a, L(a))
    lr, cr = l - la, If(l == la, c - ca, c)
    for nm, body, us in (
            ('which part of a concatenation', bef(l, c, la, ca) == (o < L(a)), []),
            ('in the first part of a concatenation', Implies(o <= L(a), And(valid(a, l, c), offs(a, l, c) == o)), [cnt(a, o)]),
            ('in the second part of a concatenation', Implies(o >= L(a), And(valid(b, lr, cr), offs(b, lr, cr) == o - L(a), lr >= 0, cr >= 0)), [cnt(b, o - L(a))])):
        reg.fact('a line and column ' + nm, P, Implies(valid(ab, l, c), body), [a, b, l, c], [o], S3, using=[cnt(ab, o), cnt(ab, L(a))] + us)
    reg.fact('the end and the start have a line and column', P, And(offs(t, 0, 0) == 0, valid(t, 0, 0), offs(t, cnt(t, L(t)), col(t, L(t))) == L(t), valid(t, cnt(t, L(t)), col(t, L(t)))), [t], [cnt(t, L(t))], S3,
             using=[cnt(t, 0), cnt(t, L(t))])


def build(w, reg):
    p = w.p
    P, P5 = ('C04',), ('C05',)
    PP = P + P5
    lemmas(reg, P5)
    pt = p.tstr['*linerope.Node']
    nt = p.tstr['linerope.Node']
    lt = p.tstr['linerope.loc']
    ot = p.tstr['linerope.Options']
    PN, TN, TL, TO = w.D(pt), w.D(nt), w.D(lt), w.D(ot)
    bs = w.slcdt(p.tstr['byte'])
    nodes = w.seq(pt)
    DEFAULTS = z3.Const('G_DefaultOptions', TO.sort)
    fld = lambda n, f: TN.acc[p.field_index(nt, f)](PN.val(n))
    opt = lambda n, f: TO.acc[p.field_index(ot, f)](fld(n, 'opts'))
    lf = lambda l, f: TL.acc[p.field_index(lt, f)](l)
    LEAF = p.consts['linerope.tLeaf']
    NODE = p.consts['linerope.tNode']

    # ---- what a rope stands for ----
    text = SpecFn('text', [PN.sort], BYTES.sort)
    text.body = lambda n: If(PN.isnil(n), BYTES.empty, If(fld(n, 'kind') == LEAF, bs.data(fld(n, 'value')), CAT(text(fld(n, 'left')), text(fld(n, 'right')))))
    # well formed: lengths right, inner nodes complete, a leaf with spare room owns its memory
    wf = SpecFn('wf', [PN.sort], B)
    wf.body = lambda n: And(Not(PN.isnil(n)), opt(n, 'SplitLen') >= 1, fld(n, 'length') == L(text(n)), If(fld(n, 'kind') == LEAF,
        Or(bs.cap(fld(n, 'value')) == L(bs.data(fld(n, 'value'))), bs.own(fld(n, 'value'))),
        And(fld(n, 'kind') == NODE, wf(fld(n, 'left')), wf(fld(n, 'right')))))
    # lines: every node knows the line and column of its end
    wl = SpecFn('wl', [PN.sort], B)
    wl.body = lambda n: And(Not(PN.isnil(n)), sepok(bs.data(opt(n, 'LineSep'))), lf(fld(n, 'llength'), 'line') == cnt(text(n), L(text(n))), lf(fld(n, 'llength'), 'col') == col(text(n), L(text(n))),
        Implies(fld(n, 'kind') != LEAF, And(wl(fld(n, 'left')), wl(fld(n, 'right')))))

    def sepok(s):
        return And(L(s) == 1, AT(s, 0) == SEP)
    # the definitions applied to a node whose fields are known
    fs = [z3.Const('f%d!n' % k, a.range()) for k, a in enumerate(TN.acc)]
    known = PN.ref(TN.mk(*fs))
    for f in (text, wf, wl):
        axiom([f.name], z3.ForAll(fs, f(known) == f.body(known), patterns=[f(known)]), 'definition of %s' % f.name)
    # nodes in a row
    ts = SpecFn('texts', [nodes.sort, I], BYTES.sort)
    ts.body = lambda s, k: If(Or(k <= 0, k > nodes.len(s)), BYTES.empty, CAT(ts(s, k - 1), text(nodes.at(s, k - 1))))
    s_, s2_ = z3.Const('s!n', nodes.sort), z3.Const('s2!n', nodes.sort)
    v_ = z3.Const('v!n', PN.sort)
    n_, i_, k_, c_, j_ = z3.Ints('n!n i!n k!n c!n j!n')
    b_ = z3.Const('b!n', BYTES.sort)
    reg.induction('texts before a replaced node', P, n_, lambda n: Implies(And(n <= i_, 0 <= i_, i_ < nodes.len(s_)), ts(nodes.upd(s_, i_, v_), n) == ts(s_, n)), [s_, i_, v_], [ts(nodes.upd(s_, i_, v_), n_)], ['texts'])
    reg.induction('texts of the first nodes', P, n_, lambda n: Implies(And(n <= i_, 0 <= i_, i_ <= nodes.len(s_)), ts(nodes.sub(s_, 0, i_), n) == ts(s_, n)), [s_, i_], [ts(nodes.sub(s_, 0, i_), n_)], ['texts'])
    reg.induction('texts of nodes before added ones', P, n_, lambda n: Implies(n <= nodes.len(s_), ts(nodes.cat(s_, s2_), n) == ts(s_, n)), [s_, s2_], [ts(nodes.cat(s_, s2_), n_)], ['texts'])
    reg.fact('texts after the last two nodes were joined', P, Implies(And(0 <= i_, i_ + 2 <= nodes.len(s_), n_ == i_ + 1), ts(nodes.sub(nodes.upd(s_, i_, v_), 0, n_), n_) == CAT(ts(nodes.sub(s_, 0, i_ + 2), i_), text(v_))),
             [s_, i_, v_, n_], [ts(nodes.sub(nodes.upd(s_, i_, v_), 0, n_), n_)], ['texts'], using=[ts(nodes.upd(s_, i_, v_), i_ + 1), ts(nodes.upd(s_, i_, v_), i_), ts(s_, i_), ts(nodes.sub(s_, 0, i_ + 2), i_)])
    pieces = SpecFn('pieces', [nodes.sort, BYTES.sort, I, I], B)     # the first n nodes hold consecutive pieces of b of size c
    pieces.body = lambda s, b, c, n: If(n <= 0, BoolVal(True), And(pieces(s, b, c, n - 1), text(nodes.at(s, n - 1)) == SUB(b, (n - 1) * c, (n - 1) * c + c)))

    reg.induction('pieces before a replaced node', P, n_, lambda n: Implies(And(n <= i_, 0 <= i_, i_ < nodes.len(s_)), pieces(nodes.upd(s_, i_, v_), b_, c_, n) == pieces(s_, b_, c_, n)), [s_, i_, v_, b_, c_], [pieces(nodes.upd(s_, i_, v_), b_, c_, n_)], ['pieces'])
    reg.induction('pieces among the first nodes', P, n_, lambda n: Implies(And(n <= i_, 0 <= i_, i_ <= nodes.len(s_)), pieces(nodes.sub(s_, 0, i_), b_, c_, n) == pieces(s_, b_, c_, n)), [s_, i_, b_, c_], [pieces(nodes.sub(s_, 0, i_), b_, c_, n_)], ['pieces'])
    reg.induction('the pieces make up the text', P, n_, lambda n: Implies(And(pieces(s_, b_, c_, n), c_ >= 1, n <= nodes.len(s_), n * c_ <= L(b_)), BYTES.eq(ts(s_, n), SUB(b_, 0, n * c_))), [s_, b_, c_], [smt.multipattern(ts(s_, n_), pieces(s_, b_, c_, n_))], ['pieces', 'texts'])

    def allwf(c, s, n, f=wf):
        return forall([k_], Implies(And(0 <= k_, k_ < n), And(f(nodes.at(s, k_)), Not(PN.isnil(nodes.at(s, k_))))), patterns=[nodes.at(s, k_)])

    T = lambda v: text(v.term)
    full = lambda t: L(t)

    def kept(c, new, old, who='the rope'):
        """well-formedness and line counts carry over"""
        return [('%s is well formed' % who, And(*[wf(n.term) for n in new])),
                ('%s knows its lines' % who, Implies(And(*[wl(n.term) for n in old]), And(*[wl(n.term) for n in new])))]

    def split(c, labs):
        return labs

    # ---- helpers on flat text ----
    reg.contract('linerope.concat', params=['a', 'b'], props=P, append='precise', required=False,
        ensures=lambda c: [('concatenation', BYTES.eq(c.ret.seq, CAT(c.a.seq, c.b.seq))), ('in memory of its own, exactly filled', And(c.ret.own, c.ret.cap == c.ret.len))])

    def b_count(ex, st, x, args):
        b, sep = args
        B_, S_ = ex.slice_data(st, b), ex.slice_data(st, sep)
        r = fresh(I, 'count')
        st.assume(And(r >= 0, Implies(sepok(S_), r == cnt(B_, L(B_)))))
        return [(st, r)]

    def b_lastindex(ex, st, x, args):
        b, sep = args
        B_, S_ = ex.slice_data(st, b), ex.slice_data(st, sep)
        r = fresh(I, 'lastindex')
        st.assume(And(r >= -1, r < L(B_) + 1, Implies(sepok(S_), r == If(cnt(B_, L(B_)) == 0, -1, last(B_, L(B_)) - 1))))
        return [(st, r)]

    def b_index(ex, st, x, args):
        b, sep = args
        B_, S_ = ex.slice_data(st, b), ex.slice_data(st, sep)
        r = fresh(I, 'index')
        st.assume(Or(r == -1, And(0 <= r, r + L(S_) <= L(B_))))
        st.assume(Implies(sepok(S_), If(r == -1, cnt(B_, L(B_)) == 0, And(AT(B_, r) == SEP, cnt(B_, r) == 0, cnt(B_, r + 1) == 1, last(B_, r + 1) == r + 1))))
        return [(st, r)]
    reg.externs.update({'bytes.Count': b_count, 'bytes.LastIndex': b_lastindex, 'bytes.Index': b_index,
                        'runtime.NumCPU': lambda ex, st, x, args: numcpu(st)})

    def numcpu(st):
        n = fresh(I, 'ncpu')
        st.assume(n >= 1)
        return [(st, n)]
    noop = lambda ex, st, x, args: [(st, None)]
    reg.externs.update({'(*sync.WaitGroup).Add': noop, '(*sync.WaitGroup).Done': noop, '(*sync.WaitGroup).Wait': noop})

    # ---- lines of flat text ----
    reg.contract('linerope.llen', params=['b', 'sep'], props=P5, required=False,
        ensures=lambda c: [('line and column of the end', Implies(sepok(c.sep.seq), And(c.ret.line == cnt(c.b.seq, c.b.len), c.ret.col == col(c.b.seq, c.b.len))))])
    reg.contract('linerope.addlocs', params=['a', 'b'], props=P5, required=False,
        requires=lambda c: [],
        ensures=lambda c: [('lines add up', Implies(And(c.a.line >= 0, c.b.line >= 0), c.ret.line == c.a.line + c.b.line)), ('column after the last separator', Implies(And(c.a.line >= 0, c.b.line >= 0), c.ret.col == If(c.b.line == 0, c.a.col + c.b.col, c.b.col)))])
    reg.contract('linerope.sublocs', params=['a', 'b'], props=P5, required=False,
        ensures=lambda c: [('lines', c.ret.line == c.a.line - c.b.line), ('column', c.ret.col == If(c.a.line == c.b.line, c.a.col - c.b.col, c.a.col))])

    def before(a, b):
        return Or(a.line < b.line, And(a.line == b.line, a.col < b.col))
    same = lambda a, b: And(a.line == b.line, a.col == b.col)
    reg.contract('(linerope.loc).cmp', params=['a0', 'other'], props=P5, required=False,
        ensures=lambda c: [('order', c.ret == If(before(c.a0, c.other), -1, If(same(c.a0, c.other), 0, 1)))])
    for nm, flip in (('minloc', False), ('maxloc', True)):
        reg.contract('linerope.' + nm, params=['a', 'b'], props=P5, required=False,
            ensures=(lambda flip: lambda c: [('the %s one' % ('later' if flip else 'earlier'), (lambda first: And(c.ret.line == If(first, c.a.line, c.b.line), c.ret.col == If(first, c.a.col, c.b.col)))(before(c.b, c.a) if flip else before(c.a, c.b)))])(flip))

    reg.contract('linerope.indexN', params=['b', 'sep', 'n'], props=P5, required=False,
        requires=lambda c: [('the separator is one byte', sepok(c.sep.seq)), ('so many separators exist', And(0 <= c.n, c.n <= cnt(c.b.seq, c.b.len)))],
        ensures=lambda c: [('position of the n-th separator', (lambda t: And(-1 <= c.ret, c.ret < L(t), cnt(t, c.ret + 1) == c.n, last(t, c.ret + 1) == c.ret + 1))(c.old.b.seq))],
        loops={0: LoopC(inv=lambda c: (lambda t, q: [
            ('separators passed', And(0 <= c.l('i'), c.l('i') <= c.n, c.l('index') >= 0)),
            ('position', And(q >= 0, q <= L(t), cnt(t, q) == c.l('i'), last(t, q) == q)),
            ('last search', If(c.l('i') == 0, c.l('idx') == -1, c.l('idx') >= 0))])(c.old.b.seq, c.l('index') + c.l('i')),
            alias={'b': lambda c: [(BoolVal(True), c.old.b.tail(c.l('index') + c.l('i')))]})})

    reg.contract('linerope.lineCol', params=['b', 'sep', 'pos'], props=P5, required=False,
        requires=lambda c: [('the separator is one byte', sepok(c.sep.seq)), ('a position of the text', And(0 <= c.pos, c.pos <= c.b.len))],
        ensures=lambda c: [('separators before the position', c.ret.line == cnt(c.b.seq, c.pos)), ('distance to the last of them', c.ret.col == col(c.b.seq, c.pos))],
        loops={0: LoopC(inv=lambda c: (lambda t, q: [
            ('position', And(0 <= q, q <= c.pos, q <= L(t), c.l('line') == cnt(t, q), last(t, q) == q))])(c.b.seq, c.l('last')))})
    reg.contract('linerope.sliceloc', params=['b', 'sep', 'start', 'end'], props=P5, required=False,
        requires=lambda c: [('the separator is one byte', sepok(c.sep.seq)), ('positions of the text', And(valid(c.b.seq, c.start.line, c.start.col), valid(c.b.seq, c.end.line, c.end.col))),
                            ('in order', offs(c.b.seq, c.start.line, c.start.col) <= offs(c.b.seq, c.end.line, c.end.col))],
        ensures=lambda c: [('the text between', BYTES.eq(c.ret.seq, SUB(c.b.seq, offs(c.b.seq, c.start.line, c.start.col), offs(c.b.seq, c.end.line, c.end.col))))])

    # ---- construction ----
    reg.contract('linerope.join', params=['a', 'b'], props=PP, consumes=['a', 'b'], required=False,
        requires=lambda c: [wf(c.a.term), wf(c.b.term)],
        ensures=lambda c: [('both texts in order', T(c.ret) == CAT(T(c.old.a), T(c.old.b)))] + kept(c, [c.ret], [c.old.a, c.old.b]))
    reg.contract('linerope.Join', params=['a', 'b', 'more'], props=PP, consumes=['a', 'b'],
        requires=lambda c: [wf(c.a.term), wf(c.b.term), ('ropes', allwf(c, c.more.seq, c.more.len))],
        ensures=lambda c: [('all texts in order', T(c.ret) == CAT(CAT(T(c.old.a), T(c.old.b)), ts(c.more.seq, c.more.len)))] + [
            ('the rope is well formed', wf(c.ret.term)), ('the rope knows its lines', Implies(And(wl(c.old.a.term), wl(c.old.b.term), allwf(c, c.more.seq, c.more.len, wl)), wl(c.ret.term)))],
        loops={0: LoopC(inv=lambda c: [('texts so far', BYTES.eq(T(c.l('s')), CAT(CAT(T(c.old.a), T(c.old.b)), ts(c.more.seq, c.idx)))), ('well formed', wf(c.l('s').term)),
                                       ('knows its lines', Implies(And(wl(c.old.a.term), wl(c.old.b.term), allwf(c, c.more.seq, c.more.len, wl)), wl(c.l('s').term)))])})

    reg.contract('linerope.buildTree', params=['nodes'], props=PP, required=False, append='value', modifies=['nodes[]'],
        requires=lambda c: [('at least one node', c.nodes.len >= 1), ('ropes', allwf(c, c.nodes.seq, c.nodes.len))],
        ensures=lambda c: [('all texts in order', BYTES.eq(T(c.ret), ts(c.old.nodes.seq, c.old.nodes.len))), ('the rope is well formed', wf(c.ret.term)),
                           ('the rope knows its lines', Implies(allwf(c, c.old.nodes.seq, c.old.nodes.len, wl), wl(c.ret.term)))],
        loops={0: LoopC(inv=lambda c: [
            ('pairs', And(c.l('i') >= 0, c.l('i') % 2 == 0, c.l('i') <= c.l('nodes').len, c.l('nodes').len % 2 == 0, c.l('nodes').len > 0, 2 * c.l('newnodes').len == c.l('i'))),
            ('texts so far', BYTES.eq(ts(c.l('newnodes').seq, c.l('newnodes').len), ts(c.l('nodes').seq, c.l('i')))),
            ('the texts', BYTES.eq(ts(c.l('nodes').seq, c.l('nodes').len), ts(c.old.nodes.seq, c.old.nodes.len))), ('the nodes', And(allwf(c, c.l('nodes').seq, c.l('nodes').len))),
            ('own memory', c.l('newnodes').own),
            ('well formed', allwf(c, c.l('newnodes').seq, c.l('newnodes').len)),
            ('the nodes know their lines', Implies(allwf(c, c.old.nodes.seq, c.old.nodes.len, wl), allwf(c, c.l('nodes').seq, c.l('nodes').len, wl))),
            ('the new nodes know their lines', Implies(allwf(c, c.old.nodes.seq, c.old.nodes.len, wl), allwf(c, c.l('newnodes').seq, c.l('newnodes').len, wl)))])})

    def made(c, b, o):
        return [('exactly the given text', BYTES.eq(T(c.ret), b)), ('the rope is well formed', wf(c.ret.term)), ('the rope knows its lines', Implies(o, wl(c.ret.term)))]
    sized = lambda c: ('a positive split length', c.opts.SplitLen >= 1)

    def filled(c, s, n, b, cs, o):
        """the first n nodes hold consecutive pieces of size cs"""
        return [('pieces of the text so far', pieces(s, b, cs, n)), ('nodes so far are well formed', allwf(c, s, n)), ('nodes so far know their lines', Implies(o, allwf(c, s, n, wl)))]
    reg.contract('linerope.NewWithOpts', params=['b', 'opts'], props=PP, append='precise',
        requires=lambda c: [sized(c)],
        ensures=lambda c: made(c, c.b.seq, sepok(c.opts.LineSep.seq)),
        loops={0: LoopC(inv=lambda c: [
            ('chunks', And(c.l('nodes').len == c.l('nchunks'), c.l('nodes').own, 0 <= c.l('t'), c.l('t') <= c.l('nthreads')))] +
            filled(c, c.l('nodes').seq, If(c.l('t') == c.l('nthreads'), c.l('nchunks'), c.l('t') * (c.l('nchunks') / c.l('nthreads'))), c.b.seq, c.opts.SplitLen, sepok(c.opts.LineSep.seq)))})
    reg.contract('linerope.NewWithOpts$1', params=['t'], inline=True, required=False,
        loops={0: LoopC(inv=lambda c: [
            ('chunks', And(c.fv('nodes').len == c.fv('nchunks'), c.fv('nodes').own, c.l('start') <= c.l('i'), Or(c.l('i') <= c.l('end'), c.l('i') == c.l('start'))))] +
            filled(c, c.fv('nodes').seq, c.l('i'), c.fv('b').seq, c.fv('chunksz'), sepok(c.fv('opts').LineSep.seq)))})
    reg.contract('linerope.New', params=['b'], props=PP, ensures=lambda c: made(c, c.b.seq, sepok(bs.data(TO.acc[p.field_index(ot, 'LineSep')](DEFAULTS)))))

    # ---- access ----
    def req(c, *more):
        return [('a well-formed rope', wf(c.n.term))] + list(more)
    inside = lambda c, *q: ('positions inside', And(*[And(0 <= x, x <= L(T(c.n))) for x in q]))
    R = '(*linerope.Node).'
    reg.contract(R + 'Len', params=['n'], props=P, requires=req, ensures=lambda c: [('length of the text', c.ret == L(T(c.n)))])
    reg.contract(R + 'LLen', params=['n'], props=P5, requires=lambda c: [('knows its lines', wl(c.n.term))],
        ensures=lambda c: [('lines', c.rets[0] == cnt(T(c.n), L(T(c.n)))), ('columns', c.rets[1] == col(T(c.n), L(T(c.n))))])
    reg.contract(R + 'NumLines', params=['n'], props=P5, requires=lambda c: [('knows its lines', wl(c.n.term))], ensures=lambda c: [('number of separators', c.ret == cnt(T(c.n), L(T(c.n))))])
    reg.contract(R + 'Value', params=['n'], props=P, requires=req,
        ensures=lambda c: [('the text', BYTES.eq(c.ret.seq, T(c.n))), ('of an inner node: in memory of its own', Implies(c.n.kind != LEAF, And(c.ret.own, c.ret.len == c.ret.cap)))])
    reg.contract(R + 'slice', params=['n', 'start', 'end'], props=P, required=False, requires=lambda c: req(c, ('positions inside', Or(c.start >= c.end, And(0 <= c.start, c.end <= L(T(c.n)))))),
        ensures=lambda c: [('the text between', BYTES.eq(c.ret.seq, If(c.start >= c.end, BYTES.empty, SUB(T(c.n), c.start, c.end))))])
    reg.contract(R + 'At', params=['n', 'pos'], props=P, requires=lambda c: req(c, ('a position of the text', And(0 <= c.pos, c.pos < L(T(c.n))))),
        ensures=lambda c: [('the byte there', c.ret == AT(T(c.n), c.pos))])
    mn = lambda a, b: If(a < b, a, b)

    def readat(c):
        t = T(c.n)
        n = If(c.off >= L(t), 0, mn(c.p.len, L(t) - c.off))
        return [('bytes available', c.rets[0] == n), ('the text', BYTES.eq(SUB(c.p.seq, 0, n), SUB(t, If(n == 0, 0, c.off), If(n == 0, 0, c.off + n)))),
                ('the rest of the buffer is untouched', BYTES.eq(SUB(c.p.seq, n, c.p.len), SUB(c.old.p.seq, n, c.p.len))),
                ('end of file is reported exactly when the text ends', (c.rets[1] != 0) == (c.off + c.p.len >= L(t)))]
    reg.contract(R + 'ReadAt', params=['n', 'p', 'off'], props=P, modifies=['p[]'], requires=lambda c: req(c, c.off >= 0), ensures=readat)

    # ---- editing ----
    MOD = ['n.*']
    reg.contract(R + 'adjust', params=['n'], props=PP, modifies=MOD, required=False, requires=req,
        ensures=lambda c: [('same text', BYTES.eq(T(c.n), T(c.old.n)))] + kept(c, [c.n], [c.old.n]))
    reg.contract(R + 'Remove', params=['n', 'start', 'end'], props=PP, modifies=MOD, append='precise',
        requires=lambda c: req(c, inside(c, c.start, c.end), c.start <= c.end),
        ensures=lambda c: [('the text without the range', BYTES.eq(T(c.n), CAT(SUB(T(c.old.n), 0, c.start), SUB(T(c.old.n), c.end, L(T(c.old.n))))))] + kept(c, [c.n], [c.old.n]))
    reg.contract(R + 'Insert', params=['n', 'pos', 'value'], props=PP, modifies=MOD,
        requires=lambda c: req(c, inside(c, c.pos)),
        ensures=lambda c: [('the text with the value at the position', BYTES.eq(T(c.n), CAT(CAT(SUB(T(c.old.n), 0, c.pos), c.value.seq), SUB(T(c.old.n), c.pos, L(T(c.old.n))))))] + kept(c, [c.n], [c.old.n]))
    reg.contract(R + 'Rebuild', params=['n'], props=PP, modifies=MOD, requires=req, ensures=lambda c: [('same text', BYTES.eq(T(c.n), T(c.old.n)))] + kept(c, [c.n], [c.old.n]))
    reg.contract(R + 'Rebalance', params=['n'], props=PP, modifies=MOD, requires=req, ensures=lambda c: [('same text', BYTES.eq(T(c.n), T(c.old.n)))] + kept(c, [c.n], [c.old.n]))
    reg.contract(R + 'SplitAt', params=['n', 'i'], props=PP, consumes=['n'], requires=lambda c: req(c, inside(c, c.i)),
        ensures=lambda c: [('the text before', BYTES.eq(T(c.rets[0]), SUB(T(c.old.n), 0, c.i))), ('the text behind', BYTES.eq(T(c.rets[1]), SUB(T(c.old.n), c.i, L(T(c.old.n)))))] + [
            ('both ropes are well formed', And(wf(c.rets[0].term), wf(c.rets[1].term))), ('both ropes know their lines', Implies(wl(c.old.n.term), And(wl(c.rets[0].term), wl(c.rets[1].term))))])

    # ---- lines ----
    lines = lambda c: ('knows its lines', wl(c.n.term))
    reg.contract(R + 'lineColAt', params=['n', 'pos'], props=P5, required=False, requires=lambda c: req(c, lines(c), inside(c, c.pos)),
        ensures=lambda c: [('separators before the position', c.ret.line == cnt(T(c.n), c.pos)), ('distance to the last of them', c.ret.col == col(T(c.n), c.pos))])
    reg.contract(R + 'LineColAt', params=['n', 'pos'], props=P5, requires=lambda c: req(c, lines(c), inside(c, c.pos)),
        ensures=lambda c: [('separators before the position', c.rets[0] == cnt(T(c.n), c.pos)), ('distance to the last of them', c.rets[1] == col(T(c.n), c.pos))])
    reg.contract(R + 'OffsetAt', params=['n', 'line', 'col'], props=P5, requires=lambda c: req(c, lines(c), ('the line and column of a position', valid(T(c.n), c.line, c.col))),
        ensures=lambda c: [('that position', c.ret == offs(T(c.n), c.line, c.col))])

    def between(c, sl, sc, el, ec):
        t = T(c.n)
        a, b = offs(t, sl, sc), offs(t, el, ec)
        return [('the text between', BYTES.eq(c.ret.seq, If(a >= b, BYTES.empty, SUB(t, a, b))))]
    two = lambda c, sl, sc, el, ec: req(c, lines(c), ('positions of the text', And(valid(T(c.n), sl, sc), valid(T(c.n), el, ec))))
    # the range lies in the left part, in the right part or across
    order = (('empty', lambda a, b, m: a >= b), ('in the left part', lambda a, b, m: And(a < b, b <= m)), ('in the right part', lambda a, b, m: And(m <= a, a < b)), ('across', lambda a, b, m: And(a < m, m < b)))
    def posin(c, side, at, of):
        q = c.l(at)
        v = getattr(c.old, of)
        o, m = offs(T(c.n), v.line, v.col), L(text(fld(c.n.term, 'left')))
        return offs(text(fld(c.n.term, side)), q.line, q.col) == (If(o < m, o, m) if side == 'left' else If(o < m, 0, o - m))

    def lccase(f):
        return lambda c: f(offs(T(c.n), c.start.line, c.start.col), offs(T(c.n), c.end.line, c.end.col), If(c.n.kind == LEAF, 0, fld(fld(c.n.term, 'left'), 'length')))
    lccases = [(nm, lccase(f)) for nm, f in order if 'right' not in nm]
    online = lambda c: c.end.line == lf(fld(fld(c.n.term, 'left'), 'llength'), 'line')
    lccases += [('in the right part, ends on the line of the border', lambda c: And(lccase(order[2][1])(c), online(c))), ('in the right part, ends on a later line', lambda c: And(lccase(order[2][1])(c), Not(online(c))))]
    reg.contract(R + 'sliceLC', params=['n', 'start', 'end'], props=P5, required=False, requires=lambda c: two(c, c.start.line, c.start.col, c.end.line, c.end.col),
        ensures=lambda c: between(c, c.start.line, c.start.col, c.end.line, c.end.col),
        split=lccases, hints=[
            ('the left end of the part in the left half', lambda c: posin(c, 'left', 'leftStart', 'start')), ('the right end of the part in the left half', lambda c: posin(c, 'left', 'leftEnd', 'end')),
            ('the left end of the part in the right half', lambda c: posin(c, 'right', 'rightStart', 'start')), ('the right end of the part in the right half', lambda c: posin(c, 'right', 'rightEnd', 'end')),
            ('length', lambda c: c.ret.len == (lambda a, b: If(a >= b, 0, b - a))(offs(T(c.n), c.old.start.line, c.old.start.col), offs(T(c.n), c.old.end.line, c.old.end.col)))])
    reg.contract(R + 'SliceLC', params=['n', 'startl', 'startc', 'endl', 'endc'], props=P5, requires=lambda c: two(c, c.startl, c.startc, c.endl, c.endc),
        ensures=lambda c: between(c, c.startl, c.startc, c.endl, c.endc))

    # text is C04's business and lines are C05's
    def wanted(prop, c, o):
        if set(c.props) == {'C04', 'C05'}:
            isline = 'lines' in o.label
            return isline == (prop == 'C05')
        return True
    reg.opts['wanted'] = wanted

    def defopts(ex, st, t):
        v = ex.unfoldv(st, t, DEFAULTS)
        st.assume(TO.acc[p.field_index(ot, 'SplitLen')](DEFAULTS) >= 1)
        return v
    reg.opts.setdefault('globals', {})['linerope.DefaultOptions'] = defopts
    reg.trusted.append('linerope.DefaultOptions.SplitLen is positive')
    zero = p.global_ints('linerope.lzero')      # never assigned outside its initialiser
    if zero is not None:
        reg.opts['globals']['linerope.lzero'] = lambda ex, st, t: StructV([z3.IntVal(v) for v in zero])
    LS = {'wl', 'cntto', 'lastto', 'offs'}

    def prune(c, o):
        g = smt.symbols_of([o.goal])[0]
        if c.split:
            o.without = lambda origin: 'concatenation' in origin and 'a line and column' not in origin or 'in a part' in origin or 'node' in origin or 'pieces' in origin or 'grow' in origin
        if 'wl' in g and c.fn == 'linerope.buildTree':
            o.opaque = {'wl', 'text', 'cntto', 'lastto', 'texts', 'pieces'}
        if 'wl' in g and not g & {'texts', 'pieces'}:
            return [h for h in o.hyps if not smt.symbols_of([h])[0] & {'texts', 'pieces'}]
        if 'C04' not in c.props or g & LS:
            return o.hyps
        return [h for h in o.hyps if not smt.symbols_of([h])[0] & LS]
    reg.opts['prune'] = prune
