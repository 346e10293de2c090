"""C10, C11: the meaning of patterns, the pattern constructors, the simplifier
(Get, combine), the code emitted by the Compile methods, and Optimize.

m(p, D, i) is the PEG meaning of pattern p at position i of document D: it
fails, or ends at a position with captures, or stops the whole parse (recovery
without a pattern), or does not terminate.  The meaning of a non-terminal is an
arbitrary function of its name (the grammar gives it), so everything proved here
holds for every grammar."""
from ..dsl import *
from ..sym import *
from ..smt import multipattern, BYTES, SpecFn, axiom, SeqTheory
from .isa_spec import Spec, INSNS, NOCODE
from . import isa_spec
from .codesem import Runs

D_ = z3.Const('D', BYTES.sort)
i_ = z3.Int('i')


class PSpec(Spec):
    """instructions as the pattern compiler sees them: those of package isa and the placeholder call"""
    def __init__(self, w):
        self.w = w
        p = self.p = w.p
        self.names = isa_spec.all_insns(p)
        extra = [p.name(t) for t, ms in p.methods.items() if 'insn' in ms and p.name(t).startswith('pattern.') and p.kind(t) == 'struct']
        self.names += sorted(extra)
        w.iface['isa.Insn'] = self.names
        self.t = p.tstr['isa.Insn']
        self.D = w.D(self.t)
        self.tid = {n.split('.')[1]: p.tstr[n] for n in self.names}
        self.prog = w.seq(self.t)


class Pat:
    """the pattern datatype and its meaning"""

    def __init__(self, w, insns=True):
        self.w = w
        p = self.p = w.p
        w.ptr_ref.add('pattern.GrammarNode')
        w.iface['pattern.Pattern'] = sorted(p.name(t) for t, ms in p.methods.items() if 'Compile' in ms and p.name(t).startswith('*pattern.'))
        self.t = p.tstr['pattern.Pattern']
        self.D = w.D(self.t)
        self.S = PSpec(w) if insns else None
        self.sort = self.D.sort
        self.set = w.sort(p.tstr['charset.Set'])
        self.has = SpecFn('chas', [self.set, I], B)
        self.caps = z3.DeclareSort('Caps')
        self.cnil = z3.Const('cnil', self.caps)
        self.ccat = z3.Function('ccat', self.caps, self.caps, self.caps)
        self.cnode = z3.Function('cnode', I, I, I, self.caps, self.caps)
        R = z3.Datatype('Res')
        R.declare('fail')
        R.declare('ok', ('end', I), ('rcaps', self.caps))
        R.declare('stop')
        R.declare('div')
        self.R = R = R.create()
        PS, DS = self.sort, BYTES.sort
        self.m = SpecFn('m', [PS, DS, I], R)
        self.env = SpecFn('env', [DS, DS, I], R)            # the meaning of a non-terminal, by name
        self.mg = SpecFn('mg', [I, DS, I], R)               # a grammar
        self.chk = SpecFn('chk', [I, I, I, DS, I, I], I)    # a checker: identity, id, flag, document, start, end
        self.eop = SpecFn('eop', [I, DS, I], B)             # a zero-width assertion
        self.wf = SpecFn('wfp', [PS], B)                    # no nil sub-patterns
        self.lit = SpecFn('lit', [DS, DS, I], B, lambda s, d, x: And(x + BYTES.len(s) <= BYTES.len(d), BYTES.eq(BYTES.sub(d, x, x + BYTES.len(s)), s)), rounds=2)
        self.axioms()

    # --- nodes
    def nt(self, kind):
        return self.p.tstr['*pattern.' + kind]

    def isk(self, x, kind):
        return self.D.isbox[self.nt(kind)](x)

    def mk(self, kind, *fields):
        t = self.nt(kind)
        et = self.p.T(t)['elem']
        return self.D.box[t](self.w.D(t).ref(self.w.D(et).mk(*fields)))

    def f(self, x, kind, name):
        t = self.nt(kind)
        et = self.p.T(t)['elem']
        return self.w.D(et).acc[self.p.field_index(et, name)](self.w.D(t).val(self.D.unbox[t](x)))

    def ref_ok(self, x, kind):
        t = self.nt(kind)
        return Not(self.w.D(t).isnil(self.D.unbox[t](x)))

    # --- results
    def ok(self, e, c=None):
        return self.R.ok(e, self.cnil if c is None else c)

    def then(self, r, k):
        """continue after result r: k(end) gives the next result"""
        n = k(self.R.end(r))
        return If(self.R.is_ok(r), self.prepend(self.R.rcaps(r), n), r)

    def prepend(self, c, n):
        if z3.is_app(c) and c.eq(self.cnil):
            return n
        return If(self.R.is_ok(n), self.R.ok(self.R.end(n), self.ccat(c, self.R.rcaps(n))), n)

    def cats(self, cs):
        r = self.cnil
        for c in reversed(cs):
            r = c if r.eq(self.cnil) else self.ccat(c, r)
        return r

    # --- the meaning of each kind of node
    def den(self, kind, F, d, i):
        R, m, n = self.R, self.m, BYTES.len(d)
        if kind == 'EmptyNode':
            return self.ok(i)
        if kind == 'LiteralNode':
            return If(self.lit(F['Str'], d, i), self.ok(i + BYTES.len(F['Str'])), R.fail)
        if kind == 'ClassNode':
            return If(And(i < n, self.has(F['Chars'], BYTES.at(d, i))), self.ok(i + 1), R.fail)
        if kind == 'DotNode':
            return If(i + F['N'] <= n, self.ok(i + F['N']), R.fail)
        if kind == 'EmptyOpNode':
            return If(self.eop(F['Op'], d, i), self.ok(i), R.fail)
        if kind == 'SeqNode':
            return self.then(m(F['Left'], d, i), lambda j: m(F['Right'], d, j))
        if kind == 'AltNode':
            l = m(F['Left'], d, i)
            return If(R.is_fail(l), m(F['Right'], d, i), l)
        if kind == 'OptionalNode':
            l = m(F['Patt'], d, i)
            return If(R.is_fail(l), self.ok(i), l)
        if kind == 'StarNode':
            l = m(F['Patt'], d, i)
            return If(R.is_fail(l), self.ok(i), If(And(R.is_ok(l), R.end(l) == i), R.div,
                      self.then(l, lambda j: m(self.mk('StarNode', F['Patt']), d, j))))
        if kind == 'PlusNode':
            return self.then(m(F['Patt'], d, i), lambda j: m(self.mk('StarNode', F['Patt']), d, j))
        if kind == 'NotNode':
            l = m(F['Patt'], d, i)
            return If(R.is_fail(l), self.ok(i), If(R.is_ok(l), R.fail, l))
        if kind == 'AndNode':
            l = m(F['Patt'], d, i)
            return If(R.is_ok(l), R.ok(i, R.rcaps(l)), l)
        if kind == 'CapNode':
            l = m(F['Patt'], d, i)
            return If(R.is_ok(l), R.ok(R.end(l), self.cnode(F['Id'], i, R.end(l) - i, R.rcaps(l))), l)
        if kind == 'MemoNode':
            return m(F['Patt'], d, i)
        if kind == 'CheckNode':
            l = m(F['Patt'], d, i)
            k = self.chk(F['Checker'], F['Id'], F['Flag'], d, i, R.end(l))
            return If(R.is_ok(l), If(k == -1, R.fail, R.ok(R.end(l) + k, R.rcaps(l))), l)
        if kind == 'SearchNode':
            l = m(F['Patt'], d, i)
            return If(R.is_fail(l), If(i + 1 <= n, m(self.mk('SearchNode', F['Patt']), d, i + 1), R.fail), l)
        if kind == 'ErrorNode':
            return If(self.D.isnil(F['Recover']), R.stop, m(F['Recover'], d, i))
        if kind == 'NonTermNode':
            return If(self.D.isnil(F['Inlined']), self.env(F['Name'], d, i), m(F['Inlined'], d, i))
        raise Unsupported('no meaning for ' + kind)

    KINDS = ['EmptyNode', 'LiteralNode', 'ClassNode', 'DotNode', 'EmptyOpNode', 'SeqNode', 'AltNode', 'OptionalNode', 'StarNode',
             'PlusNode', 'NotNode', 'AndNode', 'CapNode', 'MemoNode', 'CheckNode', 'SearchNode', 'ErrorNode', 'NonTermNode']

    def axioms(self):
        p, w = self.p, self.w
        m, D, R = self.m, self.D, self.R
        x = z3.Const('x', self.sort)
        subs = {'SeqNode': ['Left', 'Right'], 'AltNode': ['Left', 'Right'], 'ErrorNode': ['Recover'], 'NonTermNode': ['Inlined']}
        for k in ('StarNode', 'PlusNode', 'OptionalNode', 'NotNode', 'AndNode', 'CapNode', 'MemoNode', 'CheckNode', 'SearchNode'):
            subs[k] = ['Patt']
        self.subs = subs

        def sub_ok(kind, F):
            r = []
            for s in subs.get(kind, []):
                c = self.wf(F[s])
                if kind in ('ErrorNode', 'NonTermNode'):
                    c = Or(D.isnil(F[s]), c)
                r.append(c)
            if kind == 'DotNode':
                r.append(F['N'] >= 0)
            return And(*r) if r else BoolVal(True)
        for kind in self.KINDS:
            t = self.nt(kind)
            et = p.T(t)['elem']
            fl = p.fields(et) or []
            vs = [z3.Const('f_%s_%s' % (kind, f['name']), w.sort(f['type'])) for f in fl]
            F = dict((f['name'], v) for f, v in zip(fl, vs))
            c = D.box[t](w.D(t).ref(w.D(et).mk(*vs) if True else None))
            A = z3.ForAll(vs + [D_, i_], m(c, D_, i_) == self.den(kind, F, D_, i_), patterns=[m(c, D_, i_)])
            axiom(['m'], A, 'meaning of ' + kind)
            Fx = dict((f['name'], self.f(x, kind, f['name'])) for f in fl)
            body = z3.Implies(And(D.isbox[t](x), self.ref_ok(x, kind)), m(x, D_, i_) == self.den(kind, Fx, D_, i_))
            axiom(['m'], z3.ForAll([x, D_, i_], body, patterns=[multipattern(m(x, D_, i_), D.unbox[t](x))]), 'meaning of ' + kind)
            if vs:
                axiom(['wfp'], z3.ForAll(vs, self.wf(c) == sub_ok(kind, F), patterns=[self.wf(c)]), 'well-formed patterns')
            else:
                axiom(['wfp'], self.wf(c), 'well-formed patterns')
            axiom(['wfp'], z3.ForAll([x], z3.Implies(And(self.wf(x), D.isbox[t](x)), And(self.ref_ok(x, kind), sub_ok(kind, Fx))),
                                     patterns=[multipattern(self.wf(x), D.unbox[t](x))]), 'well-formed patterns')
        axiom(['wfp'], z3.ForAll([x], z3.Implies(self.wf(x), Not(D.isnil(x))), patterns=[self.wf(x)]), 'well-formed patterns')
        # results lie in the document
        axiom(['m'], z3.ForAll([x, D_, i_], z3.Implies(And(self.wf(x), 0 <= i_, i_ <= BYTES.len(D_), R.is_ok(m(x, D_, i_))),
              And(i_ <= R.end(m(x, D_, i_)), R.end(m(x, D_, i_)) <= BYTES.len(D_))), patterns=[m(x, D_, i_)]),
              'a pattern ends inside the document, not before its start (for non-terminals, grammars and checkers: assumed)')
        a, b, c = [z3.Const(q, self.caps) for q in 'abc']
        axiom(['ccat'], z3.ForAll([a, b, c], self.ccat(self.ccat(a, b), c) == self.ccat(a, self.ccat(b, c)), patterns=[self.ccat(self.ccat(a, b), c)]), 'captures form a list')
        axiom(['ccat'], z3.ForAll([a], And(self.ccat(a, self.cnil) == a, self.ccat(self.cnil, a) == a), patterns=[self.ccat(a, self.cnil), self.ccat(self.cnil, a)]), 'captures form a list')

    # --- code
    def code_spec(self):
        S, th = self.S, self.S.prog
        PS = th.sort
        lab = lambda x: Or(S.is_(x, 'Label'), S.is_(x, 'Nop'))
        # index of the first instruction that is neither label nor nop, from k on
        self.hdf = SpecFn('hdf', [PS, I], I, lambda s, k: If(k >= th.len(s), th.len(s), If(lab(th.at(s, k)), self.hdf(s, k + 1), k)), rounds=2)
        self.hd = lambda s: self.hdf(s, IntVal(0))
        wid = lambda x: If(S.is_(x, 'Any'), S.field(x, 'Any', 'N'), IntVal(1))
        self.straight1 = lambda x: Or(*[S.is_(x, n) for n in ('Char', 'Set', 'Any')])
        self.match1 = lambda x, d, i: If(S.is_(x, 'Char'), And(i < BYTES.len(d), BYTES.at(d, i) == S.field(x, 'Char', 'Byte')),
                                         If(S.is_(x, 'Set'), And(i < BYTES.len(d), self.has(S.field(x, 'Set', 'Chars'), BYTES.at(d, i))),
                                            i + S.field(x, 'Any', 'N') <= BYTES.len(d)))
        DS = BYTES.sort
        self.straight = SpecFn('straight', [PS, I], B, lambda s, k: If(k <= 0, BoolVal(True), And(self.straight(s, k - 1), self.straight1(th.at(s, k - 1)))), rounds=2)
        self.back = SpecFn('back', [PS, I], I, lambda s, k: If(k <= 0, IntVal(0), self.back(s, k - 1) + wid(th.at(s, k - 1))), rounds=2)
        self.passes = SpecFn('passes', [PS, I, DS, I], B, lambda s, k, d, i: If(k <= 0, BoolVal(True),
                             And(self.passes(s, k - 1, d, i), self.match1(th.at(s, k - 1), d, i + self.back(s, k - 1)))), rounds=2)
        self.wid = wid

    def headfact(self, b, q, d, x):
        S, th = self.S, self.S.prog
        h = self.hd(b)
        e = th.at(b, h)
        return z3.Implies(And(h < th.len(b), Or(S.is_(e, 'Char'), S.is_(e, 'Set')), Not(self.match1(e, d, x))), self.R.is_fail(self.m(q, d, x)))

    def headok(self, s):
        S, th = self.S, self.S.prog
        h = self.hd(s)
        return z3.Implies(th.len(s) > 0, And(0 <= h, h < th.len(s), z3.Implies(h > 0, Not(Or(S.is_(th.at(s, h), 'Char'), S.is_(th.at(s, h), 'Set')))),
                                          Not(S.is_(th.at(s, h), 'Label')), Not(S.is_(th.at(s, h), 'Nop'))))

    def result_in(self, st, r, pos, n):
        st.conds.append(z3.Implies(self.R.is_ok(r), And(pos <= self.R.end(r), self.R.end(r) <= n)))

    def same(self, p, q):
        """p and q mean the same, at every position of every document"""
        if not hasattr(self, 'SAME'):
            PS, DS, m = self.sort, BYTES.sort, self.m
            self.SAME = z3.Function('same_meaning', PS, PS, B)
            dd, di = z3.Function('same_d', PS, PS, DS), z3.Function('same_i', PS, PS, I)
            a, b = z3.Const('a', PS), z3.Const('b', PS)
            axiom(['same_meaning'], z3.ForAll([a, b, D_, i_], z3.Implies(And(self.SAME(a, b), 0 <= i_, i_ <= BYTES.len(D_)), m(a, D_, i_) == m(b, D_, i_)),
                  patterns=[multipattern(self.SAME(a, b), m(a, D_, i_)), multipattern(self.SAME(a, b), m(b, D_, i_))]), 'definition: two patterns mean the same')
            axiom(['same_meaning'], z3.ForAll([a, b], Or(self.SAME(a, b), And(0 <= di(a, b), di(a, b) <= BYTES.len(dd(a, b)), m(a, dd(a, b), di(a, b)) != m(b, dd(a, b), di(a, b)))),
                  patterns=[self.SAME(a, b)]), 'definition: two patterns mean the same')
        return self.SAME(p, q)


def charset_externs(w, reg, P):
    p = w.p
    T = p.tstr['charset.Set']
    b = z3.Int('b!cs')

    def result(ex, st, body):
        v = fresh(w.sort(T), 'set')
        st.assume(z3.ForAll([b], z3.Implies(And(0 <= b, b <= 255), P.has(v, b) == body(b)), patterns=[P.has(v, b)]))
        return [(st, v)]

    def fold(ex, st, v):
        return ex.fold(st, v, T)

    def new(ex, st, x, args):
        th = w.seq(p.tstr['byte'])
        d = ex.slice_data(st, args[0])
        n = z3.simplify(args[0].len)
        if z3.is_int_value(n) and n.as_long() <= 8:
            return result(ex, st, lambda y: Or(*[y == th.at(d, IntVal(j)) for j in range(n.as_long())]))
        k = z3.Int('k!cs')
        return result(ex, st, lambda y: z3.Exists([k], And(0 <= k, k < args[0].len, th.at(d, k) == y)))

    def rng(ex, st, x, args):
        return result(ex, st, lambda y: And(args[0] <= y, y <= args[1]))

    def op(f):
        def e(ex, st, x, args):
            ts = [fold(ex, st, a) for a in args]
            return result(ex, st, lambda y: f(*[P.has(t, y) for t in ts]))
        return e

    def has(ex, st, x, args):
        a = args[0]
        if isinstance(a, (Loc, Hnd)):
            a = ex.load(st, a if isinstance(a, Loc) else Loc(st.hobj[a.id]), T)
        return [(st, P.has(fold(ex, st, a), args[1]))]

    def size(ex, st, x, args):
        r = fresh(I, 'size')
        st.assume(And(0 <= r, r <= 256))
        return [(st, r)]
    st_ = w.D(T)
    ft = p.fields(T)[0]['type']
    zero = st_.mk(w.D(ft).mk(*[IntVal(0)] * p.T(ft)['len'])) if len(p.fields(T)) == 1 and p.kind(ft) == 'array' else None
    if zero is not None:
        axiom(['chas'], z3.ForAll([b], Not(P.has(zero, b)), patterns=[P.has(zero, b)]), 'the zero Set is empty (C01)')
    reg.externs['charset.New'] = new
    reg.externs['charset.Range'] = rng
    reg.externs['(charset.Set).Add'] = op(lambda a, b: Or(a, b))
    reg.externs['(charset.Set).Sub'] = op(lambda a, b: And(a, Not(b)))
    reg.externs['(charset.Set).Complement'] = op(lambda a: Not(a))
    reg.externs['(charset.Set).Has'] = has
    reg.externs['(*charset.Set).Has'] = has
    reg.externs['(charset.Set).Size'] = size
    reg.trusted.append('the operations of charset.Set as exact set operations (proved under C01 in machine arithmetic)')


def constructors(w, reg, P, C10):
    p = w.p
    T = lambda c, n: getattr(c, n).term
    m, R = P.m, P.R
    simple = [
        ('Cap', 'CapNode', lambda c: dict(Patt=c.p.term, Id=c.id)),
        ('Check', 'CheckNode', lambda c: dict(Patt=c.p.term, Checker=c.c, Id=IntVal(0), Flag=IntVal(0))),
        ('CheckFlags', 'CheckNode', lambda c: dict(Patt=c.p.term, Checker=c.c, Id=c.id, Flag=c.flag)),
        ('Literal', 'LiteralNode', lambda c: dict(Str=c.s)),
        ('Set', 'ClassNode', lambda c: dict(Chars=c.chars.term)),
        ('Any', 'DotNode', lambda c: dict(N=c.n)),
        ('Star', 'StarNode', lambda c: dict(Patt=c.p.term)),
        ('Plus', 'PlusNode', lambda c: dict(Patt=c.p.term)),
        ('Optional', 'OptionalNode', lambda c: dict(Patt=c.p.term)),
        ('Not', 'NotNode', lambda c: dict(Patt=c.p.term)),
        ('And', 'AndNode', lambda c: dict(Patt=c.p.term)),
        ('Search', 'SearchNode', lambda c: dict(Patt=c.p.term)),
        ('EmptyOp', 'EmptyOpNode', lambda c: dict(Op=c.op)),
        ('NonTerm', 'NonTermNode', lambda c: dict(Name=c.name, Inlined=P.D.nil)),
        ('Error', 'ErrorNode', lambda c: dict(Message=c.msg, Recover=c.recovery.term)),
    ]
    params = {'Cap': ['p', 'id'], 'Check': ['p', 'c'], 'CheckFlags': ['p', 'c', 'id', 'flag'], 'Literal': ['s'], 'Set': ['chars'], 'Any': ['n'],
              'EmptyOp': ['op'], 'NonTerm': ['name'], 'Error': ['msg', 'recovery']}
    for fn, kind, fs in simple:
        et = p.T(P.nt(kind))['elem']

        def ens(c, kind=kind, fs=fs, et=et):
            d = fs(c)
            want = [d[f['name']] for f in p.fields(et)]
            return [('the documented pattern', eq(c.ret.term, P.mk(kind, *want)))]
        reg.contract('pattern.' + fn, params=params.get(fn, ['p']), props=C10, ensures=ens)

    th = w.seq(P.t)
    PS, DS = th.sort, BYTES.sort
    # patterns one after another / the first that does not fail / n times
    mpre = SpecFn('mpre', [PS, I, DS, I], R)
    malt = SpecFn('malt', [PS, I, DS, I], R)
    mrep = SpecFn('mrep', [P.sort, I, DS, I], R)
    s_, k_, q_ = z3.Const('s_', PS), z3.Int('k_'), z3.Const('q_', P.sort)
    axiom(['mpre'], z3.ForAll([s_, k_, D_, i_], mpre(s_, k_, D_, i_) == If(k_ <= 0, P.ok(i_), P.then(mpre(s_, k_ - 1, D_, i_), lambda j: m(th.at(s_, k_ - 1), D_, j))),
          patterns=[mpre(s_, k_, D_, i_)]), 'the patterns one after another')
    axiom(['malt'], z3.ForAll([s_, k_, D_, i_], malt(s_, k_, D_, i_) == If(k_ >= th.len(s_), R.fail, If(R.is_fail(m(th.at(s_, k_), D_, i_)), malt(s_, k_ + 1, D_, i_), m(th.at(s_, k_), D_, i_))),
          patterns=[malt(s_, k_, D_, i_)]), 'the first pattern that does not fail')
    axiom(['mrep'], z3.ForAll([q_, k_, D_, i_], mrep(q_, k_, D_, i_) == If(k_ <= 0, P.ok(i_), P.then(mrep(q_, k_ - 1, D_, i_), lambda j: m(q_, D_, j))),
          patterns=[mrep(q_, k_, D_, i_)]), 'n times one after another')
    P.mpre, P.malt, P.mrep = mpre, malt, mrep
    d0, i0 = z3.Const('d0', DS), z3.Int('i0')
    k0 = z3.Int('k0')

    def all_wf(c, s):
        return z3.ForAll([k0], z3.Implies(And(0 <= k0, k0 < s.len), P.wf(th.at(s.seq, k0))), patterns=[th.at(s.seq, k0)])

    def at(q, f):
        """q means f at the arbitrary place (d0, i0)"""
        return z3.ForAll([D_, i_], m(q, D_, i_) == f(D_, i_), patterns=[m(q, D_, i_)])
    inr = lambda d, i: And(0 <= i, i <= BYTES.len(d))
    # ---- lists of patterns
    def here(q, f):
        return z3.ForAll([D_, i_], z3.Implies(inr(D_, i_), m(q, D_, i_) == f(D_, i_)), patterns=[m(q, D_, i_)])

    def wfl(c):
        return all_wf(c, c.patts)
    reg.contract('pattern.Concat', params=['patts'], props=C10, requires=lambda c: [wfl(c)],
        ensures=lambda c: [('a pattern', P.wf(c.ret.term)), ('the patterns one after another', here(c.ret.term, lambda d, i: mpre(c.patts.seq, c.patts.len, d, i)))],
        loops={0: LoopC(inv=lambda c: [('position', And(0 <= c.idx, c.idx < c.patts.len, c.patts.len > 0)), ('a pattern', P.wf(c.l('acc').term)),
               ('the patterns so far', here(c.l('acc').term, lambda d, i: mpre(c.patts.seq, c.idx + 1, d, i)))])})
    reg.contract('pattern.Or', params=['patts'], props=C10, requires=lambda c: [wfl(c)],
        ensures=lambda c: [('a pattern', P.wf(c.ret.term)), ('the first pattern that does not fail',
            z3.Implies(c.patts.len > 0, here(c.ret.term, lambda d, i: malt(c.patts.seq, IntVal(0), d, i))))],
        loops={0: LoopC(inv=lambda c: [('position', And(-1 <= c.l('i'), c.l('i') <= c.patts.len - 2, c.patts.len > 0)), ('a pattern', P.wf(c.l('acc').term)),
               ('the patterns from here', here(c.l('acc').term, lambda d, i: malt(c.patts.seq, c.l('i') + 1, d, i)))])})
    reg.contract('pattern.Repeat', params=['p', 'n'], props=C10, requires=lambda c: [P.wf(c.p.term)],
        ensures=lambda c: [('a pattern', P.wf(c.ret.term)), ('n times', here(c.ret.term, lambda d, i: mrep(c.p.term, c.n, d, i)))],
        loops={0: LoopC(inv=lambda c: [('count', And(1 <= c.l('i'), c.l('i') <= c.n)), ('a pattern', P.wf(c.l('acc').term)),
               ('the repetitions so far', here(c.l('acc').term, lambda d, i: mrep(c.p.term, c.l('i'), d, i)))])})
    P.here = here
    return at, all_wf, mpre, malt, mrep


def build(w, reg):
    C10, C11 = ('C10',), ('C11',)
    P = Pat(w)
    p = w.p
    S = P.S
    m, R, D = P.m, P.R, P.D
    charset_externs(w, reg, P)
    at, all_wf, mpre, malt, mrep = constructors(w, reg, P, C10)

    # ---- lemmas
    s0, x0 = z3.Const('s0', BYTES.sort), z3.Int('x0')
    reg.fact('a literal of one byte', C10 + C11, z3.Implies(And(BYTES.len(s0) == 1, 0 <= x0), P.lit(s0, D_, x0) == And(x0 < BYTES.len(D_), BYTES.at(D_, x0) == BYTES.at(s0, 0))),
             [s0, D_, x0], [P.lit(s0, D_, x0)], ['lit'])
    n0 = z3.Int('n0')
    q0 = z3.Const('q0', P.sort)
    st0 = P.mk('StarNode', q0)
    reg.induction('a repetition does not fail', C10 + C11, n0, lambda k: z3.Implies(And(P.wf(q0), 0 <= x0, x0 <= BYTES.len(D_), BYTES.len(D_) - x0 <= k), Not(R.is_fail(m(st0, D_, x0)))),
                  [q0, D_, x0], [m(st0, D_, x0)], ['m'], elim=BYTES.len(D_) - x0)

    q1 = z3.Const('q1', P.sort)
    st1 = P.mk('StarNode', q1)
    reg.induction('repetitions of patterns that mean the same', C10 + C11, n0, lambda k: z3.Implies(And(P.same(q0, q1), P.wf(q0), P.wf(q1), 0 <= x0, x0 <= BYTES.len(D_), BYTES.len(D_) - x0 <= k), m(st0, D_, x0) == m(st1, D_, x0)),
                  [q0, q1, D_, x0], [multipattern(P.same(q0, q1), m(st0, D_, x0)), multipattern(P.same(q0, q1), m(st1, D_, x0))], ['m', 'same_meaning'], elim=BYTES.len(D_) - x0)

    # ---- the simplifier
    def alt(a, b, d, i):
        return If(R.is_fail(m(a, d, i)), m(b, d, i), m(a, d, i))
    inr = lambda d, i: And(0 <= i, i <= BYTES.len(d))

    def cls(s, d, i):
        return If(And(i < BYTES.len(d), P.has(s, BYTES.at(d, i))), P.ok(i + 1), R.fail)
    P.code_spec()
    reg.contract('pattern.combine', params=['p1', 'p2'], props=C11, required=False,
        requires=lambda c: [P.wf(c.p1.term), P.wf(c.p2.term)],
        ensures=lambda c: [('the set matches what the choice matches', z3.Implies(c.rets[1], z3.ForAll([D_, i_], z3.Implies(inr(D_, i_),
            cls(c.rets[0].term, D_, i_) == alt(c.p1.term, c.p2.term, D_, i_)), patterns=[m(c.p1.term, D_, i_)])))])
    reg.contract('pattern.Get', params=['p'], props=C11, requires=lambda c: [P.wf(c.p.term)],
        ensures=lambda c: [('the result is a pattern', P.wf(c.ret.term)), ('means the same', P.same(c.ret.term, c.p.term))])

    # ---- code: looking at the beginning
    th = S.prog
    lab = lambda x: Or(S.is_(x, 'Label'), S.is_(x, 'Nop'))
    reg.contract('pattern.nextInsn', params=['p'], props=C11, required=False,
        ensures=lambda c: [('found', c.rets[1] == (P.hd(c.p.seq) < c.p.len)), ('the first instruction that is not a label or nop',
                           z3.Implies(c.rets[1], eq(c.rets[0].term, th.at(c.p.seq, P.hd(c.p.seq))))),
                           ('inside', And(0 <= P.hd(c.p.seq), P.hd(c.p.seq) <= c.p.len)), ('it is neither', z3.Implies(c.rets[1], Not(lab(th.at(c.p.seq, P.hd(c.p.seq))))))],
        loops={0: LoopC(inv=lambda c: [('position', And(0 <= c.l('i'), c.l('i') <= c.p.len)), ('only labels so far', P.hd(c.p.seq) == P.hdf(c.p.seq, c.l('i')))])})

    # ---- the Compile methods
    codetype = p.tstr['isa.Program']
    errs = {}

    def compiled(ex, st, x, q):
        """the contract of Compile for a sub-pattern: an error, or a block of code that means q"""
        s1, s2 = st, st.copy()
        e = fresh(I, 'err')
        s1.assume(e != 0)
        v1 = ex.freshv(s1, codetype, 'nocode')
        v2 = ex.freshv(s2, codetype, 'code')
        t = ex.slice_data(s2, v2)
        s2.assume(P.headok(t))
        s2.ghost['blocks'] = s2.ghost.get('blocks', ()) + ((t, q, v2.len),)
        return [(s1, TupleV([v1, e])), (s2, TupleV([v2, IntVal(0)]))]

    def invoke(ex, st, x, args):
        q = ex.fold(st, args[0], P.t)
        ex.oblige(st, 'Compile of a well-formed pattern', P.wf(q), x.get('line'), kind='pre')
        return compiled(ex, st, x, q)
    reg.externs['pattern.Pattern.Compile'] = invoke

    def direct(kind):
        def ext(ex, st, x, args):
            q = D.box[P.nt(kind)](ex.fold(st, args[0], P.nt(kind)))
            return compiled(ex, st, x, q)
        return ext

    def newlabel(ex, st, x, args):
        k = st.ghost.get('labels', 0)
        st.ghost['labels'] = k + 1
        t = p.tstr['isa.Label']
        return [(st, ex.unfoldv(st, t, z3.Const('label!%d' % k, w.sort(t)), None, False))]
    reg.externs['isa.NewLabel'] = newlabel
    reg.trusted.append('isa.NewLabel returns a label that was never returned before (a counter)')

    def compiles(kind):
        def ens(c):
            if z3.is_true(z3.simplify(c.rets[1] != 0)) or not c.ex.feasible(c.st, c.rets[1] == 0):
                return [('an error is passed on', BoolVal(True))]
            q = D.box[P.nt(kind)](w.D(P.nt(kind)).ref(c.ex.fold(c._entry, c.ex.load(c._entry, Loc(c._entry.hobj[c._args[0].id]), p.T(P.nt(kind))['elem']), p.T(P.nt(kind))['elem'])))
            blocks = c.st.ghost.get('blocks', ())
            d = z3.Const('doc', BYTES.sort)
            r = Runs(P, blocks, [], d)
            out = [('the code means the pattern: ' + lab, z3.Implies(And(*conds), g)) for lab, conds, g in r.run(c.rets[0].seq, q)]
            out.append(('a leading label is followed by an instruction that is not Char or Set', r.headok(c.rets[0].seq)))
            return out
        return ens
    ct = p.tstr['isa.Char']
    rest = [w.D(t).mk() for t in [f['type'] for f in p.fields(ct)[1:]]]
    D_char = lambda b: S.D.box[ct](w.D(ct).mk(b, *rest))
    chars = SpecFn('is_text', [th.sort, BYTES.sort, I], B)      # the first k instructions are the first k bytes of a text
    cs, ts = z3.Const('cs', th.sort), z3.Const('ts', BYTES.sort)
    axiom(['is_text'], z3.ForAll([cs, ts, n0], chars(cs, ts, n0) == z3.ForAll([x0], z3.Implies(And(0 <= x0, x0 < n0), th.at(cs, x0) == D_char(BYTES.at(ts, x0))), patterns=[th.at(cs, x0)]),
          patterns=[chars(cs, ts, n0)]), 'definition: code for a text')
    j0 = z3.Int('j0')
    reg.induction('code for a text matches the text', C10 + C11, n0, lambda k: z3.Implies(And(chars(cs, ts, k), 0 <= j0), And(P.straight(cs, k), P.back(cs, k) == k,
        P.passes(cs, k, D_, j0) == Or(k == 0, And(j0 + k <= BYTES.len(D_), z3.ForAll([x0], z3.Implies(And(0 <= x0, x0 < k), BYTES.at(D_, j0 + x0) == BYTES.at(ts, x0)), patterns=[BYTES.at(ts, x0)]))))),
        [cs, ts, D_, j0], [multipattern(chars(cs, ts, n0), P.passes(cs, n0, D_, j0))], ['is_text', 'passes'])

    def litens(c):
        d, x = z3.Const('doc', BYTES.sort), z3.Int('at')
        s = c.rets[0].seq
        n = c.rets[0].len
        return [('the code is the text', And(n == BYTES.len(c.p.Str), chars(s, c.p.Str, n))),
                ('no error', c.rets[1] == 0),
                ('it runs straight through and means the pattern', z3.Implies(And(0 <= x, x <= BYTES.len(d), chars(s, c.p.Str, n)),
                    And(P.straight(s, n), P.back(s, n) == n, P.passes(s, n, d, x) == P.lit(c.p.Str, d, x)))),
                ('a leading label is followed by an instruction that is not Char or Set', P.headok(s))]

    for kind in Pat.KINDS:
        fn = '(*pattern.%s).Compile' % kind
        kw = {}
        if kind == 'CapNode':
            kw['loops'] = {0: LoopC(inv=lambda c: [('position', And(c.l('i') == c.idx, 0 <= c.idx, c.idx <= c.l('sub').len)),
                ('only bytes, sets and skips so far', P.straight(c.l('sub').seq, c.idx)), ('their width', And(c.l('back') == P.back(c.l('sub').seq, c.idx), c.l('back') >= 0))])}
        if kind == 'LiteralNode':
            char = lambda c, k: eq(th.at(c.l('code').seq, k), D_char(BYTES.at(c.p.Str, k)))
            kw['loops'] = {0: LoopC(inv=lambda c: [('position', And(0 <= c.l('i'), c.l('i') <= BYTES.len(c.p.Str), c.l('code').len == BYTES.len(c.p.Str))),
                ('one Char for every byte', z3.ForAll([n0], z3.Implies(And(0 <= n0, n0 < c.l('i')), th.at(c.l('code').seq, n0) == D_char(BYTES.at(c.p.Str, n0))), patterns=[th.at(c.l('code').seq, n0)]))])}
            reg.contract(fn, params=['p'], props=C10 + C11, required=False, requires=lambda c: [P.wf(D.box[P.nt('LiteralNode')](c.p.term))], ensures=litens, **kw)
        else:
            reg.contract(fn, params=['p'], props=C10 + C11 + (('C12',) if kind == 'CapNode' else ()), required=False, requires=lambda c, kind=kind: [P.wf(D.box[P.nt(kind)](c.p.term))], ensures=compiles(kind), **kw)
        reg.externs[fn] = direct(kind)

    # ---- rewriting of finished programs
    lt = p.tstr['isa.Label']
    lblof = lambda x: S.D.unbox[lt](x)
    LS = w.sort(lt)
    L0 = z3.Const('L0', LS)
    a0, b0 = z3.Ints('a0 b0')
    mklabel = lambda l: S.D.box[lt](l)

    def labels_ok(c, k):
        """the map knows the labels among the first k instructions"""
        s, mp = c.old.p.seq, c.l('labels')
        return [('every entry is the place of its label', z3.ForAll([L0], z3.Implies(z3.Select(mp.dom, L0), And(0 <= z3.Select(mp.mval, L0), z3.Select(mp.mval, L0) < c.p.len,
                    th.at(s, z3.Select(mp.mval, L0)) == mklabel(L0))), patterns=[z3.Select(mp.mval, L0)])),
                ('every label has an entry', z3.ForAll([a0], z3.Implies(And(0 <= a0, a0 < k, S.is_(th.at(s, a0), 'Label')), z3.Select(mp.dom, lblof(th.at(s, a0)))), patterns=[th.at(s, a0)])),
                ('the map is there', Not(mp.isnil))]
    placed = SpecFn('placed', [LS], I)       # where a label of the program is placed
    same_labels = lambda c: z3.ForAll([a0], z3.Implies(And(0 <= a0, a0 < c.p.len), And(
        S.is_(th.at(c.p.seq, a0), 'Label') == S.is_(th.at(c.old.p.seq, a0), 'Label'),
        z3.Implies(S.is_(th.at(c.old.p.seq, a0), 'Label'), th.at(c.p.seq, a0) == th.at(c.old.p.seq, a0)))), patterns=[th.at(c.p.seq, a0), th.at(c.old.p.seq, a0)])
    NOFALL = ['PartialCommit', 'BackCommit', 'Commit', 'Jump', 'Return', 'Fail', 'FailTwice', 'End']
    HEADS = [('Char', 'TestChar', 'Byte'), ('Set', 'TestSet', 'Chars'), ('Any', 'TestAny', 'N')]

    def rewrite(c0, c1):
        i = c0.idx
        s0, s1 = c0.p.seq, c1.p.seq
        x, y = th.at(s0, i), th.at(s0, i + 1)
        x1, y1 = th.at(s1, i), th.at(s1, i + 1)
        same2 = And(x1 == x, z3.Implies(i + 1 < c0.p.len, y1 == y))
        fused = Or(*[And(i + 1 < c0.p.len, S.is_(x, 'Choice'), S.is_(y, a), S.is_(x1, b), S.field(x1, b, f) == S.field(y, a, f), S.field(x1, b, 'Lbl') == S.field(x, 'Choice', 'Lbl'),
                         S.is_(y1, 'Nop')) for a, b, f in HEADS])
        tail = th.sub(s0, z3.Select(c0.l('labels').mval, S.field(x, 'Jump', 'Lbl')), c0.p.len)
        t = th.at(tail, P.hd(tail))
        jumped = And(S.is_(x, 'Jump'), P.hd(tail) < th.len(tail), Or(*[S.is_(t, n) for n in NOFALL]), x1 == t, z3.Implies(i + 1 < c0.p.len, y1 == y))
        return [('the length stays', c1.p.len == c0.p.len),
                ('the rewrite is one that keeps the meaning', Or(same2, fused, jumped)),
                ('everything else stays', z3.ForAll([a0], z3.Implies(And(0 <= a0, a0 < c0.p.len, a0 != i, a0 != i + 1), th.at(s1, a0) == th.at(s0, a0)), patterns=[th.at(s1, a0), th.at(s0, a0)]))]
    reg.contract('pattern.Optimize', params=['p'], props=C11, modifies=['p[]'],
        requires=lambda c: [('every jump has its label', z3.ForAll([a0], z3.Implies(And(0 <= a0, a0 < c.p.len, S.is_(th.at(c.p.seq, a0), 'Jump')),
            And(0 <= placed(S.field(th.at(c.p.seq, a0), 'Jump', 'Lbl')), placed(S.field(th.at(c.p.seq, a0), 'Jump', 'Lbl')) < c.p.len,
                th.at(c.p.seq, placed(S.field(th.at(c.p.seq, a0), 'Jump', 'Lbl'))) == mklabel(S.field(th.at(c.p.seq, a0), 'Jump', 'Lbl')))), patterns=[th.at(c.p.seq, a0)]))],
        ensures=lambda c: [('labels stay where they are', same_labels(c))],
        loops={0: LoopC(inv=lambda c: [('position', And(0 <= c.idx, c.idx <= c.p.len))] + labels_ok(c, c.idx)),
               1: LoopC(inv=lambda c: [('position', And(0 <= c.idx, c.idx <= c.p.len)), ('labels stay where they are', same_labels(c)),
                                       ('jumps are to placed labels', z3.ForAll([a0], z3.Implies(And(0 <= a0, a0 < c.p.len, S.is_(th.at(c.p.seq, a0), 'Jump')),
                                            z3.Select(c.l('labels').dom, S.field(th.at(c.p.seq, a0), 'Jump', 'Lbl'))), patterns=[th.at(c.p.seq, a0)]))] + labels_ok(c, c.p.len),
                         iteration=rewrite)})
    reg.contract('pattern.nextInsnLabel', params=['p'], props=C11, required=False,
        ensures=lambda c: [('the first instruction that is not a label or nop', c.rets[0] == If(P.hd(c.p.seq) < c.p.len, P.hd(c.p.seq), -1)),
                           ('whether a label stands before it', c.rets[1] == z3.Exists([a0], And(0 <= a0, a0 < P.hd(c.p.seq), S.is_(th.at(c.p.seq, a0), 'Label')))),
                           ('inside', And(0 <= P.hd(c.p.seq), P.hd(c.p.seq) <= c.p.len))],
        loops={0: LoopC(inv=lambda c: [('position', And(0 <= c.l('i'), c.l('i') <= c.p.len)), ('only labels so far', P.hd(c.p.seq) == P.hdf(c.p.seq, c.l('i'))),
                                       ('labels so far', c.l('hadLabel') == z3.Exists([a0], And(0 <= a0, a0 < c.l('i'), S.is_(th.at(c.p.seq, a0), 'Label'))))])})

    # ---- grammars: the rules one after another, calls resolved by label
    from .walk import walk_rule, forall
    PSet = z3.ArraySort(P.sort, B)
    below = SpecFn('below', [B, P.sort], PSet)              # what WalkPattern visits (its contract: inline_)
    calls = SpecFn('calls', [P.sort, BYTES.sort], B)        # a non-terminal of that name, not inlined, is below
    cwit = z3.Function('callwit', P.sort, BYTES.sort, P.sort)
    pn = z3.Const('pn', P.sort)
    open_ = lambda q: And(P.isk(q, 'NonTermNode'), D.isnil(P.f(q, 'NonTermNode', 'Inlined')))
    k9 = z3.Const('k9', BYTES.sort)
    w9 = cwit(pn, k9)
    axiom(['calls'], z3.ForAll([pn, k9], z3.Implies(calls(pn, k9), And(z3.Select(below(BoolVal(True), pn), w9), open_(w9), P.f(w9, 'NonTermNode', 'Name') == k9)), patterns=[calls(pn, k9)]), 'calls below a pattern')

    def on(mp, k):
        return And(Not(mp.isnil), z3.Select(mp.dom, k), z3.Select(mp.mval, k))

    def walk(ex, st, x, args):
        f = args[2]
        if not isinstance(f, FuncV):
            raise Unsupported('WalkPattern with an unknown function')
        root = ex.fold(st, args[0], P.t)
        ex.oblige(st, 'a well-formed pattern', Or(D.isnil(root), P.wf(root)), x.get('line'), kind='pre')
        cap = [v['name'] for v in p.funcs[f.fn]['freevars']]

        def inv(s_, before, c_, vis):
            r = []
            for n, b in c_.items():
                v = ex.load(s_, b, s_.info[b.obj].t)
                if not isinstance(v, MapV):
                    continue
                o, o0 = s_.objs[v.obj], before.objs[v.obj]
                r += [('names marked before stay marked', And(o.f[0] == o0.f[0], forall([k9], z3.Implies(And(z3.Select(o0.f[1], k9), z3.Select(o0.f[2], k9)), And(z3.Select(o.f[1], k9), z3.Select(o.f[2], k9))), [z3.Select(o.f[1], k9), z3.Select(o0.f[1], k9)]))),
                      ('the name of every call met is marked', forall([pn], z3.Implies(And(z3.Select(vis, pn), open_(pn)),
                          And(z3.Select(o.f[1], P.f(pn, 'NonTermNode', 'Name')), z3.Select(o.f[2], P.f(pn, 'NonTermNode', 'Name')))), [z3.Select(vis, pn)]))]
            return r
        return walk_rule(ex, st, x, f, root, D.isnil, P.wf, lambda q: z3.Select(below(args[1], root), q), inv, cap)
    reg.externs['pattern.WalkPattern'] = walk
    reg.externs['(*pattern.GrammarNode).Inline'] = lambda ex, st, x, args: [(st, None)]
    # (the contract of Inline, proved in inline_, and this lemma: writing out the rule of a name keeps the meaning)
    rule_, nm_ = z3.Const('rule_', P.sort), z3.Const('nm_', BYTES.sort)
    reg.lemma('a non-terminal that is inlined means what it meant', lambda: [z3.ForAll([D_, i_], P.env(nm_, D_, i_) == m(rule_, D_, i_)), P.wf(rule_)],
              lambda: m(P.mk('NonTermNode', *[dict(Name=nm_, Inlined=rule_)[f['name']] for f in p.fields(p.T(P.nt('NonTermNode'))['elem'])]), D_, i_) ==
                      m(P.mk('NonTermNode', *[dict(Name=nm_, Inlined=D.nil)[f['name']] for f in p.fields(p.T(P.nt('NonTermNode'))['elem'])]), D_, i_), C10 + C11)
    k1 = z3.Const('k1', BYTES.sort)

    def gpre(c):
        d = c.p.Defs
        return [('the rules are there', Not(d.isnil)), ('rules are patterns', z3.ForAll([k1], z3.Implies(z3.Select(d.dom, k1), P.wf(z3.Select(d.mval, k1))), patterns=[z3.Select(d.mval, k1)])),
                ('the start rule is there', z3.Select(d.dom, c.p.Start))]

    oc = 'openCall'

    def seen_(c):
        return c.st.objs[c.st.ghost['visited']].f[1]

    def used_inv(c):
        u = c.l('used')
        return [('the map is there', Not(u.isnil)), ('every name that a rule seen so far calls is marked', forall([k1, k9], z3.Implies(And(z3.Select(seen_(c), k1), calls(z3.Select(c.p.Defs.mval, k1), k9)), on(u, k9)),
                    [calls(z3.Select(c.p.Defs.mval, k1), k9)]))]

    def laid(c):
        lb = c.l('labels')
        return ('every rule seen so far that is called has its label', forall([k1], z3.Implies(And(z3.Select(seen_(c), k1), Or(k1 == c.p.Start, on(c.l('used'), k1))), z3.Select(lb.dom, k1)), [z3.Select(lb.dom, k1), z3.Select(seen_(c), k1)]))

    def allcalled(c):
        return ('every name that a rule calls is marked', forall([k1, k9], z3.Implies(And(z3.Select(c.p.Defs.dom, k1), calls(z3.Select(c.p.Defs.mval, k1), k9)), on(c.l('used'), k9)), [calls(z3.Select(c.p.Defs.mval, k1), k9)]))

    def unresolved(c):
        s, nm = c.rets[0], S.field(th.at(c.rets[0].seq, a0), oc, 'name')
        d = c.p.Defs
        return z3.ForAll([a0, k1], z3.Implies(And(0 <= a0, a0 < s.len, S.is_(th.at(s.seq, a0), oc), z3.Select(d.dom, nm)),
                                          And(nm != c.p.Start, z3.Implies(z3.Select(d.dom, k1), Not(calls(z3.Select(d.mval, k1), nm))))))

    def rules_inv(c):
        s = c.l('code')
        lb = c.l('labels')
        return [('the code is its own', s.own), ('it begins with a call of the start rule', And(s.len >= 2, S.is_(th.at(s.seq, 0), oc), S.field(th.at(s.seq, 0), oc, 'name') == c.p.Start)),
                ('and a jump to the end', And(S.is_(th.at(s.seq, 1), 'Jump'), S.field(th.at(s.seq, 1), 'Jump', 'Lbl') == c.l('LEnd').term)), ('the map is there', Not(lb.isnil)), allcalled(c), laid(c)]

    def rule_added(c0, c1):
        a, b = c0.l('code'), c1.l('code')
        l0, l1 = c0.l('labels'), c1.l('labels')
        bl0, bl1 = c0.st.ghost.get('blocks', ()), c1.st.ghost.get('blocks', ())
        new = bl1[len(bl0):]
        if not new:
            return [('a rule left out changes nothing', And(eq(a.seq, b.seq), l0.dom == l1.dom, l0.mval == l1.mval))]
        t, q, n = new[-1]
        k = c1.l('k')
        lab_ = th.at(b.seq, a.len)
        return [('label, code of the rule, return', And(eq(b.seq, th.cat(th.cat(th.cat(a.seq, th.unit(lab_)), t), th.unit(th.at(b.seq, b.len - 1)))), S.is_(lab_, 'Label'), S.is_(th.at(b.seq, b.len - 1), 'Return'))),
                ('the code is that of the rule', q == z3.Select(c1.p.Defs.mval, k)),
                ('the label is recorded for the rule', And(l1.dom == z3.Store(l0.dom, k, BoolVal(True)), l1.mval == z3.Store(l0.mval, k, lblof(lab_))))]

    def resolved(c0, c1):
        a, b, lb = c0.l('code'), c1.l('code'), c0.l('labels')
        i = c0.l('i')
        x, x1 = th.at(a.seq, i), th.at(b.seq, i)
        nm = S.field(x, oc, 'name')
        l = z3.Select(lb.mval, nm)
        rest_ = th.sub(a.seq, i + 1, a.len)
        h = P.hd(rest_)
        ret = And(h < th.len(rest_), S.is_(th.at(rest_, h), 'Return'))
        r = i + 1 + h
        nolabel = z3.ForAll([b0], z3.Implies(And(0 <= b0, b0 < h), Not(S.is_(th.at(rest_, b0), 'Label'))), patterns=[th.at(rest_, b0)])
        isopen = And(S.is_(x, oc), z3.Select(lb.dom, nm))
        call = And(S.is_(x1, 'Call'), S.field(x1, 'Call', 'Lbl') == l)
        tail = And(S.is_(x1, 'Jump'), S.field(x1, 'Jump', 'Lbl') == l, ret)
        return [('the length stays', b.len == a.len),
                ('a call, or a jump before a return, to the rule', If(isopen, Or(call, tail), x1 == x)),
                ('everything else stays, except a return that a jump has made unreachable', z3.ForAll([a0], z3.Implies(And(0 <= a0, a0 < a.len, a0 != i),
                    Or(th.at(b.seq, a0) == th.at(a.seq, a0), And(isopen, tail, a0 == r, S.is_(th.at(b.seq, a0), 'Nop'), nolabel)))))]

    def res_inv(c):
        s = c.l('code')
        lb = c.l('labels')
        nm = S.field(th.at(s.seq, a0), oc, 'name')
        return [('position', And(0 <= c.l('i'), c.l('i') <= s.len, s.len >= 2)), ('the code is its own', s.own), allcalled(c),
                ('every rule that is called has its label', forall([k1], z3.Implies(And(z3.Select(c.p.Defs.dom, k1), Or(k1 == c.p.Start, on(c.l('used'), k1))), z3.Select(lb.dom, k1)), [z3.Select(lb.dom, k1), z3.Select(c.p.Defs.dom, k1)])),
                ('calls of rules so far are resolved', forall([a0], z3.Implies(And(0 <= a0, a0 < c.l('i'), S.is_(th.at(s.seq, a0), oc)), Not(z3.Select(lb.dom, nm))), [th.at(s.seq, a0)])),
                ('it begins with a call of the start rule', Or(And(S.is_(th.at(s.seq, 0), oc), S.field(th.at(s.seq, 0), oc, 'name') == c.p.Start),
                    And(S.is_(th.at(s.seq, 0), 'Call'), S.field(th.at(s.seq, 0), 'Call', 'Lbl') == z3.Select(c.l('labels').mval, c.p.Start)))),
                ('and a jump to the end', And(S.is_(th.at(s.seq, 1), 'Jump'), S.field(th.at(s.seq, 1), 'Jump', 'Lbl') == c.l('LEnd').term))]

    def gens(c):
        if z3.is_true(z3.simplify(c.rets[1] != 0)) or not c.ex.feasible(c.st, c.rets[1] == 0):
            return [('an error is passed on', BoolVal(True))]
        s = c.rets[0]
        try:
            e = c.l('LEnd').term
        except (KeyError, AttributeError):
            b = c.st.ghost.get('blocks', ())[-1]
            return [('no rule has a call', z3.ForAll([k1, k9], z3.Implies(z3.Select(c.p.Defs.dom, k1), Not(calls(z3.Select(c.p.Defs.mval, k1), k9))))),
                    ('a grammar without calls is its start rule', And(eq(s.seq, b[0]), b[1] == z3.Select(c.p.Defs.mval, c.p.Start)))]
        last = th.at(s.seq, s.len - 1)
        return [('a call is left open only for a name that is no rule of this grammar, or that no rule of it calls', unresolved(c)),
                ('it ends with the end label', And(s.len >= 3, S.is_(last, 'Label'), lblof(last) == e)),
                ('it calls the start rule and then goes to the end', And(Or(S.is_(th.at(s.seq, 0), oc), S.is_(th.at(s.seq, 0), 'Call')), S.is_(th.at(s.seq, 1), 'Jump'), S.field(th.at(s.seq, 1), 'Jump', 'Lbl') == e))]
    reg.contract('(*pattern.GrammarNode).Compile', params=['p'], props=C10 + C11, required=False, requires=gpre, ensures=gens,
        loops={0: LoopC(inv=used_inv), 1: LoopC(inv=rules_inv, iteration=rule_added), 2: LoopC(inv=res_inv, iteration=resolved)})

    # ---- the whole: no unresolved call is left
    def optimize(ex, st, x, args):
        t = ex.slice_data(st, args[0])
        ex.oblige(st, 'no unresolved call is left in the program', z3.ForAll([a0], z3.Implies(And(0 <= a0, a0 < args[0].len), Not(S.is_(th.at(t, a0), oc)))), x.get('line'), kind='pre')
        st.ghost['optimized'] = (t, args[0])
        return [(st, None)]
    reg.externs['pattern.Optimize'] = optimize

    def whole(c):
        if z3.is_true(z3.simplify(c.rets[1] != 0)) or not c.ex.feasible(c.st, c.rets[1] == 0):
            return [('an error is passed on', BoolVal(True))]
        b = c.st.ghost.get('blocks', ())
        if len(b) != 1:
            return [('the pattern is compiled once', BoolVal(False))]
        return [('the program is the code of the pattern', And(eq(c.rets[0].seq, b[0][0]), eq(b[0][1], c.p.term))),
                ('no unresolved call is left in the program', z3.ForAll([a0], z3.Implies(And(0 <= a0, a0 < c.rets[0].len), Not(S.is_(th.at(c.rets[0].seq, a0), oc)))))]
    reg.contract('pattern.Compile', params=['p'], props=C10 + C11, requires=lambda c: [P.wf(c.p.term)], ensures=whole,
        loops={0: LoopC(inv=lambda c: [('position', And(0 <= c.idx, c.idx <= c.l('c').len)),
            ('no unresolved call so far', z3.ForAll([a0], z3.Implies(And(0 <= a0, a0 < c.idx), Not(S.is_(th.at(c.l('c').seq, a0), oc))), patterns=[th.at(c.l('c').seq, a0)]))])})
