"""Logic back end: sequence theory, spec functions, obligation discharge."""
import os, subprocess, tempfile, time, itertools, sys
import z3
from z3 import (Int, Bool, And, Or, Not, Implies, If, ForAll, Function, IntSort, BoolSort, DeclareSort,
                IntVal, BoolVal, Const, Solver, unsat, sat)

I = IntSort()
B = BoolSort()
_fresh = itertools.count()


def fresh(sort, hint='k'):
    return Const('%s!%d' % (hint, next(_fresh)), sort)


def _pattern_ok(t):
    """z3 refuses connectives and if-terms inside patterns"""
    if z3.is_var(t):
        return True
    if z3.is_quantifier(t):
        return False
    d = t.decl()
    if d.kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        return False
    return all(_pattern_ok(x) for x in t.children())


def _has(t, vs):
    if any(t.eq(v) for v in vs):
        return True
    return any(_has(x, vs) for x in t.children()) if z3.is_app(t) else False


def forall(vs, body, patterns=()):
    """ForAll whose patterns are repaired when normalisation left if-terms in them"""
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    out = []

    def dig(t):
        if not z3.is_app(t) or not all(_has(t, [v]) for v in vs):
            return
        if t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR) and t.num_args() and _pattern_ok(t):
            if not any(t.eq(o) for o in out):
                out.append(t)
            return
        for x in t.children():
            dig(x)
    for t in patterns:
        dig(t)
    return z3.ForAll(list(vs), body, patterns=out) if out else z3.ForAll(list(vs), body)


class SeqTheory:
    """Finite sequences over an element sort, axiomatised for e-matching."""
    by_name = {}
    by_sort = {}

    def __init__(self, name, elem=None, byte=False, ix=None):
        self.name = name
        self.ix = ix
        self.sort = DeclareSort('Seq_' + name)
        self.byte = byte
        self._elem = elem
        self._fns = None
        SeqTheory.by_name[name] = self
        SeqTheory.by_sort[self.sort.name()] = self

    def setelem(self, elem):
        self._elem = elem

    @property
    def elem(self):
        return self._elem

    def fns(self):
        if self._fns is None:
            n, S, E = self.name, self.sort, self._elem
            if self.ix is not None:
                # machine-arithmetic mode: read-only arrays, no algebra needed
                self._fns = dict(at=Function('at_' + n, S, self.ix, E), upd=Function('upd_' + n, S, self.ix, E, S),
                                 unit=Function('unit_' + n, E, S), cat=Function('cat_' + n, S, S, S), len=Function('len_' + n, S, self.ix),
                                 sub=Function('sub_' + n, S, self.ix, self.ix, S), empty=Const('empty_' + n, S))
                return self._fns
            self._fns = dict(
                len=Function('len_' + n, S, I),
                at=Function('at_' + n, S, I, E),
                sub=Function('sub_' + n, S, I, I, S),
                cat=Function('cat_' + n, S, S, S),
                upd=Function('upd_' + n, S, I, E, S),
                unit=Function('unit_' + n, E, S),
                rep=Function('rep_' + n, E, I, S),
                eq=Function('seqeq_' + n, S, S, B),
                diff=Function('seqdiff_' + n, S, S, I),
                empty=Const('empty_' + n, S))
        return self._fns

    # term constructors with light normalisation
    def len(self, s):
        f = self.fns()
        if z3.is_app(s):
            d = s.decl()
            if d.eq(f['cat']):
                return z3.simplify(self.len(s.arg(0)) + self.len(s.arg(1)))
            if d.eq(f['unit']):
                return IntVal(1)
            if d.eq(f['upd']):
                return self.len(s.arg(0))
            if s.eq(f['empty']):
                return IntVal(0)
        return f['len'](s)

    def at(self, s, i):
        f = self.fns()
        if isinstance(i, int):
            i = IntVal(i)
        if z3.is_app(s):
            d = s.decl()
            if d.kind() == z3.Z3_OP_ITE:
                return If(s.arg(0), self.at(s.arg(1), i), self.at(s.arg(2), i))
            if d.eq(f['unit']):
                return s.arg(0) if z3.is_int_value(i) and i.as_long() == 0 else f['at'](s, i)
            if d.eq(f['upd']):
                j = s.arg(1)
                if j.eq(i):
                    return s.arg(2)
                if z3.is_int_value(j) and z3.is_int_value(i):
                    return self.at(s.arg(0), i)
                dj = z3.simplify(j - i)
                if z3.is_int_value(dj):
                    return s.arg(2) if dj.as_long() == 0 else self.at(s.arg(0), i)
        return f['at'](s, i)

    def sub(self, s, lo, hi):
        f = self.fns()
        lo = IntVal(lo) if isinstance(lo, int) else lo
        hi = IntVal(hi) if isinstance(hi, int) else hi
        lo = z3.simplify(lo)
        hi = z3.simplify(hi)
        if lo.eq(hi):
            return f['empty']
        if z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(z3.simplify(self.len(s))):
            return s
        return f['sub'](s, lo, hi)

    def cat(self, a, b):
        f = self.fns()
        if a.eq(f['empty']):
            return b
        if b.eq(f['empty']):
            return a
        return f['cat'](a, b)

    def upd(self, s, i, v):
        if isinstance(i, int):
            i = IntVal(i)
        return self.fns()['upd'](s, i, v)

    def unit(self, v):
        return self.fns()['unit'](v)

    def rep(self, v, n):
        return self.fns()['rep'](v, n)

    def eq(self, a, b):
        if a.eq(b):
            return BoolVal(True)
        return self.fns()['eq'](a, b)

    @property
    def empty(self):
        return self.fns()['empty']

    def of(self, vals):
        r = self.empty
        for v in vals:
            r = self.cat(r, self.unit(v))
        return r

    def axioms(self):
        if getattr(self, '_ax', None) is not None:
            return self._ax
        if self.ix is not None:
            f = self.fns()
            s = Const('s', self.sort)
            v = Const('v', self._elem)
            i, j = Const('i', self.ix), Const('j', self.ix)
            self._ax = [ForAll([s, i, v, j], f['at'](f['upd'](s, i, v), j) == If(i == j, v, f['at'](s, j)), patterns=[f['at'](f['upd'](s, i, v), j)])]
            return self._ax
        f = self.fns()
        S, E = self.sort, self._elem
        s, a, b, c = [Const(x, S) for x in ('s', 'a', 'b', 'c')]
        i, j, k, l, m = z3.Ints('i j k l m')
        v = Const('v', E)
        L, AT, SUB, CAT, UPD, UNIT, REP, EQ, DIFF, EMP = (f[x] for x in
            ('len', 'at', 'sub', 'cat', 'upd', 'unit', 'rep', 'eq', 'diff', 'empty'))

        def fa(vs, body, *pats):
            return ForAll(vs, body, patterns=list(pats))
        okv = And(0 <= v, v <= 255) if self.byte else BoolVal(True)
        ax = [
            fa([s], L(s) >= 0, L(s)),
            L(EMP) == 0,
            fa([s], Implies(L(s) == 0, s == EMP), L(s)),
            fa([v], And(L(UNIT(v)) == 1, Implies(okv, AT(UNIT(v), 0) == v)), UNIT(v)),
            fa([a, b], L(CAT(a, b)) == L(a) + L(b), CAT(a, b)),
            fa([a, b, i], AT(CAT(a, b), i) == If(i < L(a), AT(a, i), AT(b, i - L(a))), AT(CAT(a, b), i)),
            fa([s, i, j], Implies(And(0 <= i, i <= j, j <= L(s)), L(SUB(s, i, j)) == j - i), SUB(s, i, j)),
            fa([s, i, j, k], Implies(And(0 <= i, i <= j, j <= L(s), 0 <= k, k < j - i),
                                     AT(SUB(s, i, j), k) == AT(s, i + k)), AT(SUB(s, i, j), k)),
            fa([s, i, v], L(UPD(s, i, v)) == L(s), UPD(s, i, v)),
            fa([s, i, v, j], Implies(okv, AT(UPD(s, i, v), j) == If(And(i == j, 0 <= i, i < L(s)), v, AT(s, j))), AT(UPD(s, i, v), j)),
            fa([v, i], Implies(i >= 0, L(REP(v, i)) == i), REP(v, i)),
            fa([v, i, j], Implies(And(okv, 0 <= j, j < i), AT(REP(v, i), j) == v), AT(REP(v, i), j)),
            fa([a, b], Or(And(EQ(a, b), a == b), And(Not(EQ(a, b)), a != b, Or(L(a) != L(b),
               And(0 <= DIFF(a, b), DIFF(a, b) < L(a), AT(a, DIFF(a, b)) != AT(b, DIFF(a, b)))))), EQ(a, b)),
            # algebraic normalisation (consequences of the above)
            fa([s, i, j], Implies(And(i == 0, j == L(s)), SUB(s, i, j) == s), SUB(s, i, j)),
            fa([s, i, j], Implies(i == j, SUB(s, i, j) == EMP), SUB(s, i, j)),
            fa([a, b, i, j], Implies(And(0 <= i, i <= j, j <= L(a)), SUB(CAT(a, b), i, j) == SUB(a, i, j)), SUB(CAT(a, b), i, j)),
            fa([a, b, i, j], Implies(And(L(a) <= i, i <= j, j <= L(a) + L(b)),
                                     SUB(CAT(a, b), i, j) == SUB(b, i - L(a), j - L(a))), SUB(CAT(a, b), i, j)),
            fa([s, i, j, k, l], Implies(And(0 <= i, i <= j, j <= L(s), 0 <= k, k <= l, l <= j - i),
                                        SUB(SUB(s, i, j), k, l) == SUB(s, i + k, i + l)), SUB(SUB(s, i, j), k, l)),
            fa([a], CAT(a, EMP) == a, CAT(a, EMP)),
            fa([a], CAT(EMP, a) == a, CAT(EMP, a)),
        ]
        if self.byte:
            ax.append(fa([s, i], And(0 <= AT(s, i), AT(s, i) <= 255), AT(s, i)))
        self._ax = ax
        return ax


def seq_theory(name, elem=None, byte=False):
    t = SeqTheory.by_name.get(name)
    if t is None:
        t = SeqTheory(name, elem, byte)
    return t


def theory_of(term):
    return SeqTheory.by_sort[term.sort().name()]


def is_seq(term):
    return z3.is_expr(term) and term.sort().kind() == z3.Z3_UNINTERPRETED_SORT and term.sort().name() in SeqTheory.by_sort


BYTES = SeqTheory('byte', I, byte=True)


def eq(a, b):
    """spec equality (sequence extensionality on sequences)"""
    if is_seq(a):
        return theory_of(a).eq(a, b)
    return a == b


class SpecFn:
    """Recursive spec function: uninterpreted symbol whose defining equation is
    instantiated for ground applications, to a bounded number of rounds."""
    registry = {}

    def __init__(self, name, sorts, ret, body=None, rounds=2):
        self.decl = Function(name, *sorts, ret)
        self.body = body
        self.rounds = rounds
        self.name = name
        SpecFn.registry[name] = self

    def __call__(self, *args):
        return self.decl(*[IntVal(a) if isinstance(a, int) and not isinstance(a, bool) else a for a in args])


AXLIMIT = None  # while a lemma is proved only earlier axioms may be used
AXIOMS = []  # (symbol names that trigger inclusion, axiom term, origin text)


def axiom(symbols, term, origin):
    AXIOMS.append((frozenset(symbols), term, origin))


_symcache = {}


def symbols_of(terms):
    """names of all uninterpreted function symbols and ground spec applications"""
    names = set()
    apps = []
    seen = set()
    for t in terms:
        k = t.get_id()
        c = _symcache.get(k)
        if c is None:
            c = _symcache[k] = (t,) + symbols1(t)
        names |= c[1]
        for a in c[2]:
            if a.get_id() not in seen:
                seen.add(a.get_id())
                apps.append(a)
    return names, apps


def symbols1(t0):
    seen = set()
    names = set()
    apps = []
    stack = [t0]
    while stack:
        t = stack.pop()
        key = t.get_id()
        if key in seen:
            continue
        seen.add(key)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_var(t):
            continue
        d = t.decl()
        n = d.name()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(n)
            if n in SpecFn.registry:
                apps.append(t)
        s = t.sort()
        if s.kind() == z3.Z3_UNINTERPRETED_SORT:
            names.add('sort:' + s.name())
        stack.extend(t.children())
    return names, apps


_hasvar = {}


def has_var(t):
    if z3.is_var(t):
        return True
    if z3.is_quantifier(t):
        return True
    k = t.get_id()
    if k in _hasvar:
        return _hasvar[k][0]
    r = any(has_var(c) for c in t.children())
    _hasvar[k] = (r, t)
    return r


_defcache = {}


def unfold_def(sf, a):
    c = _defcache.get(a.get_id())
    if c is None:
        bd = sf.body(*[a.arg(i) for i in range(a.num_args())])
        c = _defcache[a.get_id()] = (a, a == bd)
    return c[1]


def close(hyps, goal, extra_rounds=0, without=None, opaque=()):
    """hyps + definitional instances + relevant axioms"""
    terms = list(hyps) + [goal]
    done = set()
    defs = []
    frontier = terms
    maxr = 3 + extra_rounds
    names = set()
    for rnd in range(maxr):
        nm, apps = symbols_of(frontier)
        names |= nm
        new = []
        for a in apps:
            if a.get_id() in done or has_var(a):
                continue
            sf = SpecFn.registry[a.decl().name()]
            if sf.body is None or a.decl().name() in opaque or rnd >= sf.rounds + extra_rounds:
                continue
            done.add(a.get_id())
            new.append(unfold_def(sf, a))
        if not new:
            break
        defs += new
        frontier = new
    nm, _ = symbols_of(defs)
    names |= nm
    axs = []
    used_origin = []
    inc = set()
    changed = True
    while changed:
        changed = False
        for idx, (sy, t, origin) in enumerate(AXIOMS):
            if idx in inc or not (sy <= names) or (AXLIMIT is not None and idx >= AXLIMIT) or (without is not None and without(origin)):
                continue
            inc.add(idx)
            axs.append(t)
            used_origin.append(origin)
            nm, _ = symbols_of([t])
            if not nm <= names:
                names |= nm
            changed = True
    for th in SeqTheory.by_name.values():
        if 'sort:Seq_' + th.name in names and th._elem is not None:
            axs += th.axioms()
    return defs, axs, used_origin


_mp = {}


def multipattern(*ts):
    """z3.MultiPattern crashes in this release of the API: a marker symbol is
    printed instead and turned into a multi-pattern in the text"""
    key = tuple(t.sort().name() for t in ts)
    if key not in _mp:
        _mp[key] = Function('multipat!!%d' % len(_mp), *[t.sort() for t in ts], B)
    return _mp[key](*ts)


def fix_multi(text):
    out = []
    i = 0
    while True:
        j = text.find('(multipat!!', i)
        if j < 0:
            out.append(text[i:])
            return ''.join(out)
        # (multipat!!k t1 ... tn) -> t1 ... tn
        d = 0
        e = j
        while True:
            if text[e] == '(':
                d += 1
            elif text[e] == ')':
                d -= 1
                if d == 0:
                    break
            e += 1
        inner = text[j + 1:e]
        inner = inner[inner.index(' '):]if ' ' in inner.split('\n')[0] else inner[inner.index('\n'):]
        out.append(text[i:j] + inner)
        i = e + 1


class Result:
    def __init__(self, status, backend, secs, detail=''):
        self.status, self.backend, self.secs, self.detail = status, backend, secs, detail


def to_smt2(hyps, defs, axs, goal):
    s = Solver()
    for h in axs:
        s.add(h)
    for h in defs:
        s.add(h)
    for h in hyps:
        s.add(h)
    s.add(Not(goal))
    t = s.to_smt2()
    # uninterpreted sorts used in datatype declarations must be declared first
    import re
    dts = t.find('(declare-datatypes')
    if dts >= 0:
        for n in sorted(set(re.findall(r'(?<![\w!.])(Seq_\w+|Caps)(?![\w!.])', t))):
            dcl = '(declare-sort %s 0)\n' % n
            if not 0 <= t.find(dcl) < dts:
                t = dcl + t.replace(dcl, '')
    return fix_multi(t) if 'multipat!!' in t else t


def run_cli(cmd, text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False, dir='/tmp') as f:
        f.write(text)
        fn = f.name
    t0 = time.time()
    try:
        p = subprocess.run(cmd + [fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5, text=True)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(fn)
    first = out.strip().split('\n')[0] if out.strip() else ''
    return first, out, time.time() - t0


def solve_text(text, tlim=10, deadline=None):
    """portfolio: z3 5.3 (several configurations), then cvc5, then z3 4.8"""
    t0 = time.time()
    detail = []
    q = min(2, tlim)
    cfgs = [
        ('z3-5.3.2', ['z3-new', '-T:%d' % max(2, tlim // 3), 'smt.mbqi=false', 'auto_config=false', 'smt.case_split=3'], max(2, tlim // 3)),
        ('z3-5.3.2/auto', ['z3-new', '-T:%d' % q], q),
        ('cvc5-1.1.2', ['cvc5', '--tlimit=%d' % (min(4, tlim) * 1000)], min(4, tlim)),
        ('z3-5.3.2', ['z3-new', '-T:%d' % max(3, tlim // 2), 'smt.mbqi=false', 'auto_config=false', 'smt.random_seed=7'], max(3, tlim // 2)),
        ('z3-5.3.2', ['z3-new', '-T:%d' % max(3, tlim // 2), 'smt.mbqi=false', 'auto_config=false', 'smt.random_seed=23', 'smt.case_split=3'], max(3, tlim // 2)),
        ('z3-5.3.2/auto', ['z3-new', '-T:%d' % tlim], tlim),
        ('cvc5-1.1.2', ['cvc5', '--tlimit=%d' % (tlim * 1000)], tlim),
        ('z3-4.8.12', ['z3', '-T:%d' % tlim, 'smt.mbqi=false', 'auto_config=false'], tlim),
    ]
    model = ''
    for name, cmd, tl in cfgs:
        if deadline is not None and time.time() + tl > deadline + 5:
            detail.append('no time left')
            break
        tx = text
        if name.startswith('cvc5'):
            tx = '(set-logic ALL)\n' + text
        first, out, secs = run_cli(cmd, tx, tl)
        detail.append('%s: %s (%.1fs)' % (name, first[:100], secs))
        if first == 'unsat':
            return Result('proved', name, time.time() - t0, '; '.join(detail))
        if first == 'sat':
            return Result('refuted', name, time.time() - t0, '; '.join(detail))
    return Result('unknown', '-', time.time() - t0, '; '.join(detail))
