"""C09: the virtual machine (vm/vm.go): every instruction against the
documentation of the instruction set, as a relation between the machine state
at the start of an iteration of the main loop and the state at its end."""
from ..dsl import *
from ..smt import BYTES, SpecFn, axiom, forall
from . import input_, isa_spec
from .input_ import inv, pos, D, dlen
from .isa_spec import INSNS, u8, u16, i16, u24

LOG = 'global:ghost:table'       # abstract state of the memo table
FAR = 'global:ghost:reused'      # furthest position examined by results taken from it
CHK = 'global:ghost:checked'     # the last checker consulted, and what it was given

isip = z3.Function('isip', BYTES.sort, I, B)
isaddr = z3.Function('lookup_ok', I, I, I, B)
getent = z3.Function('lookup_entry', I, I, I, I)
edited = z3.Function('table_edit', I, I, I, I, I)
asked = z3.Function('checker_asked', I, BYTES.sort, I, I, I)
member = {}


class M:
    """names for the parts of the machine"""

    def __init__(self, w):
        p = self.p = w.p
        self.w = w
        self.te = p.tstr['vm.stackEntry']
        self.ents = w.seq(self.te)
        self.tcap = p.tstr['*memo.Capture']
        self.caps = w.seq(self.tcap)
        self.slc = w.slcdt(self.tcap)
        self.k = {n: IntVal(p.consts['vm.' + n]) for n in ('stRet', 'stBtrack', 'stMemo', 'stMemoTree', 'stCapt', 'stCheck')}
        self.put = z3.Function('table_put', I, I, I, I, I, self.caps.sort, I)
        self.fp = SpecFn('failputs', [self.ents.sort, I, I], I)

    def fld(self, t, e, *names):
        for n in names:
            i = self.p.field_index(t, n)
            e = self.w.D(t).acc[i](e)
            t = self.p.fields(t)[i]['type']
        return e

    def kind(self, e):
        return self.fld(self.te, e, 'stype')

    def is_(self, e, k):
        return self.kind(e) == self.k[k]

    def ret(self, e):
        return self.fld(self.te, e, 'ret')

    def bip(self, e):
        return self.fld(self.te, e, 'btrack', 'ip')

    def boff(self, e):
        return self.fld(self.te, e, 'btrack', 'off')

    def mid(self, e):
        return self.fld(self.te, e, 'memo', 'id')

    def mpos(self, e):
        return self.fld(self.te, e, 'memo', 'pos')

    def mcount(self, e):
        return self.fld(self.te, e, 'memo', 'count')

    def capt(self, e):
        return self.slc.data(self.fld(self.te, e, 'capt'))

    def entry(self, ex, kind, **f):
        """a fresh stack entry: zero except for the given fields"""
        st = State()
        z = ex.zero(st, self.te)

        def mk(t, v, fs):
            for n, x in fs.items():
                i = self.p.field_index(t, n)
                ft = self.p.fields(t)[i]['type']
                v = v.set(i, mk(ft, v.f[i], x) if isinstance(x, dict) else x)
            return v
        return ex.fold(st, mk(self.te, z, dict(stype=self.k[kind], **f)), self.te)

    def same_entry(self, a, b, but=()):
        """equal except for the captures collected (and the fields named)"""
        r = [self.kind(a) == self.kind(b), self.ret(a) == self.ret(b), self.bip(a) == self.bip(b), self.mid(a) == self.mid(b), self.mpos(a) == self.mpos(b)]
        if 'off' not in but:
            r.append(self.boff(a) == self.boff(b))
        if 'count' not in but:
            r.append(self.mcount(a) == self.mcount(b))
        return And(*r)


def build(w, reg):
    reg.use(input_, w)
    w.ptr_ref |= {'memo.Capture', 'memo.Entry', 'vm.Interval'}
    p = w.p
    m = M(w)
    E, C = m.ents, m.caps
    P = ('C09', 'C12', 'C17')
    tset = p.tstr['charset.Set']
    mem = z3.Function('set_has', w.sort(tset), I, B)
    eoc = z3.Function('empty_op_context', I, I, I)
    band = z3.Function('band', I, I, I)
    x_, y_ = z3.Ints('x y')
    axiom(['band'], z3.ForAll([x_, y_], band(x_, y_) == band(y_, x_), patterns=[band(x_, y_)]), 'bitwise and is commutative')

    def OP(n):
        return IntVal(p.consts['vm.' + INSNS[n][0]])

    # ---- what the machine calls ----
    def uint16(ex, st, x, args):
        b = args[-1]
        ex.bounds(st, IntVal(1), b.len, 'Uint16', x.get('line'))
        d = ex.slice_data(st, b)
        return [(st, BYTES.at(d, 0) + 256 * BYTES.at(d, 1))]

    def sethas(ex, st, x, args):
        v = args[0]
        s = ex.fold(st, ex.load(st, v, tset) if isinstance(v, Loc) else v, tset)
        return [(st, mem(s, args[1]))]

    def eocx(ex, st, x, args):
        return [(st, eoc(args[0], args[1]))]

    def ghost_src(st):
        return st.ghost.get('src')

    def lookup(ex, st, x, args):
        """Table.Get: any table; what it finds depends on its history only.  A
        stored result of a rule at a position of this document fits into it."""
        t, id, at = args
        L = st.objs[LOG]
        ok, e = isaddr(L, id, at), getent(L, id, at)
        src = View(ex, st, *ghost_src(st))
        h = ex.heapobj(st, 'heap:memo.Entry')
        ti = st.info['heap:memo.Entry'].t
        ln = z3.Select(h.f[p.field_index(ti, 'length')], e)
        exm = z3.Select(h.f[p.field_index(ti, 'examined')], e)
        st.assume(Implies(ok, And(e > 0, ln >= -1, at + ln <= dlen(src), exm >= ln, exm >= 0)))
        st.objs[FAR] = If(And(ok, at + exm - 1 > st.objs[FAR]), at + exm - 1, st.objs[FAR])
        ex.log(st, FAR, ())
        return [(st, TupleV([RefV(If(ok, e, IntVal(0)), p.tstr['memo.Entry']), ok]))]

    def tput(ex, st, x, args):
        t, id, start, ln, exam, count, caps = args
        src = View(ex, st, *ghost_src(st))
        last = start + exam - 1
        ex.oblige(st, 'memoized range covers everything examined', And(last >= src.furthest, last >= st.objs[FAR], last >= pos(src)), x.get('line'), kind='pre')
        st.objs[LOG] = m.put(st.objs[LOG], id, start, ln, count, ex.slice_data(st, caps))
        ex.log(st, LOG, ())
        # the table attaches the captures to its entry: their offsets become relative
        for f in ('off', 'ment'):
            h = ex.heapobj(st, 'heap:memo.Capture')
            ti = st.info['heap:memo.Capture'].t
            i = p.field_index(ti, f)
            st.objs['heap:memo.Capture'] = h.set(i, fresh(h.f[i].sort(), 'cap_' + f))
            ex.log(st, 'heap:memo.Capture', (('f', i),))
        return [(st, None)]

    def tedit(ex, st, x, args):
        t, e = args
        st.objs[LOG] = edited(st.objs[LOG], *e.f)
        ex.log(st, LOG, ())
        return [(st, None)]

    def check(ex, st, x, args):
        """Checker.Check: -1, or a number of further bytes that exist; it leaves
        the input alone"""
        c, b, src, id, flag = args
        sv = View(ex, st, src, p.tstr['*input.Input'])
        text = ex.slice_data(st, b)
        n = fresh(I, 'verdict')
        st.assume(And(n >= -1, pos(sv) + n <= dlen(sv)))
        st.objs[CHK] = StructV([ex.fold(st, c, x['rectype']), text, id, flag, n, st.objs[CHK].f[5] + 1])
        ex.log(st, CHK, ())
        return [(st, n)]

    reg.externs.update({'(encoding/binary.littleEndian).Uint16': uint16, '(*charset.Set).Has': sethas, '(charset.Set).Has': sethas,
                        'regexp/syntax.EmptyOpContext': eocx, 'memo.Table.Get': lookup, 'memo.Table.Put': tput,
                        'memo.Table.ApplyEdit': tedit, 'isa.Checker.Check': check})

    # memo results recorded when everything above index k of the stack s has failed
    def fp_body(s, k, L):
        e = E.at(s, k)
        r = m.fp(s, k + 1, L)
        return If(Or(k < 0, k >= E.len(s)), L, If(m.is_(e, 'stMemo'), m.put(r, m.mid(e), m.mpos(e), IntVal(-1), IntVal(0), C.empty), r))
    m.fp.body = fp_body

    # ---- the state ----
    class S:
        def __init__(self, c):
            self.c = c
            self.ip = c.l('ip')
            self.pos = pos(c.src)
            self.ent = c.stk.entries.seq
            self.n = c.stk.entries.len
            self.root = c.stk.capt.seq
            self.errs = c.l('errs').seq
            self.log = c.st.objs[LOG]
            self.chk = c.st.objs[CHK]
            self.far = c.l('memofar')
            cr = c.l('caprange')
            self.cr = (cr.Low, cr.High)
            self.succ = c.l('success')

        def top(self, i=1):
            return E.at(self.ent, self.n - i)

    def code(c):
        return c.vm.data.Insns.seq

    def setup(ex, st, args):
        ti = p.tstr['int']
        st.objs[LOG] = fresh(I, 'table')
        st.objs[FAR] = IntVal(0)
        st.objs[CHK] = StructV([IntVal(0), BYTES.empty, IntVal(0), IntVal(0), IntVal(0), IntVal(0)])
        for g in (LOG, FAR):
            st.info[g] = ObjInfo(ti, 'obj')
        st.info[CHK] = ObjInfo(CHKT(ex), 'obj')
        st.ghost['src'] = (args[3], p.tstr['*input.Input'])

    def CHKT(ex):
        # a struct type to carry the record of the last check: any struct with six members will do
        return GhostStruct.get(p)

    # ---- well-formed code, instance at one position ----
    def wfat(c, k):
        Ic = code(c)
        n = BYTES.len(Ic)
        r = [And(0 <= k, k < n)]
        ops = []
        for nm, (_, sz, fs) in INSNS.items():
            g = []
            if nm not in ('Jump', 'Return', 'Fail', 'FailTwice', 'Commit', 'PartialCommit', 'BackCommit', 'End'):
                g.append(isip(Ic, k + sz))
            for f, kd, o in fs:
                if kd == 'lab':
                    g.append(isip(Ic, u24(Ic, k + o)))
                elif kd == 'set':
                    g.append(u8(Ic, k + o) < c.vm.data.Sets.len)
                elif kd == 'chk':
                    g.append(u24(Ic, k + o) < c.vm.data.Checkers.len)
                    g.append(E_chk(c, u24(Ic, k + o)))
                elif kd == 'err':
                    g.append(u24(Ic, k + o) < c.vm.data.Errors.len)
            ops.append(BYTES.at(Ic, k) == OP(nm))
            r.append(Implies(BYTES.at(Ic, k) == OP(nm), And(k + sz <= n, *g)))
        r.append(Or(*ops))
        return And(*r)

    def E_chk(c, i):
        return BoolVal(True)

    def stack_ok(c):
        s = S(c)
        k = z3.Int('k!stk')
        e = E.at(s.ent, k)
        Ic = code(c)
        dl = dlen(c.src)

        def al(lab, body):
            return (lab, forall([k], Implies(And(0 <= k, k < E.len(s.ent)), body), patterns=[e]))
        return [al('entries have a valid kind', And(m.kind(e) >= 0, m.kind(e) <= 5)), al('backtrack entries point into the code', Implies(m.is_(e, 'stBtrack'), isip(Ic, m.bip(e)))),
                al('backtrack entries point into the document', Implies(m.is_(e, 'stBtrack'), And(0 <= m.boff(e), m.boff(e) <= dl))),
                al('return entries point into the code', Implies(m.is_(e, 'stRet'), isip(Ic, m.ret(e)))),
                al('check entries point into the document', Implies(m.is_(e, 'stCheck'), 0 <= m.mpos(e)))]

    def main_inv(c):
        s = S(c)
        return [('position inside the document', And(0 <= s.pos, s.pos <= dlen(c.src))),
                ] + fail_start(c)

    def fail_start(c):
        s = S(c)
        return [('input invariant', inv(c.src)), ('program position is an instruction', isip(code(c), s.ip)), ('the stack owns its array', c.stk.entries.own), ('reused examined range is accounted for', s.far >= c.st.objs[FAR])] + stack_ok(c)

    # ---- shapes of stack changes ----
    def keep(s0, s1):
        return [('stack unchanged', E.eq(s1.ent, s0.ent)), ('captures unchanged', C.eq(s1.root, s0.root))]

    def pushed(e):
        def f(s0, s1):
            return [('one entry pushed', E.eq(s1.ent, E.cat(s0.ent, E.unit(e)))), ('captures unchanged', C.eq(s1.root, s0.root))]
        return f

    def added(caps):
        """captures appended to the innermost open entry"""
        def f(s0, s1):
            n = s0.n
            return [('stack height unchanged', s1.n == n),
                    ('outer entries unchanged', Implies(n > 0, E.eq(E.sub(s1.ent, 0, n - 1), E.sub(s0.ent, 0, n - 1)))),
                    ('innermost entry keeps its data', Implies(n > 0, m.same_entry(s1.top(), s0.top()))),
                    ('captures appended to the innermost entry', Implies(n > 0, C.eq(m.capt(s1.top()), C.cat(m.capt(s0.top()), caps)))),
                    ('captures appended at the top level', C.eq(s1.root, If(n > 0, s0.root, C.cat(s0.root, caps))))]
        return f

    def popped(s0, s1, caps=None, cond=True):
        """the top entry removed; caps (default: its captures) passed on outwards"""
        n = s0.n
        if caps is None:
            caps = m.capt(s0.top())
        g = lambda f: Implies(And(n > 0, cond), f)
        return [('empty stack stays', Implies(And(n == 0), And(s1.n == 0, C.eq(s1.root, s0.root)))),
                ('one entry removed', g(s1.n == n - 1)),
                ('outer entries unchanged', Implies(And(n > 1, cond), E.eq(E.sub(s1.ent, 0, n - 2), E.sub(s0.ent, 0, n - 2)))),
                ('next entry keeps its data', Implies(And(n > 1, cond), m.same_entry(E.at(s1.ent, n - 2), E.at(s0.ent, n - 2)))),
                ('captures passed to the next entry', Implies(And(n > 1, cond), C.eq(m.capt(E.at(s1.ent, n - 2)), C.cat(m.capt(E.at(s0.ent, n - 2)), caps)))),
                ('captures passed to the top level', g(C.eq(s1.root, If(n > 1, s0.root, C.cat(s0.root, caps)))))]

    def pc(s0, s1):
        """PartialCommit: the entry moves to the current position and its captures are passed on"""
        n = s0.n
        t0, t1 = s0.top(), s1.top()
        b0, b1 = E.at(s0.ent, n - 2), E.at(s1.ent, n - 2)
        return [('stack height unchanged', s1.n == n),
                ('entry keeps its data', m.same_entry(t1, t0, but=('off',))),
                ('entry backtracks to the current position', m.boff(t1) == s0.pos),
                ('entry starts collecting afresh', C.eq(m.capt(t1), C.empty)),
                ('outer entries unchanged', Implies(n > 1, E.eq(E.sub(s1.ent, 0, n - 2), E.sub(s0.ent, 0, n - 2)))),
                ('next entry keeps its data', Implies(n > 1, m.same_entry(b1, b0))),
                ('captures passed to the next entry', Implies(n > 1, C.eq(m.capt(b1), C.cat(m.capt(b0), m.capt(t0))))),
                ('captures passed to the top level', C.eq(s1.root, If(n > 1, s0.root, C.cat(s0.root, m.capt(t0)))))]

    def newcap(c0, c1, caps1, id, off, ln, kids, typ):
        """the last capture of the list is a new node with these contents"""
        r = C.at(caps1, C.len(caps1) - 1)
        h0 = lambda f: c0.heap('memo.Capture', f)
        h1 = lambda f: c1.heap('memo.Capture', f)
        x = z3.Int('x!cap')
        sel = z3.Select
        fr = []
        for f in ('id', 'typ', 'off', 'length', 'ment', 'children'):
            if not h0(f).eq(h1(f)):
                fr.append(forall([x], Implies(x != r, sel(h1(f), x) == sel(h0(f), x)), patterns=[sel(h1(f), x)]))
        return [('capture has the identifier', sel(h1('id'), r) == id), ('capture kind', sel(h1('typ'), r) == p.consts['memo.' + typ]),
                ('capture start', sel(h1('off'), r) == off), ('capture length', sel(h1('length'), r) == ln),
                ('capture is not attached to a table entry', sel(h1('ment'), r) == 0),
                ('capture children', C.eq(m.slc.data(sel(h1('children'), r)), kids)),
                ('other captures unchanged', And(*fr) if fr else BoolVal(True))]

    # ---- the instruction set: outcomes of one step ----
    def overlap(c, lo, hi):
        i = c.intrvl
        if i.val is None:
            return BoolVal(True)
        return Or(i.isnil, And(i.Low < hi, i.High > lo))

    def outcomes(c0, nm):
        """list of (condition, kind, details)"""
        s = S(c0)
        Ic, ip, ex = code(c0), s.ip, c0.ex
        f = {fn: (kd, ip + o) for fn, kd, o in INSNS[nm][2]}
        sz = INSNS[nm][1]
        nxt = ip + sz
        have = s.pos < dlen(c0.src)
        cur = BYTES.at(D(c0.src), s.pos)
        lbl = u24(Ic, f['Lbl'][1]) if 'Lbl' in f else None
        if 'Chars' in f:
            st_ = E.__class__
            th = w.seq(tset)
            hit = And(have, mem(th.at(c0.vm.data.Sets.seq, u8(Ic, f['Chars'][1])), cur))
        if 'Byte' in f:
            hit = And(have, cur == u8(Ic, f['Byte'][1]))
        if 'N' in f:
            num = u8(Ic, f['N'][1])
            hit = s.pos + num <= dlen(c0.src)
        id = i16(Ic, f['Id'][1]) if 'Id' in f else None
        back = u8(Ic, f['Back'][1]) if 'Back' in f else None
        if nm in ('Char', 'Set'):
            return [(hit, 'next', dict(ip=nxt, pos=s.pos + 1)), (Not(hit), 'fail', {})]
        if nm == 'Any':
            return [(hit, 'next', dict(ip=nxt, pos=s.pos + num)), (Not(hit), 'fail', {})]
        if nm == 'Jump':
            return [(True, 'next', dict(ip=lbl))]
        if nm == 'Choice':
            return [(True, 'next', dict(ip=nxt, stack=pushed(m.entry(ex, 'stBtrack', btrack=dict(ip=lbl, off=s.pos)))))]
        if nm == 'Call':
            return [(True, 'next', dict(ip=lbl, stack=pushed(m.entry(ex, 'stRet', ret=nxt))))]
        if nm == 'Commit':
            return [(True, 'next', dict(ip=lbl, stack=popped))]
        if nm == 'Return':
            ok = And(s.n > 0, m.is_(s.top(), 'stRet'))
            return [(ok, 'next', dict(ip=m.ret(s.top()), stack=popped)), (Not(ok), 'panic', {})]
        if nm == 'Fail':
            return [(True, 'fail', {})]
        if nm == 'FailTwice':
            def drop(s0, s1):
                return [('the most recent entry is dropped', E.eq(s1.ent, If(s0.n > 0, E.sub(s0.ent, 0, s0.n - 1), s0.ent)))]
            return [(True, 'fail', dict(stack=drop))]
        if nm == 'PartialCommit':
            ok = And(s.n > 0, m.is_(s.top(), 'stBtrack'))
            return [(ok, 'next', dict(ip=lbl, stack=pc)), (Not(ok), 'panic', {})]
        if nm == 'BackCommit':
            ok = And(s.n > 0, m.is_(s.top(), 'stBtrack'))
            return [(ok, 'next', dict(ip=lbl, pos=m.boff(s.top()), stack=popped)), (Not(ok), 'panic', {})]
        if nm == 'Span':
            th = w.seq(tset)
            cs = th.at(c0.vm.data.Sets.seq, u8(Ic, f['Chars'][1]))
            j = z3.Int('j!span')
            Dc = D(c0.src)

            def span(s0, s1):
                return [('moves forward inside the document', And(s0.pos <= s1.pos, s1.pos <= dlen(c0.src))),
                        ('every byte passed is in the set', forall([j], Implies(And(s0.pos <= j, j < s1.pos), mem(cs, BYTES.at(Dc, j))), patterns=[BYTES.at(Dc, j)])),
                        ('stops where the set no longer matches', Or(s1.pos == dlen(c0.src), Not(mem(cs, BYTES.at(Dc, s1.pos)))))]
            return [(True, 'next', dict(ip=nxt, posrel=span))]
        if nm == 'Empty':
            r1 = If(s.pos > 0, BYTES.at(D(c0.src), s.pos - 1), IntVal(-1))
            r2 = If(have, cur, IntVal(-1))
            ok = band(eoc(r1, r2), u8(Ic, f['Op'][1])) != 0
            return [(ok, 'next', dict(ip=nxt)), (Not(ok), 'fail', {})]
        if nm in ('TestChar', 'TestSet'):
            return [(hit, 'next', dict(ip=nxt, pos=s.pos + 1, stack=pushed(m.entry(ex, 'stBtrack', btrack=dict(ip=lbl, off=s.pos))))),
                    (Not(hit), 'next', dict(ip=lbl))]
        if nm in ('TestCharNoChoice', 'TestSetNoChoice'):
            return [(hit, 'next', dict(ip=nxt, pos=s.pos + 1)), (Not(hit), 'next', dict(ip=lbl))]
        if nm == 'TestAny':
            return [(hit, 'next', dict(ip=nxt, pos=s.pos + num, stack=pushed(m.entry(ex, 'stBtrack', btrack=dict(ip=lbl, off=s.pos))))),
                    (Not(hit), 'next', dict(ip=lbl))]
        if nm == 'CaptureBegin':
            return [(True, 'next', dict(ip=nxt, stack=pushed(m.entry(ex, 'stCapt', memo=dict(id=id, pos=s.pos)))))]
        if nm == 'CaptureLate':
            return [(True, 'next', dict(ip=nxt, stack=pushed(m.entry(ex, 'stCapt', memo=dict(id=id, pos=s.pos - back)))))]
        if nm == 'CaptureFull':
            ov = overlap(c0, s.pos - back, s.pos)

            def full(s0, s1):
                caps = If(s0.n > 0, m.capt(s1.top()), s1.root)
                new = C.at(caps, C.len(caps) - 1)
                return added(C.unit(new))(s0, s1) + newcap(c0, s1.c, caps, id, s.pos - back, back, C.empty, 'tNode')
            return [(ov, 'next', dict(ip=nxt, stack=full, range=(s.pos - back, s.pos))), (Not(ov), 'next', dict(ip=nxt))]
        if nm == 'CaptureEnd':
            ok = And(s.n > 0, m.is_(s.top(), 'stCapt'))
            lo = m.mpos(s.top())
            ov = overlap(c0, lo, s.pos)

            def end(s0, s1):
                caps = If(s0.n > 1, m.capt(E.at(s1.ent, s0.n - 2)), s1.root)
                new = C.at(caps, C.len(caps) - 1)
                return popped(s0, s1, C.unit(new)) + newcap(c0, s1.c, caps, m.mid(s0.top()), lo, s.pos - lo, m.capt(s0.top()), 'tNode')
            return [(And(ok, ov), 'next', dict(ip=nxt, stack=end, range=(lo, s.pos))),
                    (And(ok, Not(ov)), 'next', dict(ip=nxt, stack=lambda a, b: popped(a, b, C.empty))), (Not(ok), 'panic', {})]
        if nm in ('MemoOpen', 'MemoTreeOpen'):
            found = isaddr(s.log, id, s.pos)
            e = getent(s.log, id, s.pos)
            h = lambda n: z3.Select(c0.heap('memo.Entry', n), e)
            ln = h('length')
            caps = m.slc.data(h('captures'))
            ov = overlap(c0, s.pos, s.pos + ln)
            kd = 'stMemo' if nm == 'MemoOpen' else 'stMemoTree'
            if nm == 'MemoOpen':
                st1 = added(caps)
                st2 = keep
            else:
                def tree(cs):
                    def f(s0, s1):
                        e1 = m.entry(ex, kd, memo=dict(id=id, pos=s.pos, count=h('count')))
                        n = s0.n
                        return [('one entry pushed', And(s1.n == n + 1, E.eq(E.sub(s1.ent, 0, n), s0.ent), m.same_entry(E.at(s1.ent, n), e1))),
                                ('it holds the stored captures', C.eq(m.capt(E.at(s1.ent, n)), cs)), ('captures unchanged', C.eq(s1.root, s0.root))]
                    return f
                st1, st2 = tree(caps), tree(C.empty)
            return [(And(found, ln == -1), 'fail', {}),
                    (And(found, ln != -1, ov), 'next', dict(ip=lbl, pos=s.pos + ln, stack=st1)),
                    (And(found, ln != -1, Not(ov)), 'next', dict(ip=lbl, pos=s.pos + ln, stack=st2)),
                    (Not(found), 'next', dict(ip=nxt, stack=pushed(m.entry(ex, kd, memo=dict(id=id, pos=s.pos)))))]
        if nm == 'MemoClose':
            ok = And(s.n > 0, m.is_(s.top(), 'stMemo'))
            t = s.top()
            return [(ok, 'next', dict(ip=nxt, stack=popped, log=m.put(s.log, m.mid(t), m.mpos(t), s.pos - m.mpos(t), IntVal(1), m.capt(t)))), (Not(ok), 'panic', {})]
        if nm == 'MemoTreeInsert':
            ok = And(s.n > 0, m.is_(s.top(), 'stMemoTree'))
            t = s.top()

            def ins(s0, s1):
                n = s0.n
                return [('stack height unchanged', s1.n == n), ('outer entries unchanged', E.eq(E.sub(s1.ent, 0, n - 1), E.sub(s0.ent, 0, n - 1))),
                        ('entry keeps its data', m.same_entry(s1.top(), s0.top(), but=('count',))), ('one more item counted', m.mcount(s1.top()) == m.mcount(s0.top()) + 1),
                        ('entry keeps its captures', C.eq(m.capt(s1.top()), m.capt(s0.top()))), ('captures unchanged', C.eq(s1.root, s0.root))]
            return [(ok, 'next', dict(ip=nxt, stack=ins, log=m.put(s.log, m.mid(t), m.mpos(t), s.pos - m.mpos(t), m.mcount(t) + 1, m.capt(t)))), (Not(ok), 'panic', {})]
        if nm == 'MemoTreeClose':
            def tclose(s0, s1):
                n0, n1 = s0.n, s1.n
                k = z3.Int('k!tc')
                e = E.at(s0.ent, k)
                it = lambda e: And(m.is_(e, 'stMemoTree'), m.mid(e) == id)
                return [('only entries of this repetition are removed', And(0 <= n1, n1 <= n0, forall([k], Implies(And(n1 <= k, k < n0), it(e)), patterns=[e]))),
                        ('all of them are removed', Implies(n1 > 0, Not(it(E.at(s0.ent, n1 - 1))))),
                        ('outer entries unchanged', agree(s1.ent, s0.ent, n1 - 1)),
                        ('next entry keeps its data', Implies(n1 > 0, m.same_entry(E.at(s1.ent, n1 - 1), E.at(s0.ent, n1 - 1)))),
                        ('captures passed to the next entry', Implies(n1 > 0, C.eq(m.capt(E.at(s1.ent, n1 - 1)), C.cat(m.capt(E.at(s0.ent, n1 - 1)), joined(s0.ent, n1))))),
                        ('captures passed to the top level', C.eq(s1.root, If(n1 > 0, s0.root, C.cat(s0.root, joined(s0.ent, n1)))))]
            return [(True, 'next', dict(ip=nxt, stack=tclose))]
        if nm == 'MemoTree':
            def mtree(s0, s1):
                n0, n1 = s0.n, s1.n
                k = z3.Int('k!mt')
                e = E.at(s0.ent, k)
                return [('only entries of repetitions are joined', And(0 <= n1, n1 <= n0, Implies(n0 > 0, n1 > 0),
                                                                     Implies(n1 < n0, forall([k], Implies(And(n1 - 1 <= k, k < n0), m.is_(e, 'stMemoTree')), patterns=[e])))),
                        ('outer entries unchanged', agree(s1.ent, s0.ent, n1 - 1)),
                        ('joined entry keeps its data', Implies(n1 > 0, m.same_entry(E.at(s1.ent, n1 - 1), E.at(s0.ent, n1 - 1), but=('count',)))),
                        ('joined entry counts all items', Implies(n1 > 0, m.mcount(E.at(s1.ent, n1 - 1)) == m.mcount(E.at(s0.ent, n1 - 1)) + counts(s0.ent, n1))),
                        ('top level captures unchanged', C.eq(s1.root, s0.root))]
            return [(True, 'next', dict(ip=nxt, stack=mtree, log=None))]
        if nm == 'CheckBegin':
            return [(True, 'next', dict(ip=nxt, stack=pushed(m.entry(ex, 'stCheck', memo=dict(id=id, pos=s.pos, count=i16(Ic, f['Flag'][1]))))))]
        if nm == 'CheckEnd':
            ok = And(s.n > 0, m.is_(s.top(), 'stCheck'))
            return [(ok, 'check', dict(ip=nxt, checker=u24(Ic, f['Checker'][1]))), (Not(ok), 'panic', {})]
        if nm == 'Error':
            def err(s0, s1):
                et = p.tstr['vm.ParseError']
                th = w.seq(et)
                d = w.D(et)
                i1, i2 = p.field_index(et, 'Message'), p.field_index(et, 'Pos')
                args = [None, None]
                args[i1] = w.seq(p.tstr['string']).at(c0.vm.data.Errors.seq, u24(Ic, f['Message'][1]))
                args[i2] = s0.pos
                return [('the message is recorded with the position', th.eq(s1.errs, th.cat(s0.errs, th.unit(d.mk(*args)))))]
            return [(True, 'next', dict(ip=nxt, errs=err))]
        if nm == 'End':
            return [(True, 'end', dict(ok=u8(Ic, f['Fail'][1]) != 1))]
        raise KeyError(nm)

    joined = SpecFn('joined', [E.sort, I], C.sort)
    joined.body = lambda s, k: If(Or(k < 0, k >= E.len(s)), C.empty, C.cat(m.capt(E.at(s, k)), joined(s, k + 1)))
    counts = SpecFn('counts', [E.sort, I], I)
    counts.body = lambda s, k: If(Or(k < 0, k >= E.len(s)), 0, m.mcount(E.at(s, k)) + counts(s, k + 1))
    a_, b_, c_ = [z3.Const(x, C.sort) for x in 'abc']
    ca = C.fns()['cat']
    axiom(['cat_' + C.name], z3.ForAll([a_, b_, c_], ca(ca(a_, b_), c_) == ca(a_, ca(b_, c_)), patterns=[ca(ca(a_, b_), c_), ca(a_, ca(b_, c_))]), 'concatenation is associative')

    def agree(s1, s0, n):
        k = z3.Int('k!agree')
        return forall([k], Implies(And(0 <= k, k < n), E.at(s1, k) == E.at(s0, k)), patterns=[E.at(s1, k), E.at(s0, k)])

    def calm(ent):
        """no repetition is being memoized above the most recent backtrack point"""
        k, j = z3.Ints('k!calm j!calm')
        e, g = E.at(ent, k), E.at(ent, j)
        return forall([k], Implies(And(0 <= k, k < E.len(ent), m.is_(e, 'stMemoTree')),
                                      z3.Exists([j], And(k < j, j < E.len(ent), m.is_(g, 'stBtrack')))), patterns=[e])

    def conj(l, g):
        return [(a, Implies(g, b)) for a, b in l]

    def nothing_else(s0, s1, d):
        r = []
        if 'pos' not in d and 'posrel' not in d:
            r.append(('read position unchanged', s1.pos == s0.pos))
        if 'stack' not in d:
            r += keep(s0, s1)
        if 'errs' not in d:
            r.append(('errors unchanged', w.seq(p.tstr['vm.ParseError']).eq(s1.errs, s0.errs)))
        if 'log' not in d:
            r.append(('memo table not written', s1.log == s0.log))
        if 'range' not in d:
            r.append(('captured range unchanged', And(s1.cr[0] == s0.cr[0], s1.cr[1] == s0.cr[1])))
        if 'chk' not in d:
            r.append(('no checker consulted', s1.chk.f[5] == s0.chk.f[5]))
        return r

    def step_clauses(c0, s0, s1, d):
        r = []
        if 'ip' in d:
            r.append(('program position', s1.ip == d['ip']))
        if 'pos' in d:
            r.append(('read position', s1.pos == d['pos']))
        if 'posrel' in d:
            r += d['posrel'](s0, s1)
        if 'stack' in d:
            r += d['stack'](s0, s1)
        if 'errs' in d:
            r += d['errs'](s0, s1)
        if d.get('log') is not None:
            r.append(('result recorded in the memo table', s1.log == d['log']))
        if 'range' in d:
            lo, hi = d['range']
            r.append(('captured range extended', Implies(Not(c0.intrvl.isnil) if c0.intrvl.val is not None else BoolVal(False),
                      And(s1.cr[0] == If(lo < s0.cr[0], lo, s0.cr[0]), s1.cr[1] == If(hi > s0.cr[1], hi, s0.cr[1])))))
        return r + nothing_else(s0, s1, d)

    def failing(s0, sF, d):
        """clauses about the state in which failure handling starts"""
        return [('failure: ' + a, b) for a, b in (d['stack'](s0, sF) if 'stack' in d else [('stack unchanged', E.eq(sF.ent, s0.ent))])
                + [x for x in nothing_else(s0, sF, dict(d, pos=1, stack=1))]]

    def cut(c0, c1):
        """an instruction fails: the state handed to failure handling"""
        nm = case(c0)
        r = []
        if nm == 'invalid':
            return r + [('an invalid opcode does not run', BoolVal(False))]
        s0, sF = S(c0), S(c1)
        for cond, kd, d in outcomes(c0, nm):
            cond = BoolVal(True) if cond is True else cond
            if kd == 'fail':
                r += conj(failing(s0, sF, d), cond)
            elif kd == 'check':
                r += conj(checked(c0, s0, sF, d['checker']), cond)
                r += [('refused: ' + a, b) for a, b in conj(popped(s0, sF) + nothing_else(s0, sF, dict(chk=1, pos=1, stack=1)), And(cond, sF.chk.f[4] == -1))]
                r.append(('fails only when the checker refuses', Implies(cond, sF.chk.f[4] == -1)))
            else:
                r.append(('does not fail here', Not(cond)))
        return r

    def resumed(sF, s1):
        mi = s1.n
        e = E.at(sF.ent, mi)
        k = z3.Int('k!res')
        return [('a backtrack entry is popped', And(0 <= mi, mi < sF.n, m.is_(e, 'stBtrack'))),
                ('it is the most recent one', forall([k], Implies(And(mi < k, k < sF.n), Not(m.is_(E.at(sF.ent, k), 'stBtrack'))), patterns=[E.at(sF.ent, k)])),
                ('outer entries unchanged', E.eq(s1.ent, E.sub(sF.ent, 0, mi))), ('top level captures unchanged', C.eq(s1.root, sF.root)),
                ('program position saved there', s1.ip == m.bip(e)), ('read position saved there', s1.pos == m.boff(e)),
                ('abandoned rules are recorded as failed', s1.log == m.fp(sF.ent, mi + 1, sF.log)),
                ('errors unchanged', w.seq(p.tstr['vm.ParseError']).eq(s1.errs, sF.errs)),
                ('captured range unchanged', And(s1.cr[0] == sF.cr[0], s1.cr[1] == sF.cr[1]))]

    def checked(c0, s0, s1, ck):
        t = s0.top()
        k = s1.chk
        return [('one checker is consulted', k.f[5] == s0.chk.f[5] + 1), ('the checker named', k.f[0] == w.seq(p.tstr['isa.Checker']).at(c0.vm.data.Checkers.seq, ck)),
                ('it is given the text matched', BYTES.eq(k.f[1], BYTES.sub(D(c0.src), m.mpos(t), s0.pos))),
                ('it is given the identifier', k.f[2] == m.mid(t)), ('it is given the flag', k.f[3] == m.mcount(t))]

    def case(c):
        return c.ex.contracts[FN].cases[c.ex.case][0]

    def iteration(c0, c1):
        nm = case(c0)
        if nm == 'invalid':
            return [('an invalid opcode does not run', BoolVal(False))]
        s0, s1 = S(c0), S(c1)
        if nm == 'failure':
            return resumed(s0, s1)
        r = []
        for cond, kd, d in outcomes(c0, nm):
            cond = BoolVal(True) if cond is True else cond
            if kd == 'next':
                r += conj(step_clauses(c0, s0, s1, d), cond)
            elif kd == 'check':
                d = dict(d, chk=1)
                n = s1.chk.f[4]
                r += conj(checked(c0, s0, s1, d['checker']), cond)
                r += [('accepted: ' + a, b) for a, b in conj(step_clauses(c0, s0, s1, dict(d, pos=s0.pos + n, stack=popped)), cond)]
                r.append(('a refusal backtracks', Implies(cond, n != -1)))
            else:
                r.append(('does not go on from here (%s)' % kd, Not(cond)))
        return r

    def exits(c0, c1):
        nm = case(c0)
        s0 = S(c0)
        ok, end, capt, errs = c1.rets
        s1 = S(c1)
        r = []
        esame = ('errors reported', w.seq(p.tstr['vm.ParseError']).eq(errs.seq, s0.errs))
        if nm == 'invalid':
            return [('an invalid opcode does not run', BoolVal(False))]
        if nm == 'failure':
            k = z3.Int('k!ex')
            e = E.at(s0.ent, k)
            return [('no backtrack point was left', forall([k], Implies(And(0 <= k, k < s0.n), Not(m.is_(e, 'stBtrack'))), patterns=[e])),
                         ('no match is reported', And(Not(ok), capt.isnil)), esame,
                         ('abandoned rules are recorded as failed', s1.log == m.fp(s0.ent, IntVal(0), s0.log))]
        for cond, kd, d in outcomes(c0, nm):
            cond = BoolVal(True) if cond is True else cond
            if kd == 'end':
                r += conj([('result', ok == d['ok']), ('end position', end == s0.pos), esame,
                           ('captures are returned under one node', C.eq(m.slc.data(z3.Select(c1.heap('memo.Capture', 'children'), capt.term)), s0.root)),
                           ('that node is a grouping node', z3.Select(c1.heap('memo.Capture', 'typ'), capt.term) == p.consts['memo.tDummy']),
                           ('its span', And(z3.Select(c1.heap('memo.Capture', 'off'), capt.term) == If(isn(c0), 0, s0.cr[0]),
                                            z3.Select(c1.heap('memo.Capture', 'length'), capt.term) == If(isn(c0), s0.pos, s0.cr[1] - s0.cr[0]))),
                           ('memo table not written', s1.log == s0.log)], cond)
            else:
                r.append(('does not end here (%s)' % kd, Not(cond)))
        return r

    def isn(c):
        return BoolVal(True) if c.intrvl.val is None else c.intrvl.isnil

    def panics(c0):
        nm = case(c0)
        if nm in ('invalid', 'failure'):
            return BoolVal(False)
        return Or(*([BoolVal(False)] + [cond for cond, kd, d in outcomes(c0, nm) if kd == 'panic']))

    # ---- inner loops ----
    def fail_inv(c):
        s, b = S(c), S(c.before)
        k = z3.Int('k!fail')
        e = E.at(b.ent, k)
        return [('the stack owns its array', c.stk.entries.own), ('stack is a prefix of the stack at the failure', And(0 <= s.n, s.n <= b.n, E.eq(s.ent, E.sub(b.ent, 0, s.n)))),
                ('top level captures unchanged', C.eq(s.root, b.root)),
                ('no backtrack point was passed over', forall([k], Implies(And(s.n <= k, k < b.n), Not(m.is_(e, 'stBtrack'))), patterns=[e])),
                ('no open repetition was passed over', forall([k], Implies(And(s.n <= k, k < b.n), Not(m.is_(e, 'stMemoTree'))), patterns=[e])),
                ('abandoned rules are recorded as failed', s.log == m.fp(b.ent, s.n, b.log))]

    def span_inv(c):
        s, b = S(c), S(c.before)
        j = z3.Int('j!span')
        Dc = D(c.src)
        st_ = c.ex.fold(c.st, c.l('set').val, tset)
        return [('input invariant', inv(c.src)), ('moves forward inside the document', And(b.pos <= s.pos, s.pos <= dlen(c.src))),
                ('every byte passed is in the set', forall([j], Implies(And(b.pos <= j, j < s.pos), mem(st_, BYTES.at(Dc, j))), patterns=[BYTES.at(Dc, j)])),
                ('next byte', And(c.l('ok') == (s.pos < dlen(c.src)), Implies(c.l('ok'), c.l('in') == BYTES.at(Dc, s.pos))))]

    def tclose_inv(c):
        s, b = S(c), S(c.before)
        k = z3.Int('k!tc')
        e = E.at(b.ent, k)
        n, n0 = s.n, b.n
        id = c.l('id')
        return [('height', And(0 <= n, n <= n0)),
                ('only entries of this repetition are removed', forall([k], Implies(And(n <= k, k < n0), And(m.is_(e, 'stMemoTree'), m.mid(e) == id)), patterns=[e])),
                ('outer entries unchanged', agree(s.ent, b.ent, n - 1)),
                ('next entry keeps its data', Implies(n > 0, m.same_entry(E.at(s.ent, n - 1), E.at(b.ent, n - 1)))),
                ('captures passed to the next entry', Implies(n > 0, C.eq(m.capt(E.at(s.ent, n - 1)), C.cat(m.capt(E.at(b.ent, n - 1)), joined(b.ent, n))))),
                ('captures passed to the top level', C.eq(s.root, If(n > 0, b.root, C.cat(b.root, joined(b.ent, n)))))]

    def mtree_inv(c):
        s, b = S(c), S(c.before)
        k = z3.Int('k!mt')
        n, n0 = s.n, b.n
        seen, accum = c.l('seen'), c.l('accum')
        t = E.at(s.ent, n - 1)
        return [('the stack owns its array', c.stk.entries.own), ('input invariant', inv(c.src)),
                ('height', And(0 <= n, n <= n0, Implies(n0 > 0, n > 0), 0 <= seen, Or(seen == 0, seen <= n - 1))),
                ('outer entries unchanged', agree(s.ent, b.ent, n - 1)),
                ('top entry keeps its data', Implies(n > 0, m.same_entry(t, E.at(b.ent, n - 1), but=('count',)))),
                ('top level captures unchanged', C.eq(s.root, b.root)),
                ('only entries of repetitions are joined', Implies(n < n0, forall([k], Implies(And(n - 1 <= k, k < n0), m.is_(E.at(b.ent, k), 'stMemoTree')), patterns=[E.at(b.ent, k)]))),
                ('entries looked at belong to repetitions', Implies(seen > 0, forall([k], Implies(And(n - 1 - seen <= k, k < n), m.is_(E.at(b.ent, k), 'stMemoTree')), patterns=[E.at(b.ent, k)]))),
                ('top entry counts the joined items', Implies(n > 0, m.mcount(t) == m.mcount(E.at(b.ent, n - 1)) + counts(b.ent, n))),
                ('items counted', If(seen > 0, accum == counts(b.ent, n - seen), accum == 0))]

    def mpop_inv(c):
        s, b = S(c), S(c.before)
        i = c.l('i')
        n = s.n
        return [('the stack owns its array', c.stk.entries.own),
                ('height', And(0 <= i, Or(i == 0, i <= c.l('seen') - 1), n == b.n - i)),
                ('outer entries unchanged', agree(s.ent, b.ent, n - 1)),
                ('top entry keeps its data', m.same_entry(E.at(s.ent, n - 1), E.at(b.ent, n - 1))),
                ('top level captures unchanged', C.eq(s.root, b.root))]

    FN = '(*vm.Code).exec'
    def case_props(nm):
        if nm.startswith('Memo'):
            return ('C09', 'C12', 'C13')
        if nm in ('CaptureBegin', 'CaptureLate', 'CaptureFull', 'CaptureEnd', 'End',
                  'Commit', 'PartialCommit', 'BackCommit'):
            return ('C09', 'C12')
        if nm in ('CheckBegin', 'CheckEnd'):
            return ('C09', 'C17')
        return ('C09',)
    cases = [(nm, (lambda nm: lambda c: BYTES.at(code(c), c.l('ip')) == OP(nm))(nm), case_props(nm)) for nm in INSNS]
    cases.append(('failure', lambda c: calm(S(c).ent)))
    reg.trusted.append('assumed of the code run: no instruction fails while a repetition is being memoized above the most recent backtrack point (compiled repetitions open a backtrack point first)')
    cases.append(('invalid', lambda c: And(*[BYTES.at(code(c), c.l('ip')) != OP(nm) for nm in INSNS])))

    reg.contract(FN, params=['vm', 'ip0', 'stk', 'src', 'memtbl', 'intrvl'], props=P + ('C13',), setup=setup, nilable=('intrvl',),
        modifies=['stk.*', 'src.*', 'heap:memo.Capture', 'heap:memo.Entry', LOG, FAR, CHK],
        requires=lambda c: [('input invariant', inv(c.src)), ('position inside the document', And(0 <= pos(c.src), pos(c.src) <= dlen(c.src))),
                            ('empty stack', And(c.stk.entries.len == 0, c.stk.capt.len == 0)), ('the stack owns its array', c.stk.entries.own),
                            ('starts at an instruction', Implies(And(0 <= c.ip0, c.ip0 < BYTES.len(code(c))), isip(code(c), c.ip0)))],
        ensures=lambda c: [],
        cases=cases, case_loop=0,
        loops={0: LoopC(inv=main_inv, iteration=iteration, exit=exits, panics=panics,
                        mod=['local:ip', 'local:memofar', 'local:caprange', 'local:success', 'local:errs', 'stk.*', 'src.base', 'src.coff', 'src.nchunk', 'src.chunk', 'src.b', 'src.furthest',
                             'heap:memo.Capture', LOG, FAR, CHK],
                        assume=lambda c: [('instance of the precondition that the code is well formed (every instruction position holds a known opcode with operands in range whose successors are instruction positions)', wfat(c, c.l('ip'))),
                                          ('a checked span does not end before it starts', z3.Implies(And(S(c).n > 0, m.is_(S(c).top(), 'stCheck')), m.mpos(S(c).top()) <= S(c).pos))]),
               1: LoopC(inv=fail_inv, cut=cut, cutcase='failure', cutinv=fail_start, decreases=lambda c: S(c).n, mod=['stk.*', 'heap:memo.Capture', LOG]),
               2: LoopC(inv=span_inv, decreases=lambda c: dlen(c.src) - pos(c.src)),
               3: LoopC(inv=tclose_inv, alias={'p': lambda c: [(c.stk.entries.len == 0, None), (c.stk.entries.len > 0, c.stk.entries.elemptr(c.stk.entries.len - 1))]}, decreases=lambda c: S(c).n),
               4: LoopC(inv=mtree_inv, decreases=lambda c: 2 * S(c).n - c.l('seen')),
               5: LoopC(inv=mpop_inv, decreases=lambda c: S(c).n)})


    def setup2(ex, st, args):
        setup(ex, st, [None, None, None, None])
        del st.ghost['src']
    for fn, prm in (('(*vm.Code).Exec', ['vm', 'r', 'memtbl']), ('(*vm.Code).ExecInterval', ['vm', 'r', 'memtbl', 'intrvl'])):
        reg.contract(fn, params=prm, props=('C09',), nilable=('intrvl',), setup=setup2, modifies=['heap:memo.Capture', 'heap:memo.Entry', LOG, FAR, CHK],
            requires=lambda c: [('the program starts at an instruction', isip(code(c), 0))],
            ensures=lambda c: [])


class GhostStruct:
    """a struct type of package-independent shape for ghost records"""
    cache = {}

    @staticmethod
    def get(p):
        if id(p) not in GhostStruct.cache:
            ti, ts = p.tstr['int'], p.tstr['string']
            p.types.append(dict(kind='struct', str='ghost.check', fields=[dict(name='checker', type=ti, emb=False), dict(name='text', type=ts, emb=False),
                           dict(name='id', type=ti, emb=False), dict(name='flag', type=ti, emb=False), dict(name='verdict', type=ti, emb=False), dict(name='calls', type=ti, emb=False)]))
            GhostStruct.cache[id(p)] = len(p.types) - 1
        return GhostStruct.cache[id(p)]
