"""C08: vm.Encode and the operand codecs of package vm."""
from ..dsl import *
from ..smt import multipattern, BYTES, SpecFn, axiom, SeqTheory
from .isa_spec import *


def put16(little):
    def ext(ex, st, x, args):
        _, b, v = args
        ex.oblige(st, 'PutUint16: two bytes available', b.len >= 2, x.get('line'), kind='safety')
        st.assume(b.len >= 2)
        lo, hi = v % 256, v / 256
        content = ex.arr_content(st, b.obj)
        a0, a1 = (lo, hi) if little else (hi, lo)
        new = BYTES.upd(BYTES.upd(content, b.off, a0), z3.simplify(b.off + 1), a1)
        ex.arr_set(st, b.obj, new, x.get('line'), 'PutUint16')
        return [(st, None)]
    return ext


def get16(ex, st, x, args):
    _, b = args
    ex.oblige(st, 'Uint16: two bytes available', b.len >= 2, x.get('line'), kind='safety')
    st.assume(b.len >= 2)
    d = ex.slice_data(st, b)
    for k in (0, 1):
        v = BYTES.at(d, IntVal(k))
        st.assume(And(0 <= v, v <= 255))
    return [(st, BYTES.at(d, IntVal(0)) + 256 * BYTES.at(d, IntVal(1)))]


def sprintf(ex, st, x, args):
    return [(st, fresh(BYTES.sort, 'text'))]


def codecs(w, reg, P):
    reg.externs['(encoding/binary.littleEndian).PutUint16'] = put16(True)
    reg.externs['(encoding/binary.bigEndian).PutUint16'] = put16(False)
    reg.externs['(encoding/binary.littleEndian).Uint16'] = get16
    reg.externs['fmt.Sprintf'] = sprintf
    own = lambda c: []
    at = BYTES.at
    reg.contract('vm.encodeU8', params=['x'], props=P, required=False, requires=lambda c: [c.x >= 0], panics=lambda c: c.x >= 256,
        ensures=lambda c: [('one byte', c.ret.len == 1), ('decodes to the operand', And(u8(c.ret.seq, 0) == c.x, c.x < 256))])
    reg.contract('vm.encodeI16', params=['x'], props=P, required=False, panics=lambda c: Or(c.x < -32768, c.x >= 32768),
        ensures=lambda c: [('two bytes', c.ret.len == 2), ('decodes to the operand', i16(c.ret.seq, 0) == c.x)])
    reg.contract('vm.encodeU24', params=['x'], props=P, required=False, requires=lambda c: [c.x >= 0], panics=lambda c: c.x >= 1 << 24,
        ensures=lambda c: [('three bytes', c.ret.len == 3), ('decodes to the operand', u24(c.ret.seq, IntVal(0)) == c.x)])
    reg.contract('vm.encodeLabel', params=['x'], props=P, required=False, requires=lambda c: [c.x >= 0], panics=lambda c: c.x >= 1 << 24,
        ensures=lambda c: [('three bytes', c.ret.len == 3), ('decodes to the operand', u24(c.ret.seq, IntVal(0)) == c.x)])
    reg.contract('vm.encodeBool', params=['b'], props=P, required=False,
        ensures=lambda c: [('one byte', c.ret.len == 1), ('decodes to the operand', u8(c.ret.seq, 0) == If(c.b, 1, 0))])
    reg.contract('vm.decodeU8', params=['b'], props=P, required=False, requires=lambda c: [c.b.len >= 1],
        ensures=lambda c: [('the operand', c.ret == u8(c.b.seq, IntVal(0)))])
    reg.contract('vm.decodeI16', params=['b'], props=P, required=False, requires=lambda c: [c.b.len >= 2],
        ensures=lambda c: [('the operand', c.ret == i16(c.b.seq, IntVal(0)))])
    reg.contract('vm.decodeU24', params=['b'], props=P, required=False, requires=lambda c: [c.b.len >= 3],
        ensures=lambda c: [('the operand', c.ret == u24(c.b.seq, IntVal(0)))])
    reg.contract('vm.decodeSet', params=['b', 'sets'], props=P, required=False,
        requires=lambda c: [c.b.len >= 1, u8(c.b.seq, IntVal(0)) < c.sets.len],
        ensures=lambda c: [('the operand', c.ret.term == c.sets.th.at(c.sets.seq, u8(c.b.seq, IntVal(0))))])


def build(w, reg):
    S = Spec(w)
    p = w.p
    P = ('C08',)
    codecs(w, reg, P)
    PS, IS = S.prog.sort, S.D.sort
    th = S.prog
    sets = w.seq(p.tstr['charset.Set'])
    errs = w.seq(p.tstr['string'])
    chks = w.seq(p.tstr['isa.Checker'])

    # ---- functions with their own contracts
    def table(fld):
        def ens(c):
            d = lambda v: getattr(v.data, fld)
            old, new = d(c.old.code), d(c.code)
            t = new.th
            r = [('index in the table', And(0 <= c.ret, c.ret < new.len)),
                 ('the table keeps its entries', And(new.len >= old.len, eq(t.sub(new.seq, 0, old.len), old.seq))),
                 ('grows by at most one', new.len <= old.len + 1)]
            return r, new, t
        return ens
    tb = table('Sets')
    reg.contract('vm.addSet', params=['code', 'set'], props=P, required=False, modifies=['code.data'],
        ensures=lambda c: tb(c)[0] + [('the entry is the set', eq(tb(c)[2].at(tb(c)[1].seq, c.ret), c.set.term))] + others(c, 'Sets'))
    te = table('Errors')
    reg.contract('vm.addError', params=['code', 'msg'], props=P, required=False, modifies=['code.data'],
        ensures=lambda c: te(c)[0] + [('the entry is the message', eq(te(c)[2].at(te(c)[1].seq, c.ret), c.msg))] + others(c, 'Errors'))
    tc = table('Checkers')
    reg.contract('vm.addChecker', params=['code', 'checker'], props=P, required=False, modifies=['code.data'],
        ensures=lambda c: tc(c)[0] + [('the entry is the checker', eq(tc(c)[2].at(tc(c)[1].seq, c.ret), c.checker))] + others(c, 'Checkers'))

    def others(c, keep):
        r = []
        for f in ('Sets', 'Errors', 'Checkers', 'Insns'):
            if f != keep:
                a, b = getattr(c.old.code.data, f), getattr(c.code.data, f)
                r.append(('%s unchanged' % f, And(eq(a.seq, b.seq), a.len == b.len)))
        return r

    reg.contract('vm.size', params=['insn'], props=P, required=False,
        ensures=lambda c: [('encoded size', Implies(S.known(c.insn.term), c.ret == S.size(c.insn.term)))])

    # ---- specification of the layout
    isize = SpecFn('isize', [IS], I, lambda x: S.size(x), rounds=3)
    off = SpecFn('off', [PS, I], I, lambda q, n: If(n <= 0, IntVal(0), off(q, n - 1) + isize(th.at(q, n - 1))), rounds=2)
    lt = S.tid['Label']
    LS = w.sort(lt)
    LM, LDm = z3.ArraySort(LS, I), z3.ArraySort(LS, B)
    lab = lambda x: S.D.unbox[lt](x)
    labval = SpecFn('labval', [PS, I, LM], LM, lambda q, n, e: If(n <= 0, e, If(S.is_(th.at(q, n - 1), 'Label'),
                    z3.Store(labval(q, n - 1, e), lab(th.at(q, n - 1)), off(q, n - 1)), labval(q, n - 1, e))), rounds=2)
    labdom = SpecFn('labdom', [PS, I], LDm, lambda q, n: If(n <= 0, z3.K(LS, BoolVal(False)), If(S.is_(th.at(q, n - 1), 'Label'),
                    z3.Store(labdom(q, n - 1), lab(th.at(q, n - 1)), BoolVal(True)), labdom(q, n - 1))), rounds=2)
    SETI = ['Set', 'Span', 'TestSet', 'TestSetNoChoice']
    nsets = SpecFn('nsets', [PS, I], I, lambda q, n: If(n <= 0, IntVal(0), nsets(q, n - 1) + If(S.isa(th.at(q, n - 1), SETI), 1, 0)), rounds=2)

    q = z3.Const('q', PS)
    n, k = z3.Ints('n k')
    x = z3.Const('x', IS)
    reg.fact('an instruction takes between 0 and 6 bytes', P, And(0 <= isize(x), isize(x) <= 6), [x], [isize(x)], ['isize'])
    reg.induction('offsets are monotone', P, n, lambda m: Implies(And(0 <= k, k < m), off(q, k) + isize(th.at(q, k)) <= off(q, m)),
                  [q, k], [multipattern(off(q, k), off(q, n))], ['off'])
    reg.induction('offsets are not negative', P, n, lambda m: off(q, m) >= 0, [q], [off(q, n)], ['off'])
    reg.induction('set count is monotone', P, n, lambda m: Implies(And(0 <= k, k <= m), And(nsets(q, k) <= nsets(q, m), 0 <= nsets(q, k))),
                  [q, k], [multipattern(nsets(q, k), nsets(q, n))], ['nsets'])
    reg.fact('a set instruction has a set count of its own', P, Implies(And(0 <= k, k < n, S.isa(th.at(q, k), SETI)), nsets(q, k) + 1 <= nsets(q, n)),
             [q, k, n], [multipattern(nsets(q, k), nsets(q, n))], ['nsets'], using=[nsets(q, k + 1), nsets(q, n)])
    e0 = z3.Const('e0', LM)
    L0 = z3.Const('L0', LS)
    reg.induction('label positions are not beyond the code', P, n,
                  lambda m: Implies(z3.Select(labdom(q, m), L0), And(0 <= z3.Select(labval(q, m, e0), L0), z3.Select(labval(q, m, e0), L0) <= off(q, m))),
                  [q, e0, L0], [z3.Select(labval(q, n, e0), L0)], ['labval', 'labdom'])

    def fits(x):
        """every operand of instruction x fits its field"""
        cs = []
        for nm, (op, sz, fs) in INSNS.items():
            for (f, kind, _) in fs:
                v = S.field(x, nm, f)
                if kind == 'i16':
                    cs.append(Implies(S.is_(x, nm), And(-32768 <= v, v < 32768)))
                elif kind == 'u8':
                    cs.append(Implies(S.is_(x, nm), And(0 <= v, v < 256)))
        return And(*cs)

    def labs(x, dom):
        return And(*[Implies(S.is_(x, nm), z3.Select(dom, S.field(x, nm, f))) for nm, (op, sz, fs) in INSNS.items() for (f, kind, _) in fs if kind == 'lab'])

    i = z3.Int('i!valid')

    def valid(q, N):
        """every operand fits its field and the code is not too long"""
        return And(z3.ForAll([i], Implies(And(0 <= i, i < N), fits(th.at(q, i))), patterns=[th.at(q, i)]),
                   off(q, N) < 1 << 24, nsets(q, N) <= 256)

    def insns(q, N):
        """only instructions of package isa (the interface is sealed), no nil, no undefined label"""
        return z3.ForAll([i], Implies(And(0 <= i, i < N), And(S.known(th.at(q, i)), labs(th.at(q, i), labdom(q, N)))), patterns=[th.at(q, i)])

    def enc(c, data, x, o, lv):
        """the bytes at o decode to instruction x: one clause per kind of instruction"""
        Ib = data.Insns.seq
        r = []
        for nm, (op, sz, fs) in INSNS.items():
            g = S.is_(x, nm)
            cs = [BYTES.len(Ib) >= o + sz, u8(Ib, o) == S.op(nm)]
            for (f, kind, at) in fs:
                v = S.field(x, nm, f)
                a = z3.simplify(o + at)
                if kind == 'u8':
                    cs.append(u8(Ib, a) == v)
                elif kind == 'bool':
                    cs.append(u8(Ib, a) == If(v, 1, 0))
                elif kind == 'i16':
                    cs.append(i16(Ib, a) == v)
                elif kind == 'lab':
                    cs.append(u24(Ib, a) == z3.Select(lv, v))
                elif kind == 'set':
                    cs.append(And(u8(Ib, a) < data.Sets.len, sets.at(data.Sets.seq, u8(Ib, a)) == v))
                elif kind == 'err':
                    cs.append(And(u24(Ib, a) < data.Errors.len, errs.at(data.Errors.seq, u24(Ib, a)) == v))
                elif kind == 'chk':
                    cs.append(And(u24(Ib, a) < data.Checkers.len, chks.at(data.Checkers.seq, u24(Ib, a)) == v))
            r.append((nm, Implies(g, And(*cs))))
        return r

    # an arbitrary instruction of the program: what is shown about it is shown about all
    K = z3.Int('ghost_k')
    E0 = z3.K(LS, IntVal(0))

    def loop1(c):
        N = c.idx
        lm = c.l('labels')
        return [('size so far', c.l('bcount') == off(c.insns.seq, N)),
                ('labels map exists', Not(lm.isnil)),
                ('label positions so far', lm.mval == labval(c.insns.seq, N, E0)),
                ('labels so far', lm.dom == labdom(c.insns.seq, N))]

    def loop2(c):
        N = c.idx
        q = c.insns.seq
        data = c.l('code').data
        lm = c.l('labels')
        x = th.at(q, K)
        r = [('position so far', data.Insns.len == off(q, N)),
             ('label table complete', And(Not(lm.isnil), lm.mval == labval(q, c.insns.len, E0), lm.dom == labdom(q, c.insns.len))),
             ('set table size', data.Sets.len <= nsets(q, N)),
             ('message table size', 4 * data.Errors.len <= data.Insns.len),
             ('checker table size', 4 * data.Checkers.len <= data.Insns.len)]
        g = And(0 <= K, K < N)
        return r + [('%s instructions so far are encoded' % nm, Implies(g, f)) for nm, f in enc(c, data, x, off(q, K), labval(q, c.insns.len, E0))]

    def ens(c):
        data = c.ret.data
        q = c.insns.seq
        N = c.insns.len
        return [('every %s is encoded at its position and decodes to itself' % nm, Implies(And(0 <= K, K < N), f))
                for nm, f in enc(c, data, th.at(q, K), off(q, K), labval(q, N, E0))] + [
                ('the code ends with End', And(data.Insns.len == off(q, N) + 2, u8(data.Insns.seq, off(q, N)) == S.op('End'), u8(data.Insns.seq, off(q, N) + 1) == 0))]
    reg.contract('vm.Encode', params=['insns'], props=P, tlim=20,
        requires=lambda c: [('every element is an instruction and every label used is defined', insns(c.insns.seq, c.insns.len))],
        panics=lambda c: Not(valid(c.insns.seq, c.insns.len)),
        ensures=ens,
        loops={0: LoopC(inv=loop1), 1: LoopC(inv=loop2)})
