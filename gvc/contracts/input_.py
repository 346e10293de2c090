"""C02, C03: buffered input and the stream adapter (package input)."""
from ..dsl import *
from ..smt import BYTES, SpecFn, axiom

# the document behind a random-access reader
doc = z3.Function('doc', I, BYTES.sort)
# the complete contents of a stream (everything it will ever deliver)
stream = z3.Function('stream', I, BYTES.sort)


def mn(a, b):
    return If(a < b, a, b)


def readat_extern(ex, st, x, args):
    """io.ReaderAt: reads at an absolute position; short only at the end of the document"""
    r, b, off = args
    r = ex.fold(st, r, x['rectype'])
    D = doc(r)
    ex.oblige(st, 'precondition of io.ReaderAt.ReadAt: offset is not negative', off >= 0, x.get('line'), kind='pre')
    st.assume(off >= 0)
    content = ex.arr_content(st, b.obj)
    th = BYTES
    n = fresh(I, 'nread')
    avail = BYTES.len(D) - off
    st.assume(n == If(avail <= 0, 0, mn(avail, b.len)))
    rest = fresh(BYTES.sort, 'scratch')
    st.assume(BYTES.len(rest) == b.len - n)
    tot = BYTES.len(content)
    if isinstance(b.obj, ArrLoc):
        tot = IntVal(ex.p.T(b.obj.t)['len'])
    part = If(n == 0, BYTES.empty, BYTES.sub(D, off, off + n))
    got = fresh(BYTES.sort, 'got')
    st.assume(BYTES.eq(got, part))
    st.assume(BYTES.len(got) == n)
    new = th.cat(th.cat(th.cat(th.sub(content, IntVal(0), b.off), got), rest), th.sub(content, z3.simplify(b.off + b.len), tot))
    ex.arr_set(st, b.obj, new, x.get('line'), 'io.ReaderAt.ReadAt')
    err = fresh(I, 'err')
    st.assume(Implies(n < b.len, err != 0))
    return [(st, TupleV([n, err]))]


DEL = 'global:ghost:delivered'


def delivered(c):
    """ghost: number of bytes the wrapped reader has delivered so far"""
    return c.st.objs[DEL]


def read_extern(ex, st, x, args):
    """io.Reader: delivers the next bytes of its stream, in pieces of any size;
    an error (end or failure) is reported only once everything was delivered,
    and then nothing more ever arrives"""
    r, p = args
    r = ex.fold(st, r, x['rectype'])
    S = stream(r)
    d0 = st.objs[DEL]
    n, err = fresh(I, 'nread'), fresh(I, 'err')
    st.assume(And(0 <= n, n <= p.len, d0 + n <= BYTES.len(S)))
    st.assume(Implies(err != 0, d0 + n == BYTES.len(S)))
    got, rest = fresh(BYTES.sort, 'got'), fresh(BYTES.sort, 'scratch')
    st.assume(And(BYTES.eq(got, BYTES.sub(S, d0, d0 + n)), BYTES.len(got) == n, BYTES.len(rest) == p.len - n))
    content = ex.arr_content(st, p.obj)
    tot = BYTES.len(content)
    new = BYTES.cat(BYTES.cat(BYTES.cat(BYTES.sub(content, IntVal(0), p.off), got), rest), BYTES.sub(content, z3.simplify(p.off + p.len), tot))
    ex.arr_set(st, p.obj, new, x.get('line'), 'io.Reader.Read')
    st.objs[DEL] = d0 + n
    ex.log(st, DEL, ())
    return [(st, TupleV([n, err]))]


def noop_extern(ex, st, x, args):
    return [(st, None)]


def D(i):
    return doc(i.r)


def dlen(i):
    return BYTES.len(D(i))


def inv(i):
    """representation invariant of Input: the chunk caches document bytes
    [base, base+nchunk), and the read position is inside the cached window or
    (only when nothing is cached) at its start at or beyond the end"""
    j = z3.Int('j!inv')
    return And(
        i.base >= 0, i.coff >= 0, 0 <= i.nchunk, i.nchunk <= 4096, i.furthest >= 0,
        BYTES.len(i.chunk.seq) == 4096,
        Or(i.coff < i.nchunk, And(i.nchunk == 0, i.coff == 0)),
        Implies(i.nchunk > 0, i.base + i.nchunk <= dlen(i)),
        Implies(i.nchunk == 0, i.base >= dlen(i)),
        ForAllT([j], Implies(And(0 <= j, j < i.nchunk), BYTES.at(i.chunk.seq, j) == BYTES.at(D(i), i.base + j)),
                BYTES.at(i.chunk.seq, j)))


def ForAllT(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats))


def pos(i):
    return i.base + i.coff


def build(w, reg):
    reg.externs['io.ReaderAt.ReadAt'] = readat_extern
    reg.externs['io.Reader.Read'] = read_extern
    reg.externs['(*sync.Mutex).Lock'] = noop_extern
    reg.externs['(*sync.Mutex).Unlock'] = noop_extern
    P = ('C02',)
    P3 = ('C03',)

    def setup3(ex, st, args):
        t = ex.p.tstr['int']
        d = fresh(I, 'delivered')
        st.objs[DEL] = d
        st.info[DEL] = ObjInfo(t, 'obj')
        st.assume(d >= 0)

    def winv(c, r):
        S = stream(r.reader)
        return And(0 <= delivered(c), delivered(c) <= BYTES.len(S), eq(r.buf.seq, BYTES.sub(S, 0, delivered(c))), r.buf.len == delivered(c))

    reg.contract('(*input.readerWrapper).ReadAt', params=['r', 'b', 'off'], props=P3, modifies=['r.buf', 'r.lock', 'b[]', DEL],
        setup=setup3,
        requires=lambda c: [('wrapper invariant', winv(c, c.r)), c.off >= 0],
        ensures=lambda c: [
            ('wrapper invariant', winv(c, c.r)),
            ('count', c.rets[0] == If(BYTES.len(stream(c.r.reader)) <= c.off, 0, mn(BYTES.len(stream(c.r.reader)) - c.off, c.b.len))),
            ('the stream\'s bytes', Implies(c.rets[0] > 0, eq(BYTES.sub(c.b.seq, 0, c.rets[0]), BYTES.sub(stream(c.r.reader), c.off, c.off + c.rets[0])))),
            ('short reads report an error', Implies(c.rets[0] < c.b.len, c.rets[1] != 0))],
        loops={0: LoopC(inv=lambda c: [('wrapper invariant', winv(c, c.r))])})

    reg.contract('input.FromReader', params=['r'], props=P3, setup=setup3,
        requires=lambda c: [delivered(c) == 0],
        ensures=lambda c: [('wraps the reader with the invariant established',
            (lambda wv: And(wv.reader == c.r, winv(c, wv)))(View(c.ex, c.st, c.ret.val.v, c.ret.val.t)))])

    reg.contract('input.NewInput', params=['r'], props=P,
        requires=lambda c: [],
        ensures=lambda c: [
            ('not nil', Not(c.ret.isnil)),
            ('representation invariant', inv(c.ret)),
            ('reads the given document', c.ret.r == c.r),
            ('starts at position 0', pos(c.ret) == 0),
            ('nothing examined yet', c.ret.furthest == 0)])

    reg.contract('(*input.Input).refill', params=['i', 'pos'], props=P, required=False,
        modifies=['i.base', 'i.coff', 'i.nchunk', 'i.chunk'],
        requires=lambda c: [c.pos >= 0, c.i.furthest >= 0],
        ensures=lambda c: [
            ('representation invariant', inv(c.i)),
            ('position is the requested one', pos(c.i) == c.pos)])

    reg.contract('(*input.Input).Peek', params=['i'], props=P,
        modifies=['i.furthest'],
        requires=lambda c: [inv(c.i)],
        ensures=lambda c: [
            ('representation invariant', inv(c.i)),
            ('reports whether a byte exists', c.rets[1] == (pos(c.old.i) < dlen(c.i))),
            ('returns the document byte', Implies(c.rets[1], c.rets[0] == BYTES.at(D(c.i), pos(c.old.i)))),
            ('position unchanged', pos(c.i) == pos(c.old.i)),
            ('examined range covers the position', c.i.furthest == If(pos(c.i) > c.old.i.furthest, pos(c.i), c.old.i.furthest))])

    reg.contract('(*input.Input).PeekBefore', params=['i'], props=P,
        modifies=['i.b'],
        requires=lambda c: [inv(c.i)],
        ensures=lambda c: [
            ('representation invariant', inv(c.i)),
            ('reports whether a byte exists', c.rets[1] == And(pos(c.old.i) > 0, pos(c.old.i) <= dlen(c.i))),
            ('returns the preceding document byte', Implies(c.rets[1], c.rets[0] == BYTES.at(D(c.i), pos(c.old.i) - 1))),
            ('position unchanged', pos(c.i) == pos(c.old.i))])

    reg.contract('(*input.Input).SeekTo', params=['i', 'pos'], props=P,
        modifies=['i.base', 'i.coff', 'i.nchunk', 'i.chunk'],
        requires=lambda c: [inv(c.i), c.pos >= 0],
        ensures=lambda c: [
            ('representation invariant', inv(c.i)),
            ('position is the requested one', pos(c.i) == c.pos),
            ('reports whether a byte exists there', c.ret == (c.pos < dlen(c.i)))])

    reg.contract('(*input.Input).Advance', params=['i', 'n'], props=P,
        modifies=['i.base', 'i.coff', 'i.nchunk', 'i.chunk', 'i.b', 'i.furthest'],
        requires=lambda c: [inv(c.i), c.n >= 0, pos(c.i) <= dlen(c.i)],
        ensures=lambda c: [
            ('representation invariant', inv(c.i)),
            ('succeeds exactly when n more bytes exist', c.ret == (pos(c.old.i) + c.n <= dlen(c.i))),
            ('on success the position is n further', Implies(c.ret, pos(c.i) == pos(c.old.i) + c.n)),
            ('examined range covers the skipped bytes', And(c.i.furthest >= c.old.i.furthest,
                Implies(c.n > 0, c.i.furthest >= mn(pos(c.old.i) + c.n - 1, dlen(c.i)))))])

    reg.contract('(*input.Input).Pos', params=['i'], props=P,
        ensures=lambda c: [('is the read position', c.ret == pos(c.i))])
    reg.contract('(*input.Input).Furthest', params=['i'], props=P,
        ensures=lambda c: [('is the furthest position', c.ret == c.i.furthest)])
    reg.contract('(*input.Input).ResetFurthest', params=['i'], props=P, modifies=['i.furthest'],
        requires=lambda c: [inv(c.i)],
        ensures=lambda c: [('representation invariant', inv(c.i)), ('is zero', c.i.furthest == 0)])

    def at_doc(r, low, high, res):
        n = If(BYTES.len(doc(r)) <= low, 0, mn(BYTES.len(doc(r)) - low, high - low))
        return res.len == n, Implies(n > 0, eq(res.seq, BYTES.sub(doc(r), low, low + n)))

    reg.contract('input.Slice', params=['r', 'low', 'high'], props=P + P3,
        requires=lambda c: [0 <= c.low, c.low <= c.high],
        ensures=lambda c: [('length', at_doc(c.r, c.low, c.high, c.ret)[0]), ('the document\'s bytes', at_doc(c.r, c.low, c.high, c.ret)[1])])
    reg.contract('(*input.Input).Slice', params=['i', 'low', 'high'], props=P,
        requires=lambda c: [0 <= c.low, c.low <= c.high],
        ensures=lambda c: [('length', at_doc(c.i.r, c.low, c.high, c.ret)[0]), ('the document\'s bytes', at_doc(c.i.r, c.low, c.high, c.ret)[1])])
    reg.contract('(*input.Input).ReadAt', params=['i', 'b', 'pos'], props=P, modifies=['b[]'],
        requires=lambda c: [c.pos >= 0],
        ensures=lambda c: [
            ('count', c.rets[0] == If(BYTES.len(D(c.i)) <= c.pos, 0, mn(BYTES.len(D(c.i)) - c.pos, c.b.len))),
            ('the document\'s bytes', Implies(c.rets[0] > 0, eq(BYTES.sub(c.b.seq, 0, c.rets[0]), BYTES.sub(D(c.i), c.pos, c.pos + c.rets[0])))),
            ('short reads report an error', Implies(c.rets[0] < c.b.len, c.rets[1] != 0))])
