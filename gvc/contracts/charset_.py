"""C01: character sets (package charset), in machine arithmetic (bit-vectors)."""
from ..dsl import *
from ..smt import SpecFn

BV = True

# an arbitrary byte: every statement below is about an unconstrained constant
# b, i.e. it is proved for all 256 bytes at once
b = z3.BitVec('ghost_byte', 8)
BV64 = z3.BitVecSort(64)


def member(words, x):
    """spec: x is an element of the set stored in these 64-bit words"""
    if isinstance(x, int):
        return z3.Extract(x % 64, x % 64, words[x // 64]) == 1
    r = BoolVal(False)
    for k, w in enumerate(words):
        bit = z3.LShR(w, z3.ZeroExt(56, x & 63)) & 1
        r = Or(r, And(z3.LShR(x, 6) == k, bit == 1))
    return r


def card(words):
    """spec: number of elements"""
    n = z3.BitVecVal(0, 64)
    for k, w in enumerate(words):
        s = z3.BitVecVal(0, 64)
        for i in range(64):
            s = s + z3.ZeroExt(63, z3.Extract(i, i, w))
        n = n + s
    return n


def onescount(ex, st, x, args):
    s = z3.BitVecVal(0, 64)
    for i in range(64):
        s = s + z3.ZeroExt(63, z3.Extract(i, i, args[0]))
    return [(st, s)]


def W4(v):
    return [v.Bits[i] for i in range(4)]


def W2(v):
    return [v.Bits[i] for i in range(2)]


def build(w, reg):
    P = ('C01',)
    reg.externs['math/bits.OnesCount64'] = onescount
    small = lambda ws: And(ws[2] == 0, ws[3] == 0)
    reg.contract('(*charset.Set).Has', params=['c', 'r'], props=P,
        ensures=lambda c: [('is membership', c.ret == member(W4(c.c), c.r))])
    reg.contract('(*charset.SmallSet).Has', params=['c', 'r'], props=P,
        requires=lambda c: [z3.ULT(c.r, 128)],
        ensures=lambda c: [('is membership', c.ret == member(W2(c.c), c.r))])
    reg.contract('(charset.Set).Complement', params=['c'], props=P,
        ensures=lambda c: [('contains exactly the other bytes', member(W4(c.ret), b) == Not(member(W4(c.c), b)))])
    reg.contract('(charset.Set).Add', params=['c', 'c1'], props=P,
        ensures=lambda c: [('contains exactly the bytes of either', member(W4(c.ret), b) == Or(member(W4(c.c), b), member(W4(c.c1), b)))])
    reg.contract('(charset.Set).Sub', params=['c', 'c1'], props=P,
        ensures=lambda c: [('contains exactly the bytes of the first only', member(W4(c.ret), b) == And(member(W4(c.c), b), Not(member(W4(c.c1), b))))])
    reg.contract('(charset.Set).Size', params=['c'], props=P, tlim=30,
        ensures=lambda c: [('is the number of members', c.ret == card(W4(c.c)))])
    reg.contract('(charset.SmallSet).Size', params=['c'], props=P, tlim=30,
        ensures=lambda c: [('is the number of members', c.ret == card(W2(c.c)))])
    reg.contract('(charset.Set).IsSmall', params=['c'], props=P,
        # "exactly when": an all-ASCII set is small, and a small set has no byte >= 128
        ensures=lambda c: [('no byte >= 128 when small', Implies(And(c.ret, member(W4(c.c), b)), z3.ULT(b, 128))),
                           ('not small only if a byte >= 128 is in it', Implies(Not(c.ret), Or(*[member(W4(c.c), k) for k in range(128, 256)])))])
    reg.contract('(charset.Set).SmallSet', params=['c'], props=P,
        requires=lambda c: [And(*[Not(member(W4(c.c), k)) for k in range(128, 256)])],
        ensures=lambda c: [('same members', Implies(z3.ULT(b, 128), member(W2(c.ret), b) == member(W4(c.c), b))),
                           ('same size', card(W2(c.ret)) == card(W4(c.c)))])

    def occ_body(s, n):
        th = theory_of(s)
        return And(n > 0, Or(th.fns()['at'](s, n - 1) == b, occurs(s, n - 1)))
    w.sort(w.p.tstr['[]byte'])
    th = w.seq(w.p.tstr['byte'])
    occurs = SpecFn('occurs', [th.sort, BV64], B, occ_body, rounds=2)
    reg.contract('charset.New', params=['chars'], props=P,
        ensures=lambda c: [('contains exactly the listed bytes', member(W4(c.ret), b) == occurs(c.chars.seq, c.chars.len))],
        loops={0: LoopC(inv=lambda c: [
            ('the set of the bytes seen so far', member(W4(c.l('set')), b) == occurs(c.chars.seq, c.idx))])})
    zx = lambda v: z3.ZeroExt(56, v)
    reg.contract('charset.Range', params=['low', 'high'], props=P,
        ensures=lambda c: [('contains exactly the inclusive range', member(W4(c.ret), b) == And(z3.ULE(c.low, b), z3.ULE(b, c.high)))],
        loops={0: LoopC(inv=lambda c: [
            ('counter in range', And(zx(c.low) <= c.l('c'), Or(c.l('c') <= zx(c.high) + 1, c.l('c') == zx(c.low)))),
            ('the set of the bytes seen so far', member(W4(c.l('set')), b) == And(z3.ULE(c.low, b), zx(b) < c.l('c')))])})
