"""C17: word lists and back-references (isa/checker.go)."""
from ..dsl import *
from ..smt import BYTES
from . import input_
from .input_ import inv, pos, D, dlen


def build(w, reg):
    reg.use(input_, w)
    P = ('C17',)
    ENT = lambda c: c.ex.w.seq(c.ex.p.tstr['string'])

    def words(c, n, dom):
        """the map holds exactly the first n words"""
        th, s, k = ENT(c), z3.Const('s!w', BYTES.sort), z3.Int('k!w')
        W = c.strs.seq
        return [('holds every word seen', z3.ForAll([k], Implies(And(0 <= k, k < n), z3.Select(dom, th.at(W, k))), patterns=[th.at(W, k)])),
                ('holds only words seen', z3.ForAll([s], Implies(z3.Select(dom, s), z3.Exists([k], And(0 <= k, k < n, th.at(W, k) == s))), patterns=[z3.Select(dom, s)]))]

    reg.contract('isa.NewMapChecker', params=['strs'], props=P,
        ensures=lambda c: [('a map is made', Not(c.ret.isnil))] + words(c, c.strs.len, c.ret.dom),
        loops={0: LoopC(inv=lambda c: [('map made', Not(c.l('m').isnil))] + words(c, c.idx, c.l('m').dom))})

    reg.contract('(isa.MapChecker).Check', params=['m', 'b', 'src', 'id', 'flag'], props=P,
        requires=lambda c: [Not(c.m.isnil)],
        ensures=lambda c: [
            ('accepts the words listed, consuming nothing more', Implies(z3.Select(c.m.dom, c.b.seq), c.ret == 0)),
            ('refuses all other texts', Implies(Not(z3.Select(c.m.dom, c.b.seq)), c.ret == -1))])

    reg.contract('isa.NewBackRef', params=[], props=P,
        ensures=lambda c: [('not nil', Not(c.ret.isnil)), ('a map is made', Not(c.ret.Symbols.isnil)),
                           ('nothing recorded', (lambda k: z3.ForAll([k], Not(z3.Select(c.ret.Symbols.dom, k))))(z3.Int('k!nb')))])

    def kind(c, name):
        return c.flag % 256 == c.ex.p.consts['isa.' + name]

    def sym(c):
        o = c.old.r.Symbols
        return If(z3.Select(o.dom, c.id), z3.Select(o.mval, c.id), BYTES.empty)

    def follows(c, s):
        """the document continues with s at the read position"""
        n, p = BYTES.len(s), pos(c.old.src)
        return Or(n == 0, And(p + n <= dlen(c.old.src), eq(BYTES.sub(D(c.old.src), p, p + n), s)))

    def same_but(c):
        k = z3.Int('k!sb')
        o, n = c.old.r.Symbols, c.r.Symbols
        return z3.ForAll([k], Implies(k != c.id, And(z3.Select(n.dom, k) == z3.Select(o.dom, k), z3.Select(n.mval, k) == z3.Select(o.mval, k))))

    def unchanged(c):
        k = z3.Int('k!sb')
        o, n = c.old.r.Symbols, c.r.Symbols
        return z3.ForAll([k], And(z3.Select(n.dom, k) == z3.Select(o.dom, k), z3.Select(n.mval, k) == z3.Select(o.mval, k)))

    reg.contract('(*isa.BackReference).Check', params=['r', 'b', 'src', 'id', 'flag'], props=P, modifies=['r.Symbols'],
        requires=lambda c: [Not(c.r.Symbols.isnil), inv(c.src), pos(c.src) >= 0],
        ensures=lambda c: [
            ('definition accepts', Implies(kind(c, 'RefDef'), c.ret == 0)),
            ('definition records the text', Implies(kind(c, 'RefDef'), And(z3.Select(c.r.Symbols.dom, c.id), z3.Select(c.r.Symbols.mval, c.id) == c.b.seq))),
            ('definition leaves other identifiers alone', Implies(kind(c, 'RefDef'), same_but(c))),
            ('use consumes the recorded text', Implies(And(kind(c, 'RefUse'), follows(c, sym(c))), c.ret == BYTES.len(sym(c)))),
            ('use refuses a different continuation', Implies(And(kind(c, 'RefUse'), Not(follows(c, sym(c)))), c.ret == -1)),
            ('other kinds accept', Implies(And(Not(kind(c, 'RefDef')), Not(kind(c, 'RefUse'))), c.ret == 0)),
            ('only a definition records', Implies(Not(kind(c, 'RefDef')), unchanged(c))),
            ('the map stays a map', Not(c.r.Symbols.isnil))])
