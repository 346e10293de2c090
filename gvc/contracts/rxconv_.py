"""C16: conversion of regular expressions to patterns (rxconv).

R(e, K, D, i) is the backtracking meaning of a regular expression e with
continuation K at position i: the result of the first way of matching e (in the
order of preference of Perl: leftmost alternatives first, repetitions greedy)
after which the continuation succeeds.  That order of preference is what package
regexp documents; agreement of this meaning with regexp itself is compared by
the replay.  Documents and classes are taken byte by byte, as the property says."""
from ..dsl import *
from ..sym import *
from ..smt import multipattern, BYTES, SpecFn, axiom
from .pattern_ import Pat, charset_externs, constructors, D_, i_

OP = dict(NoMatch=1, EmptyMatch=2, Literal=3, CharClass=4, AnyCharNotNL=5, AnyChar=6, BeginLine=7, EndLine=8, BeginText=9, EndText=10,
          WordBoundary=11, NoWordBoundary=12, Capture=13, Star=14, Plus=15, Quest=16, Repeat=17, Concat=18, Alternate=19)
LST, ALT, REP = 100, 101, 102       # ghost expressions: the rest of a concatenation, of an alternation, a repetition
EOP = dict(BeginLine=1, EndLine=2, BeginText=4, EndText=8, WordBoundary=16, NoWordBoundary=32)


def build(w, reg):
    C16 = ('C16',)
    p = w.p
    w.ptr_ref.add('syntax.Regexp')
    w.opaque_fields = set(getattr(w, 'opaque_fields', None) or ()) | {('syntax.Regexp', 'Sub0'), ('syntax.Regexp', 'Rune0')}
    P = Pat(w, insns=False)
    R, m = P.R, P.m
    charset_externs(w, reg, P)
    at, all_wf, mpre, malt, mrep = constructors(w, reg, P, ('C10',))
    here = P.here
    inr = lambda d, i: And(0 <= i, i <= BYTES.len(d))
    DS = BYTES.sort
    rt = p.tstr['*syntax.Regexp']
    ES = w.seq(rt)          # lists of expressions
    RS = w.seq(p.tstr['int32'])
    PS = w.seq(P.t)
    n_ = BYTES.len(D_)

    # ---- expressions
    op = z3.Function('rx_op', I, I)
    fl = z3.Function('rx_flags', I, I)
    subs = z3.Function('rx_subs', I, ES.sort)
    runes = z3.Function('rx_runes', I, RS.sort)
    size = z3.Function('rx_size', I, I)
    wfr = SpecFn('wfr', [I], B)
    sup = SpecFn('sup', [I], B)
    nul = SpecFn('nul', [I], B)
    lst = z3.Function('rx_list', ES.sort, I, I)
    alt = z3.Function('rx_alts', ES.sort, I, I)
    rep = z3.Function('rx_star', I, I)
    e, e1, s, j, k, f_ = z3.Int('e'), z3.Int('e1'), z3.Const('s', ES.sort), z3.Int('j'), z3.Int('k'), z3.Int('f_')
    isop = lambda x, *ns: Or(*[op(x) == (n if isinstance(n, int) else OP[n]) for n in ns])
    sub0 = lambda x: ES.at(subs(x), 0)
    noncap = lambda x: (fl(x) / 32) % 2 == 0
    # ghost expressions
    for g, o in ((lst, LST), (alt, ALT)):
        axiom(['rx_list', 'rx_alts'], z3.ForAll([s, j], op(g(s, j)) == o, patterns=[g(s, j)]), 'ghost expressions')
    axiom(['rx_star'], z3.ForAll([e], op(rep(e)) == REP, patterns=[rep(e)]), 'ghost expressions')
    # what Parse gives: finite trees of the documented shape
    axiom(['wfr'], z3.ForAll([e], Implies(wfr(e), And(e != 0, size(e) >= 1, op(e) >= 1, op(e) <= 19, ES.len(subs(e)) >= 0,
          Implies(isop(e, 'Capture', 'Star', 'Plus', 'Quest', 'Alternate'), ES.len(subs(e)) >= 1),
          Implies(isop(e, 'CharClass'), And(RS.len(runes(e)) % 2 == 0, z3.ForAll([j], Implies(And(0 <= j, 2 * j + 1 < RS.len(runes(e))), And(0 <= RS.at(runes(e), 2 * j), RS.at(runes(e), 2 * j) <= RS.at(runes(e), 2 * j + 1))), patterns=[RS.at(runes(e), 2 * j)]))))), patterns=[wfr(e)]), 'shape of a parsed expression')
    axiom(['wfr'], z3.ForAll([e, j], Implies(And(wfr(e), 0 <= j, j < ES.len(subs(e))), And(wfr(ES.at(subs(e), j)), size(ES.at(subs(e), j)) < size(e))),
          patterns=[multipattern(wfr(e), ES.at(subs(e), j))]), 'shape of a parsed expression')
    # the supported expressions
    sublist = lambda f, x: z3.ForAll([j], Implies(And(0 <= j, j < ES.len(subs(x))), f(ES.at(subs(x), j))), patterns=[ES.at(subs(x), j)])
    leaf = lambda x: isop(x, 'EmptyMatch', 'Literal', 'CharClass', 'AnyChar', 'AnyCharNotNL', *EOP)
    supdef = lambda x: Or(leaf(x), And(isop(x, 'Concat', 'Alternate'), sublist(sup, x)), And(isop(x, 'Capture'), sup(sub0(x))),
                          And(isop(x, 'Quest'), noncap(x), sup(sub0(x))), And(isop(x, 'Star', 'Plus'), Not(nul(sub0(x))), noncap(x), sup(sub0(x))))
    axiom(['sup'], z3.ForAll([e], sup(e) == supdef(e), patterns=[sup(e)]), 'definition: supported expressions')
    # what can match the empty string
    axiom(['nul'], z3.ForAll([e], And(
        Implies(Not(isop(e, 'Literal', 'CharClass', 'AnyChar', 'AnyCharNotNL', 'Capture', 'Plus', 'Concat', 'Alternate', LST, ALT)), nul(e)),
        Implies(isop(e, 'Literal'), nul(e) == (RS.len(runes(e)) == 0)),
        Implies(isop(e, 'CharClass', 'AnyChar', 'AnyCharNotNL'), Not(nul(e))),
        Implies(isop(e, 'Capture', 'Plus'), nul(e) == nul(sub0(e))),
        Implies(isop(e, 'Concat'), nul(e) == nul(lst(subs(e), 0))),
        Implies(isop(e, 'Alternate'), nul(e) == nul(alt(subs(e), 0)))), patterns=[nul(e)]), 'definition: matches the empty string')
    axiom(['rx_list'], z3.ForAll([s, j], nul(lst(s, j)) == Or(j >= ES.len(s), And(nul(ES.at(s, j)), nul(lst(s, j + 1)))), patterns=[nul(lst(s, j))]), 'definition: matches the empty string')
    axiom(['rx_alts'], z3.ForAll([s, j], nul(alt(s, j)) == And(j < ES.len(s), Or(nul(ES.at(s, j)), nul(alt(s, j + 1)))), patterns=[nul(alt(s, j))]), 'definition: matches the empty string')

    # ---- meaning
    KS = z3.DeclareSort('Cont')
    K, K1, K2 = z3.Consts('K K1 K2', KS)
    ap = SpecFn('ap', [KS, DS, I], R)
    cpat = z3.Function('cpat', P.sort, KS)
    cseq = z3.Function('cseq', I, KS, KS)
    Rx = SpecFn('Rx', [I, KS, DS, I], R)
    q = z3.Const('q', P.sort)
    axiom(['cpat'], z3.ForAll([q, D_, i_], ap(cpat(q), D_, i_) == m(q, D_, i_), patterns=[ap(cpat(q), D_, i_)]), 'continuations')
    axiom(['cseq'], z3.ForAll([e, K, D_, i_], ap(cseq(e, K), D_, i_) == Rx(e, K, D_, i_), patterns=[ap(cseq(e, K), D_, i_)]), 'continuations')
    utf1 = z3.Function('rune_to_string', I, DS)
    utf = z3.Function('runes_to_string', RS.sort, DS)
    rs = z3.Const('rs', RS.sort)
    axiom(['rune_to_string'], z3.ForAll([e], And(BYTES.len(utf1(e)) >= 1, BYTES.len(utf1(e)) <= 4), patterns=[utf1(e)]), 'a rune takes one to four bytes')
    axiom(['runes_to_string'], z3.ForAll([rs], And(BYTES.len(utf(rs)) >= RS.len(rs), (BYTES.len(utf(rs)) == 0) == (RS.len(rs) == 0)), patterns=[utf(rs)]), 'a rune takes one to four bytes')
    orelse = lambda a, b: If(R.is_fail(a), b, a)
    txt = lambda t, KK, d, i: If(P.lit(t, d, i), ap(KK, d, i + BYTES.len(t)), R.fail)
    # the characters of a range, of a class; a character in any case
    chars = SpecFn('rx_chars', [I, I, KS, DS, I], R)
    cls = SpecFn('rx_class', [RS.sort, I, KS, DS, I], R)
    fold1 = z3.Function('simple_fold', I, I)
    orb = SpecFn('rx_orbit', [I, I, DS, I], R)
    foldc = lambda r, d, i: orelse(If(P.lit(utf1(r), d, i), P.ok(i + BYTES.len(utf1(r))), R.fail), orb(r, fold1(r), d, i))
    fpre = SpecFn('rx_folded', [RS.sort, I, DS, I], R)
    byte = lambda lo, hi, KK, d, i: If(And(i < BYTES.len(d), lo <= BYTES.at(d, i), BYTES.at(d, i) <= hi), ap(KK, d, i + 1), R.fail)
    rng = lambda lo, hi, KK, d, i: If(And(lo < 256, hi < 256), byte(lo, hi, KK, d, i), chars(lo, hi, KK, d, i))
    axiom(['rx_chars'], z3.ForAll([e, e1, K, D_, i_], chars(e, e1, K, D_, i_) == If(e > e1, R.fail, orelse(txt(utf1(e), K, D_, i_), chars(e + 1, e1, K, D_, i_))), patterns=[chars(e, e1, K, D_, i_)]), 'definition: a range of characters')
    axiom(['rx_class'], z3.ForAll([rs, j, K, D_, i_], cls(rs, j, K, D_, i_) == If(j >= RS.len(rs), R.fail, orelse(rng(RS.at(rs, j), RS.at(rs, j + 1), K, D_, i_), cls(rs, j + 2, K, D_, i_))),
          patterns=[cls(rs, j, K, D_, i_)]), 'definition: a class of characters')
    axiom(['rx_orbit'], z3.ForAll([e, e1, D_, i_], orb(e, e1, D_, i_) == If(e == e1, R.fail, orelse(If(P.lit(utf1(e1), D_, i_), P.ok(i_ + BYTES.len(utf1(e1))), R.fail), orb(e, fold1(e1), D_, i_))),
          patterns=[orb(e, e1, D_, i_)]), 'definition: the other cases of a character')
    axiom(['rx_folded'], z3.ForAll([rs, j, D_, i_], fpre(rs, j, D_, i_) == If(j <= 0, P.ok(i_), P.then(fpre(rs, j - 1, D_, i_), lambda x: foldc(RS.at(rs, j - 1), D_, x))),
          patterns=[fpre(rs, j, D_, i_)]), 'definition: characters in any case, one after another')
    folded = lambda x: fl(x) % 2 == 1

    def meaning(e, K, D, i):
        n = BYTES.len(D)
        sub = sub0(e)
        cases = [
            ('EmptyMatch', ap(K, D, i)),
            ('Literal', If(folded(e), P.then(fpre(runes(e), RS.len(runes(e)), D, i), lambda x: ap(K, D, x)), txt(utf(runes(e)), K, D, i))),
            ('CharClass', cls(runes(e), IntVal(0), K, D, i)),
            ('AnyChar', If(i + 1 <= n, ap(K, D, i + 1), R.fail)),
            ('AnyCharNotNL', If(And(i < n, BYTES.at(D, i) != 10), ap(K, D, i + 1), R.fail)),
            ('Capture', Rx(sub, K, D, i)),
            ('Concat', Rx(lst(subs(e), 0), K, D, i)),
            ('Alternate', Rx(alt(subs(e), 0), K, D, i)),
            ('Star', Rx(rep(sub), K, D, i)),
            ('Plus', Rx(sub, cseq(rep(sub), K), D, i)),
            ('Quest', orelse(Rx(sub, K, D, i), ap(K, D, i))),
        ] + [(o, If(P.eop(IntVal(v), D, i), ap(K, D, i), R.fail)) for o, v in EOP.items()]
        return And(*[Implies(isop(e, o), Rx(e, K, D, i) == v) for o, v in cases])
    axiom(['Rx'], z3.ForAll([e, K, D_, i_], meaning(e, K, D_, i_), patterns=[Rx(e, K, D_, i_)]), 'definition: meaning of an expression')
    axiom(['rx_list'], z3.ForAll([s, j, K, D_, i_], Rx(lst(s, j), K, D_, i_) == If(j >= ES.len(s), ap(K, D_, i_), Rx(ES.at(s, j), cseq(lst(s, j + 1), K), D_, i_)), patterns=[Rx(lst(s, j), K, D_, i_)]), 'definition: one after another')
    axiom(['rx_alts'], z3.ForAll([s, j, K, D_, i_], Rx(alt(s, j), K, D_, i_) == If(j >= ES.len(s), R.fail, orelse(Rx(ES.at(s, j), K, D_, i_), Rx(alt(s, j + 1), K, D_, i_))), patterns=[Rx(alt(s, j), K, D_, i_)]), 'definition: the first alternative')
    axiom(['rx_star'], z3.ForAll([e, K, D_, i_], Implies(Not(nul(e)), Rx(rep(e), K, D_, i_) == orelse(Rx(e, cseq(rep(e), K), D_, i_), ap(K, D_, i_))), patterns=[Rx(rep(e), K, D_, i_)]), 'definition: greedy repetition')

    # ---- only what the continuation does from here on (after a step, when the expression cannot match the empty string) matters
    agree = z3.Function('agree', KS, KS, DS, I, B)
    agi = z3.Function('agree_at', KS, KS, DS, I, I)
    axiom(['agree'], z3.ForAll([K1, K2, D_, j, i_], Implies(And(agree(K1, K2, D_, j), 0 <= i_, j <= i_, i_ <= n_), ap(K1, D_, i_) == ap(K2, D_, i_)),
          patterns=[multipattern(agree(K1, K2, D_, j), ap(K1, D_, i_)), multipattern(agree(K1, K2, D_, j), ap(K2, D_, i_))]), 'definition: continuations agree from a position on')
    x_ = agi(K1, K2, D_, j)
    axiom(['agree'], z3.ForAll([K1, K2, D_, j], Or(agree(K1, K2, D_, j), And(0 <= x_, j <= x_, x_ <= n_, ap(K1, D_, x_) != ap(K2, D_, x_))), patterns=[agree(K1, K2, D_, j)]), 'definition: continuations agree from a position on')
    loc = z3.Function('local', I, B)
    lk1, lk2, ld, li = z3.Function('local_k1', I, KS), z3.Function('local_k2', I, KS), z3.Function('local_d', I, DS), z3.Function('local_i', I, I)
    frm = lambda x, i: If(nul(x), i, i + 1)
    axiom(['local'], z3.ForAll([e, K1, K2, D_, i_], Implies(And(loc(e), agree(K1, K2, D_, frm(e, i_)), inr(D_, i_)), Rx(e, K1, D_, i_) == Rx(e, K2, D_, i_)),
          patterns=[multipattern(loc(e), Rx(e, K1, D_, i_), Rx(e, K2, D_, i_))]), 'definition: local')
    axiom(['local'], z3.ForAll([e], Or(loc(e), And(agree(lk1(e), lk2(e), ld(e), frm(e, li(e))), inr(ld(e), li(e)), Rx(e, lk1(e), ld(e), li(e)) != Rx(e, lk2(e), ld(e), li(e)))), patterns=[loc(e)]), 'definition: local')

    t_ = z3.Const('t_', DS)
    reg.fact('text is in the document', C16, Implies(P.lit(t_, D_, i_), And(i_ + BYTES.len(t_) <= n_)), [t_, D_, i_], [P.lit(t_, D_, i_)], ['lit'])
    # repetition
    reg.induction('repetitions are local (at a distance from the end)', C16, k, lambda k: Implies(And(loc(e), Not(nul(e)), agree(K1, K2, D_, i_), inr(D_, i_), n_ - i_ <= k), Rx(rep(e), K1, D_, i_) == Rx(rep(e), K2, D_, i_)),
                  [e, K1, K2, D_, i_], [multipattern(loc(e), Rx(rep(e), K1, D_, i_), Rx(rep(e), K2, D_, i_))], ['rx_star'], elim=n_ - i_, ihpat=[multipattern(Rx(rep(e), K1, D_, i_), Rx(rep(e), K2, D_, i_))])
    reg.fact('repetitions are local', C16, Implies(And(loc(e), Not(nul(e))), loc(rep(e))), [e], [loc(rep(e))], ['rx_star'])
    # lists
    L = ES.len(s)
    dcr = lambda k: k
    locs = z3.Function('all_local', ES.sort, B)
    lsk = z3.Function('not_local_at', ES.sort, I)
    axiom(['all_local'], z3.ForAll([s, j], Implies(And(locs(s), 0 <= j, j < L), loc(ES.at(s, j))), patterns=[multipattern(locs(s), ES.at(s, j))]), 'definition: all local')
    axiom(['all_local'], z3.ForAll([s], Or(locs(s), And(0 <= lsk(s), lsk(s) < L, Not(loc(ES.at(s, lsk(s)))))), patterns=[locs(s)]), 'definition: all local')
    for nm, g, sy in (('sequences', lst, 'rx_list'), ('alternatives', alt, 'rx_alts')):
        reg.induction('%s are local' % nm, C16, k, lambda k: Implies(And(locs(s), 0 <= j, L - j <= k), loc(g(s, j))), [s, j], [loc(g(s, j))], [sy], elim=If(L >= j, L - j, 0))
    # classes
    a_, b_ = z3.Ints('a_ b_')
    ag1 = And(agree(K1, K2, D_, i_ + 1), inr(D_, i_))
    reg.induction('ranges are local', C16, k, lambda k: Implies(And(ag1, b_ + 1 - a_ <= k), chars(a_, b_, K1, D_, i_) == chars(a_, b_, K2, D_, i_)), [a_, b_, K1, K2, D_, i_],
                  [multipattern(chars(a_, b_, K1, D_, i_), chars(a_, b_, K2, D_, i_))], ['rx_chars'], elim=If(b_ >= a_, b_ + 1 - a_, 0))
    RL = RS.len(rs)
    reg.induction('classes are local', C16, k, lambda k: Implies(And(ag1, RL - j <= k), cls(rs, j, K1, D_, i_) == cls(rs, j, K2, D_, i_)), [rs, j, K1, K2, D_, i_],
                  [multipattern(cls(rs, j, K1, D_, i_), cls(rs, j, K2, D_, i_))], ['rx_class'], elim=If(RL >= j, RL - j, 0))
    # text in any case
    rw = lambda r, i: Implies(R.is_ok(r), And(R.end(r) > i, R.end(r) <= n_))
    # ... its result is in the document and after its start: part of the definition of an orbit (finite)
    axiom(['rx_orbit'], z3.ForAll([e, e1, D_, i_], Implies(inr(D_, i_), And(rw(orb(e, e1, D_, i_), i_), Or(R.is_ok(orb(e, e1, D_, i_)), R.is_fail(orb(e, e1, D_, i_))))), patterns=[orb(e, e1, D_, i_)]),
          'the orbit of a character under case folding is finite, so one of its members matches or none does')
    reg.induction('text in any case ends inside the document', C16, k, lambda k: Implies(inr(D_, i_), Implies(R.is_ok(fpre(rs, k, D_, i_)), And(R.end(fpre(rs, k, D_, i_)) >= i_, Implies(k > 0, R.end(fpre(rs, k, D_, i_)) > i_), R.end(fpre(rs, k, D_, i_)) <= n_))),
                  [rs, D_, i_], [fpre(rs, k, D_, i_)], ['rx_folded'])
    cases = [('a leaf', leaf(e), []), ('a group', And(isop(e, 'Capture'), loc(sub0(e))), [loc(sub0(e))]),
             ('a concatenation', And(isop(e, 'Concat'), locs(subs(e))), [loc(lst(subs(e), 0))]), ('an alternation', And(isop(e, 'Alternate'), locs(subs(e))), [loc(alt(subs(e), 0))]),
             ('a repetition', And(isop(e, 'Star'), loc(sub0(e)), Not(nul(sub0(e)))), [loc(rep(sub0(e)))]),
             ('a repetition of at least one', And(isop(e, 'Plus'), loc(sub0(e)), Not(nul(sub0(e)))), [loc(sub0(e)), loc(rep(sub0(e)))]),
             ('an option', And(isop(e, 'Quest'), loc(sub0(e))), [loc(sub0(e))])]
    for nm, h, us in cases:
        reg.fact('%s is local' % nm, C16, Implies(h, loc(e)), [e], [loc(e)], ['local'], using=us)
    reg.induction('expressions are local', C16, k, lambda k: Implies(And(wfr(e), sup(e), size(e) <= k), loc(e)), [e], [loc(e)], ['local'], elim=If(size(e) >= 0, size(e), 0))

    reg.fact('only what follows matters', C16, Implies(And(wfr(e), sup(e), agree(K1, K2, D_, frm(e, i_)), inr(D_, i_)), Rx(e, K1, D_, i_) == Rx(e, K2, D_, i_)), [e, K1, K2, D_, i_],
             [multipattern(wfr(e), Rx(e, K1, D_, i_), Rx(e, K2, D_, i_))], ['Rx'], using=[loc(e)])

    # ---- a grammar rule for a repetition means the repetition
    isstar = z3.Function('is_star', P.sort, I, KS, B)
    axiom(['is_star'], z3.ForAll([q, e, K, D_, i_], Implies(And(isstar(q, e, K), inr(D_, i_)), m(q, D_, i_) == orelse(Rx(e, cpat(q), D_, i_), ap(K, D_, i_))), patterns=[multipattern(isstar(q, e, K), m(q, D_, i_))]), 'definition: a rule for a repetition')
    sd, si = z3.Function('is_star_d', P.sort, I, KS, DS), z3.Function('is_star_i', P.sort, I, KS, I)
    D1, i1 = sd(q, e, K), si(q, e, K)
    axiom(['is_star'], z3.ForAll([q, e, K], Or(isstar(q, e, K), And(inr(D1, i1), m(q, D1, i1) != orelse(Rx(e, cpat(q), D1, i1), ap(K, D1, i1)))), patterns=[isstar(q, e, K)]), 'definition: a rule for a repetition')
    reg.induction('a rule for a repetition means the repetition', C16, k, lambda k: Implies(And(isstar(q, e, K), loc(e), Not(nul(e)), inr(D_, i_), n_ - i_ <= k), m(q, D_, i_) == Rx(rep(e), K, D_, i_)),
                  [q, e, K, D_, i_], [multipattern(isstar(q, e, K), m(q, D_, i_))], ['is_star'], elim=n_ - i_)

    # ---- lists of patterns
    s1, s2 = z3.Consts('ps1 ps2', PS.sort)
    reg.induction('one more alternative', C16, k, lambda k: Implies(And(0 <= j, j <= PS.len(s1), PS.len(s1) - j <= k), malt(PS.cat(s1, PS.unit(q)), j, D_, i_) == orelse(malt(s1, j, D_, i_), m(q, D_, i_))),
                  [s1, q, j, D_, i_], [malt(PS.cat(s1, PS.unit(q)), j, D_, i_)], ['malt'], elim=If(PS.len(s1) >= j, PS.len(s1) - j, 0))
    # ---- the code
    RT = 'syntax.Regexp'

    def link(c):
        h = lambda f: z3.Select(c.heap(RT, f), e)
        sd_ = w.slcdt(rt)
        rd_ = w.slcdt(p.tstr['int32'])
        return ('expressions are not modified', z3.ForAll([e], And(op(e) == h('Op'), fl(e) == h('Flags'), subs(e) == sd_.data(h('Sub')), runes(e) == rd_.data(h('Rune'))),
                patterns=[h('Op'), h('Flags'), h('Sub'), h('Rune')]))

    T = lambda v: v if z3.is_expr(v) else v.term
    pre = lambda c: [link(c), wfr(T(c.e))]
    reg.contract('rxconv.nullable', params=['e'], props=C16, required=False, requires=pre,
        ensures=lambda c: [('whether the expression matches the empty string', c.ret == nul(T(c.e)))],
        loops={0: LoopC(inv=lambda c: [('position', And(0 <= c.idx, c.idx <= ES.len(subs(T(c.e))))), ('the parts so far do', nul(lst(subs(T(c.e)), 0)) == nul(lst(subs(T(c.e)), c.idx)))]),
               1: LoopC(inv=lambda c: [('position', And(0 <= c.idx, c.idx <= ES.len(subs(T(c.e))))), ('no alternative so far does', nul(alt(subs(T(c.e)), 0)) == nul(alt(subs(T(c.e)), c.idx)))])})
    reg.contract('rxconv.verify', params=['e'], props=C16, required=False, requires=pre,
        ensures=lambda c: [('whether the expression is supported', c.ret == sup(T(c.e)))],
        loops={0: LoopC(inv=lambda c: [('position', And(0 <= c.idx, c.idx <= ES.len(subs(T(c.e))))),
            ('the parts so far are', c.l('yes') == z3.ForAll([j], Implies(And(0 <= j, j < c.idx), sup(ES.at(subs(T(c.e)), j))), patterns=[ES.at(subs(T(c.e)), j)]))])})

    # names
    itoa = z3.Function('itoa', I, DS)
    atoi = z3.Function('atoi', DS, I)
    axiom(['itoa'], z3.ForAll([k], atoi(itoa(k)) == k, patterns=[itoa(k)]), 'strconv.Itoa gives different numbers different texts')
    reg.externs['strconv.Itoa'] = lambda ex, st, x, args: [(st, itoa(args[0]))]
    A = None
    nameno = z3.Function('name_number', DS, I)
    tail1 = lambda t: BYTES.sub(t, 1, BYTES.len(t))
    NUM = 'rxconv.num'

    def setup(ex, st, args):
        ex.globalobj(st, 'global:' + NUM, p.tstr['int'])
        st.ghost['num at entry'] = st.objs['global:' + NUM]
    reg.contract('rxconv.uniq', params=[], props=C16, required=False, modifies=['global:' + NUM], setup=setup,
        ensures=lambda c: [('the counter goes up', c.glob(NUM) > c.old.glob(NUM)), ('a name of its own', And(BYTES.len(c.ret) >= 1, eq(tail1(c.ret), itoa(c.glob(NUM)))))])

    def grammar(ex, st, x, args):
        start, mp = args
        o = st.objs[mp.obj]
        dom, vals = o.f[1], o.f[2]
        a = z3.Const('name', DS)
        ex.oblige(st, 'the names of the rules are new', z3.ForAll([a], Implies(z3.Select(dom, a), atoi(tail1(a)) > st.ghost['num at entry'])), x.get('line'), kind='pre')
        ex.oblige(st, 'the start rule is there', z3.Select(dom, start), x.get('line'), kind='pre')
        ex.oblige(st, 'the rules are patterns', z3.ForAll([a], Implies(z3.Select(dom, a), P.wf(z3.Select(vals, a)))), x.get('line'), kind='pre')
        g = fresh(P.sort, 'grammar')
        st.assume(P.wf(g))
        st.assume(z3.ForAll([D_, i_], m(g, D_, i_) == P.env(start, D_, i_), patterns=[m(g, D_, i_)]))
        st.assume(z3.ForAll([a, D_, i_], Implies(z3.Select(dom, a), P.env(a, D_, i_) == m(z3.Select(vals, a), D_, i_)), patterns=[P.env(a, D_, i_)]))
        return [(st, g)]
    reg.externs['pattern.Grammar'] = grammar
    reg.trusted.append('a grammar means its start rule, and a non-terminal the rule of that name (C10), provided no other grammar uses the name')

    pipre = lambda c, r: [link(c), wfr(T(r)), sup(T(r)), P.wf(c.k.term)]
    atk = lambda c, q_, f: here(q_, f)

    reg.contract('rxconv.star', params=['r', 'k'], props=C16, required=False, modifies=['global:' + NUM],
        requires=lambda c: pipre(c, c.r) + [('the part does not match the empty string', Not(nul(T(c.r))))], setup=setup,
        ensures=lambda c: [('a pattern', P.wf(c.ret.term)), ('the counter does not go down', c.glob(NUM) >= c.old.glob(NUM)),
                           ('the repetition, then the rest', here(c.ret.term, lambda d, i: Rx(rep(T(c.r)), cpat(c.k.term), d, i)))],
        hints=[('the part is local', lambda c: loc(T(c.r))), ('the rule is one for a repetition', lambda c: isstar(c.ret.term, T(c.r), cpat(c.k.term)))])
    okl = lambda v: [('patterns', z3.ForAll([j], Implies(And(0 <= j, j < v.len), P.wf(PS.at(v.seq, j))), patterns=[PS.at(v.seq, j)])), ('a list of its own', v.own)]

    def whole(v, c, restf, all_):
        return z3.ForAll([D_, i_], Implies(inr(D_, i_), orelse(malt(v.seq, IntVal(0), D_, i_), restf(D_, i_)) == all_(D_, i_)), patterns=[malt(v.seq, IntVal(0), D_, i_)])
    # a list of patterns, each for one character in any case
    isfold = z3.Function('is_fold', P.sort, I, B)
    fd, fi = z3.Function('is_fold_d', P.sort, I, DS), z3.Function('is_fold_i', P.sort, I, I)
    axiom(['is_fold'], z3.ForAll([q, e, D_, i_], Implies(And(isfold(q, e), inr(D_, i_)), m(q, D_, i_) == foldc(e, D_, i_)), patterns=[multipattern(isfold(q, e), m(q, D_, i_))]), 'definition: a character in any case')
    axiom(['is_fold'], z3.ForAll([q, e], Or(isfold(q, e), And(inr(fd(q, e), fi(q, e)), m(q, fd(q, e), fi(q, e)) != foldc(e, fd(q, e), fi(q, e)))), patterns=[isfold(q, e)]), 'definition: a character in any case')
    allfold = lambda v, r, n: z3.ForAll([j], Implies(And(0 <= j, j < n), isfold(PS.at(v, j), RS.at(r, j))), patterns=[PS.at(v, j)])
    folds = z3.Function('all_folded', PS.sort, RS.sort, I, B)
    axiom(['all_folded'], z3.ForAll([s1, rs, k], folds(s1, rs, k) == allfold(s1, rs, k), patterns=[folds(s1, rs, k)]), 'definition: characters in any case')
    reg.induction('characters in any case, one after another', C16, k, lambda k: Implies(And(folds(s1, rs, k), k <= PS.len(s1), k <= RS.len(rs), inr(D_, i_)), mpre(s1, k, D_, i_) == fpre(rs, k, D_, i_)),
                  [s1, rs, D_, i_], [multipattern(folds(s1, rs, k), mpre(s1, k, D_, i_))], ['all_folded'])
    reg.contract('rxconv.foldCase', params=['rs'], props=C16, required=False,
        ensures=lambda c: [('a pattern', P.wf(c.ret.term)), ('the characters in any case', here(c.ret.term, lambda d, i: fpre(c.rs.seq, c.rs.len, d, i)))],
        loops={0: LoopC(inv=lambda c: okl(c.l('chars')) + [('position', And(0 <= c.idx, c.idx <= c.rs.len, c.l('chars').len == c.idx)), ('every character so far', folds(c.l('chars').seq, c.rs.seq, c.idx))]),
               1: LoopC(inv=lambda c: okl(c.l('alts')) + okl(c.l('chars')) + [('one case at least', c.l('alts').len > 0), ('the character', c.l('r') == RS.at(c.rs.seq, c.l('chars').len)),
                   ('the cases so far, then the others', whole(c.l('alts'), c, lambda d, i: orb(c.l('r'), c.l('f'), d, i), lambda d, i: foldc(c.l('r'), d, i)))])})

    RN = lambda c: RS.len(runes(E_(c)))
    NS = lambda c: ES.len(subs(E_(c)))
    K_ = lambda c: cpat(c.k.term)
    E_ = lambda c: T(c.e)
    lits = lambda c: c.l('lits')
    reg.contract('rxconv.pi', params=['e', 'k'], props=C16, required=False, modifies=['global:' + NUM], setup=setup, requires=lambda c: pipre(c, c.e),
        ensures=lambda c: [('a pattern', P.wf(c.ret.term)), ('the counter does not go down', c.glob(NUM) >= c.old.glob(NUM)),
                           ('the expression, then the rest', here(c.ret.term, lambda d, i: Rx(E_(c), K_(c), d, i)))],
        loops={0: LoopC(inv=lambda c: okl(lits(c)) + [('position', And(0 <= c.l('i'), c.l('i') % 2 == 0, c.l('i') <= RN(c), Implies(c.l('i') > 0, lits(c).len > 0))),
                    ('the ranges so far, then the others', whole(lits(c), c, lambda d, i: cls(runes(E_(c)), c.l('i'), K_(c), d, i), lambda d, i: Rx(E_(c), K_(c), d, i)))]),
               1: LoopC(inv=lambda c: okl(lits(c)) + [('position', And(0 <= c.l('i'), c.l('i') % 2 == 0, c.l('i') + 1 < RN(c), c.l('start') >= 0, Or(lits(c).len > 0, c.l('start') <= c.l('end')))),
                    ('the characters so far, then the others', whole(lits(c), c, lambda d, i: orelse(chars(c.l('start'), c.l('end'), K_(c), d, i), cls(runes(E_(c)), c.l('i') + 2, K_(c), d, i)), lambda d, i: Rx(E_(c), K_(c), d, i)))]),
               2: LoopC(inv=lambda c: [('position', And(-1 <= c.l('i'), c.l('i') < NS(c))), ('a pattern', P.wf(c.l('patt').term)), ('the counter does not go down', c.glob(NUM) >= c.old.glob(NUM)),
                    ('the parts from here, then the rest', here(c.l('patt').term, lambda d, i: Rx(lst(subs(E_(c)), c.l('i') + 1), K_(c), d, i)))]),
               3: LoopC(inv=lambda c: okl(c.l('alts')) + [('position', And(0 <= c.idx, c.idx <= NS(c), c.l('alts').len == c.idx)), ('the counter does not go down', c.glob(NUM) >= c.old.glob(NUM)),
                    ('the alternatives so far, then the others', whole(c.l('alts'), c, lambda d, i: Rx(alt(subs(E_(c)), c.idx), K_(c), d, i), lambda d, i: Rx(E_(c), K_(c), d, i)))])})

    reg.externs['fmt.Sprintf'] = lambda ex, st, x, args: [(st, fresh(DS, 'text'))]
    reg.externs['unicode.SimpleFold'] = lambda ex, st, x, args: [(st, fold1(args[0]))]

    # ---- the whole conversion
    def parse(ex, st, x, args):
        r = fresh(I, 'parsed')
        err = fresh(I, 'err')
        st.assume(Implies(err == 0, wfr(r)))
        st.ghost['parsed'] = (r, err)
        return [(st, TupleV([RefV(r, p.tstr['syntax.Regexp']), err]))]
    reg.externs['regexp/syntax.Parse'] = parse
    reg.trusted.append('regexp/syntax.Parse gives expressions of the documented shape')

    def errorf(ex, st, x, args):
        v = fresh(I, 'err')
        st.assume(v != 0)
        return [(st, v)]
    reg.externs['fmt.Errorf'] = errorf

    def fens(c):
        r, err = c.st.ghost['parsed']
        ok = c.rets[1] == 0
        q_ = P.f(P.f(c.rets[0].term, 'SearchNode', 'Patt'), 'CapNode', 'Patt')
        if z3.is_false(z3.simplify(ok)) or not c.ex.feasible(c.st, ok):
            return [('an error means that the text is wrong or the expression unsupported', Or(err != 0, Not(sup(r))))]
        return [('only supported expressions are converted', Implies(ok, And(err == 0, sup(r)))),
                ('an error means that the text is wrong or the expression unsupported', Implies(Not(ok), Or(err != 0, Not(sup(r))))),
                ('a search for a capture 0', Implies(ok, And(P.isk(c.rets[0].term, 'SearchNode'), P.isk(P.f(c.rets[0].term, 'SearchNode', 'Patt'), 'CapNode'),
                    P.f(P.f(c.rets[0].term, 'SearchNode', 'Patt'), 'CapNode', 'Id') == 0))),
                ('of what the expression matches', Implies(ok, here(q_, lambda d, i: Rx(r, cpat(P.mk('EmptyNode')), d, i))))]
    reg.contract('rxconv.FromRegexp', params=['s', 'flags'], props=C16, modifies=['global:' + NUM], setup=setup, requires=lambda c: [link(c)], ensures=fens)
