"""C15: PEG notation to patterns (re).

mt(t, s, D, i) is the PEG meaning that the documented notation gives to a syntax
tree t over the text s.  The syntax tree is what the notation grammar captures;
its accessors (Child, ChildIterator, NumChildren, Id, Start, End) are C12."""
from ..dsl import *
from ..sym import *
from ..smt import multipattern, BYTES, SpecFn, axiom
from .pattern_ import Pat, charset_externs, constructors, D_, i_

OCT = lambda c: And(48 <= c, c <= 55)
SPECIAL = {'n': 10, 'r': 13, 't': 9, "'": 39, '"': 34, '[': 91, ']': 93, '\\': 92, '-': 45}


def build(w, reg):
    C15 = ('C15',)
    p = w.p
    w.ptr_ref.add('memo.Capture')
    P = Pat(w, insns=False)
    R, m = P.R, P.m
    charset_externs(w, reg, P)
    at, all_wf, mpre, malt, mrep = constructors(w, reg, P, ('C10',))
    here = P.here
    DS = BYTES.sort
    PS = w.seq(P.t)
    n_ = BYTES.len(D_)
    inr = lambda d, i: And(0 <= i, i <= BYTES.len(d))
    ct = p.tstr['memo.Capture']
    ID = {n[5:]: v for n, v in p.consts.items() if n.startswith('re.id')}

    # ---- syntax trees
    tid, ts, te, nk = [z3.Function(n, I, I) for n in ('t_id', 't_start', 't_end', 't_kids')]
    kid = z3.Function('t_kid', I, I, I)
    t, k, j, b, s = z3.Int('t'), z3.Int('k'), z3.Int('j'), z3.Int('b'), z3.Const('s', DS)
    cg = z3.Bool('cg')
    isid = lambda x, *ns: Or(*[tid(x) == ID[n] for n in ns])
    text = lambda x, s: BYTES.sub(s, ts(x), te(x))
    special = lambda c: Or(*[c == ord(q) for q in SPECIAL])

    def spec(c):
        r = IntVal(0)
        for q, v in SPECIAL.items():
            r = If(c == ord(q), IntVal(v), r)
        return r
    dig = lambda a, x: BYTES.at(a, x) - 48
    octv = lambda a, o: If(BYTES.len(a) == o + 1, dig(a, o), If(BYTES.len(a) == o + 2, 8 * dig(a, o) + dig(a, o + 1), 64 * dig(a, o) + 8 * dig(a, o + 1) + dig(a, o + 2)))
    octok = lambda a, o: And(o < BYTES.len(a), BYTES.len(a) <= o + 3, z3.ForAll([k], Implies(And(o <= k, k < BYTES.len(a)), OCT(BYTES.at(a, k))), patterns=[BYTES.at(a, k)]), octv(a, o) <= 255)
    # the text of a character: itself, or an escape
    charok = lambda a: And(BYTES.len(a) >= 1, Or(BYTES.at(a, 0) != 92, And(BYTES.len(a) == 2, special(BYTES.at(a, 1))), octok(a, 1)))
    char = lambda a: If(BYTES.at(a, 0) != 92, BYTES.at(a, 0), If(special(BYTES.at(a, 1)), spec(BYTES.at(a, 1)), octv(a, 1)))
    wft = SpecFn('wft', [I, DS], B)
    kids = lambda x, f: z3.ForAll([k], Implies(And(0 <= k, k < nk(x)), f(kid(x, k))), patterns=[kid(x, k)])

    def shape(x):
        k0, k1, n = kid(x, 0), kid(x, 1), nk(x)
        sh = dict(
            Pattern=And(n >= 1, isid(k0, 'Grammar', 'Expression')),
            Grammar=And(n >= 1, kids(x, lambda y: isid(y, 'Definition'))),
            Definition=And(n == 2, isid(k0, 'Identifier'), isid(k1, 'Expression')),
            Expression=And(n >= 1, kids(x, lambda y: isid(y, 'Sequence'))),
            Sequence=kids(x, lambda y: isid(y, 'Prefix')),
            Prefix=Or(And(n == 2, isid(k0, 'AND', 'NOT'), isid(k1, 'Suffix')), And(n == 1, isid(k0, 'Suffix'))),
            Suffix=And(isid(k0, 'Primary'), Or(n == 1, And(n == 2, isid(k1, 'QUESTION', 'STAR', 'PLUS')))),
            Primary=Or(And(n >= 1, isid(k0, 'Identifier', 'Literal', 'Class', 'DOT')), And(n >= 2, isid(k0, 'OPEN', 'BRACEPO'), isid(k1, 'Expression'))),
            Literal=kids(x, lambda y: isid(y, 'Char')),
            Class=z3.ForAll([k], Implies(And(0 <= k, k < nk(x)), Or(isid(kid(x, k), 'Range'), And(k == 0, isid(kid(x, k), 'CARAT')))), patterns=[kid(x, k)]),
            Range=And(Or(n == 1, n == 2), kids(x, lambda y: isid(y, 'Char'))),
            Char=charok(text(x, s)),
            Identifier=n >= 1,
        )
        return And(*[Implies(isid(x, q), v) for q, v in sh.items()])
    axiom(['wft'], z3.ForAll([t, s], Implies(wft(t, s), And(t != 0, nk(t) >= 0, 0 <= ts(t), ts(t) <= te(t), te(t) <= BYTES.len(s), shape(t))), patterns=[wft(t, s)]),
          'the syntax trees that the notation grammar captures (without { e }, which has no documented meaning)')
    axiom(['wft'], z3.ForAll([t, s, k], Implies(And(wft(t, s), 0 <= k, k < nk(t)), wft(kid(t, k), s)), patterns=[multipattern(wft(t, s), kid(t, k))]), 'the syntax trees that the notation grammar captures')
    # ---- pieces of text
    name = SpecFn('t_name', [I, DS, I], DS)         # the texts of the first k parts
    axiom(['t_name'], z3.ForAll([t, s, k], eq(name(t, s, k), If(k <= 0, BYTES.empty, BYTES.cat(name(t, s, k - 1), text(kid(t, k - 1), s)))), patterns=[name(t, s, k)]), 'definition: the text of an identifier')
    lit = SpecFn('t_lit', [I, DS, I], DS)           # the first k characters
    axiom(['t_lit'], z3.ForAll([t, s, k], eq(lit(t, s, k), If(k <= 0, BYTES.empty, BYTES.cat(lit(t, s, k - 1), BYTES.unit(char(text(kid(t, k - 1), s)))))), patterns=[lit(t, s, k)]), 'definition: the text of a literal')
    idname = lambda x, s: name(x, s, nk(x))
    axiom(['t_name'], z3.ForAll([t, s], Implies(And(wft(t, s), isid(t, 'Identifier')), BYTES.len(idname(t, s)) >= 1), patterns=[multipattern(wft(t, s), name(t, s, nk(t)))]), 'an identifier is not empty')
    rng = SpecFn('t_range', [I, DS, I], B)
    ch = lambda x, s: char(text(x, s))
    axiom(['t_range'], z3.ForAll([t, s, b], rng(t, s, b) == If(nk(t) == 1, b == ch(kid(t, 0), s), And(ch(kid(t, 0), s) <= b, b <= ch(kid(t, 1), s))), patterns=[rng(t, s, b)]), 'definition: a member of a class')
    rngs = SpecFn('t_ranges', [I, DS, I, I, I], B)     # parts j to k
    axiom(['t_ranges'], z3.ForAll([t, s, j, k, b], rngs(t, s, j, k, b) == And(k > j, Or(rngs(t, s, j, k - 1, b), rng(kid(t, k - 1), s, b))), patterns=[rngs(t, s, j, k, b)]), 'definition: members of a class')
    neg = lambda x: And(nk(x) > 0, isid(kid(x, 0), 'CARAT'))
    inclass = lambda x, s, b: If(neg(x), Not(rngs(x, s, 1, nk(x), b)), rngs(x, s, 0, nk(x), b))
    # the last of the first k definitions that has a name
    last = SpecFn('t_last', [I, DS, I, DS], I)
    a = z3.Const('a', DS)
    axiom(['t_last'], z3.ForAll([t, s, k, a], last(t, s, k, a) == If(k <= 0, IntVal(-1), If(eq(idname(kid(kid(t, k - 1), 0), s), a), k - 1, last(t, s, k - 1, a))), patterns=[last(t, s, k, a)]), 'definition: what a name stands for')

    # ---- meaning
    mt = SpecFn('mt', [I, DS, B, DS, I], R)
    mg = z3.Function('mt_grammar', I, DS, B, DS, I, R)
    seq = SpecFn('mt_seq', [I, DS, B, I, DS, I], R)
    alt = SpecFn('mt_alt', [I, DS, B, I, DS, I], R)
    star = SpecFn('mt_star', [I, DS, B, DS, I], R)
    q = z3.Const('q', P.sort)
    M = lambda x, D, i: mt(x, s, cg, D, i)
    axiom(['mt_seq'], z3.ForAll([t, s, cg, k, D_, i_], seq(t, s, cg, k, D_, i_) == If(k <= 0, P.ok(i_), P.then(seq(t, s, cg, k - 1, D_, i_), lambda x: M(kid(t, k - 1), D_, x))), patterns=[seq(t, s, cg, k, D_, i_)]), 'definition: one after another')
    axiom(['mt_alt'], z3.ForAll([t, s, cg, k, D_, i_], alt(t, s, cg, k, D_, i_) == If(k >= nk(t), R.fail, If(R.is_fail(M(kid(t, k), D_, i_)), alt(t, s, cg, k + 1, D_, i_), M(kid(t, k), D_, i_))), patterns=[alt(t, s, cg, k, D_, i_)]), 'definition: ordered choice')
    r0 = M(t, D_, i_)
    axiom(['mt_star'], z3.ForAll([t, s, cg, D_, i_], star(t, s, cg, D_, i_) == If(R.is_fail(r0), P.ok(i_), If(And(R.is_ok(r0), R.end(r0) == i_), R.div, P.then(r0, lambda x: star(t, s, cg, D_, x)))), patterns=[star(t, s, cg, D_, i_)]), 'definition: greedy repetition')

    def meaning(x, D, i):
        k0, k1, n = kid(x, 0), kid(x, 1), nk(x)
        S0 = M(k0, D, i)
        S1 = M(k1, D, i)
        L = lit(x, s, n)
        return dict(
            Pattern=S0,
            Grammar=mg(x, s, cg, D, i),
            Expression=alt(x, s, cg, IntVal(0), D, i),
            Sequence=seq(x, s, cg, n, D, i),
            Prefix=If(isid(k0, 'AND'), If(R.is_ok(S1), R.ok(i, R.rcaps(S1)), S1), If(isid(k0, 'NOT'), If(R.is_fail(S1), P.ok(i), If(R.is_ok(S1), R.fail, S1)), S0)),
            Suffix=If(n == 2, If(isid(k1, 'QUESTION'), If(R.is_fail(S0), P.ok(i), S0), If(isid(k1, 'STAR'), star(k0, s, cg, D, i), P.then(S0, lambda y: star(k0, s, cg, D, y)))), S0),
            Primary=If(isid(k0, 'OPEN', 'BRACEPO'), S1, If(isid(k0, 'DOT'), If(i + 1 <= BYTES.len(D), P.ok(i + 1), R.fail), S0)),
            Literal=If(P.lit(L, D, i), P.ok(i + BYTES.len(L)), R.fail),
            Class=If(And(i < BYTES.len(D), inclass(x, s, BYTES.at(D, i))), P.ok(i + 1), R.fail),
            Identifier=P.env(idname(x, s), D, i))
    axiom(['mt'], z3.ForAll([t, s, cg, D_, i_], And(*[Implies(isid(t, o), mt(t, s, cg, D_, i_) == v) for o, v in meaning(t, D_, i_).items()]), patterns=[mt(t, s, cg, D_, i_)]), 'definition: meaning of the notation')

    isden = z3.Function('denotes', P.sort, I, DS, B, B)
    dd, di = z3.Function('denotes_d', P.sort, I, DS, B, DS), z3.Function('denotes_i', P.sort, I, DS, B, I)
    axiom(['denotes'], z3.ForAll([q, t, s, cg, D_, i_], Implies(And(isden(q, t, s, cg), inr(D_, i_)), m(q, D_, i_) == mt(t, s, cg, D_, i_)), patterns=[multipattern(isden(q, t, s, cg), m(q, D_, i_))]), 'definition: a pattern means what a tree denotes')
    D1, i1 = dd(q, t, s, cg), di(q, t, s, cg)
    axiom(['denotes'], z3.ForAll([q, t, s, cg], Or(isden(q, t, s, cg), And(inr(D1, i1), m(q, D1, i1) != mt(t, s, cg, D1, i1))), patterns=[isden(q, t, s, cg)]), 'definition: a pattern means what a tree denotes')

    # lists of patterns for the parts
    s1 = z3.Const('ps1', PS.sort)
    parts = z3.Function('all_denote', PS.sort, I, DS, B, I, B)
    axiom(['all_denote'], z3.ForAll([s1, t, s, cg, k], parts(s1, t, s, cg, k) == z3.ForAll([j], Implies(And(0 <= j, j < k), And(P.wf(PS.at(s1, j)), isden(PS.at(s1, j), kid(t, j), s, cg))), patterns=[PS.at(s1, j)]),
          patterns=[parts(s1, t, s, cg, k)]), 'definition: patterns for the parts')
    hyp = And(parts(s1, t, s, cg, PS.len(s1)), inr(D_, i_))
    r1 = lambda k: mpre(s1, k, D_, i_)
    reg.induction('the parts end inside the document', C15, k, lambda k: Implies(And(hyp, k <= PS.len(s1), R.is_ok(r1(k))), inr(D_, R.end(r1(k)))),
                  [s1, t, s, cg, D_, i_], [multipattern(parts(s1, t, s, cg, PS.len(s1)), mpre(s1, k, D_, i_))], ['all_denote'])
    reg.induction('the parts one after another', C15, k, lambda k: Implies(And(hyp, k <= PS.len(s1)), mpre(s1, k, D_, i_) == seq(t, s, cg, k, D_, i_)),
                  [s1, t, s, cg, D_, i_], [multipattern(parts(s1, t, s, cg, PS.len(s1)), mpre(s1, k, D_, i_))], ['all_denote'])
    reg.induction('the first part that does not fail', C15, k, lambda k: Implies(And(hyp, nk(t) == PS.len(s1), 0 <= j, j <= nk(t), nk(t) - j <= k), malt(s1, j, D_, i_) == alt(t, s, cg, j, D_, i_)),
                  [s1, t, s, cg, j, D_, i_], [multipattern(parts(s1, t, s, cg, PS.len(s1)), malt(s1, j, D_, i_))], ['all_denote'], elim=If(nk(t) >= j, nk(t) - j, 0))
    for nm, mk in (('StarNode', lambda x: star(t, s, cg, D_, x)),):
        reg.induction('a repetition denotes the repetition', C15, k, lambda k: Implies(And(isden(q, t, s, cg), P.wf(q), inr(D_, i_), n_ - i_ <= k), m(P.mk(nm, q), D_, i_) == mk(i_)),
                      [q, t, s, cg, D_, i_], [multipattern(isden(q, t, s, cg), m(P.mk(nm, q), D_, i_))], ['denotes'], elim=n_ - i_)

    # ---- externs: captures
    T = lambda v: v.term if hasattr(v, 'term') else v

    def acc(f):
        def e(ex, st, x, args):
            ex.oblige(st, 'a node of the tree', T(args[0]) != 0, x.get('line'), kind='pre')
            return [(st, f(T(args[0])))]
        return e
    for fn, f in (('Id', tid), ('Start', ts), ('End', te), ('NumChildren', nk), ('Len', lambda x: te(x) - ts(x))):
        reg.externs['(*memo.Capture).' + fn] = acc(f)

    def child(ex, st, x, args):
        ex.oblige(st, 'the node has this child', And(T(args[0]) != 0, 0 <= args[1], args[1] < nk(T(args[0]))), x.get('line'), kind='pre')
        return [(st, RefV(kid(T(args[0]), args[1]), ct))]
    reg.externs['(*memo.Capture).Child'] = child
    it_t = p.tstr['int']

    def children(ex, st, x, args):
        ex.oblige(st, 'a node of the tree, from its first child', And(T(args[0]) != 0, args[1] == 0), x.get('line'), kind='pre')
        o = ex.newobj(st, it_t, args[1])
        st.ghost['children'] = (o, T(args[0]))
        return [(st, FuncV('memo.Capture children', [o, T(args[0])]))]
    reg.externs['(*memo.Capture).ChildIterator'] = children

    def nxt(ex, st, x, args):
        o, c = args
        v = st.objs[o]
        st.objs[o] = If(v < nk(c), v + 1, v)
        ex.log(st, o, ())
        r = fresh(I, 'child')
        st.assume(r == If(v < nk(c), kid(c, v), 0))
        return [(st, RefV(r, ct))]
    reg.externs['memo.Capture children'] = nxt
    reg.trusted.append('the accessors of captures (C12): Child(i) and ChildIterator(i) give the visible children in order')

    # ---- externs: library
    bt = p.tstr['[]byte'] if '[]byte' in p.tstr else None
    bst = p.fields(p.tstr['bytes.Buffer'])[0]['type']
    bet = p.T(p.under(bst))['elem']

    def buf(ex, st, pt):
        o = pt if isinstance(pt, Loc) else Loc(st.hobj[pt.id])
        return Loc(o.obj, o.path + (('f', 0),))

    def bwrite(cv):
        def e(ex, st, x, args):
            l = buf(ex, st, args[0])
            old = ex.slice_data(st, ex.load(st, l, bst))
            new = fresh(DS, 'content')
            st.assume(eq(new, BYTES.cat(old, cv(args[1]))))
            n = BYTES.len(new)
            ex.store(st, l, SliceV(ex.newobj(st, bet, new, 'arr', BoolVal(True)), IntVal(0), n, n, BoolVal(False)), bst)
            return [(st, TupleV([BYTES.len(cv(args[1])), IntVal(0)]) if x['t'] and p.kind(x['t']) == 'tuple' else IntVal(0))]
        return e
    reg.externs['(*bytes.Buffer).WriteString'] = bwrite(lambda v: v)
    reg.externs['(*bytes.Buffer).WriteByte'] = bwrite(lambda v: BYTES.unit(v))
    reg.externs['(*bytes.Buffer).String'] = lambda ex, st, x, args: [(st, ex.slice_data(st, ex.load(st, buf(ex, st, args[0]), bst)))]
    reg.trusted.append('bytes.Buffer collects what is written to it; strconv.ParseUint gives the value of octal digits')

    def parseuint(ex, st, x, args):
        v, err = fresh(I, 'value'), fresh(I, 'err')
        st.assume(And(v >= 0, v < (1 << 64)))
        d, base, bits = args
        zb = z3.simplify(bits)
        lim = (1 << zb.as_long()) if z3.is_int_value(zb) and zb.as_long() > 0 else 1 << 64
        st.assume(Implies(And(base == 8, octok(d, 0), octv(d, 0) < lim), And(v == octv(d, 0), err == 0)))
        return [(st, TupleV([v, err]))]
    reg.externs['strconv.ParseUint'] = parseuint

    # the table of escapes, as package initialisation fills it
    def table(ex, st, gt):
        reg_of, ents = None, {}
        for fn in p.funcs.values():
            if not fn['name'].startswith('re.init'):
                continue
            for bl in fn['blocks']:
                for x in bl['instrs']:
                    if x['op'] == 'mapupdate' and x['m']['t'] == gt:
                        ents.setdefault((fn['name'], x['m']['n']), []).append((int(x['key']['v']), int(x['val']['v'])))
        if len(ents) != 1:
            raise Unsupported('the table of escapes is not built in one place')
        dom, val = z3.K(I, BoolVal(False)), z3.K(I, IntVal(0))
        for kk, vv in list(ents.values())[0]:
            dom, val = z3.Store(dom, kk, BoolVal(True)), z3.Store(val, kk, IntVal(vv))
        return MapV(ex.newobj(st, gt, StructV([BoolVal(False), dom, val]), 'map'))
    reg.opts.setdefault('globals', {})['re.special'] = table

    # ---- contracts
    def seen(c, x):
        """the part that comes next, by the iterator"""
        o, r = c.st.ghost['children']
        v = c.st.objs[o]
        cur = T(c.l('c'))
        done = If(cur == 0, v, v - 1)
        return r, done, And(r == x, 0 <= v, v <= nk(x), Or(And(cur == 0, v == nk(x)), And(v >= 1, cur == kid(x, v - 1), cur != 0)))

    def escapes(c):
        vis = c.st.objs[c.st.ghost['visited']].f[1]
        return [('no escape so far is the one', Not(z3.Select(vis, BYTES.at(T(c.char), 1)))), ('an escape', BYTES.at(T(c.char), 0) == 92)]
    reg.contract('re.parseChar', params=['char'], props=C15, required=False, requires=lambda c: [charok(T(c.char))],
        ensures=lambda c: [('the byte it stands for', c.ret == char(T(c.char)))], loops={0: LoopC(inv=escapes)})
    reg.contract('re.compileSet', params=['root', 's'], props=C15, required=False, requires=lambda c: [wft(T(c.root), T(c.s)), isid(T(c.root), 'Range')],
        ensures=lambda c: [('the characters of the range', z3.ForAll([b], Implies(And(0 <= b, b <= 255), P.has(c.ret.term, b) == rng(T(c.root), T(c.s), b)), patterns=[P.has(c.ret.term, b)]))])
    content = lambda v: v.buf.seq

    def idinv(c):
        r, done, pos = seen(c, T(c.root))
        return [('position', pos), ('the text so far', eq(content(c.l('ident')), name(T(c.root), T(c.s), done)))]
    reg.contract('re.parseId', params=['root', 's'], props=C15, required=False, requires=lambda c: [wft(T(c.root), T(c.s))],
        ensures=lambda c: [('the text of the identifier', eq(c.ret, idname(T(c.root), T(c.s))))], loops={0: LoopC(inv=idinv)})
    KNOWN = ['Pattern', 'Grammar', 'Expression', 'Sequence', 'Prefix', 'Suffix', 'Primary', 'Literal', 'Class', 'Identifier']
    pre = lambda c: [wft(T(c.root), T(c.s)), isid(T(c.root), *KNOWN)]
    reg.contract('re.compileDef', params=['root', 's', 'capg', 'ids'], props=C15, required=False, requires=lambda c: [wft(T(c.root), T(c.s)), isid(T(c.root), 'Definition')],
        ensures=lambda c: [('its name', eq(c.rets[0], idname(kid(T(c.root), 0), T(c.s)))), ('a pattern', P.wf(c.rets[1].term)), ('what its expression denotes', isden(c.rets[1].term, kid(T(c.root), 1), T(c.s), c.capg))])

    def rules(dom, vals, x, s, cg, n):
        la = last(x, s, n, a)
        return z3.ForAll([a], And(z3.Select(dom, a) == (la >= 0), Implies(z3.Select(dom, a), And(P.wf(z3.Select(vals, a)), isden(z3.Select(vals, a), kid(kid(x, la), 1), s, cg)))),
                         patterns=[z3.Select(dom, a), z3.Select(vals, a)])

    def setup(ex, st, args):
        st.ghost['root'] = args

    def grammar(capg):
        def e(ex, st, x, args):
            root, s, cg = [T(v) for v in st.ghost['root'][:3]]
            o = st.objs[args[1].obj]
            ln = x.get('line')
            ex.oblige(st, 'the first definition is the start rule', eq(args[0], idname(kid(kid(root, 0), 0), s)), ln, kind='pre')
            ex.oblige(st, 'a rule for every name, and no other: its last definition', rules(o.f[1], o.f[2], root, s, cg, nk(root)), ln, kind='pre')
            ex.oblige(st, 'rules are captured when asked for', cg == BoolVal(capg), ln, kind='pre')
            if capg:
                want = st.ghost['root'][3]
                ex.oblige(st, 'identifiers are recorded where asked for', BoolVal(isinstance(args[2], MapV) and args[2].obj == want.obj), ln, kind='pre')
            g = fresh(P.sort, 'grammar')
            st.assume(And(P.wf(g), isid(root, 'Grammar'), isden(g, root, s, cg)))
            return [(st, g)]
        return e
    reg.externs['pattern.Grammar'] = grammar(False)
    reg.externs['pattern.CapGrammar'] = grammar(True)
    reg.trusted.append('a grammar means its start rule, with every non-terminal meaning the rule of that name (C10); CapGrammar captures every rule (replay)')

    ok = lambda v: [('a list of its own', v.own)]

    def lst(nm):
        def inv(c):
            r, done, pos = seen(c, T(c.root))
            v = c.l(nm)
            return ok(v) + [('position', And(pos, v.len == done)), ('the parts so far', parts(v.seq, T(c.root), T(c.s), c.capg, done))]
        return LoopC(inv=inv)

    def ginv(c):
        r, done, pos = seen(c, T(c.root))
        n = c.l('nonterms')
        return [('position', pos), ('the first name', And(Implies(done == 0, BYTES.len(c.l('first')) == 0), Implies(done > 0, eq(c.l('first'), idname(kid(kid(T(c.root), 0), 0), T(c.s)))))),
                ('the rules so far', And(Not(n.isnil), rules(n.dom, n.mval, T(c.root), T(c.s), c.capg, done)))]

    def linv(c):
        r, done, pos = seen(c, T(c.root))
        return [('position', pos), ('the text so far', eq(content(c.l('lit')), lit(T(c.root), T(c.s), done)))]

    def cinv(c):
        r, done, pos = seen(c, T(c.root))
        x, s_ = T(c.root), T(c.s)
        cp = c.l('complement')
        frm = If(cp, IntVal(1), IntVal(0))
        return [('position', And(pos, c.l('i') >= 0, Implies(And(c.l('i') == 0, cp), done == 0), Implies(c.l('i') > 0, And(cp, c.l('i') == 1, done >= 1)))), ('negated or not', cp == neg(x)),
                ('the members so far', z3.ForAll([b], Implies(And(0 <= b, b <= 255), P.has(c.l('set').term, b) == rngs(x, s_, frm, done, b)), patterns=[P.has(c.l('set').term, b)]))]
    reg.contract('re.compile', params=['root', 's', 'capg', 'ids'], props=C15, required=False, requires=pre, setup=setup, nilable=['ids'],
        ensures=lambda c: [('a pattern', P.wf(c.ret.term)), ('it means what the notation denotes', isden(c.ret.term, T(c.root), T(c.s), c.capg))],
        loops={0: LoopC(inv=ginv), 1: lst('alternations'), 2: lst('concats'), 3: LoopC(inv=linv), 4: LoopC(inv=cinv)})

    # ---- the whole translation
    nr = lambda ex, st, x, args: [(st, ex.newreader(st, args[0]) if hasattr(ex, 'newreader') else RefV(rdr(args[0]), p.tstr['strings.Reader']))]
    rdr = z3.Function('reader_of', DS, I)
    w.ptr_ref.add('strings.Reader')
    reg.externs['strings.NewReader'] = nr
    MATCH, ROOT, NERR = z3.Function('n_match', DS, B), z3.Function('n_root', DS, I), z3.Function('n_errors', DS, I)
    axiom(['n_root'], z3.ForAll([s], Implies(And(MATCH(s), NERR(s) == 0), And(ROOT(s) != 0, nk(ROOT(s)) >= 1, wft(kid(ROOT(s), 0), s), isid(kid(ROOT(s), 0), 'Pattern'))), patterns=[ROOT(s)]),
          'a text of the notation gives a syntax tree of its documented shape')
    sig = p.funcs['re.Compile']

    def parse(ex, st, x, args):
        doc = z3.Const('doc', DS)
        rd = args[1]
        if isinstance(rd, IfaceV):
            rd = rd.v
        s_ = st.ghost['text']
        ex.oblige(st, 'the text is what is parsed', T(rd) == rdr(s_), x.get('line'), kind='pre')
        n = NERR(s_)
        st.assume(n >= 0)
        et = p.T(p.under(p.T(x['t'])['elems'][3]))['elem']
        errs = SliceV(ex.newobj(st, et, fresh(w.seq(et).sort, 'errs'), 'arr', BoolVal(False)), IntVal(0), n, n, n == 0)
        st.assume(w.seq(et).len(st.objs[errs.obj]) == n)
        pos = fresh(I, 'end')
        return [(st, TupleV([MATCH(s_), pos, RefV(ROOT(s_), ct), errs]))]
    for nm in ('(vm.Code).Exec', '(*vm.Code).Exec'):
        reg.externs[nm] = parse

    def errorf(ex, st, x, args):
        v = fresh(I, 'err')
        st.assume(v != 0)
        return [(st, v)]
    reg.externs['fmt.Errorf'] = errorf
    reg.trusted.append('the parser made from the notation grammar (re/grammar.go, run by C09/C10): its matches and syntax trees are those of the documented notation (compared by the replay)')

    def csetup(ex, st, args):
        st.ghost['text'] = T(args[0])
    for fn, par, capg in (('re.Compile', ['s'], False), ('re.CompileCap', ['s', 'ids'], True)):
        def ens(c, capg=capg):
            valid = And(MATCH(T(c.s)), NERR(T(c.s)) == 0)
            return [('an error exactly when the text is not valid notation', (c.rets[1] == 0) == valid),
                    ('otherwise a pattern that means what the text denotes', Implies(valid, And(P.wf(c.rets[0].term), isden(c.rets[0].term, kid(ROOT(T(c.s)), 0), T(c.s), BoolVal(capg)))))]
        reg.contract(fn, params=par, props=C15, setup=csetup, ensures=ens, **({'nilable': ['ids']} if capg else {}))
