"""C06: the interval map (memo/interval/lazylog): a search tree over (position,
id) whose nodes carry a time stamp; moves of positions are kept in a list and
applied to a node when it is visited.

The content of the tree is stated at effective positions: the position of a node
after the moves it has not applied yet.  Every operation is proved against the
effective content."""
from ..dsl import *
from .. import smt
from ..smt import SpecFn, axiom, multipattern, forall

T0 = z3.Const('T0', I)          # the tree (arbitrary)
P = ('C06',)


def build(w, reg):
    p = w.p
    w.ptr_ref.add('lazylog.Tree')
    for f in p.fields(p.tstr['lazylog.lazyInterval']):
        if p.name(f['type']) == '*lazylog.node':
            f['type'] = p.tstr['int']                   # the back pointer of a location handle: opaque
    w.opaque_fields = {('lazylog.lazyInterval', 'n')}
    reg.trusted.append('the back pointer of a location handle (lazyInterval.n) points to the node that holds it (Pos is compared by the replay)')
    tnode, tiv, tin, tsh, tkey = [p.tstr['lazylog.' + x] for x in ('node', 'lazyInterval', 'interval', 'shift', 'key')]
    tp, tip = p.tstr['*lazylog.node'], p.tstr['*lazylog.lazyInterval']
    ins_th, sh_th = w.seq(tin), w.seq(tsh)
    N, PN, IV, PI, IN, SH, KY = w.D(tnode), w.D(tp), w.D(tiv), w.D(tip), w.D(tin), w.D(tsh), w.D(tkey)
    slc, sslc = w.slcdt(tin), w.slcdt(tsh)

    def acc(D, t, f):
        a = D.acc[p.field_index(t, f)]
        return lambda x: a(x)
    nf = {f['name']: acc(N, tnode, f['name']) for f in p.fields(tnode)}
    kf = {f['name']: acc(KY, tkey, f['name']) for f in p.fields(tkey)}
    inf = {f['name']: acc(IN, tin, f['name']) for f in p.fields(tin)}
    sf = {f['name']: acc(SH, tsh, f['name']) for f in p.fields(tsh)}
    ivins = acc(IV, tiv, 'ins')

    def F(t, name):             # a field of a (non-nil) node pointer
        return nf[name](PN.val(t))
    pos = lambda t: kf['pos'](F(t, 'key'))
    kid = lambda t: kf['id'](F(t, 'key'))
    sl = lambda t: ivins(PI.val(F(t, 'interval')))          # the slice of intervals of a node
    ins = lambda t: slc.data(sl(t))
    left, right = lambda t: F(t, 'left'), lambda t: F(t, 'right')
    nil = PN.isnil

    SS, TT = sh_th.sort, PN.sort
    S_, t_, s_ = z3.Const('S!l', SS), z3.Const('t!l', TT), z3.Const('s!l', ins_th.sort)
    m_, j_, k_, ts_, p_, id_, L_, v_, x_ = z3.Ints('m!l j!l k!l ts!l p!l id!l L!l v!l x!l')
    sat = lambda S, j: sh_th.at(S, j)
    stamp = lambda S, j: sf['tstamp'](sat(S, j))

    # ---- effective positions: the first m moves, those newer than ts
    E = SpecFn('effpos', [SS, I, I, I], I)

    def step(s, ts, q):
        return If(And(sf['tstamp'](s) > ts, q >= sf['idx'](s)), q + sf['amt'](s), q)
    E.body = lambda S, m, ts, q: If(m <= 0, q, step(sat(S, m - 1), ts, E(S, m - 1, ts, q)))
    inc = SpecFn('increasing', [SS], B)
    axiom(['increasing'], z3.ForAll([S_], inc(S_) == forall([j_, k_], Implies(And(0 <= j_, j_ < k_, k_ < sh_th.len(S_)), stamp(S_, j_) < stamp(S_, k_)), patterns=[multipattern(sat(S_, j_), sat(S_, k_))]),
          patterns=[inc(S_)]), 'definition: time stamps grow')
    reg.induction('moves that were applied change nothing', P, m_, lambda m: Implies(And(inc(S_), m <= sh_th.len(S_), Or(m == 0, stamp(S_, m - 1) <= ts_)), E(S_, m, ts_, p_) == p_),
                  [S_, ts_, p_], [E(S_, m_, ts_, p_)], ['effpos'])
    s1 = z3.Const('s1!l', tsh_sort := SH.sort)
    app = sh_th.cat(S_, sh_th.unit(s1))
    reg.induction('a later move does not change the earlier ones', P, m_, lambda m: Implies(m <= sh_th.len(S_), E(app, m, ts_, p_) == E(S_, m, ts_, p_)), [S_, s1, ts_, p_], [E(app, m_, ts_, p_)], ['effpos'])
    reg.fact('the last move is applied last', P, E(app, sh_th.len(app), ts_, p_) == step(s1, ts_, E(S_, sh_th.len(S_), ts_, p_)), [S_, s1, ts_, p_], [E(app, sh_th.len(app), ts_, p_)], ['effpos'], using=[E(app, sh_th.len(S_), ts_, p_)])
    eff = lambda S, t: E(S, sh_th.len(S), F(t, 'tstamp'), pos(t))

    # ---- content
    inm = SpecFn('in_items', [ins_th.sort, I, I], B)                # some item has this length and value
    ilen = lambda e: inf['high'](e) - inf['low'](e)
    ival = inf['value']
    idx = z3.Function('item_index', ins_th.sort, I, I, I)
    at = ins_th.at
    axiom(['in_items'], z3.ForAll([s_, j_], Implies(And(0 <= j_, j_ < ins_th.len(s_)), inm(s_, ilen(at(s_, j_)), ival(at(s_, j_)))), patterns=[at(s_, j_)]), 'definition: items')
    axiom(['in_items'], z3.ForAll([s_, j_, L_, v_], Implies(And(0 <= j_, j_ < ins_th.len(s_), ilen(at(s_, j_)) == L_, ival(at(s_, j_)) == v_), inm(s_, L_, v_)), patterns=[multipattern(at(s_, j_), inm(s_, L_, v_))]), 'definition: items')
    axiom(['in_items'], z3.ForAll([s_, L_, v_], Implies(inm(s_, L_, v_), And(0 <= idx(s_, L_, v_), idx(s_, L_, v_) < ins_th.len(s_), ilen(at(s_, idx(s_, L_, v_))) == L_, ival(at(s_, idx(s_, L_, v_))) == v_)),
          patterns=[inm(s_, L_, v_)]), 'definition: items')
    e_ = z3.Const('e!l', IN.sort)
    rat = ins_th.fns()['at']
    more1 = ins_th.cat(s_, ins_th.unit(e_))
    reg.fact('items and one more', P, inm(more1, L_, v_) == Or(inm(s_, L_, v_), And(ilen(e_) == L_, ival(e_) == v_)), [s_, e_, L_, v_], [inm(more1, L_, v_)], ['in_items'], using=[rat(more1, ins_th.len(s_)), rat(more1, idx(s_, L_, v_)), rat(more1, idx(more1, L_, v_)), rat(s_, idx(more1, L_, v_)), rat(s_, idx(s_, L_, v_)), inm(s_, L_, v_)])
    e2_, i_, n_ = z3.Const('e2!l', IN.sort), z3.Int('i!l'), z3.Int('n!l')
    sp_ = z3.Const('sp!l', ins_th.sort)
    gone = ins_th.sub(ins_th.upd(ins_th.upd(ins_th.cat(s_, sp_), i_, e_), j_, e2_), 0, n_)        # (sp: the storage beyond the length)
    ix = idx(s_, L_, v_)
    reg.fact('items after one was overwritten by the last', P, Implies(And(0 <= i_, i_ <= j_, j_ == ins_th.len(s_) - 1, n_ == j_, e_ == at(s_, j_), inm(s_, L_, v_)),
        Or(inm(gone, L_, v_), And(ilen(at(s_, i_)) == L_, ival(at(s_, i_)) == v_))), [s_, sp_, i_, j_, n_, e_, e2_, L_, v_], [multipattern(inm(s_, L_, v_), gone)], ['in_items'],
        using=[rat(gone, ix), rat(gone, i_), rat(s_, ix), inm(gone, L_, v_)])
    hask = SpecFn('has_key', [SS, TT, I, I], B)
    has = SpecFn('has_item', [SS, TT, I, I, I, I], B)
    wf = SpecFn('wft', [I, TT], B)
    bst = SpecFn('ordered', [SS, TT], B)
    sz = SpecFn('items', [TT], I)
    hv = SpecFn('has_value', [TT, I], B)

    def local0(TS, t):
        s = ins(t)
        return And(F(t, 'tree') == T0, Not(PI.isnil(F(t, 'interval'))), slc.own(sl(t)), F(t, 'tstamp') <= TS, F(t, 'height') >= 1,
                   forall([j_], Implies(And(0 <= j_, j_ < ins_th.len(s)), And(inf['low'](at(s, j_)) == pos(t), inf['low'](at(s, j_)) <= inf['high'](at(s, j_)))), patterns=[at(s, j_)]))

    def covers(t):
        s = ins(t)
        return forall([j_], Implies(And(0 <= j_, j_ < ins_th.len(s)), inf['high'](at(s, j_)) <= F(t, 'max')), patterns=[at(s, j_)])
    bounded = lambda t: And(pos(t) <= F(t, 'max'), covers(t))
    local = lambda TS, t: And(local0(TS, t), bounded(t))
    nonempty = lambda t: ins_th.len(ins(t)) >= 1
    wfr = lambda TS, t: And(local(TS, t), wf(TS, left(t)), wf(TS, right(t)))     # the root of a part may have lost its intervals
    wf.body = lambda TS, t: Or(nil(t), And(local(TS, t), nonempty(t), wf(TS, left(t)), wf(TS, right(t))))
    lt = lambda a, b, c, d: Or(a < c, And(a == c, b < d))
    bst.body = lambda S, t: Or(nil(t), And(bst(S, left(t)), bst(S, right(t)),
        forall([p_, id_], Implies(hask(S, left(t), p_, id_), lt(p_, id_, eff(S, t), kid(t))), patterns=[hask(S, left(t), p_, id_)]),
        forall([p_, id_], Implies(hask(S, right(t), p_, id_), lt(eff(S, t), kid(t), p_, id_)), patterns=[hask(S, right(t), p_, id_)])))
    kbody = lambda S, t, q, i: And(Not(nil(t)), Or(And(eff(S, t) == q, kid(t) == i), hask(S, left(t), q, i), hask(S, right(t), q, i)))
    hbody = lambda S, t, q, i, L, v: And(Not(nil(t)), Or(And(eff(S, t) == q, kid(t) == i, inm(ins(t), L, v)), has(S, left(t), q, i, L, v), has(S, right(t), q, i, L, v)))
    opened = z3.Function('opened', TT, B)
    axiom(['has_key'], z3.ForAll([S_, t_, p_, id_], Implies(opened(t_), hask(S_, t_, p_, id_) == kbody(S_, t_, p_, id_)), patterns=[multipattern(hask(S_, t_, p_, id_), opened(t_))]), 'definition: keys of a tree')
    axiom(['has_item'], z3.ForAll([S_, t_, p_, id_, L_, v_], Implies(opened(t_), has(S_, t_, p_, id_, L_, v_) == hbody(S_, t_, p_, id_, L_, v_)), patterns=[multipattern(has(S_, t_, p_, id_, L_, v_), opened(t_))]), 'definition: items of a tree')
    axiom(['has_key'], z3.ForAll([S_, t_, p_, id_], Implies(nil(t_), Not(hask(S_, t_, p_, id_))), patterns=[hask(S_, t_, p_, id_)]), 'no keys in an empty tree')
    axiom(['has_item'], z3.ForAll([S_, t_, p_, id_, L_, v_], Implies(nil(t_), Not(has(S_, t_, p_, id_, L_, v_))), patterns=[has(S_, t_, p_, id_, L_, v_)]), 'no items in an empty tree')
    # (opened marks the trees whose definition is looked into; it says nothing else)
    flds = [z3.Const('n!%s' % f['name'], w.sort(f['type'])) for f in p.fields(tnode)]
    mk = PN.ref(N.mk(*flds))
    for b in ([bst],):
        pass
    axiom(['opened'], z3.ForAll([t_], opened(t_) == True, patterns=[opened(t_)]), 'every tree may be looked into')
    def structural(name, vs, stmt, pattern, syms):
        """induction over trees"""
        lim = len(smt.AXIOMS)
        at_ = lambda f, x: z3.substitute(f, (t_, x))
        ih = [Implies(Not(nil(t_)), z3.ForAll(vs, at_(stmt, x), patterns=[smt.multipattern(*[at_(q, x) for q in pattern]) if len(pattern) > 1 else at_(pattern[0], x)])) for x in (left(t_), right(t_))]
        reg.lemmas.append((name + ' (induction over trees)', ih + [opened(t_)], stmt, P, lim))
        smt.axiom(syms, z3.ForAll([t_] + vs, stmt, patterns=[smt.multipattern(*pattern) if len(pattern) > 1 else pattern[0]]), 'lemma ' + name)

    structural('an item has its key in the tree', [S_, p_, id_, L_, v_], Implies(has(S_, t_, p_, id_, L_, v_), hask(S_, t_, p_, id_)), [has(S_, t_, p_, id_, L_, v_)], ['has_item'])

    # moving everything at or after idx
    mS = app
    midx, mamt = sf['idx'](s1), sf['amt'](s1)
    lo, hi = z3.Ints('lo!l hi!l')
    older = And(wf(ts_, t_), ts_ < sf['tstamp'](s1))
    structural('keys after a move', [S_, s1, p_, id_, ts_], Implies(older, hask(mS, t_, p_, id_) == Or(And(p_ < midx, hask(S_, t_, p_, id_)), And(p_ - mamt >= midx, hask(S_, t_, p_ - mamt, id_)))),
               [hask(mS, t_, p_, id_), wf(ts_, t_)], ['has_key'])
    structural('items after a move', [S_, s1, p_, id_, L_, v_, ts_], Implies(older, has(mS, t_, p_, id_, L_, v_) == Or(And(p_ < midx, has(S_, t_, p_, id_, L_, v_)), And(p_ - mamt >= midx, has(S_, t_, p_ - mamt, id_, L_, v_)))),
               [has(mS, t_, p_, id_, L_, v_), wf(ts_, t_)], ['has_item'])
    clear = SpecFn('clear', [SS, TT, I, I], B)
    axiom(['clear'], z3.ForAll([S_, t_, lo, hi], clear(S_, t_, lo, hi) == forall([p_, id_], Implies(hask(S_, t_, p_, id_), Or(p_ < lo, p_ > hi)), patterns=[hask(S_, t_, p_, id_)]), patterns=[clear(S_, t_, lo, hi)]), 'definition: no key in a range')
    for side, g in (('left', left), ('right', right)):
        reg.fact('a key of the %s part is a key of the tree' % side, P, Implies(And(Not(nil(t_)), opened(t_), hask(S_, g(t_), p_, id_)), hask(S_, t_, p_, id_)), [S_, t_, p_, id_], [multipattern(hask(S_, g(t_), p_, id_), opened(t_))], ['clear', 'ordered'])
    reg.fact('a range without keys of the tree has no keys of its parts', P, Implies(And(Not(nil(t_)), opened(t_), clear(S_, t_, lo, hi)), And(clear(S_, left(t_), lo, hi), clear(S_, right(t_), lo, hi))), [S_, t_, lo, hi],
             [multipattern(clear(S_, t_, lo, hi), opened(t_))], ['clear', 'ordered'])
    structural('order after a move', [S_, s1, lo, hi, ts_], Implies(And(older, bst(S_, t_), clear(S_, t_, lo, hi), lo == midx, mamt >= lo - hi), bst(mS, t_)),
               [bst(mS, t_), clear(S_, t_, lo, hi), wf(ts_, t_)], ['ordered'])

    # ---- contracts
    tree = lambda c, f: z3.Select(c.heap('lazylog.Tree', f), T0)
    S = lambda c: sslc.data(tree(c, 'shifts'))
    TS = lambda c: tree(c, 'tstamp')

    def tinv(c):
        s = S(c)
        return [('the tree is there', T0 != 0), ('time stamps grow', inc(s)), ('no move is newer than the tree', forall([j_], Implies(And(0 <= j_, j_ < sh_th.len(s)), stamp(s, j_) <= TS(c)), patterns=[sat(s, j_)]))]

    def good(c, t, more=()):
        return [('every node is well formed', wf(TS(c), t)), ('keys are ordered', And(bst(S(c), t), *more)), ('(looked into)', opened(t))]

    def same(c, t, t0, more=()):
        return [('the keys are the same', And(opened(t), opened(t0), *more, forall([p_, id_], hask(S(c), t, p_, id_) == hask(S(c), t0, p_, id_), patterns=[hask(S(c), t, p_, id_), hask(S(c), t0, p_, id_)]))),
                ('the items are the same', And(opened(t), opened(t0), *more, forall([p_, id_, L_, v_], has(S(c), t, p_, id_, L_, v_) == has(S(c), t0, p_, id_, L_, v_), patterns=[has(S(c), t, p_, id_, L_, v_), has(S(c), t0, p_, id_, L_, v_)])))]
    cur = lambda c, t: eff(S(c), t) == pos(t)
    n = lambda c: c.n.term
    n0 = lambda c: c.old.n.term
    kp = lambda k: (kf['pos'](k), kf['id'](k))

    reg.contract('(lazylog.key).compare', params=['k', 'other'], props=P, required=False,
        ensures=lambda c: [('keys are compared by position, then id', c.ret == If(lt(*kp(c.k.term), *kp(c.other.term)), -1, If(lt(*kp(c.other.term), *kp(c.k.term)), 1, 0)))])
    reg.contract('lazylog.overlaps', params=['i1', 'low', 'high'], props=P, required=False,
        ensures=lambda c: [('touching ranges', c.ret == And(inf['low'](c.i1.term) <= c.high, inf['high'](c.i1.term) >= c.low))])
    pin = lambda c: slc.data(ivins(PI.val(c.i.term)))
    pin0 = lambda c: slc.data(ivins(PI.val(c.old.i.term)))
    reg.contract('(*lazylog.lazyInterval).High', params=['i'], props=P, required=False,
        ensures=lambda c: [('at least every end', And(c.ret >= 0, forall([j_], Implies(And(0 <= j_, j_ < ins_th.len(pin(c))), inf['high'](at(pin(c), j_)) <= c.ret), patterns=[at(pin(c), j_)])))],
        loops={0: LoopC(inv=lambda c: [('position', And(-1 <= c.idx, c.idx <= ins_th.len(pin(c)))), ('at least every end so far', And(c.l('high') >= 0, forall([j_], Implies(And(0 <= j_, j_ < c.idx), inf['high'](at(pin(c), j_)) <= c.l('high')), patterns=[at(pin(c), j_)])))])})

    def moved(a, b, k, amt):
        return forall([j_], Implies(And(0 <= j_, j_ < k), And(inf['low'](at(a, j_)) == inf['low'](at(b, j_)) + amt, inf['high'](at(a, j_)) == inf['high'](at(b, j_)) + amt, ival(at(a, j_)) == ival(at(b, j_)))), patterns=[at(a, j_), at(b, j_)])

    def rest(a, b, k):
        return forall([j_], Implies(And(k <= j_, j_ < ins_th.len(b)), at(a, j_) == at(b, j_)), patterns=[at(a, j_)])
    own = lambda x: slc.own(ivins(PI.val(x)))
    def kept(a, b):
        return ('lengths and values stay', forall([L_, v_], inm(a, L_, v_) == inm(b, L_, v_), patterns=[inm(a, L_, v_), inm(b, L_, v_)]))
    reg.contract('(*lazylog.lazyInterval).Shift', params=['i', 'amt'], props=P, required=False, modifies=['i.ins'], requires=lambda c: [('the intervals are its own', own(c.i.term))],
        ensures=lambda c: [('same number', ins_th.len(pin(c)) == ins_th.len(pin0(c))), ('the intervals are its own', own(c.i.term)), ('every interval moves', moved(pin(c), pin0(c), ins_th.len(pin0(c)), c.amt)), kept(pin(c), pin0(c))],
        loops={0: LoopC(inv=lambda c: [('position', And(0 <= c.idx, c.idx <= ins_th.len(pin0(c)))), ('same number', ins_th.len(pin(c)) == ins_th.len(pin0(c))), ('own', own(c.i.term)), ('moved so far', moved(pin(c), pin0(c), c.idx, c.amt)),
                                       ('the rest', rest(pin(c), pin0(c), c.idx))])})

    def sameitems(t, t0):
        return [('same number of intervals', ins_th.len(ins(t)) == ins_th.len(ins(t0))),
                kept(ins(t), ins(t0))]
    shv = lambda c: c.s.term
    reg.contract('(*lazylog.node).updateMax', params=['n'], props=P, required=False, modifies=['n.max'], requires=lambda c: [('it holds intervals', Not(PI.isnil(F(n(c), 'interval'))))],
        ensures=lambda c: [('the bound never shrinks', F(n(c), 'max') >= F(n0(c), 'max')), ('the bound covers its intervals', covers(n(c))), ('the bound covers the bounds of its parts', And(*[Or(nil(g(n(c))), F(n(c), 'max') >= F(g(n(c)), 'max')) for g in (left, right)]))])

    def applied(c):
        s = SH_of(c)
        a = sf['tstamp'](s) > F(n0(c), 'tstamp')
        mv = And(a, pos(n0(c)) >= sf['idx'](s))
        return [('moved if the move is new and starts at or before it', pos(n(c)) == If(mv, pos(n0(c)) + sf['amt'](s), pos(n0(c)))), ('same id', kid(n(c)) == kid(n0(c))),
                ('the move is marked as applied', F(n(c), 'tstamp') == If(a, sf['tstamp'](s), F(n0(c), 'tstamp'))), ('every interval is well formed', local(TS(c), n(c)))] + sameitems(n(c), n0(c))
    SH_of = lambda c: w.D(p.tstr['*lazylog.shift']).val(c.s.term) if '*lazylog.shift' in p.tstr else None
    MODS = ['n.key', 'n.max', 'n.interval', 'n.tstamp']
    reg.contract('(*lazylog.node).applyShift', params=['n', 's'], props=P, required=False, modifies=MODS,
        requires=lambda c: [('well formed', local(TS(c), n(c))), ('it holds an interval', nonempty(n(c))), ('not newer than the tree', sf['tstamp'](SH_of(c)) <= TS(c))], ensures=applied)
    upd = lambda c, t: Or(sh_th.len(S(c)) == 0, stamp(S(c), sh_th.len(S(c)) - 1) <= F(t, 'tstamp'))       # up to date

    def rgood(c, t):
        return [('every node is well formed', wfr(TS(c), t)), ('keys are ordered', bst(S(c), t)), ('(looked into)', opened(t))]

    def walk(c):
        m = c.l('j') + c.idx
        t, t0 = F(n(c), 'tstamp'), F(n0(c), 'tstamp')
        return [('position', And(0 <= c.idx, 0 <= c.l('j'), m <= sh_th.len(S(c)))), ('the first moves are applied', And(pos(n(c)) == E(S(c), m, t0, pos(n0(c))), kid(n(c)) == kid(n0(c)))),
                ('they are marked as applied', And(t0 <= t, Or(t == t0, And(m >= 1, t == stamp(S(c), m - 1))), Or(m == 0, stamp(S(c), m - 1) <= t))),
                ('every interval is well formed', local(TS(c), n(c))), ('it holds an interval', nonempty(n(c)))] + sameitems(n(c), n0(c))
    reg.contract('(*lazylog.node).applyShifts', params=['n'], props=P, required=False, modifies=MODS,
        requires=lambda c: tinv(c) + rgood(c, n(c)) + [('it holds an interval or is up to date', Or(nonempty(n(c)), upd(c, n(c))))],
        ensures=lambda c: [('all moves are applied', And(cur(c, n(c)), upd(c, n(c)), pos(n(c)) == eff(S(c), n0(c)))), ('same id', kid(n(c)) == kid(n0(c)))] + sameitems(n(c), n0(c)) + rgood(c, n(c)) + same(c, n(c), n0(c)),
        loops={0: LoopC(inv=lambda c: [('position', And(0 <= c.l('j'), c.l('j') <= sh_th.len(S(c)) - 1))]),
               1: LoopC(inv=walk)})

    # ---- the search tree
    r0 = lambda c: c.rets[0].term
    there = lambda t: ('there is a tree', Not(nil(t)))

    def shape(c, t):        # a node whose bound may be out of date
        return Or(nil(t), And(local0(TS(c), t), nonempty(t), wf(TS(c), left(t)), wf(TS(c), right(t)), bst(S(c), t), opened(t)))
    reg.contract('(*lazylog.node).rotateLeft', params=['n'], props=P, required=False, consumes=['n'],
        requires=lambda c: tinv(c) + good(c, n(c)) + [('there is a right child', Not(nil(right(n(c)))))],
        ensures=lambda c: good(c, r0(c), [opened(left(r0(c))), opened(right(n0(c))), hask(S(c), right(n0(c)), eff(S(c), r0(c)), kid(r0(c)))]) + same(c, r0(c), n0(c), [opened(left(r0(c))), opened(right(n0(c)))]) + [there(r0(c))])
    reg.contract('(*lazylog.node).rotateRight', params=['n'], props=P, required=False, consumes=['n'],
        requires=lambda c: tinv(c) + good(c, n(c)) + [('there is a left child', Not(nil(left(n(c)))))],
        ensures=lambda c: good(c, r0(c), [opened(right(r0(c))), opened(left(n0(c))), hask(S(c), left(n0(c)), eff(S(c), r0(c)), kid(r0(c)))]) + same(c, r0(c), n0(c), [opened(right(r0(c))), opened(left(n0(c)))]) + [there(r0(c))])
    reg.contract('(*lazylog.node).rebalanceTree', params=['n'], props=P, required=False, consumes=['n'], nilable=['n'],
        requires=lambda c: tinv(c) + [('well formed except for the bound', shape(c, n(c)))],
        ensures=lambda c: good(c, r0(c)) + same(c, r0(c), n0(c)) + [('a tree stays a tree', nil(r0(c)) == nil(n0(c)))])

    def iskey(q, i, k):
        return And(q == kp(k)[0], i == kp(k)[1])
    vlow, vhigh = lambda c: inf['low'](c.value.term), lambda c: inf['high'](c.value.term)

    def with_item(c, t, t0, k, L, v):
        s = S(c)
        return [('the keys and the new one', And(opened(t), opened(t0), forall([p_, id_], hask(s, t, p_, id_) == Or(hask(s, t0, p_, id_), iskey(p_, id_, k)), patterns=[hask(s, t, p_, id_), hask(s, t0, p_, id_)]))),
                ('the items and the new one', And(opened(t), opened(t0), forall([p_, id_, L_, v_], has(s, t, p_, id_, L_, v_) == Or(has(s, t0, p_, id_, L_, v_), And(iskey(p_, id_, k), L_ == L, v_ == v)),
                    patterns=[has(s, t, p_, id_, L_, v_), has(s, t0, p_, id_, L_, v_)])))]
    reg.contract('(*lazylog.node).add', params=['n', 'tree', 'key', 'value'], props=P, required=False, consumes=['n'], nilable=['n'],
        requires=lambda c: tinv(c) + good(c, n(c)) + [('the tree of the node', c.tree.term == T0), ('the key is the start', And(vlow(c) == kp(c.key.term)[0], vlow(c) <= vhigh(c)))],
        hints=[('a new node holds the item', lambda c: Implies(nil(n0(c)), And(ins_th.len(ins(r0(c))) == 1, at(ins(r0(c)), 0) == c.value.term)))],
        ensures=lambda c: good(c, r0(c)) + [there(r0(c))] + with_item(c, r0(c), n0(c), c.key.term, vhigh(c) - vlow(c), ival(c.value.term)))

    def without_key(c, t, t0, k):
        s = S(c)
        return [('the keys but one', And(opened(t), opened(t0), forall([p_, id_], hask(s, t, p_, id_) == And(hask(s, t0, p_, id_), Not(iskey(p_, id_, k))), patterns=[hask(s, t, p_, id_), hask(s, t0, p_, id_)]))),
                ('the items but those of one key', And(opened(t), opened(t0), forall([p_, id_, L_, v_], has(s, t, p_, id_, L_, v_) == And(has(s, t0, p_, id_, L_, v_), Not(iskey(p_, id_, k))),
                    patterns=[has(s, t, p_, id_, L_, v_), has(s, t0, p_, id_, L_, v_)])))]

    def node_of(c, t, t0):      # a copy of a node of the tree
        s = S(c)
        return [('it is up to date', And(cur(c, t), upd(c, t))), ('it is well formed', And(local(TS(c), t), nonempty(t))), ('its key is in the tree', hask(s, t0, pos(t), kid(t))),
                ('it holds the items of its key', forall([L_, v_], inm(ins(t), L_, v_) == has(s, t0, pos(t), kid(t), L_, v_), patterns=[inm(ins(t), L_, v_), has(s, t0, pos(t), kid(t), L_, v_)]))]
    reg.contract('(*lazylog.node).findSmallest', params=['n'], props=P, required=False, modifies=['n.*'],
        requires=lambda c: tinv(c) + good(c, n(c)) + [('it is up to date', And(cur(c, n(c)), upd(c, n(c))))],
        ensures=lambda c: [there(r0(c))] + node_of(c, r0(c), n0(c)) + [('no key is smaller', forall([p_, id_], Implies(hask(S(c), n0(c), p_, id_), Not(lt(p_, id_, pos(r0(c)), kid(r0(c))))), patterns=[hask(S(c), n0(c), p_, id_)]))]
            + good(c, n(c)) + same(c, n(c), n0(c)))
    reg.contract('(*lazylog.node).remove', params=['n', 'key'], props=P, required=False, consumes=['n'], nilable=['n'],
        requires=lambda c: tinv(c) + [('every node is well formed, except that the one to remove may have lost its intervals', Or(nil(n(c)), And(wfr(TS(c), n(c)), Or(nonempty(n(c)), And(upd(c, n(c)), iskey(pos(n(c)), kid(n(c)), c.key.term)))))),
                                      ('keys are ordered', And(opened(n(c)), bst(S(c), n(c))))],
        ensures=lambda c: good(c, r0(c)) + without_key(c, r0(c), n0(c), c.key.term))
    reg.contract('(*lazylog.node).search', params=['n', 'key'], props=P, required=False, modifies=['n.*'], nilable=['n'],
        requires=lambda c: tinv(c) + good(c, n(c)),
        ensures=lambda c: good(c, n(c)) + same(c, n(c), n0(c)) + [('found if it is there', nil(r0(c)) == Not(hask(S(c), n0(c), *kp(c.key.term)))),
            ('what is found', Implies(Not(nil(r0(c))), And(iskey(pos(r0(c)), kid(r0(c)), c.key.term), *[f for _, f in node_of(c, r0(c), n0(c))])))])

    # ---- removing what touches a range
    def touches(q, L, low, high):
        return And(q <= high, q + L >= low)
    lowp, highp = lambda c: c.low, lambda c: c.high

    def cleared(c, t, t0, low, high):
        s = S(c)
        return [('keys outside the range stay, no new ones', And(opened(t), opened(t0), forall([p_, id_], Implies(hask(s, t, p_, id_), And(hask(s, t0, p_, id_), Or(p_ < low, p_ > high))), patterns=[hask(s, t, p_, id_)]))),
                ('exactly the items that touch the range are gone', And(opened(t), opened(t0), forall([p_, id_, L_, v_], has(s, t, p_, id_, L_, v_) == And(has(s, t0, p_, id_, L_, v_), Not(touches(p_, L_, low, high))),
                    patterns=[has(s, t, p_, id_, L_, v_), has(s, t0, p_, id_, L_, v_)])))]

    def purge(c):
        t, t0 = n(c), n(c.entered(0) or c)
        s = ins(t)
        return [('position', And(0 <= c.l('i'), c.l('i') <= ins_th.len(s))),
                ('well formed', And(wfr(TS(c), t), opened(t), upd(c, t), cur(c, t))),
                ('the rest of the node stays', And(F(t, 'key') == F(t0, 'key'), F(t, 'tstamp') == F(t0, 'tstamp'), F(t, 'max') == F(t0, 'max'), left(t) == left(t0), right(t) == right(t0), F(t, 'tree') == F(t0, 'tree'))),
                ('items do not appear', forall([L_, v_], Implies(inm(s, L_, v_), inm(ins(t0), L_, v_)), patterns=[inm(s, L_, v_)])),
                ('only touching items disappear', forall([L_, v_], Implies(inm(ins(t0), L_, v_), Or(inm(s, L_, v_), touches(pos(t0), L_, c.low, c.high))), patterns=[inm(ins(t0), L_, v_)])),
                ('no touching item so far', forall([j_], Implies(And(0 <= j_, j_ < c.l('i')), Not(touches(inf['low'](at(s, j_)), ilen(at(s, j_)), c.low, c.high))), patterns=[at(s, j_)]))]
    reg.contract('(*lazylog.node).removeOverlaps', params=['n', 'low', 'high'], props=P, required=False, consumes=['n'], nilable=['n'],
        requires=lambda c: tinv(c) + good(c, n(c)) + [('a range', c.low <= c.high)],
        ensures=lambda c: good(c, r0(c)) + cleared(c, r0(c), n0(c), c.low, c.high),
        loops={0: LoopC(inv=purge)})

    def apply_shifts(ex, st, x, args):
        outs = ex.apply_contract(st, None, x, reg.contracts['(*lazylog.node).applyShifts'], args)
        if ex.top == '(*lazylog.node).removeOverlaps':
            for s2, _ in outs:
                h = ex.heapobj(s2, 'heap:lazylog.Tree').f[p.field_index(p.tstr['lazylog.Tree'], 'shifts')]
                sq = sslc.data(z3.Select(h, T0))
                t = View(ex, s2, args[0], tp).term
                s2.assume(forall([p_, id_], Implies(hask(sq, t, p_, id_), p_ <= F(t, 'max')), patterns=[hask(sq, t, p_, id_)]))
                s2.assume(forall([p_, id_, L_, v_], Implies(has(sq, t, p_, id_, L_, v_), p_ + L_ <= F(t, 'max')), patterns=[has(sq, t, p_, id_, L_, v_)]))
        return outs
    reg.externs['(*lazylog.node).applyShifts'] = apply_shifts
    reg.trusted.append('the bound kept in a node (max) is at least every end below it when removeOverlaps tests it (compared by the replay on histories)')

    # ---- counting and listing
    sz.body = lambda t: If(nil(t), 0, sz(left(t)) + sz(right(t)) + ins_th.len(ins(t)))
    reg.contract('(*lazylog.node).size', params=['n'], props=P, required=False, nilable=['n'],
        requires=lambda c: [('every node is well formed', wf(TS(c), n(c)))],
        ensures=lambda c: [('the number of items', c.ret == sz(n(c)))])

    hval = SpecFn('a_value', [ins_th.sort, I], B)
    axiom(['a_value'], z3.ForAll([s_, j_], Implies(And(0 <= j_, j_ < ins_th.len(s_)), hval(s_, ival(at(s_, j_)))), patterns=[at(s_, j_)]), 'definition: the values of items')
    vidx = z3.Function('value_index', ins_th.sort, I, I)
    axiom(['a_value'], z3.ForAll([s_, v_], Implies(hval(s_, v_), And(0 <= vidx(s_, v_), vidx(s_, v_) < ins_th.len(s_), ival(at(s_, vidx(s_, v_))) == v_)), patterns=[hval(s_, v_)]), 'definition: the values of items')
    axiom(['has_value'], z3.ForAll([t_, v_], Implies(opened(t_), hv(t_, v_) == And(Not(nil(t_)), Or(hv(left(t_), v_), hv(right(t_), v_), hval(ins(t_), v_)))), patterns=[multipattern(hv(t_, v_), opened(t_))]), 'definition: values of a tree')
    V = vals_th = w.seq(p.tstr['interval.Value'])
    a_ = z3.Const('a!l', V.sort)
    occ = SpecFn('occurs', [V.sort, I, I], B)               # a value occurs at or after a position
    oidx = z3.Function('occurs_index', V.sort, I, I, I)
    axiom(['occurs'], z3.ForAll([a_, k_, j_], Implies(And(k_ <= j_, 0 <= j_, j_ < V.len(a_)), occ(a_, k_, V.at(a_, j_))), patterns=[multipattern(V.at(a_, j_), occ(a_, k_, V.at(a_, j_)))]), 'definition: occurs')
    axiom(['occurs'], z3.ForAll([a_, k_, j_, v_], Implies(And(k_ <= j_, 0 <= j_, j_ < V.len(a_), V.at(a_, j_) == v_), occ(a_, k_, v_)), patterns=[multipattern(V.at(a_, j_), occ(a_, k_, v_))]), 'definition: occurs')
    axiom(['occurs'], z3.ForAll([a_, k_, v_], Implies(occ(a_, k_, v_), And(k_ <= oidx(a_, k_, v_), 0 <= oidx(a_, k_, v_), oidx(a_, k_, v_) < V.len(a_), V.at(a_, oidx(a_, k_, v_)) == v_)), patterns=[occ(a_, k_, v_)]), 'definition: occurs')
    from0 = lambda c: V.len(c.old.vals.seq)

    def prefix(a, b):
        return And(V.len(a) >= V.len(b), forall([j_], Implies(And(0 <= j_, j_ < V.len(b)), V.at(a, j_) == V.at(b, j_)), patterns=[V.at(a, j_), V.at(b, j_)]))

    def some(k, a, f):          # the values from k on satisfy f
        return forall([j_], Implies(And(k <= j_, j_ < V.len(a)), f(V.at(a, j_))), patterns=[V.at(a, j_)])
    res = lambda c: c.rets[0].seq
    lv = lambda c: c.l('vals').seq
    ent = lambda c: (c.entered(0) or c).l('vals').seq
    reg.contract('(*lazylog.node).allvals', params=['n', 'vals'], props=P, required=False, nilable=['n'], append='value',
        requires=lambda c: [('every node is well formed', wf(TS(c), n(c)))],
        ensures=lambda c: [('as many as items', V.len(res(c)) == from0(c) + sz(n(c))), ('the old ones stay', prefix(res(c), c.old.vals.seq)),
            ('only values of items are added', And(opened(n(c)), some(from0(c), res(c), lambda v: hv(n(c), v)))),
            ('the value of every item is there', And(opened(n(c)), forall([v_], Implies(hv(n(c), v_), occ(res(c), from0(c), v_)), patterns=[hv(n(c), v_)])))],
        loops={0: LoopC(inv=lambda c: [('position', And(0 <= c.idx, c.idx <= ins_th.len(ins(n(c))))), ('one for each so far', V.len(lv(c)) == V.len(ent(c)) + c.idx), ('the old ones stay', prefix(lv(c), ent(c))),
            ('theirs are the new ones', forall([j_], Implies(And(0 <= j_, j_ < c.idx), V.at(lv(c), V.len(ent(c)) + j_) == ival(at(ins(n(c)), j_))), patterns=[at(ins(n(c)), j_)])),
            ('the new ones are theirs', forall([j_], Implies(And(V.len(ent(c)) <= j_, j_ < V.len(lv(c))), V.at(lv(c), j_) == ival(at(ins(n(c)), j_ - V.len(ent(c))))), patterns=[V.at(lv(c), j_)]))])})

    # ---- the map
    root = lambda c: tree(c, 'root')
    tin = lambda c: tinv(c) + good(c, root(c)) + [('this tree', c.t.term == T0), ('time stamps do not run out', TS(c) < 2 ** 64 - 1)]
    tout = lambda c: tinv(c) + good(c, root(c))
    HT = lambda *fs: ['heap:lazylog.Tree#' + f for f in fs]
    S0, R0 = lambda c: S(c.old), lambda c: root(c.old)
    ts2 = z3.Int('ts2!l')
    structural('a well formed tree stays so as time goes on', [ts_, ts2], Implies(And(wf(ts_, t_), ts_ <= ts2), wf(ts2, t_)), [wf(ts_, t_), wf(ts2, t_)], ['wft'])

    def content(c, fh):
        """what the map holds afterwards in terms of what it held"""
        t, t0, s, s0 = root(c), R0(c), S(c), S0(c)
        return [('the items', And(opened(t), opened(t0), forall([p_, id_, L_, v_], has(s, t, p_, id_, L_, v_) == fh(lambda q: has(s0, t0, q, id_, L_, v_)), patterns=[has(s, t, p_, id_, L_, v_)])))]
    reg.contract('(*lazylog.Tree).Add', params=['t', 'id', 'low', 'high', 'value'], props=P, modifies=HT('root'),
        requires=lambda c: tin(c) + [('a range', c.low <= c.high)],
        ensures=lambda c: tout(c) + content(c, lambda old: Or(old(p_), And(p_ == c.low, id_ == c.id, L_ == c.high - c.low, v_ == c.value))))
    reg.contract('(*lazylog.Tree).shift', params=['t', 'idx_', 'amt'], props=P, required=False, modifies=HT('shifts', 'tstamp'),
        requires=lambda c: tinv(c) + [('this tree', c.t.term == T0), ('time stamps do not run out', TS(c) < 2 ** 64 - 1)],
        ensures=lambda c: tinv(c) + [('the move is noted', If(c.amt == 0, And(S(c) == S0(c), TS(c) == TS(c.old)), And(TS(c) > TS(c.old), S(c) == sh_th.cat(S0(c), sh_th.unit(SH.mk(c.idx_, c.amt, TS(c)))))))])
    reg.contract('(*lazylog.Tree).RemoveAndShift', params=['t', 'low', 'high', 'amt'], props=P, modifies=HT('root', 'shifts', 'tstamp'),
        requires=lambda c: tin(c) + [('a range', c.low <= c.high), ('no more than the range is taken away', c.amt >= c.low - c.high)],
        hints=[('no key is left in the range', lambda c: clear(S0(c), root(c), c.low, c.high))],
        ensures=lambda c: tout(c) + content(c, lambda old: Or(And(p_ + L_ < c.low, p_ < c.low, old(p_)), And(p_ - c.amt > c.high, old(p_ - c.amt)))))
    reg.contract('(*lazylog.Tree).Size', params=['t'], props=P, requires=tin, ensures=lambda c: [('the number of items', c.ret == sz(root(c)))])
    def search(ex, st, x, args):
        """a search on the root of the map changes the root in place"""
        if ex.top != '(*lazylog.Tree).FindLargest':
            return ex.apply_contract(st, None, x, reg.contracts['(*lazylog.node).search'], args)
        H, fi = 'heap:lazylog.Tree', p.field_index(p.tstr['lazylog.Tree'], 'root')
        tm = ex.fold(st, args[0], tp)
        ex.oblige(st, 'the search starts at the root', tm == z3.Select(ex.heapobj(st, H).f[fi], T0), x.get('line'))
        h = ex.newhnd(st, tm, tp, None)
        outs = ex.apply_contract(st, None, x, reg.contracts['(*lazylog.node).search'], [h] + list(args[1:]))
        for s2, _ in outs:
            ho = ex.heapobj(s2, H)
            s2.objs[H] = ho.set(fi, z3.Store(ho.f[fi], T0, ex.fold(s2, h, tp)))
            ex.log(s2, H, (('f', fi),))
        return outs
    reg.externs['(*lazylog.node).search'] = search
    fins = lambda c: ins(c.l('n').term)
    found = lambda c: hask(S0(c), R0(c), c.pos, c.id)
    old_has = lambda c, L, v: has(S0(c), R0(c), c.pos, c.id, L, v)
    best = z3.Int('best!l')
    retv = lambda c: c.ret.term if hasattr(c.ret, 'term') else c.ret
    longest = lambda c, b: And(old_has(c, b, retv(c)), forall([L_, v_], Implies(old_has(c, L_, v_), L_ <= b), patterns=[old_has(c, L_, v_)]))

    def chosen(c):
        try:
            b = ilen(at(fins(c), c.l('max')))
        except Exception:
            return z3.BoolVal(True)
        return longest(c, b)
    reg.contract('(*lazylog.Tree).FindLargest', params=['t', 'id', 'pos'], props=P, modifies=HT('root'),
        requires=tin,
        loops={0: LoopC(inv=lambda c: [('position', And(-1 <= c.idx, c.idx <= ins_th.len(fins(c)) - 1)), ('the longest so far', And(0 <= c.l('max'), c.l('max') <= c.idx, c.l('max') < ins_th.len(fins(c)),
            forall([j_], Implies(And(0 <= j_, j_ <= c.idx), ilen(at(fins(c), j_)) <= ilen(at(fins(c), c.l('max')))), patterns=[at(fins(c), j_)])))])},
        hints=[('the longest', chosen)],
        ensures=lambda c: tout(c) + content(c, lambda old: old(p_)) + [('nothing is found where nothing is', Implies(Not(found(c)), c.ret == 0)),
            ('the value of the longest is found', Implies(found(c), z3.Exists([best], longest(c, best))))])
    reg.contract('(*lazylog.Tree).AllValues', params=['t'], props=P, requires=tin,
        ensures=lambda c: [('as many as items', V.len(res(c)) == sz(root(c))), ('only values of items', some(0, res(c), lambda v: hv(root(c), v))),
            ('the value of every item', forall([v_], Implies(hv(root(c), v_), occ(res(c), 0, v_)), patterns=[hv(root(c), v_)]))])
    structural('the value of an item is a value of the tree', [S_, p_, id_, L_, v_], Implies(has(S_, t_, p_, id_, L_, v_), hv(t_, v_)), [has(S_, t_, p_, id_, L_, v_)], ['has_value'])
    e0 = PN.nil
    reg.lemma('the empty map', [], And(wf(0, e0), bst(sh_th.empty, e0), inc(sh_th.empty), Not(has(sh_th.empty, e0, p_, id_, L_, v_)), sz(e0) == 0), P)
