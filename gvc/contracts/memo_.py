"""C07: the memoization table (memo/tree.go, memo/entry.go) and where captures
are; C12: the capture nodes (memo/capture.go)."""
from ..dsl import *
from ..smt import BYTES, SpecFn, axiom, forall

CONTENT = 'global:ghost:content'   # abstract content of the interval map
WHERE = 'global:ghost:where'       # current position of every location handle
LAST = 'global:ghost:added'        # the last value added and its handle

AR = z3.ArraySort(I, I)
sel = z3.Select
find = z3.Function('map_find', I, I, I, I)
added = z3.Function('map_add', I, I, I, I, I, I)
shifted = z3.Function('map_remove_shift', I, I, I, I, I)
moved = z3.Function('map_moved', AR, I, I, I, I, AR)
is_entry = z3.Function('is_entry', I, B)


def build(w, reg):
    w.ptr_ref |= {'memo.Capture', 'memo.Entry'}
    p = w.p
    P, PC = ('C07', 'C13'), ('C12',)
    tcap, tent = p.tstr['memo.Capture'], p.tstr['memo.Entry']
    caps = w.seq(p.tstr['*memo.Capture'])
    slc = w.slcdt(p.tstr['*memo.Capture'])

    # ---- the interval map behind the table: its interface contract (C06) ----
    def setup(ex, st, args):
        st.objs[CONTENT] = fresh(I, 'content')
        st.objs[WHERE] = fresh(AR, 'where')
        st.objs[LAST] = IntVal(0)
        for g in (CONTENT, WHERE, LAST):
            st.info[g] = ObjInfo(p.tstr['int'], 'obj')

    def mfind(ex, st, x, args):
        v = find(st.objs[CONTENT], args[1], args[2])
        return [(st, v)]

    def madd(ex, st, x, args):
        m, id, low, high, val = args
        v = ex.fold(st, val, x['args'][3]['t'] if 'args' in x else p.tstr['interval.Value'])
        h = fresh(I, 'handle')
        e = z3.Int('e!h')
        hp = ex.heapobj(st, 'heap:memo.Entry').f[p.field_index(tent, 'pos')]
        # the handle is new: no entry has it
        st.assume(And(h > 0, forall([e], sel(hp, e) != h, patterns=[sel(hp, e)])))
        st.objs[CONTENT] = added(st.objs[CONTENT], id, low, high, v)
        st.objs[WHERE] = z3.Store(st.objs[WHERE], h, low)
        st.objs[LAST] = h
        for g in (CONTENT, WHERE, LAST):
            ex.log(st, g, ())
        return [(st, h)]

    def mrs(ex, st, x, args):
        m, low, high, amt = args
        ex.oblige(st, 'precondition of Map.RemoveAndShift: the range is not empty', low <= high, x.get('line'), kind='pre')
        ex.oblige(st, 'precondition of Map.RemoveAndShift: shifts left by at most the width of the range', amt >= low - high, x.get('line'), kind='pre')
        st.objs[WHERE] = moved(st.objs[WHERE], st.objs[CONTENT], low, high, amt)
        st.objs[CONTENT] = shifted(st.objs[CONTENT], low, high, amt)
        for g in (CONTENT, WHERE):
            ex.log(st, g, ())
        return [(st, None)]

    def mall(ex, st, x, args):
        th = w.seq(p.tstr['interval.Value'])
        d = fresh(th.sort, 'values')
        k = z3.Int('k!all')
        st.assume(forall([k], Implies(And(0 <= k, k < th.len(d)), And(th.at(d, k) > 0, is_entry(th.at(d, k)))), patterns=[th.at(d, k)]))
        st.objs['global:ghost:values'] = d
        st.info['global:ghost:values'] = ObjInfo(p.tstr['int'], 'obj')
        o = ex.newobj(st, p.tstr['interval.Value'], d, 'arr', BoolVal(True))
        return [(st, SliceV(o, IntVal(0), th.len(d), th.len(d), BoolVal(False)))]

    def where(ex, st, x, args):
        h = args[0]
        return [(st, sel(st.objs[WHERE], ex.fold(st, h, x.get('rectype', p.tstr['interval.Pos']))))]

    def noop(ex, st, x, args):
        return [(st, None)]

    reg.externs.update({'interval.Map.FindLargest': mfind, 'interval.Map.Add': madd, 'interval.Map.RemoveAndShift': mrs, 'interval.Map.AllValues': mall,
                        'interval.Pos.Pos': where, '(*sync.Mutex).Lock': noop, '(*sync.Mutex).Unlock': noop})

    def assert_entry(ex, st, v, at):
        ok = And(v != 0, is_entry(v))
        return ok, RefV(If(ok, v, IntVal(0)), tent)
    reg.opts.setdefault('typeassert', {})[('interval.Value', '*memo.Entry')] = assert_entry

    # ---- captures ----
    def h(c, f, t='memo.Capture'):
        return c.heap(t, f)

    def W(c):
        return c.st.objs[WHERE]

    def start(c, x):
        m = sel(h(c, 'ment'), x)
        return If(m != 0, sel(W(c), sel(h(c, 'pos', 'memo.Entry'), m)) + sel(h(c, 'off'), x), sel(h(c, 'off'), x))

    def kids(c, x):
        return slc.data(sel(h(c, 'children'), x))

    def child(c, x, k):
        return caps.at(kids(c, x), k)

    x_, k_ = z3.Ints('x!c k!c')

    def tree(c):
        """children of captures are captures"""
        return forall([x_, k_], Implies(And(x_ != 0, 0 <= k_, k_ < caps.len(kids(c, x_))), child(c, x_, k_) != 0), patterns=[child(c, x_, k_)])

    def kids_attached(c, x, n=None):
        n = caps.len(kids(c, x)) if n is None else n
        return forall([k_], Implies(And(0 <= k_, k_ < n), sel(h(c, 'ment'), child(c, x, k_)) != 0), patterns=[child(c, x, k_)])

    def attached_inv(c):
        """a capture attached to an entry has all its children attached"""
        return forall([x_, k_], Implies(And(x_ != 0, sel(h(c, 'ment'), x_) != 0, 0 <= k_, k_ < caps.len(kids(c, x_))), sel(h(c, 'ment'), child(c, x_, k_)) != 0), patterns=[child(c, x_, k_)])

    def starts_kept(c, o):
        return forall([x_], Implies(x_ != 0, start(c, x_) == start(o, x_)), patterns=[sel(h(c, 'ment'), x_), sel(h(c, 'off'), x_)])

    def monotone(c, o):
        return forall([x_], Implies(And(x_ != 0, sel(h(o, 'ment'), x_) != 0), sel(h(c, 'ment'), x_) == sel(h(o, 'ment'), x_)), patterns=[sel(h(c, 'ment'), x_)])

    def newly(c, o, x):
        return And(sel(h(o, 'ment'), x) == 0, sel(h(c, 'ment'), x) != 0)

    def newly_whole(c, o, but=None):
        """whatever was attached now was attached with its children"""
        g = newly(c, o, x_) if but is None else And(newly(c, o, x_), x_ != but)
        return forall([x_, k_], Implies(And(x_ != 0, g, 0 <= k_, k_ < caps.len(kids(c, x_))), sel(h(c, 'ment'), child(c, x_, k_)) != 0), patterns=[child(c, x_, k_)])

    def newly_e(c, o, e):
        return forall([x_], Implies(And(x_ != 0, newly(c, o, x_)), sel(h(c, 'ment'), x_) == e), patterns=[sel(h(c, 'ment'), x_)])

    def clauses(c, o, e, but=None):
        return [('every capture stays where it is', starts_kept(c, o)), ('attached captures stay attached', monotone(c, o)),
                ('captures are attached with all their children', newly_whole(c, o, but)), ('newly attached captures belong to the entry', newly_e(c, o, e))]

    MODC = ['heap:memo.Capture#ment', 'heap:memo.Capture#off']
    reg.contract('(*memo.Capture).setMEnt', params=['c', 'e'], props=P, modifies=MODC, setup=setup, required=False,
        requires=lambda c: [('children are captures', tree(c)), ('the entry has a location', c.e.pos != 0)],
        ensures=lambda c: [('attached', sel(h(c, 'ment'), c.c.term) != 0)] + clauses(c, c.old, c.e.term),
        loops={0: LoopC(inv=lambda c: [('attached to the entry', And(sel(h(c, 'ment'), c.c.term) == c.e.term, newly(c, c.old, c.c.term))),
                                       ('children so far are attached', kids_attached(c, c.c.term, c.idx))] + clauses(c, c.old, c.e.term, c.c.term))})

    reg.contract('(*memo.Entry).setPos', params=['e', 'pos'], props=P, modifies=MODC + ['heap:memo.Entry#pos'], setup=setup, required=False,
        requires=lambda c: [('children are captures', tree(c)), ('captures exist', caps_pos(c, c.e)), ('the location is not nil', c.pos != 0),
                            ('no capture belongs to the entry yet', forall([x_], Implies(x_ != 0, sel(h(c, 'ment'), x_) != c.e.term), patterns=[sel(h(c, 'ment'), x_)]))],
        ensures=lambda c: [('location recorded', c.e.pos == c.pos), ('other locations unchanged', forall([x_], Implies(x_ != c.e.term, sel(h(c, 'pos', 'memo.Entry'), x_) == sel(h(c.old, 'pos', 'memo.Entry'), x_)), patterns=[sel(h(c, 'pos', 'memo.Entry'), x_)]))] + clauses(c, c.old, c.e.term) + [
            ('all captures of the entry are attached', forall([k_], Implies(And(0 <= k_, k_ < c.e.captures.len), sel(h(c, 'ment'), caps.at(c.e.captures.seq, k_)) != 0), patterns=[caps.at(c.e.captures.seq, k_)]))],
        loops={0: LoopC(mod=MODC, inv=lambda c: clauses(c, c.old, c.e.term) + [
            ('captures so far are attached', forall([k_], Implies(And(0 <= k_, k_ < c.idx), sel(h(c, 'ment'), caps.at(c.e.captures.seq, k_)) != 0), patterns=[caps.at(c.e.captures.seq, k_)]))])})

    def caps_pos(c, e):
        return forall([k_], Implies(And(0 <= k_, k_ < e.captures.len), caps.at(e.captures.seq, k_) != 0), patterns=[caps.at(e.captures.seq, k_)])

    def mx(a, b):
        return If(a > b, a, b)

    # ---- the table ----
    def content(c):
        return c.st.objs[CONTENT]

    def ent(c, e, f):
        return sel(h(c, f, 'memo.Entry'), e)

    def kept_rule(c):
        return And(c.examined >= c.t.threshold, c.length != 0)

    def stored(c):
        hd = c.st.objs[LAST]
        e = z3.Int('e!put')
        # the entry whose location is the new handle
        body = And(content(c) == added(content(c.old), c.id, c.start, c.start + mx(c.examined, c.length), e),
                   ent(c, e, 'pos') == hd, ent(c, e, 'length') == c.length, ent(c, e, 'examined') == mx(c.examined, c.length), ent(c, e, 'count') == c.count,
                   caps.eq(slc.data(ent(c, e, 'captures')), c.captures.seq), Not(sel(c.old.alloc('memo.Entry'), e)))
        return z3.Exists([e], body)

    reg.contract('(*memo.TreeTable).Put', params=['t', 'id', 'start', 'length', 'examined', 'count', 'captures'], props=P, setup=setup,
        modifies=MODC + ['heap:memo.Entry', 't.lock', CONTENT, WHERE, LAST],
        requires=lambda c: [('children are captures', tree(c)), ('captures exist', forall([k_], Implies(And(0 <= k_, k_ < c.captures.len), caps.at(c.captures.seq, k_) != 0), patterns=[caps.at(c.captures.seq, k_)])),
                            ('attached captures have attached children', attached_inv(c)),
                            ('entries of captures exist', forall([x_], Implies(And(x_ != 0, sel(h(c, 'ment'), x_) != 0), sel(c.alloc('memo.Entry'), sel(h(c, 'ment'), x_))), patterns=[sel(h(c, 'ment'), x_)]))],
        ensures=lambda c: [
            ('an empty or cheap result is not stored', Implies(Not(kept_rule(c)), content(c) == content(c.old))),
            ('any other result is stored with its data over everything it depends on', Implies(kept_rule(c), stored(c))),
            ('every capture stays where it is', starts_kept(c, c.old)),
            ('attached captures have attached children', attached_inv(c)),
            ('captures of a stored result move with it', Implies(kept_rule(c), forall([k_], Implies(And(0 <= k_, k_ < c.captures.len), sel(h(c, 'ment'), caps.at(c.captures.seq, k_)) != 0), patterns=[caps.at(c.captures.seq, k_)])))])

    reg.contract('(*memo.TreeTable).Get', params=['t', 'id', 'pos'], props=P, setup=setup, modifies=['t.lock'],
        ensures=lambda c: (lambda v: [
            ('found exactly when the map holds an entry', c.rets[1] == And(v != 0, is_entry(v))),
            ('the entry of a longest interval', Implies(c.rets[1], c.rets[0].term == v)),
            ('content unchanged', content(c) == content(c.old))])(find(content(c), c.id, c.pos)))

    reg.contract('(*memo.TreeTable).ApplyEdit', params=['t', 'e'], props=P, setup=setup, modifies=['t.lock', CONTENT, WHERE],
        requires=lambda c: [0 <= c.e.Start, c.e.Start <= c.e.End, c.e.Len >= 0],
        ensures=lambda c: (lambda lo, hi, amt: [
            ('entries meeting the edit are removed and the others shifted by the size change', content(c) == shifted(content(c.old), lo, hi, amt)),
            ('locations shifted alike', W(c) == moved(W(c.old), content(c.old), lo, hi, amt))])(
            c.e.Start, If(c.e.End == c.e.Start, c.e.Start + 1, c.e.End), c.e.Len - (c.e.End - c.e.Start)))

    def vals(c):
        return c.st.objs['global:ghost:values']
    ents = w.seq(p.tstr['*memo.Entry'])
    valth = w.seq(p.tstr['interval.Value'])
    reg.contract('(*memo.TreeTable).AllValues', params=['t'], props=P, setup=setup, modifies=[],
        ensures=lambda c: [('one entry per held value', c.ret.len == valth.len(vals(c))),
                           ('the entries held, in order', forall([k_], Implies(And(0 <= k_, k_ < c.ret.len), ents.at(c.ret.seq, k_) == valth.at(vals(c), k_)), patterns=[ents.at(c.ret.seq, k_)]))],
        loops={0: LoopC(inv=lambda c: [('one entry per held value', c.l('entries').len == valth.len(vals(c))),
                                       ('the entries held, in order', forall([k_], Implies(And(0 <= k_, k_ < c.idx), ents.at(c.l('entries').seq, k_) == valth.at(vals(c), k_)), patterns=[ents.at(c.l('entries').seq, k_)]))])})

    reg.contract('memo.NewTreeTable', params=['threshold'], props=P, setup=setup,
        ensures=lambda c: [('threshold recorded', c.ret.threshold == c.threshold)])

    for fn, f in (('Length', 'length'), ('Examined', 'examined'), ('Count', 'count')):
        reg.contract('(*memo.Entry).' + fn, params=['e'], props=P, setup=setup,
            ensures=(lambda f: lambda c: [('as stored', c.ret == ent(c, c.e.term, f))])(f))
    reg.contract('(*memo.Entry).Captures', params=['e'], props=P, setup=setup,
        ensures=lambda c: [('as stored', caps.eq(c.ret.seq, slc.data(ent(c, c.e.term, 'captures'))))])
    reg.contract('(*memo.Entry).Pos', params=['e'], props=P, setup=setup,
        requires=lambda c: [('stored in a table', c.e.pos != 0)],
        ensures=lambda c: [('the current position', c.ret == sel(W(c), c.e.pos))])

    # what the interval map promises (C06), and what follows for edits of the text
    I5 = [I] * 5
    holds = z3.Function('map_holds', I, I, I, I, I, B)   # content, id, low, high, value
    L, i, lo, hi, v, a, b, n = z3.Ints('L i lo hi v a b n')
    spec = z3.ForAll([L, a, b, n, i, lo, hi, v], holds(shifted(L, a, b, n), i, lo, hi, v) ==
        Or(And(hi < a, holds(L, i, lo, hi, v)), And(lo - n > b, lo - n <= hi - n, holds(L, i, lo - n, hi - n, v))),
        patterns=[holds(shifted(L, a, b, n), i, lo, hi, v)])
    s, e, ln = z3.Ints('s e len')
    eb = If(e == s, s + 1, e)
    am = ln - (e - s)
    edit = [spec, s >= 0, s <= e, ln >= 0]
    after = lambda i, lo, hi, v: holds(shifted(L, s, eb, am), i, lo, hi, v)
    wf = z3.ForAll([L, i, lo, hi, v], Implies(holds(L, i, lo, hi, v), lo <= hi), patterns=[holds(L, i, lo, hi, v)])
    reg.lemma('no entry whose examined range meets the edited range remains', edit + [wf, after(i, lo, hi, v)],
              Or(And(holds(L, i, lo, hi, v), hi < s), And(holds(L, i, lo - am, hi - am, v), lo - am > e)), P)
    reg.lemma('every entry before an edit remains', edit + [wf, holds(L, i, lo, hi, v), hi < s], after(i, lo, hi, v), P)
    reg.lemma('every entry after an edit remains, moved by the size change', edit + [wf, holds(L, i, lo, hi, v), lo > eb], after(i, lo + am, hi + am, v), P)

    # ---- why a kept entry is still right (C13) ----
    # rule i at position a of document d: its result relative to a, and how far behind a the machine looks (a position at
    # the end of the document counts as looked at). Locality: the result depends only on what was looked at.
    P13 = ('C13',)
    DS = BYTES.sort
    res, seen = z3.Function('result_of', I, DS, I, I), z3.Function('looks_ahead', I, DS, I, I)
    d, d2, ins = z3.Const('d!i', DS), z3.Const('d2!i', DS), z3.Const('ins!i', DS)
    a2, k = z3.Ints('a2!i k!i')
    look = lambda d, q: If(And(0 <= q, q < BYTES.len(d)), BYTES.at(d, q), If(q < 0, -1, 256))
    agree = lambda d, a, d2, a2, x: z3.ForAll([k], Implies(And(0 <= k, k <= x), look(d, a + k) == look(d2, a2 + k)))
    new = BYTES.cat(BYTES.cat(BYTES.sub(d, 0, s), ins), BYTES.sub(d, e, BYTES.len(d)))
    ed = [s >= 0, s <= e, e <= BYTES.len(d), ln == BYTES.len(ins), a >= 0, b >= 0]
    same = lambda a2, q: look(d, a + q) == look(new, a2 + q)
    reg.lemma('what an entry before an edit depends on is unchanged', ed + [a + b < s, 0 <= n, n <= b], same(a, n), P13)
    reg.lemma('what an entry after an edit depends on has only moved', ed + [a > eb, 0 <= n, n <= b], same(a + am, n), P13)
    right = lambda d, i, lo, hi, v: And(v == res(i, d, lo), hi >= lo + seen(i, d, lo), lo <= hi, lo >= 0)
    whole = z3.ForAll([i, lo, hi, v], Implies(holds(L, i, lo, hi, v), right(d, i, lo, hi, v)), patterns=[holds(L, i, lo, hi, v)])
    for nm, hyp, at2 in (('before', lo + seen(i, d, lo) < s, lo), ('after', lo > eb, lo + am)):
        reg.lemma('a right entry %s an edit stays right' % nm, [s >= 0, s <= e, e <= BYTES.len(d), ln == BYTES.len(ins), right(d, i, lo, hi, v), hyp, d2 == new,
            z3.substitute(Implies(agree(d, a, d2, a2, seen(i, d, a)), And(res(i, d2, a2) == res(i, d, a), seen(i, d2, a2) == seen(i, d, a))), (a, lo), (a2, at2)),
            agree(d, lo, d2, at2, seen(i, d, lo))], right(d2, i, at2, hi + (at2 - lo), v), P13)
    reg.lemma('a table of right entries has only right entries after an edit', edit + [wf, e <= BYTES.len(d), whole, after(i, lo, hi, v),
        # the lemmas just proved
        z3.ForAll([i, lo, hi, v], Implies(And(right(d, i, lo, hi, v), lo + seen(i, d, lo) < s), right(d2, i, lo, hi, v)), patterns=[holds(L, i, lo, hi, v)]),
        z3.ForAll([i, lo, hi, v], Implies(And(right(d, i, lo, hi, v), lo > eb), right(d2, i, lo + am, hi + am, v)), patterns=[holds(L, i, lo, hi, v)])],
        right(d2, i, lo, hi, v), P13)
    reg.trusted.append('the result of a rule depends only on what the machine looked at while matching it (Input.Furthest, C02; covered by the stored range: obligation on Put in exec)')

    # ---- capture nodes (C12) ----
    def node(c, typ):
        r = c.ret.term
        fs = dict(off=c.start, length=c.length, ment=IntVal(0))
        return [('not nil', r != 0), ('a new node', Not(sel(c.old.alloc('memo.Capture'), r))), ('kind', sel(h(c, 'typ'), r) == p.consts['memo.' + typ])] + [
            (f, sel(h(c, f), r) == t) for f, t in fs.items()] + [('children', caps.eq(kids(c, r), c.children.seq))]
    reg.contract('memo.NewCaptureNode', params=['id', 'start', 'length', 'children'], props=PC, setup=setup,
        requires=lambda c: [And(-(1 << 31) <= c.id, c.id < (1 << 31))],
        ensures=lambda c: node(c, 'tNode') + [('identifier', sel(h(c, 'id'), c.ret.term) == c.id)])
    reg.contract('memo.NewCaptureDummy', params=['start', 'length', 'children'], props=PC, setup=setup, ensures=lambda c: node(c, 'tDummy'))
    attpos = lambda c: Implies(sel(h(c, 'ment'), c.c.term) != 0, sel(h(c, 'pos', 'memo.Entry'), sel(h(c, 'ment'), c.c.term)) != 0)
    entpos = lambda c: sel(h(c, 'ment'), c.c.term) >= 0
    reg.contract('(*memo.Capture).Start', params=['c'], props=P + PC, setup=setup, requires=lambda c: [('an attached capture has an entry in the table', attpos(c))],
        ensures=lambda c: [('its entry\'s position plus its offset', c.ret == start(c, c.c.term))])
    reg.contract('(*memo.Capture).Len', params=['c'], props=PC, setup=setup, ensures=lambda c: [('length', c.ret == sel(h(c, 'length'), c.c.term))])
    reg.contract('(*memo.Capture).End', params=['c'], props=PC, setup=setup, requires=lambda c: [('an attached capture has an entry in the table', attpos(c))],
        ensures=lambda c: [('start plus length', c.ret == start(c, c.c.term) + sel(h(c, 'length'), c.c.term))])
    reg.contract('(*memo.Capture).Id', params=['c'], props=PC, setup=setup, ensures=lambda c: [('identifier', c.ret == sel(h(c, 'id'), c.c.term))])
    reg.contract('(*memo.Capture).Dummy', params=['c'], props=PC, setup=setup, ensures=lambda c: [('a grouping node', c.ret == (sel(h(c, 'typ'), c.c.term) == p.consts['memo.tDummy']))])

    # children with the grouping nodes skipped: the list a user sees
    HA = z3.ArraySort(I, I)
    CA = h_sort = None
    rank = z3.Function('depth', I, I)
    ksort = z3.ArraySort(I, slc.sort)
    flat = SpecFn('visible', [ksort, HA, caps.sort, I, I], caps.sort)

    def flat_body(K, T, s, k, b):
        e = caps.at(s, k)
        sub = If(And(0 <= rank(e), rank(e) < b), flat(K, T, slc.data(sel(K, e)), IntVal(0), rank(e)), caps.empty)
        return If(Or(k < 0, k >= caps.len(s)), caps.empty,
                  caps.cat(If(sel(T, e) == p.consts['memo.tDummy'], sub, caps.unit(e)), flat(K, T, s, k + 1, b)))
    flat.body = flat_body

    def visible(c, x):
        return flat(h(c, 'children'), h(c, 'typ'), kids(c, x), IntVal(0), rank(x))

    def vis_from(c, x, k):
        return flat(h(c, 'children'), h(c, 'typ'), kids(c, x), k, rank(x))

    def finite(c):
        """captures form a tree: grouping nodes lie deeper than what they group"""
        e = child(c, x_, k_)
        return forall([x_, k_], Implies(And(x_ != 0, 0 <= k_, k_ < caps.len(kids(c, x_))), And(e != 0, Implies(sel(h(c, 'typ'), e) == p.consts['memo.tDummy'], And(0 <= rank(e), rank(e) < rank(x_))))), patterns=[e])

    reg.contract('(*memo.Capture).NumChildren', params=['c'], props=PC, setup=setup, requires=lambda c: [('captures form a tree', finite(c))],
        ensures=lambda c: [('the number of children a user sees', c.ret == caps.len(visible(c, c.c.term)))],
        loops={0: LoopC(inv=lambda c: [('counted so far', c.l('nchild') + caps.len(vis_from(c, c.c.term, c.idx)) == caps.len(visible(c, c.c.term)))])})
