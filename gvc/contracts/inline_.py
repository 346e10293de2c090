"""C10, C11: inlining of rules and the walk over a pattern (package pattern).

Non-terminals are heap objects here (inlining writes to them).  Proved:
WalkPattern calls its function with the pattern and everything below it, and
nothing else; Inline changes only non-terminals that are not inlined yet, and
gives them the rule of their name."""
from ..dsl import *
from ..sym import *
from ..smt import multipattern, BYTES, SpecFn, axiom
from .walk import walk_rule, forall


KINDS1 = ['StarNode', 'PlusNode', 'OptionalNode', 'NotNode', 'AndNode', 'CapNode', 'MemoNode', 'CheckNode', 'SearchNode']
SUBS = dict([(k, ['Patt']) for k in KINDS1] + [('SeqNode', ['Left', 'Right']), ('AltNode', ['Left', 'Right']), ('ErrorNode', ['Recover'])])


def build(w, reg):
    p = w.p
    props = ('C10', 'C11')
    w.ptr_ref |= {'pattern.GrammarNode', 'pattern.NonTermNode'}
    w.iface['pattern.Pattern'] = sorted(p.name(t) for t, ms in p.methods.items() if 'Compile' in ms and p.name(t).startswith('*pattern.'))
    pt = p.tstr['pattern.Pattern']
    D = w.D(pt)
    PS = D.sort
    GT, NT = p.tstr['pattern.GrammarNode'], p.tstr['pattern.NonTermNode']
    mt = [f['type'] for f in p.fields(GT) if f['name'] == 'Defs'][0]
    M = w.mapdt(mt)
    HS = z3.ArraySort(I, PS)
    GS = z3.ArraySort(I, M.sort)
    SS = z3.ArraySort(PS, B)
    nt = lambda k: p.tstr['*pattern.' + k]
    isk = lambda x, k: D.isbox[nt(k)](x)

    def f(x, kind, name):
        t = nt(kind)
        et = p.T(t)['elem']
        return w.D(et).acc[p.field_index(et, name)](w.D(t).val(D.unbox[t](x)))
    ref = lambda x, k: D.unbox[nt(k)](x)

    wf = SpecFn('wfw', [PS], B)
    reach = SpecFn('reach', [HS, GS, B, PS], SS)            # everything below a pattern, and itself
    rules = SpecFn('reachrules', [HS, GS, B, z3.ArraySort(BYTES.sort, B), z3.ArraySort(BYTES.sort, PS)], SS)
    wit = z3.Function('rulewit', HS, GS, B, z3.ArraySort(BYTES.sort, B), z3.ArraySort(BYTES.sort, PS), PS, BYTES.sort)
    h, g, fi = z3.Const('h', HS), z3.Const('g', GS), z3.Const('fi', B)
    x, s = z3.Const('x', PS), z3.Const('s', PS)
    dom, vals, k1 = z3.Const('dom', z3.ArraySort(BYTES.sort, B)), z3.Const('vals', z3.ArraySort(BYTES.sort, PS)), z3.Const('k1', BYTES.sort)
    R = lambda q: z3.Select(reach(h, g, fi, q), s)
    for k, subs in SUBS.items():
        body = Or(s == x, *[R(f(x, k, n)) for n in subs])
        axiom(['reach'], z3.ForAll([h, g, fi, x, s], z3.Implies(isk(x, k), R(x) == body), patterns=[multipattern(R(x), D.unbox[nt(k)](x))]), 'what is below a pattern')
        ok = And(*[Or(wf(f(x, k, n)), D.isnil(f(x, k, n)) if k == 'ErrorNode' else BoolVal(False)) for n in subs])
        axiom(['wfw'], z3.ForAll([x], z3.Implies(And(wf(x), isk(x, k)), And(Not(w.D(nt(k)).isnil(D.unbox[nt(k)](x))), ok)), patterns=[multipattern(wf(x), D.unbox[nt(k)](x))]), 'well-formed patterns')
    leafy = And(*[Not(isk(x, k)) for k in list(SUBS) + ['NonTermNode', 'GrammarNode']])
    axiom(['reach'], z3.ForAll([h, g, fi, x, s], z3.Implies(leafy, R(x) == (s == x)), patterns=[R(x)]), 'what is below a pattern')
    ntr = ref(x, 'NonTermNode')
    axiom(['reach'], z3.ForAll([h, g, fi, x, s], z3.Implies(isk(x, 'NonTermNode'), R(x) == Or(s == x, And(fi, Not(D.isnil(z3.Select(h, ntr))), R(z3.Select(h, ntr))))),
                               patterns=[multipattern(R(x), ntr)]), 'what is below a pattern')
    gr = z3.Select(g, ref(x, 'GrammarNode'))
    axiom(['reach'], z3.ForAll([h, g, fi, x, s], z3.Implies(isk(x, 'GrammarNode'), R(x) == Or(s == x, And(Not(M.isnil(gr)), z3.Select(rules(h, g, fi, M.dom(gr), M.val(gr)), s)))),
                               patterns=[multipattern(R(x), ref(x, 'GrammarNode'))]), 'what is below a pattern')
    axiom(['wfw'], z3.ForAll([x], z3.Implies(And(wf(x), isk(x, 'GrammarNode')), ref(x, 'GrammarNode') != 0), patterns=[multipattern(wf(x), ref(x, 'GrammarNode'))]), 'well-formed patterns')
    axiom(['wfw'], z3.ForAll([x], z3.Implies(And(wf(x), isk(x, 'NonTermNode')), ntr != 0), patterns=[multipattern(wf(x), ntr)]), 'well-formed patterns')
    U = lambda d: z3.Select(rules(h, g, fi, d, vals), s)
    wk = wit(h, g, fi, dom, vals, s)
    # U(dom) = the union over the rules in dom
    axiom(['reachrules'], z3.ForAll([h, g, fi, dom, vals, s], z3.Implies(U(dom), And(z3.Select(dom, wk), R(z3.Select(vals, wk)))), patterns=[U(dom)]), 'union over the rules')
    axiom(['reachrules'], z3.ForAll([h, g, fi, dom, vals, s, k1], z3.Implies(And(z3.Select(dom, k1), R(z3.Select(vals, k1))), U(dom)),
                                    patterns=[multipattern(U(dom), R(z3.Select(vals, k1)))]), 'union over the rules')
    NTN = 'pattern.NonTermNode'
    GRN = 'pattern.GrammarNode'
    r0 = z3.Int('r0')
    inl = lambda c: c.heap(NTN, 'Inlined')
    defs = lambda c: c.heap(GRN, 'Defs')

    def wf_world(c):
        gd = defs(c)
        return [('inlined patterns are well formed', z3.ForAll([r0], Or(D.isnil(z3.Select(inl(c), r0)), wf(z3.Select(inl(c), r0))), patterns=[z3.Select(inl(c), r0)])),
                ('rules are well formed', z3.ForAll([r0, k1], z3.Implies(z3.Select(M.dom(z3.Select(gd, r0)), k1), wf(z3.Select(M.val(z3.Select(gd, r0)), k1))),
                                                    patterns=[z3.Select(M.val(z3.Select(gd, r0)), k1)]))]

    # ---- WalkPattern calls its function with everything below the pattern, and with nothing else
    def called(ex, st, xx, fv, args):
        t = ex.fold(st, args[0], pt)
        ex.oblige(st, 'the function is called with well-formed patterns', Or(D.isnil(t), wf(t)), xx.get('line'), kind='pre')
        o = st.ghost['V']
        st.objs[o] = StructV([BoolVal(False), z3.Store(st.objs[o].f[1], t, BoolVal(True)), IntVal(0)])
        ex.log(st, o, ())
        return [(st, None)]
    reg.opts['opaque_call'] = called

    def vset(c):
        return c.st.objs[c.st.ghost['V']].f[1]

    def wsetup(ex, st, args):
        st.ghost['V'] = ex.newobj(st, mt, StructV([BoolVal(False), z3.Const('V0', SS), z3.K(I, BoolVal(False))]), 'map')
        for n in (NTN, GRN):
            ex.heapobj(st, 'heap:' + n)

    V0 = z3.Const('V0', SS)

    def wloop(c):
        vis = c.st.objs[c.st.ghost['visited']].f[1]
        fiv = c.followInline
        gd = z3.Select(defs(c), ref(c.p.term, 'GrammarNode'))
        q = z3.Const('q', PS)
        return [('every key is one of the rules', forall([k1], z3.Implies(z3.Select(vis, k1), And(Not(M.isnil(gd)), z3.Select(M.dom(gd), k1))), patterns=[z3.Select(vis, k1)])),
                ('called with the grammar and what is below the rules so far', forall([q], z3.Select(vset(c), q) ==
                    Or(z3.Select(V0, q), q == c.p.term, z3.Select(rules(inl(c), defs(c), fiv, vis, M.val(gd)), q)),
                    patterns=[z3.Select(vset(c), q), z3.Select(V0, q), z3.Select(rules(inl(c), defs(c), fiv, vis, M.val(gd)), q)]))]

    def walked(c):
        q = z3.Const('q', PS)
        return [('called with exactly the pattern and what is below it', forall([q], z3.Select(vset(c), q) == Or(z3.Select(V0, q), z3.Select(reach(inl(c.old), defs(c.old), c.followInline, c.p.term), q))))]
    vis_, dm_ = z3.Const('vis_', z3.ArraySort(BYTES.sort, B)), z3.Const('dm_', z3.ArraySort(BYTES.sort, B))
    reg.contract('pattern.WalkPattern', params=['p', 'followInline', 'fn'], props=props, required=False, setup=wsetup,
        requires=lambda c: [('a well-formed pattern', Or(D.isnil(c.p.term), wf(c.p.term)))] + wf_world(c), ensures=walked,
        loops={0: LoopC(inv=wloop)})

    # ---- Inline
    isnt = lambda q: isk(q, 'NonTermNode')

    def closed(hh, gd, q):
        """no non-terminal below q is still to be called"""
        z = z3.Const('z', PS)
        return forall([z], z3.Implies(And(z3.Select(reach(hh, gd, BoolVal(True), q), z), isnt(z)), Not(D.isnil(z3.Select(hh, ref(z, 'NonTermNode'))))),
                         patterns=[z3.Select(reach(hh, gd, BoolVal(True), q), z)])
    clo = SpecFn('closed', [HS, GS, PS], B)
    cw = z3.Function('closedwit', HS, GS, PS, PS)
    axiom(['closed'], forall([h, g, x], z3.Implies(Not(clo(h, g, x)), And(z3.Select(reach(h, g, BoolVal(True), x), cw(h, g, x)), isnt(cw(h, g, x)), D.isnil(z3.Select(h, ref(cw(h, g, x), 'NonTermNode'))))),
                                patterns=[clo(h, g, x)]), 'no call below a pattern')

    def changed(c, h0, h1, dm, vl, close=True):
        nm = z3.Select(c.heap(NTN, 'Name'), r0)
        rule = z3.Select(vl, nm)
        how = And(D.isnil(z3.Select(h0, r0)), z3.Select(dm, nm), z3.Select(h1, r0) == rule)
        if close:
            how = And(how, clo(h0, defs(c), rule))
        return forall([r0], Or(z3.Select(h1, r0) == z3.Select(h0, r0), how), patterns=[z3.Select(h1, r0), z3.Select(h0, r0)])

    def heap_of(ex, st, n, fld):
        return ex.heapobj(st, 'heap:' + n).f[p.field_index(p.tstr[n], fld)]

    def walk(ex, st, xx, args):
        fv = args[2]
        root = ex.fold(st, args[0], pt)
        if not isinstance(fv, FuncV):
            # the recursive calls of WalkPattern itself: its own contract
            ex.oblige(st, 'a well-formed pattern', Or(D.isnil(root), wf(root)), xx.get('line'), kind='pre')
            o = st.ghost['V']
            v0, v1, q = st.objs[o].f[1], fresh(SS, 'V'), z3.Const('q', PS)
            rs = z3.Select(reach(heap_of(ex, st, NTN, 'Inlined'), heap_of(ex, st, GRN, 'Defs'), args[1], root), q)
            st.assume(forall([q], z3.Select(v1, q) == Or(z3.Select(v0, q), rs), patterns=[z3.Select(v1, q), z3.Select(v0, q), rs]))
            st.objs[o] = StructV([BoolVal(False), v1, IntVal(0)])
            ex.log(st, o, ())
            return [(st, None)]
        ex.oblige(st, 'a well-formed pattern', Or(D.isnil(root), wf(root)), xx.get('line'), kind='pre')
        cap = set(v['name'] for v in p.funcs[fv.fn]['freevars'])
        h0, g0 = heap_of(ex, st, NTN, 'Inlined'), heap_of(ex, st, GRN, 'Defs')
        val = lambda s_, c_, n: ex.load(s_, c_[n], s_.info[c_[n].obj].t)
        if 'didInline' in cap:
            # the walk that inlines (it may meet patterns that it has just put there)
            def inv(s_, before, c_, vis):
                h1 = heap_of(ex, s_, NTN, 'Inlined')
                P_ = s_.ghost['self']
                gd = z3.Select(g0, P_)

                class C:        # what changed() needs of a context
                    heap = staticmethod(lambda a, b: heap_of(ex, s_, a, b))
                return [('only non-terminals of rules are inlined, as their rule', changed(C, h0, h1, M.dom(gd), M.val(gd))),
                        ('nothing is inlined unless it is reported', Implies(Not(val(s_, c_, 'didInline')), forall([r0], z3.Select(h1, r0) == z3.Select(h0, r0), patterns=[z3.Select(h1, r0), z3.Select(h0, r0)])))]
            return walk_rule(ex, st, xx, fv, root, D.isnil, wf, lambda q: BoolVal(True), inv, ['didInline'], [(NTN, 'Inlined')], fixed_visit=False)

        def inv(s_, before, c_, vis):
            q = z3.Const('q', PS)
            return [('a rule counts as free of calls only if all its non-terminals are inlined', Implies(val(s_, c_, 'leaf'),
                forall([q], z3.Implies(And(z3.Select(vis, q), isnt(q)), Not(D.isnil(z3.Select(h0, ref(q, 'NonTermNode'))))), patterns=[z3.Select(vis, q)])))]
        return walk_rule(ex, st, xx, fv, root, D.isnil, wf, lambda q: z3.Select(reach(h0, g0, args[1], root), q), inv, ['leaf', 'size'])
    reg.externs['pattern.WalkPattern'] = walk

    def isetup(ex, st, args):
        for n in (NTN, GRN):
            ex.heapobj(st, 'heap:' + n)
        st.ghost['self'] = ex.fold(st, args[0], nt('GrammarNode'))

    def ipre(c):
        return wf_world(c) + [('the rules are there', Not(c.p.Defs.isnil)), ('the grammar is a pattern', wf(D.box[nt('GrammarNode')](c.p.term)))]

    def iloop(c):
        sz, lv = c.l('sizes'), c.l('leaves')
        gd = c.p.Defs
        return [('the maps are there', And(Not(sz.isnil), Not(lv.isnil))),
                ('sizes of rules', forall([k1], z3.Implies(z3.Select(sz.dom, k1), z3.Select(gd.dom, k1)), patterns=[z3.Select(sz.dom, k1)])),
                ('rules marked as leaves have no call below them', forall([k1], z3.Implies(And(z3.Select(lv.dom, k1), z3.Select(lv.mval, k1)), clo(inl(c), defs(c), z3.Select(gd.mval, k1))),
                                                                             patterns=[z3.Select(lv.mval, k1)]))]

    def iens(close):
        def e(c):
            gd = c.old.p.Defs
            r = [('only non-terminals that are not inlined yet change, to the rule of their name' + (', which has no call left' if close else ''),
                  changed(c, inl(c.old), inl(c), gd.dom, gd.mval, close))]
            if close:
                r.append(('nothing changes unless it is reported', Implies(Not(c.ret), forall([r0], z3.Select(inl(c), r0) == z3.Select(inl(c.old), r0)))))
            return r
        return e
    reg.contract('(*pattern.GrammarNode).inline', params=['p'], props=props, required=False, setup=isetup, requires=ipre, ensures=iens(True),
        modifies=['heap:pattern.NonTermNode#Inlined'], loops={0: LoopC(inv=iloop)})
    reg.contract('(*pattern.GrammarNode).Inline', params=['p'], props=props, setup=isetup, requires=ipre, ensures=iens(False),
        modifies=['heap:pattern.NonTermNode#Inlined'],
        loops={0: LoopC(inv=lambda c: [('only non-terminals that were not inlined changed, to the rule of their name', changed(c, inl(c.old), inl(c), c.p.Defs.dom, c.p.Defs.mval, False))])})
