"""What WalkPattern visits, and the rule for calls of it with a closure."""
from ..dsl import *
from ..sym import *
from ..smt import multipattern, SpecFn, axiom
from ..exe import TupleV

def plain(t):
    """can stand in a pattern"""
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_EQ, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
        return False
    return all(plain(c) for c in t.children())


def forall(vs, body, patterns=()):
    ps = [t for t in patterns if not z3.is_expr(t) or plain(t)]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)

def vary(ex, st, b, tag):
    """the variable behind a captured location gets an arbitrary value"""
    inf = st.info[b.obj]
    v = ex.load(st, b, inf.t)
    if isinstance(v, MapV):
        o = st.objs[v.obj]
        st.objs[v.obj] = StructV([o.f[0], fresh(o.f[1].sort(), 'dom'), fresh(o.f[2].sort(), 'vals')])
        ex.log(st, v.obj, ())
    elif z3.is_expr(v) and v.sort() in (B, I) and not b.path:
        st.objs[b.obj] = fresh(v.sort(), tag)
        ex.log(st, b.obj, ())
    else:
        raise Unsupported('a walk that changes a variable of type %s' % ex.p.name(inf.t))


def walk_rule(ex, st, x, f, root, isnil, wf, member, inv, varying, heaps=(), fixed_visit=True):
    """WalkPattern(root, .., f): f is called for members of root, one after another.
    inv(s, before, visited) -> formulas over the captured variables of state s; visited is the set of
    members f was called with (None: unknown); before is the state at the call of WalkPattern."""
    fn = ex.p.funcs[f.fn]
    cap = {v['name']: b for v, b in zip(fn['freevars'], f.binds)}
    PS = root.sort()
    none = z3.K(PS, BoolVal(False))
    line = x.get('line')
    before = st.copy()
    for lab, g in inv(st, before, cap, none):
        ex.oblige(st, 'walk: at first, %s' % lab, g, line, kind='inv')

    def anything(s):
        for n in varying:
            if n in cap:
                vary(ex, s, cap[n], n)
        for h, fld in heaps:
            pth = (('f', ex.p.field_index(ex.p.tstr[h], fld)),)
            ex.heapobj(s, 'heap:' + h)
            ex.havoc_at(s, 'heap:' + h, pth)
            ex.log(s, 'heap:' + h, pth)
    # one call
    s1 = st.copy()
    anything(s1)
    v1 = fresh(z3.ArraySort(PS, B), 'visited')
    for lab, g in inv(s1, before, cap, v1):
        s1.assume(g)
    sub = fresh(PS, 'sub')
    s1.assume(Or(isnil(sub), wf(sub)))
    s1.assume(member(sub))
    keep = s1.copy()
    for (s2, r, _) in ex.run_fn(s1, fn, [ex.unfoldv(s1, fn['params'][0]['type'], sub)], f.binds, 1, None):
        for n, b in cap.items():
            if n not in varying:
                a0, a1 = keep.objs.get(b.obj), s2.objs.get(b.obj)
                if a0 is not a1 and not (z3.is_expr(a0) and z3.is_expr(a1) and a0.eq(a1)):
                    raise Unsupported('the function given to WalkPattern writes ' + n)
        for lab, g in inv(s2, before, cap, z3.Store(v1, sub, BoolVal(True))):
            ex.oblige(s2, 'walk: a call keeps: %s' % lab, g, line, kind='inv')
    # afterwards
    anything(st)
    v2 = fresh(z3.ArraySort(PS, B), 'visited')
    q = fresh(PS, 'q')
    if fixed_visit:
        st.assume(z3.ForAll([q], z3.Select(v2, q) == member(q), patterns=[z3.Select(v2, q), member(q)]))
    for lab, g in inv(st, before, cap, v2):
        st.assume(g)
    return [(st, None)]
