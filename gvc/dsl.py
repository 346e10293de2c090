"""Contract language: contracts are Python objects over views of Go values."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from . import smt
from .smt import I, B, fresh, BYTES, eq, is_seq, theory_of
from .sym import *
from .exe import Exec, Multi, Stop, Frame


class LoopC:
    def __init__(self, inv=None, decreases=None, iteration=None, exit=None, panics=None, mod=None, assume=None, cut=None, cutcase=None, cutinv=None, alias=None):
        self.cut, self.cutcase, self.cutinv, self.alias = cut, cutcase, cutinv, alias
        self.inv, self.decreases, self.iteration = inv, decreases, iteration
        self.exit, self.panics, self.mod, self.assume = exit, panics, mod, assume
        self.unroll = None


class Contract:
    def __init__(self, fn, params=None, props=(), requires=None, ensures=None, modifies=(), loops=None, panics=None,
                 nilable=(), consumes=(), inline=False, trusted=False, ret_own=None, globals_mod=(), append='value',
                 setup=None, returns=None, note=None, required=True, cases=None, case_loop=0, tlim=None, ghost=None, split=None, hints=()):
        self.hints = hints      # [(label, fn(ctx at return))]: proved and then used for the postconditions of that path
        self.split = split      # [(name, fn(entry context))]: every obligation is proved case by case
        self.cases, self.case_loop = cases, case_loop
        self.fn, self.params, self.props = fn, params, tuple(props)
        self.requires, self.ensures, self.modifies = requires, ensures, tuple(modifies)
        self.loops = loops or {}
        self.panics, self.nilable, self.consumes = panics, tuple(nilable), tuple(consumes)
        self.inline, self.trusted, self.ret_own = inline, trusted, ret_own
        self.append = append
        self.setup = setup
        self.returns = returns
        self.note = note
        self.required = required
        self.tlim = tlim
        self.ghost = ghost


def labelled(lst, what):
    r = []
    for i, x in enumerate(lst or []):
        if isinstance(x, tuple):
            r.append(x)
        else:
            r.append(('%s %d' % (what, i + 1), x))
    return r


class View:
    def __init__(self, ex, st, v, t):
        object.__setattr__(self, '_', (ex, st, v, t))

    def __eq__(self, o):
        ex, st, v, t = self._
        if ex.p.kind(t) == 'iface' and ex.p.name(t) not in ex.w.iface:
            return ex.fold(st, v, t) == o
        raise TypeError('comparison of a view: use .term')

    def __ne__(self, o):
        return Not(self == o)
    __hash__ = None

    @property
    def term(self):
        ex, st, v, t = self._
        return ex.fold(st, v, t)

    @property
    def val(self):
        return self._[2]

    @property
    def isnil(self):
        ex, st, v, t = self._
        k = ex.p.kind(t)
        if k == 'slice':
            if isinstance(v, SliceV):
                return v.isnil
            return ex.w.slcdt(ex.p.T(t)['elem']).isnil(v)
        if k == 'ptr':
            if ex.w.ptrmode(t) == 'ref':
                return ex.fold(st, v, t) == 0
            d = ex.w.D(t)
            if v is None:
                return BoolVal(True)
            if isinstance(v, Loc):
                return BoolVal(False)
            if isinstance(v, Hnd):
                if v.id in st.hobj:
                    return BoolVal(False)
                return d.isnil(st.hterm[v.id])
            return d.isnil(v)
        if k == 'iface':
            f = ex.fold(st, v, t)
            if ex.p.name(t) in ex.w.iface:
                return ex.w.D(t).isnil(f)
            return f == 0
        if k == 'map':
            return st.objs[v.obj].f[0] if isinstance(v, MapV) else ex.w.mapdt(t).isnil(v)
        raise AttributeError('isnil')

    # maps
    @property
    def dom(self):
        ex, st, v, t = self._
        return st.objs[v.obj].f[1] if isinstance(v, MapV) else ex.w.mapdt(t).dom(v)

    @property
    def mval(self):
        ex, st, v, t = self._
        return st.objs[v.obj].f[2] if isinstance(v, MapV) else ex.w.mapdt(t).val(v)

    @property
    def seq(self):
        ex, st, v, t = self._
        k = ex.p.kind(t)
        if k == 'array':
            f = v
            if isinstance(f, StructV):
                et = ex.p.T(t)['elem']
                return ex.w.seq(et).of([ex.fold(st, x, et) for x in f.f])
            return f
        if isinstance(v, SliceV):
            return ex.slice_data(st, v)
        return ex.w.slcdt(ex.p.T(t)['elem']).data(v)

    @property
    def th(self):
        ex, st, v, t = self._
        return ex.w.seq(ex.p.T(t)['elem'])

    @property
    def len(self):
        ex, st, v, t = self._
        if isinstance(v, SliceV):
            return v.len
        if ex.p.kind(t) == 'array':
            return IntVal(ex.p.T(t)['len'])
        return self.th.len(self.seq)

    @property
    def cap(self):
        ex, st, v, t = self._
        if isinstance(v, SliceV):
            return v.cap
        return ex.w.slcdt(ex.p.T(t)['elem']).cap(v)

    def elemptr(self, i):
        """pointer to element i of a slice"""
        ex, st, v, t = self._
        return Loc(v.obj, (('i', z3.simplify(v.off + i)),))

    def tail(self, lo):
        """the slice value s[lo:]"""
        v = self._[2]
        return SliceV(v.obj, z3.simplify(v.off + lo), z3.simplify(v.len - lo), z3.simplify(v.cap - lo), v.isnil)

    @property
    def own(self):
        ex, st, v, t = self._
        if isinstance(v, SliceV):
            return ex.arr_own(st, v.obj)
        return ex.w.slcdt(ex.p.T(t)['elem']).own(v)

    def __getitem__(self, i):
        ex, st, v, t = self._
        et = ex.p.T(t)['elem']
        if isinstance(v, StructV):
            return wrap(ex, st, v.f[i], et)
        return wrap(ex, st, ex.w.seq(et).at(self.seq, i), et)

    def __getattr__(self, name):
        ex, st, v, t = self._
        p = ex.p
        if name.startswith('__'):
            raise AttributeError(name)
        if p.kind(t) == 'ptr':
            et = p.T(t)['elem']
            fi = p.field_index(et, name)
            if fi is None:
                raise AttributeError('no field %s in %s' % (name, p.name(et)))
            ft = p.fields(et)[fi]['type']
            if isinstance(v, Loc):
                return wrap(ex, st, ex.load(st, Loc(v.obj, v.path + (('f', fi),)), ft), ft)
            if isinstance(v, Hnd):
                if v.id in st.hobj:
                    return wrap(ex, st, ex.load(st, Loc(st.hobj[v.id], (('f', fi),)), ft), ft)
                return wrap(ex, st, ex.w.D(et).acc[fi](ex.w.D(t).val(st.hterm[v.id])), ft)
            if isinstance(v, RefV):
                return wrap(ex, st, ex.load(st, Loc('heap:' + p.name(et), (('r', v.term), ('f', fi))), ft), ft)
            if z3.is_expr(v):
                if ex.w.ptrmode(t) == 'ref':
                    return wrap(ex, st, ex.load(st, Loc('heap:' + p.name(et), (('r', v), ('f', fi))), ft), ft)
                return wrap(ex, st, ex.w.D(et).acc[fi](ex.w.D(t).val(v)), ft)
            raise AttributeError('field of nil')
        fi = p.field_index(t, name)
        if fi is None:
            raise AttributeError('no field %s in %s' % (name, p.name(t)))
        ft = p.fields(t)[fi]['type']
        if isinstance(v, StructV):
            return wrap(ex, st, v.f[fi], ft)
        return wrap(ex, st, ex.w.D(t).acc[fi](v), ft)


def wrap(ex, st, v, t):
    k = ex.p.kind(t)
    if k == 'basic':
        return v
    if k == 'iface' and z3.is_expr(v) and ex.p.name(t) not in ex.w.iface:
        return v
    if isinstance(v, TupleV):
        return v
    return View(ex, st, v, t)


class Ctx:
    def __init__(self, ex, st, fr, c, entry=None, args=None, ret=None, ptypes=None, rtypes=None):
        self.ex, self.st, self.fr, self._c = ex, st, fr, c
        self._entry = entry
        self._before = None
        self._args = args if args is not None else fr.args
        self._ret = ret
        fn = ex.p.funcs.get(c.fn) if c is not None else fr.fn
        if fn is None:
            fn = fr.fn
        self._fn = fn
        names = (c.params if c is not None and c.params else None) or [p['name'] for p in fn['params']]
        self._names = names
        self._ptypes = ptypes or [p['type'] for p in fn['params']]
        self._rtypes = rtypes or (ex.p.types[fn['results']].get('elems') or [])

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in self._names:
            i = self._names.index(name)
            return wrap(self.ex, self.st, self._args[i], self._ptypes[i])
        raise AttributeError('no parameter %s of %s' % (name, self._fn['name']))

    @property
    def old(self):
        return Ctx(self.ex, self._entry, self.fr, self._c, self._entry, self._args, None, self._ptypes, self._rtypes)

    def l(self, name, k=-1):
        """current value of a local variable (k-th declaration of that name)"""
        fr = self.fr
        decls = fr.cells.get(('decls', name), ())
        if not decls:
            raise AttributeError('no local %s in %s' % (name, fr.fn['name']))
        o = fr.cells[('cell', decls[k])]
        t = self.st.info[o].t
        return wrap(self.ex, self.st, self.ex.load(self.st, Loc(o), t), t)

    def fv(self, name):
        """current value of a variable captured by this closure"""
        for v in self.fr.fn['freevars']:
            if v['name'] == name:
                loc = self.fr.regs[v['id']]
                t = self.ex.p.T(v['type'])['elem']
                return wrap(self.ex, self.st, self.ex.load(self.st, loc, t), t)
        raise AttributeError('no captured variable %s in %s' % (name, self.fr.fn['name']))

    @property
    def before(self):
        """the state in which the loop was entered"""
        b = self._before
        return Ctx(self.ex, b[0], b[1], self._c, self._entry)

    def entered(self, k):
        """the state in which loop k of this function was last entered on this path"""
        heads = sorted(self.ex.p.loops(self.fr.fn))
        b = self.fr.cells.get(('before', heads[k]))
        return None if b is None else Ctx(self.ex, b[0], b[1], self._c, self._entry)

    @property
    def idx(self):
        return self.l('rangeindex') + 1

    @property
    def ret(self):
        return wrap(self.ex, self.st, self._ret[0], self._rtypes[0])

    @property
    def rets(self):
        return [wrap(self.ex, self.st, v, t) for v, t in zip(self._ret, self._rtypes)]

    def glob(self, name):
        o = 'global:' + name
        return self.st.objs.get(o)

    def heap(self, tname, field):
        """array Int -> sort for a field of a shared type"""
        h = self.ex.heapobj(self.st, 'heap:' + tname)
        t = self.st.info['heap:' + tname].t
        return h.f[self.ex.p.field_index(t, field)]

    def alloc(self, tname):
        ho = 'heap:' + tname
        al = self.st.ghost.get(('alloc', ho))
        if al is None:
            t = self.ex.p.tstr[tname]
            al = z3.Const('alloc_' + self.ex.w.sname(t), z3.ArraySort(I, B))
        return al


def param_obj(ex, st, v):
    if isinstance(v, Hnd):
        return st.hobj.get(v.id)
    if isinstance(v, Loc) and not v.path:
        return v.obj
    return None


def modfield(ex, c, fn, spec):
    """'n.field' -> (param index, field path or None, kind)"""
    names = c.params or [p['name'] for p in fn['params']]
    if spec.startswith('global:'):
        return ('global', spec, None)
    if spec.startswith('heap:'):
        tn, _, f = spec[5:].rpartition('#')
        if not tn:
            tn, f = spec[5:], None
        return ('heap', tn, f)
    arr = spec.endswith('[]')
    s = spec[:-2] if arr else spec
    parts = s.split('.')
    i = names.index(parts[0])
    t = fn['params'][i]['type']
    path = []
    if len(parts) > 1 and parts[1] != '*':
        et = ex.p.T(t)['elem']
        for q in parts[1:]:
            fi = ex.p.field_index(et, q)
            if fi is None:
                raise Unsupported('modifies: no field ' + spec)
            path.append(('f', fi))
            et = ex.p.fields(et)[fi]['type']
    return ('arr' if arr else 'obj', i, tuple(path))


def apply_contract(ex, st, fr, x, c, args):
    fn = ex.p.funcs.get(c.fn)
    if fn is None:
        raise Unsupported('contract for missing function ' + c.fn)
    ex.used_contracts.add(c.fn)
    line = x.get('line')
    names = c.params or [p['name'] for p in fn['params']]
    if len(names) != len(args):
        raise Unsupported('parameter list of %s changed' % c.fn)
    ptypes = [p['type'] for p in fn['params']]
    # a possibly nil pointer whose object is modified: both cases
    for i, a in enumerate(args):
        if isinstance(a, Hnd) and names[i] in c.nilable and a.id not in st.hobj and (any(m.split('.')[0] == names[i] for m in c.modifies) or names[i] in c.consumes):
            isn = View(ex, st, a, ptypes[i]).isnil
            out = []
            if ex.feasible(st, isn):
                s1 = st.copy()
                s1.assume(isn)
                out += apply_contract(ex, s1, fr, x, c, args[:i] + [None] + args[i + 1:])
            if ex.feasible(st, Not(isn)):
                s2 = st.copy()
                s2.assume(Not(isn))
                ex.unfold_hnd(s2, a)
                out += apply_contract(ex, s2, fr, x, c, args)
            return out
    # non-nil receivers / owned pointers
    mods = [modfield(ex, c, fn, m) for m in c.modifies]
    for i, a in enumerate(args):
        if isinstance(a, (Hnd, RefV)) or a is None:
            if ex.p.kind(ptypes[i]) == 'ptr' and names[i] not in c.nilable:
                v = View(ex, st, a, ptypes[i])
                ex.oblige(st, 'precondition of %s: %s is not nil' % (c.fn, names[i]), Not(v.isnil), line, kind='pre')
                st.assume(Not(v.isnil))
                if a is None:
                    return []
                if isinstance(a, Hnd) and a.id not in st.hobj:
                    ex.unfold_hnd(st, a)
    objs = [param_obj(ex, st, a) for a in args]
    seen = [o for o in objs if o is not None]
    if len(seen) != len(set(seen)):
        raise Unsupported('aliased pointer arguments in call of ' + c.fn)
    pre = Ctx(ex, st, fr, c, None, args, None, ptypes)
    if c.requires:
        for lab, f in labelled(c.requires(pre), 'precondition'):
            ex.oblige(st, 'precondition of %s: %s' % (c.fn, lab), f, line, kind='pre')
            st.assume(f)
    if c.panics:
        pf = c.panics(Ctx(ex, st, fr, c, st, args, None, ptypes))
        top = ex.contracts.get(ex.top)
        if top is not None and top.panics is not None and fr.depth == 0:
            tf = top.panics(Ctx(ex, fr.cells['$entry'], fr, top, fr.cells['$entry'], fr.args))
            ex.oblige(st, 'panic of %s only when the contract allows it' % c.fn, Implies(pf, tf), line, kind='panic')
        else:
            ex.oblige(st, 'panic of %s is unreachable' % c.fn, Not(pf), line, kind='safety')
        st.assume(Not(pf))
    old = st.copy()
    for kind, i, path in mods:
        if kind == 'global':
            if i in st.objs:
                ex.havoc_at(st, i, ())
                ex.log(st, i, ())
            continue
        if kind == 'heap':
            ex.heapobj(st, 'heap:' + i)
            t = st.info['heap:' + i].t
            pth = (('f', ex.p.field_index(t, path)),) if path else ()
            ex.havoc_at(st, 'heap:' + i, pth)
            ex.log(st, 'heap:' + i, pth)
            continue
        a = args[i]
        if a is None and names[i] in c.nilable:
            continue
        if kind == 'arr' and not path:
            et = ex.arr_et(st, a.obj)
            th = ex.w.seq(et)
            content = ex.arr_content(st, a.obj)
            n = fresh(th.sort, 'out')
            st.assume(th.len(n) == a.len)
            tot = th.len(content) if not isinstance(a.obj, ArrLoc) else IntVal(ex.p.T(a.obj.t)['len'])
            new = th.cat(th.cat(th.sub(content, IntVal(0), a.off), n), th.sub(content, z3.simplify(a.off + a.len), tot))
            ex.arr_set(st, a.obj, new, line, 'written by ' + c.fn)
            continue
        if kind == 'arr':
            continue
        loc = None
        if isinstance(a, Loc):
            loc = Loc(a.obj, a.path + path)
        elif isinstance(a, Hnd):
            loc = Loc(st.hobj[a.id], path)
        elif isinstance(a, RefV):
            ho = 'heap:' + ex.p.name(a.t)
            ex.heapobj(st, ho)
            loc = Loc(ho, (('r', a.term),) + path)
        else:
            raise Unsupported('modifies on %r' % (a,))
        t = ex.p.T(ptypes[i])['elem']
        for e in path:
            t = ex.w.members(t)[e[1]][1]
        ex.store(st, loc, ex.freshv(st, t, 'm'), t, line)
    for nm in c.consumes:
        o = objs[names.index(nm)]
        if o is not None:
            st.objs[o] = Poison()
    rts = ex.p.types[fn['results']].get('elems') or []
    rets = []
    if c.returns:
        rets = c.returns(ex, st, args, old)
    else:
        for rt in rts:
            v = ex.freshv(st, rt, 'ret')
            rets.append(v)
    post = Ctx(ex, st, fr, c, old, args, rets, ptypes, rts)
    if c.ensures:
        for lab, f in labelled(c.ensures(post), 'postcondition'):
            st.assume(f)
    if len(rets) == 0:
        return [(st, None)]
    if len(rets) == 1:
        return [(st, rets[0])]
    return [(st, TupleV(rets))]


Exec.apply_contract = lambda self, st, fr, x, c, args: apply_contract(self, st, fr, x, c, args)


def verify(ex, c):
    """generate the obligations of one function against its contract"""
    p = ex.p
    fn = p.funcs.get(c.fn)
    ex.top = c.fn
    ex.obls = []
    ex.covers = []
    ex.npaths = 0
    ex.append_mode = c.append
    if fn is None:
        raise Unsupported('function %s not found' % c.fn)
    names = c.params or [q['name'] for q in fn['params']]
    if len(names) != len(fn['params']):
        raise Unsupported('parameter list of %s changed' % c.fn)
    st = State()
    args = []
    mods = [modfield(ex, c, fn, m) for m in c.modifies]
    for i, q in enumerate(fn['params']):
        v = ex.freshv(st, q['type'], names[i])
        if isinstance(v, SliceV) and any(k == 'arr' and j == i and not pth for k, j, pth in mods):
            st.info[v.obj].own = BoolVal(True)
        if p.kind(q['type']) == 'ptr' and names[i] not in c.nilable:
            st.assume(Not(View(ex, st, v, q['type']).isnil))
            if isinstance(v, Hnd):
                ex.unfold_hnd(st, v)
        args.append(v)
    if c.setup:
        c.setup(ex, st, args)
    fr0 = Frame(fn, 0)
    fr0.args = args
    pre = Ctx(ex, st, fr0, c, st, args)
    if c.requires:
        for lab, f in labelled(c.requires(pre), 'precondition'):
            st.assume(f)
    ex.covers.append((c.fn, 'precondition is satisfiable', list(st.pc)))
    entry = st.copy()
    objs0 = [param_obj(ex, st, a) for a in args]
    outs = ex.run_fn(st, fn, args, (), 0, c)
    rts = p.types[fn['results']].get('elems') or []
    covered = []
    ex.check_declared()
    for (s, rets, fr) in outs:
        post = Ctx(ex, s, fr, c, entry, args, rets, None, rts)
        lasts = [(k, v) for k, v in fr.cells.items() if k[0] == 'last']
        if ex.case and not lasts:
            continue
        covered.append(list(s.pc))
        for k, ((s0, f0), lc, loopname) in lasts:
            if lc.exit is not None:
                for lab, f in labelled(lc.exit(ex.loop_ctx(s0, f0, c, entry, k[1]), post), 'exit'):
                    ex.oblige(s, '%s: %s' % (loopname, lab), f, fn.get('line'), kind='iteration')
        for lab, hf in c.hints:
            try:
                f = hf(post)
            except (KeyError, AttributeError, Unsupported):
                continue        # a local variable this path does not have
            ex.oblige(s, 'step: ' + lab, f, fn.get('line'), kind='step')
            s.assume(f)
        if c.ensures:
            for lab, f in labelled(c.ensures(post), 'postcondition'):
                ex.oblige(s, 'postcondition: ' + lab, f, fn.get('line'), kind='post')
        # frame
        for i, o in enumerate(objs0):
            if o is None or names[i] in c.consumes:
                continue
            et = p.T(fn['params'][i]['type'])['elem']
            if any(k == 'obj' and j == i and not pth for k, j, pth in mods):
                continue
            for fi, (n, ft) in enumerate(ex.w.members(et)):
                if any(k == 'obj' and j == i and pth and pth[0][1] == fi for k, j, pth in mods):
                    continue
                a0 = entry.objs[o].f[fi]
                if isinstance(s.objs[o], Poison):
                    continue
                a1 = s.objs[o].f[fi]
                if a0 is a1:
                    continue
                t0 = ex.fold(entry, a0, ft)
                t1 = ex.fold(s, a1, ft)
                if t0.eq(t1):
                    continue
                ex.oblige(s, 'frame: %s.%s is unchanged' % (names[i], n), eq(t1, t0), fn.get('line'), kind='frame')
        for on, ov in s.objs.items():
            if isinstance(on, str) and on.startswith('heap:'):
                t = s.info[on].t
                for fi, (n, ft) in enumerate(ex.w.members(t)):
                    if any(k == 'heap' and tn == on[5:] and (f is None or f == n) for k, tn, f in mods):
                        continue
                    init = z3.Const('H0_%s_%s' % (ex.w.sname(t), n), ov.f[fi].sort())
                    if ov.f[fi].eq(init):
                        continue
                    # only freshly allocated objects may differ
                    r = z3.Int('r!frame')
                    al = z3.Const('alloc_' + ex.w.sname(t), z3.ArraySort(I, B))
                    ex.oblige(s, 'frame: %s.%s of existing objects unchanged' % (on[5:], n),
                              Implies(z3.Select(al, r), z3.Select(ov.f[fi], r) == z3.Select(init, r)), fn.get('line'), kind='frame')
            if isinstance(on, str) and on.startswith('global:'):
                pass
    if not ex.case:
        ex.covers.append((c.fn, 'some return is reachable', covered))
    if c.split:
        pre = Ctx(ex, entry, fr0, c, entry, args)
        alts = [(nm, f(pre)) for nm, f in c.split]
        obls = [Obligation(c.fn, 'the cases are exhaustive', list(entry.pc), Or(*[a for _, a in alts]), fn.get('line'), 'split')]
        for o in ex.obls:
            if o.hyps is None or z3.is_true(z3.simplify(o.goal)):
                obls.append(o)
                continue
            obls += [Obligation(o.fn, '%s (%s)' % (o.label, nm), o.hyps + [a], o.goal, o.line, o.kind) for nm, a in alts]
        return obls, ex.covers
    return ex.obls, ex.covers


def verify_safe(ex, c):
    try:
        o, cv = verify(ex, c)
        return o, cv, None
    except Unsupported as e:
        return [], [], 'unsupported: %s' % e
    except (AttributeError, KeyError, ValueError, IndexError, TypeError, z3.Z3Exception, RecursionError) as e:
        import traceback
        return [], [], 'contract does not apply to the current code: %s: %s' % (type(e).__name__, traceback.format_exc()[-1500:])
