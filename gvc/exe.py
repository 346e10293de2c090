"""Executor: walks SSA blocks, applies contracts, emits obligations."""
import z3, itertools, time, sys
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from . import smt
from .smt import I, B, fresh, BYTES, SeqTheory, eq, is_seq, theory_of
from .sym import *
from .sym import _ids

sys.setrecursionlimit(20000)


class Stop(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'regs', 'defers', 'depth', 'loops', 'args', 'cells')

    def __init__(self, fn, depth):
        self.fn, self.regs, self.defers, self.depth = fn, {}, [], depth
        self.loops = []
        self.args = []
        self.cells = {}

    def copy(self):
        f = Frame(self.fn, self.depth)
        f.regs = dict(self.regs)
        f.defers = list(self.defers)
        f.loops = list(self.loops)
        f.args = self.args
        f.cells = dict(self.cells)
        return f


class Exec:
    def __init__(self, world, contracts, externs, opts=None):
        self.w = world
        self.p = world.p
        self.contracts = contracts
        self.externs = externs
        self.opts = opts or {}
        self.obls = []
        self.quiet = 0
        self.writes = []      # stack of (mark, set) collectors
        self.npaths = 0
        self.covers = []
        self.qsolver_cache = {}
        self.inlined = set()
        self.used_contracts = set()
        self.used_externs = set()
        self.assumptions = set()
        self.top = None
        self.maxpaths = 4000
        self.append_mode = 'value'
        self.deadline = None
        self.backs = []
        self.declared = []
        self.case = None

    # ---------- values ----------
    def newobj(self, st, t, val, kind='obj', own=None, parent=None):
        oid = next(_ids)
        st.objs[oid] = val
        st.info[oid] = ObjInfo(t, kind, own, parent)
        return oid

    def const_int(self, t, v):
        if self.w.bv and self.w.is_int(t):
            return z3.BitVecVal(v, WIDTH.get(self.w.bname(t), 64))
        return IntVal(v)

    def zero(self, st, t):
        p = self.p
        T = p.T(t)
        k = T['kind']
        if k == 'basic':
            n = T['name']
            if 'bool' in n:
                return BoolVal(False)
            if 'string' in n:
                return BYTES.empty
            if 'float' in n:
                return z3.RealVal(0)
            return self.const_int(t, 0)
        if k == 'struct' or self.w.small_array(t):
            return StructV([self.zero(st, ft) for _, ft in self.w.members(t)])
        if k == 'array':
            th = self.w.seq(T['elem'])
            return th.rep(self.fold(st, self.zero(st, T['elem']), T['elem']), IntVal(T['len']))
        if k == 'slice':
            th = self.w.seq(T['elem'])
            o = self.newobj(st, T['elem'], th.empty, 'arr', BoolVal(True))
            return SliceV(o, self.lint(0), self.lint(0), self.lint(0), BoolVal(True))
        if k == 'ptr':
            m = self.w.ptrmode(t)
            if m == 'ref':
                return RefV(IntVal(0), T['elem'])
            return None
        if k == 'iface':
            return IfaceV(None, None)
        if k == 'map':
            m = self.w.mapdt(t)
            return MapV(self.newobj(st, t, StructV([BoolVal(True), z3.K(self.w.sort(T['key']), BoolVal(False)), self._defarr(t)]), 'map'))
        if k in ('func', 'chan'):
            return None
        raise Unsupported('zero of ' + p.name(t))

    def _defarr(self, t):
        T = self.p.T(t)
        return z3.K(self.w.sort(T['key']), self.defterm(T['elem']))

    def defterm(self, t):
        st = State()
        return self.fold(st, self.zero(st, t), t)

    def lint(self, v):
        return z3.BitVecVal(v, 64) if self.w.bv else IntVal(v)

    def freshv(self, st, t, hint='x'):
        """fresh value of Go type t with its type invariant assumed"""
        p = self.p
        k = p.kind(t)
        if k in ('struct',) or self.w.small_array(t):
            return StructV([self.freshv(st, ft, hint + '_' + n) for n, ft in self.w.members(t)])
        if k == 'slice':
            et = p.T(t)['elem']
            th = self.w.seq(et)
            data = fresh(th.sort, hint)
            ln, cp = fresh(self.lint(0).sort(), hint + '_len'), fresh(self.lint(0).sort(), hint + '_cap')
            nl = fresh(B, hint + '_nil')
            own = fresh(B, hint + '_own')
            o = self.newobj(st, et, data, 'arr', own)
            if self.w.bv:
                st.assume(And(0 <= ln, ln <= cp, cp <= (1 << 40)))
            else:
                st.assume(And(0 <= ln, ln <= cp, th.len(data) == cp, Implies(nl, cp == 0)))
            return SliceV(o, self.lint(0), ln, cp, nl)
        if k == 'map':
            T = p.T(t)
            m = self.w.mapdt(t)
            o = self.newobj(st, t, StructV([fresh(B, hint + '_nil'), fresh(m.dom.range(), hint + '_dom'), fresh(m.val.range(), hint + '_val')]), 'map')
            return MapV(o)
        if k == 'ptr':
            m = self.w.ptrmode(t)
            if m == 'ref':
                return RefV(fresh(I, hint), p.T(t)['elem'])
            if m == 'owned':
                return self.newhnd(st, fresh(self.w.sort(t), hint), t)
            return Loc(self.newobj(st, p.T(t)['elem'], self.freshv(st, p.T(t)['elem'], hint)))
        s = self.w.sort(t)
        v = fresh(s, hint)
        self.typeinv(st, t, v)
        return v

    def newhnd(self, st, term, t, parent=None):
        h = next(_ids)
        st.hterm[h] = term
        st.hinfo[h] = (t, parent)
        return Hnd(h)

    def typeinv(self, st, t, v):
        r = self.w.range_of(t, v)
        if r is not None and not z3.is_int_value(v):
            st.assume(r)
        if z3.is_expr(v) and is_seq(v) and self.p.kind(t) == 'array':
            st.assume(theory_of(v).len(v) == self.p.T(t)['len'])

    def unfoldv(self, st, t, term, parent=None, rw=True):
        """turn a folded term into an executor value"""
        p = self.p
        k = p.kind(t)
        if not z3.is_expr(term):
            return term
        if k == 'struct' or self.w.small_array(t):
            d = self.w.D(t)
            if z3.is_app(term) and term.decl().eq(d.mk):
                subs = [term.arg(i) for i in range(term.num_args())]
            else:
                subs = [a(term) for a in d.acc]
            r = StructV(subs)
            return r
        if k == 'slice':
            et = p.T(t)['elem']
            d = self.w.slcdt(et)
            th = self.w.seq(et)
            if z3.is_app(term) and term.decl().eq(d.mk):
                data, cp, own, nl = [term.arg(i) for i in range(4)]
            else:
                data, cp, own, nl = d.data(term), d.cap(term), d.own(term), d.isnil(term)
            # backing array: the visible bytes followed by unknown spare capacity
            ln = th.len(data)
            spare = fresh(th.sort, 'spare')
            st.assume(And(th.len(spare) == cp - ln, cp >= ln, Implies(nl, cp == 0)))
            o = self.newobj(st, et, th.cat(data, spare), 'arr', own if rw else BoolVal(False), parent)
            st.ghost[('data', o)] = (data, ln)
            return SliceV(o, self.lint(0), ln, cp, nl)
        if k == 'ptr':
            m = self.w.ptrmode(t)
            if m == 'owned':
                d = self.w.D(t)
                return self.newhnd(st, term, t, parent if rw else 'ro')
            if m == 'ref':
                return RefV(term, p.T(t)['elem'])
            raise Unsupported('unfold pointer ' + p.name(t))
        if k == 'map':
            T = p.T(t)
            m = self.w.mapdt(t)
            return MapV(self.newobj(st, t, StructV([m.isnil(term), m.dom(term), m.val(term)]), 'map', None, parent))
        self.typeinv(st, t, term)
        return term

    def fold(self, st, v, t, seen=None):
        p = self.p
        if z3.is_expr(v):
            return v
        k = p.kind(t)
        if seen is None:
            seen = set()
        if isinstance(v, Poison):
            raise Unsupported('use of consumed value')
        if isinstance(v, StructV):
            d = self.w.D(t)
            ms = self.w.members(t)
            args = [self.fold(st, x, ft, seen) for x, (_, ft) in zip(v.f, ms)]
            # eta: mk(acc0 x, acc1 x, ...) = x
            if args:
                base = None
                okk = True
                for a, acc in zip(args, d.acc):
                    if z3.is_app(a) and a.num_args() == 1 and a.decl().eq(acc):
                        if base is None:
                            base = a.arg(0)
                        elif not base.eq(a.arg(0)):
                            okk = False
                            break
                    else:
                        okk = False
                        break
                if okk and base is not None:
                    return base
            return d.mk(*args)
        if k == 'slice':
            et = p.T(t)['elem']
            d = self.w.slcdt(et)
            own = self.arr_own(st, v.obj)
            data = self.slice_data(st, v)
            # eta
            if z3.is_app(data) and data.num_args() == 1 and data.decl().eq(d.data):
                b = data.arg(0)
                if z3.is_app(v.cap) and v.cap.eq(d.cap(b)) and own.eq(d.own(b)) and v.isnil.eq(d.isnil(b)):
                    return b
            return d.mk(data, v.cap, own, v.isnil)
        if k == 'ptr':
            m = self.w.ptrmode(t)
            if m == 'owned':
                d = self.w.D(t)
                if v is None:
                    return d.nil
                if isinstance(v, Hnd):
                    o = st.hobj.get(v.id)
                    if o is None:
                        return st.hterm[v.id]
                elif isinstance(v, Loc):
                    o = v.obj
                    if v.path:
                        et = p.T(t)['elem']
                        return d.ref(self.fold(st, self.load(st, v, et), et, seen))     # (a copy of what it points at)
                else:
                    raise Unsupported('fold ptr %r' % (v,))
                if o in seen:
                    raise Unsupported('shared structure in owned tree')
                seen.add(o)
                inner = self.fold(st, st.objs[o], p.T(t)['elem'], seen)
                if isinstance(v, Hnd):
                    ht = st.hterm[v.id]
                    if z3.is_app(inner) and inner.num_args() == 1 and inner.decl().eq(d.val) and inner.arg(0).eq(ht):
                        return ht
                return d.ref(inner)
            if m == 'ref':
                if v is None:
                    return IntVal(0)
                if isinstance(v, RefV):
                    return v.term
                raise Unsupported('non-reference pointer folded as reference: ' + p.name(t))
            if isinstance(v, Loc):
                return IntVal(v.obj)
            if v is None:
                return IntVal(0)
        if k == 'iface':
            if isinstance(v, IfaceV):
                if p.name(t) in self.w.iface:
                    d = self.w.D(t)
                    if v.t is None:
                        return d.nil
                    if v.t in d.box:
                        return d.box[v.t](self.fold(st, v.v, v.t, seen))
                    if v.memo is None:
                        v.memo = fresh(d.sort, 'otheriface')
                        st.assume(Not(d.isnil(v.memo)))
                        for ct in d.isbox:
                            st.assume(Not(d.isbox[ct](v.memo)))
                    return v.memo
                if v.t is None:
                    return IntVal(0)
                if isinstance(v.v, RefV):
                    return v.v.term
                if v.memo is None:
                    v.memo = fresh(I, 'iface')
                st.assume(v.memo != 0)
                return v.memo
        if k == 'map':
            d = self.w.mapdt(t)
            o = st.objs[v.obj]
            return d.mk(*o.f)
        if k == 'func' or k == 'chan':
            return IntVal(0) if v is None else IntVal(hash(str(v)) % 100000 + 1)
        if v is None:
            return IntVal(0)
        raise Unsupported('fold %s of type %s' % (type(v).__name__, p.name(t)))

    # backing arrays: an array object, or an array stored inside another object
    def arr_et(self, st, obj):
        if isinstance(obj, ArrLoc):
            return self.p.T(obj.t)['elem']
        return st.info[obj].t

    def arr_content(self, st, obj):
        if isinstance(obj, ArrLoc):
            v = self.load(st, obj.loc, obj.t)
            if isinstance(v, StructV):
                et = self.p.T(obj.t)['elem']
                return self.w.seq(et).of([self.fold(st, x, et) for x in v.f])
            return v
        return st.objs[obj]

    def arr_own(self, st, obj):
        if isinstance(obj, ArrLoc):
            return BoolVal(True)
        return st.ghost.get(('own', obj), st.info[obj].own)

    def arr_set(self, st, obj, new, line=None, reason='slice element'):
        if isinstance(obj, ArrLoc):
            if self.w.small_array(obj.t):
                th = self.w.seq(self.p.T(obj.t)['elem'])
                new = StructV([th.at(new, IntVal(i)) for i in range(self.p.T(obj.t)['len'])])
            self.store(st, obj.loc, new, obj.t, line)
        else:
            self.arrwrite(st, obj, new, line, reason)

    def slice_data(self, st, v):
        et = self.arr_et(st, v.obj)
        th = self.w.seq(et)
        content = self.arr_content(st, v.obj)
        if isinstance(v.obj, ArrLoc):
            return th.sub(content, v.off, z3.simplify(v.off + v.len))
        g = st.ghost.get(('data', v.obj))
        if self.w.bv:
            return content
        if g is not None and z3.is_app(content) and content.num_args() == 2 and content.arg(0).eq(g[0]) and content.decl().eq(th.fns()['cat']):
            # unmodified since unfolding
            if v.off.eq(IntVal(0)) and v.len.eq(g[1]):
                return g[0]
        hi = z3.simplify(v.off + v.len)
        return th.sub(content, v.off, hi)

    # ---------- memory ----------
    def log(self, st, obj, path):
        if not self.writes:
            return
        pp = []
        for e in path:
            if e[0] != 'f':
                break
            pp.append(e)
        pp = tuple(pp)
        o = obj
        while o is not None:
            for mark, s, decl in self.writes:
                if decl and ('active', mark) not in st.ghost:
                    continue
                if not isinstance(o, int) or o < mark:
                    s.add((o, pp))
            inf = st.info.get(o)
            par = inf.parent if inf else None
            if par is None or par == 'ro':
                break
            if isinstance(par, tuple):
                o, pp = par
                pp = tuple(e for e in pp if e[0] == 'f')
            else:
                break

    def deref(self, st, v, what, line):
        """pointer value -> Loc, with nil obligation"""
        if isinstance(v, Loc):
            return v
        if isinstance(v, Hnd):
            o = st.hobj.get(v.id)
            if o is None:
                t, parent = st.hinfo[v.id]
                d = self.w.D(t)
                term = st.hterm[v.id]
                self.oblige(st, 'nil-dereference (%s)' % what, Not(d.isnil(term)), line, kind='safety')
                st.assume(Not(d.isnil(term)))
                o = self.unfold_hnd(st, v)
            return Loc(o)
        if isinstance(v, RefV):
            self.oblige(st, 'nil-dereference (%s)' % what, v.term != 0, line, kind='safety')
            st.assume(v.term != 0)
            return Loc('heap:' + self.p.name(v.t), (('r', v.term),))
        if v is None:
            self.oblige(st, 'nil-dereference (%s)' % what, BoolVal(False), line, kind='safety')
            raise Stop()
        raise Unsupported('deref of %r' % (v,))

    def unfold_hnd(self, st, v):
        o = st.hobj.get(v.id)
        if o is not None:
            return o
        t, parent = st.hinfo[v.id]
        d = self.w.D(t)
        term = st.hterm[v.id]
        et = self.p.T(t)['elem']
        inner = term.arg(0) if (z3.is_app(term) and term.decl().eq(d.ref)) else d.val(term)
        o = self.newobj(st, et, self.unfoldv(st, et, inner), 'obj', None, parent)
        if parent == 'ro':
            st.info[o].kind = 'ro'
        st.hobj[v.id] = o
        return o

    def heapobj(self, st, name):
        if name not in st.objs:
            tn = name[5:]
            t = self.p.tstr[tn]
            fs = []
            for n, ft in self.w.members(t):
                fs.append(z3.Const('H0_%s_%s' % (self.w.sname(t), n), z3.ArraySort(I, self.w.sort(ft))))
            st.objs[name] = StructV(fs)
            st.info[name] = ObjInfo(t, 'heap')
        return st.objs[name]

    def load(self, st, loc, t, line=None):
        o = loc.obj
        if isinstance(o, str) and o.startswith('heap:'):
            h = self.heapobj(st, o)
            ref = loc.path[0][1]
            ht = st.info[o].t
            if len(loc.path) == 1:
                return StructV([self.unfoldv(st, ft, z3.Select(a, ref), None, False) for a, (_, ft) in zip(h.f, self.w.members(ht))])
            fi = loc.path[1][1]
            ft = self.w.members(ht)[fi][1]
            cur = z3.Select(h.f[fi], ref)
            return self.getpath(st, cur, ft, loc.path[2:], None, None)
        if isinstance(o, str) and o.startswith('global:'):
            self.globalobj(st, o, t if not loc.path else None)
        if o not in st.objs:
            raise Unsupported('unknown object %r' % (o,))
        inf = st.info[o]
        return self.getpath(st, st.objs[o], inf.t, loc.path, o, (), inf.kind)

    def globalobj(self, st, o, t):
        if o in st.objs:
            return
        if t is None:
            raise Unsupported('global ' + o)
        g = self.opts.get('globals', {}).get(o[7:])
        if g is not None:
            v = g(self, st, t)
        elif self.p.kind(t) in ('iface',) and self.p.name(t) not in self.w.iface:
            v = z3.Const('G_' + o[7:], I)
            st.assume(v > 0)
        else:
            v = z3.Const('G_' + o[7:], self.w.sort(t))
            v = self.unfoldv(st, t, v) if not z3.is_expr(v) or self.p.kind(t) in ('struct', 'slice', 'map') else v
        st.objs[o] = v
        st.info[o] = ObjInfo(t, 'obj')

    def getpath(self, st, v, t, path, obj, done, okind='obj'):
        """read v.path; materialises folded components and writes them back"""
        w = self.w
        if okind == 'arr' and done == () and path:
            # contents of a slice backing array: v is a Seq term, t the element type
            e = path[0]
            th = w.seq(t)
            if w.bv:
                el = th.at(v, e[1])
            else:
                el = th.at(v, e[1])
            return self.getpath(st, el, t, path[1:], None, None)
        if not path:
            if z3.is_expr(v):
                k = self.p.kind(t)
                if k in ('struct', 'slice', 'ptr', 'map') or w.small_array(t) or self.p.kind(t) == 'basic':
                    rw = obj is not None and st.info[obj].kind != 'ro'
                    nv = self.unfoldv(st, t, v, (obj, done) if obj is not None else None, rw)
                    if obj is not None and k != 'basic' and nv is not v:
                        self.setpath_raw(st, obj, done, nv)
                    return nv
            elif isinstance(v, StructV):
                # materialise nested fields so copies share identity-bearing parts
                fs = []
                ch = False
                for i, (x, (_, ft)) in enumerate(zip(v.f, w.members(t))):
                    if z3.is_expr(x) or isinstance(x, StructV):
                        nx = self.getpath(st, x, ft, (), obj, (done + (('f', i),)) if obj is not None else None)
                        ch = ch or nx is not x
                        fs.append(nx)
                    else:
                        fs.append(x)
                return StructV(fs) if ch else v
            return v
        e = path[0]
        if e[0] == 'f':
            if z3.is_expr(v):
                v = self.unfoldv(st, t, v)
                if obj is not None:
                    self.setpath_raw(st, obj, done, v)
            ft = w.members(t)[e[1]][1]
            return self.getpath(st, v.f[e[1]], ft, path[1:], obj, done + (e,) if obj is not None else None)
        if e[0] == 'i':
            et = self.p.T(t)['elem']
            if w.small_array(t):
                if z3.is_expr(v):
                    v = self.unfoldv(st, t, v)
                r = None
                vals = [self.fold(st, x, et) for x in v.f]
                iv = z3.simplify(e[1])
                if z3.is_int_value(iv) or z3.is_bv_value(iv):
                    k = iv.as_long()
                    if k < len(vals):
                        return self.getpath(st, vals[k], et, path[1:], None, None)
                r = vals[-1]
                for j in range(len(vals) - 2, -1, -1):
                    r = If(e[1] == j, vals[j], r)
                return self.getpath(st, r, et, path[1:], None, None)
            th = w.seq(et)
            return self.getpath(st, th.at(v, e[1]), et, path[1:], None, None)
        raise Unsupported('path')

    def setpath_raw(self, st, obj, path, nv):
        st.objs[obj] = self._set(st, st.objs[obj], st.info[obj].t, path, nv)

    def _set(self, st, v, t, path, nv, arr=False):
        w = self.w
        if arr:
            th = w.seq(t)
            e = path[0]
            if len(path) == 1:
                x = self.fold(st, nv, t)
            else:
                x = self.fold(st, self._set(st, th.at(v, e[1]), t, path[1:], nv), t)
            return th.upd(v, e[1], x)
        if not path:
            return nv
        e = path[0]
        if e[0] == 'f':
            if z3.is_expr(v):
                v = self.unfoldv(st, t, v)
            ft = w.members(t)[e[1]][1]
            return v.set(e[1], self._set(st, v.f[e[1]], ft, path[1:], nv))
        et = self.p.T(t)['elem']
        if w.small_array(t):
            if z3.is_expr(v):
                v = self.unfoldv(st, t, v)
            iv = z3.simplify(e[1])
            if z3.is_int_value(iv) or z3.is_bv_value(iv):
                k = iv.as_long()
                return v.set(k, self._set(st, v.f[k], et, path[1:], nv))
            fs = []
            for j, x in enumerate(v.f):
                y = self.fold(st, self._set(st, x, et, path[1:], nv), et)
                fs.append(If(e[1] == j, y, self.fold(st, x, et)))
            return StructV(fs)
        th = w.seq(et)
        if len(path) == 1:
            x = self.fold(st, nv, et)
        else:
            x = self.fold(st, self._set(st, th.at(v, e[1]), et, path[1:], nv), et)
        return th.upd(v, e[1], x)

    def store(self, st, loc, nv, t, line=None):
        o = loc.obj
        if isinstance(o, str) and o.startswith('heap:'):
            h = self.heapobj(st, o)
            ref = loc.path[0][1]
            ht = st.info[o].t
            ms = self.w.members(ht)
            if len(loc.path) == 1:
                fs = [z3.Store(a, ref, self.fold(st, x, ft)) for a, x, (_, ft) in zip(h.f, nv.f, ms)]
                st.objs[o] = StructV(fs)
                self.log(st, o, ())
                return
            fi = loc.path[1][1]
            ft = ms[fi][1]
            if len(loc.path) == 2:
                x = self.fold(st, nv, ft)
            else:
                x = self.fold(st, self._set(st, z3.Select(h.f[fi], ref), ft, loc.path[2:], nv), ft)
            st.objs[o] = h.set(fi, z3.Store(h.f[fi], ref, x))
            self.log(st, o, (('f', fi),))
            return
        if isinstance(o, str) and o.startswith('global:'):
            self.globalobj(st, o, t if not loc.path else None)
        inf = st.info[o]
        if inf.kind == 'ro':
            raise Unsupported('write through a read-only unfolding')
        self.log(st, o, loc.path)
        if inf.kind == 'arr':
            th = self.w.seq(inf.t)
            new = self._set(st, st.objs[o], inf.t, loc.path, nv, True)
            self.arrwrite(st, o, new, line)
            return
        st.objs[o] = self._set(st, st.objs[o], inf.t, loc.path, nv)

    def arrwrite(self, st, o, new, line, reason='slice element'):
        """replace the content of a backing array; legal if the array is
        exclusively ours, or if nothing actually changes"""
        inf = st.info[o]
        own = inf.own
        own = st.ghost.get(('own', o), own)
        if not z3.is_true(own):
            old = st.objs[o]
            self.oblige(st, 'shared-array-not-overwritten (%s)' % reason, Or(own, eq(new, old)), line, kind='frame')
        st.objs[o] = new
        self.log(st, o, ())

    # ---------- obligations ----------
    def oblige(self, st, label, goal, line=None, kind='post'):
        if goal is True:
            goal = BoolVal(True)
        if goal is False:
            goal = BoolVal(False)
        if self.quiet or (self.case and not st.ghost.get('caseon')):
            # (the part before the loop belongs to the first case)
            return
        if kind == 'safety' and z3.is_true(z3.simplify(goal)):
            self.obls.append(Obligation(self.top, label, None, BoolVal(True), line, kind))
            return
        self.obls.append(Obligation(self.top, label, list(st.pc), goal, line, kind))

    _inc = None

    def feasible(self, st, extra=None):
        """is the path condition satisfiable? (an incremental solver keeps the
        prefix shared with the previous question)"""
        if Exec._inc is None or Exec._inc[2] > 400:
            s = z3.Solver()
            s.set('timeout', 300)
            Exec._inc = [s, [], 0]
        inc = Exec._inc
        s, have = inc[0], inc[1]
        inc[2] += 1
        want = [f for f in st.pc]
        n = 0
        while n < len(have) and n < len(want) and have[n].eq(want[n]):
            n += 1
        if n < len(have):
            s.pop(len(have) - n)
            del have[n:]
        for f in want[n:]:
            s.push()
            have.append(f)
            if not smt.has_var(f):
                s.add(f)
            # sequence lengths are non-negative
            s.add(*self.lenfacts1c(f))
        if extra is None:
            return s.check() != z3.unsat
        s.push()
        s.add(extra, *self.lenfacts1c(extra))
        r = s.check()
        s.pop()
        return r != z3.unsat

    def lenfacts1c(self, t):
        k = t.get_id()
        c = Exec._lf.get(k)
        if c is None:
            c = Exec._lf[k] = (t, self.lenfacts1(t))
        return [f for _, f in c[1]]

    _lf = {}

    def lenfacts1(self, t0):
        seen = set()
        facts = []
        stack = [t0]
        while stack:
            t = stack.pop()
            if t.get_id() in seen or z3.is_quantifier(t) or z3.is_var(t):
                continue
            seen.add(t.get_id())
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() == 1 and d.name().startswith('len_') and not smt.has_var(t):
                facts.append(t >= 0)
                a = t.arg(0)
                th = theory_of(a)
                f = th.fns()
                if z3.is_app(a):
                    if a.decl().eq(f['sub']):
                        s, i, j = a.children()
                        facts.append(Implies(And(0 <= i, i <= j, j <= f['len'](s)), t == j - i))
                        if f['len'](s).get_id() not in seen:
                            stack.append(f['len'](s))
                    elif a.decl().eq(f['cat']):
                        x, y = a.children()
                        facts.append(t == th.len(x) + th.len(y))
                        stack += [f['len'](x), f['len'](y)]
                    elif a.decl().eq(f['upd']):
                        facts.append(t == th.len(a.arg(0)))
                        stack.append(f['len'](a.arg(0)))
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() == 2 and d.name().startswith('at_') and not smt.has_var(t):
                a, k = t.children()
                th = theory_of(a)
                f = th.fns()
                if th.ix is None and z3.is_app(a) and a.num_args() and a.decl().eq(f['cat']):
                    x, y = a.children()
                    l = f['len'](x)
                    t1, t2 = f['at'](x, k), f['at'](y, k - l)
                    facts.append(Implies(And(0 <= k, k < l), t == t1))
                    facts.append(Implies(k >= l, t == t2))
                    stack += [t1, t2, l]
                elif th.ix is None and z3.is_app(a) and a.num_args() and a.decl().eq(f['sub']):
                    x, i, j = a.children()
                    t1 = f['at'](x, k + i)
                    facts.append(Implies(And(0 <= i, i <= j, j <= f['len'](x), 0 <= k, k < j - i), t == t1))
                    stack += [t1]
                elif th.ix is None and z3.is_app(a) and a.num_args() and a.decl().eq(f['upd']):
                    x, i, v = a.children()
                    t1 = f['at'](x, k)
                    facts.append(Implies(k != i, t == t1))
                    facts.append(Implies(And(k == i, 0 <= i, i < f['len'](x)), t == v))
                    stack += [t1]
            stack.extend(t.children())
        return [(f.get_id(), f) for f in facts]

    # ---------- operands ----------
    def val(self, st, fr, o):
        if o is None:
            return None
        k = o['k']
        if k == 'reg':
            return fr.regs[o['n']]
        if k == 'const':
            return self.constv(st, o)
        if k == 'global':
            return Loc('global:' + o['n'])
        if k == 'func':
            return FuncV(o['n'])
        if k == 'builtin':
            return FuncV('builtin:' + o['n'])
        raise Unsupported('operand ' + k)

    def constv(self, st, o):
        t = o['t']
        v = o['v']
        if v is None:
            return self.zero(st, t)
        if isinstance(v, bool):
            return BoolVal(v)
        if o.get('int'):
            if 'float' in (self.p.T(t).get('name') or ''):
                return z3.RealVal(v)
            return self.const_int(t, int(v))
        if o.get('string'):
            return self.strconst(st, v)
        if o.get('float'):
            return z3.RealVal(v)
        raise Unsupported('const')

    def strconst(self, st, bs):
        if len(bs) <= 24:
            return BYTES.of([IntVal(x) for x in bs])
        c = z3.Const('str_%s' % bytes(bs).hex(), BYTES.sort)
        st.assume(BYTES.len(c) == len(bs))
        return c

    def otype(self, fr, o):
        return o['t']

    # ---------- running ----------
    def run_fn(self, st, fn, args, binds=(), depth=0, contract=None):
        """execute a body; returns list of (state, [results])"""
        fr = Frame(fn, depth)
        fr.args = list(args)
        fr.cells['$entry'] = st.copy()
        for prm, a in zip(fn['params'], args):
            fr.regs[prm['id']] = a
        for fv, a in zip(fn['freevars'], binds):
            fr.regs[fv['id']] = a
        out = []
        self.run_blocks(st, fr, 0, None, out, contract)
        return out

    def run_blocks(self, st, fr, b, pred, out, contract, stopset=None):
        work = [(st, fr, b, pred, 0)]
        while work:
            st, fr, b, pred, idx = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of symbolic execution')
            try:
                self.step_block(st, fr, b, pred, idx, out, contract, work, stopset)
            except Stop:
                pass

    def goto(self, st, fr, b, succ, work, contract, stopset, out):
        loops = self.p.loops(fr.fn)
        # leaving loops
        while fr.loops and succ not in loops[fr.loops[-1][0]]:
            fr = fr.copy()
            st.ghost.pop(('active', fr.cells.get(('mark', fr.loops[-1][0]))), None)
            fr.loops = fr.loops[:-1]
        if stopset is not None and succ not in stopset[0]:
            return  # discovery run left the loop
        if succ in loops:
            active = [l for l in fr.loops if l[0] == succ]
            if active:
                self.loop_back(st, fr, b, succ, active[-1], contract)
                return
            for fr, st, s2 in self.loop_enter(st, fr, b, succ, contract, work, stopset, out):
                work.append((st, fr, s2, None, 0))
            return
        work.append((st, fr, succ, b, 0))

    def lc(self, fr, succ, contract):
        """loop contract for this loop"""
        c = self.contracts.get(fr.fn['name']) if (contract is None or contract.fn != fr.fn['name']) else contract
        loops = sorted(self.p.loops(fr.fn))
        k = loops.index(succ)
        if c is not None and k in c.loops:
            return c, c.loops[k], k
        return c, None, k

    def autoinv(self, st, fr, succ):
        """range loops: index between -1 and len-1"""
        blk = fr.fn['blocks'][succ]
        res = []
        ri = fr.cells.get('rangeindex@%d' % succ)
        for ins in blk['instrs']:
            if ins['op'] == 'store' and ins['addr']['k'] == 'reg':
                a = fr.regs.get(ins['addr']['n'])
                nm = fr.cells.get(('reg', ins['addr']['n']))
                if nm == 'rangeindex' and isinstance(a, Loc):
                    for j in blk['instrs']:
                        if j['op'] == 'binop' and j['tok'] == '<' and j['y']['k'] in ('reg', 'const'):
                            bound = fr.regs.get(j['y'].get('n')) if j['y']['k'] == 'reg' else self.val(st, fr, j['y'])
                            if bound is not None:
                                v = st.objs[a.obj]
                                res.append(('range index bounds', And(v >= -1, Or(v < bound, v == -1))))
        return res

    def loop_ctx(self, st, fr, contract, entry_st, succ=None, first=False):
        from .dsl import Ctx
        c = Ctx(self, st, fr, contract, entry=entry_st)
        if succ is not None:
            c._before = (st, fr) if first else fr.cells.get(('before', succ))
        return c

    def declared_mod(self, st, fr, contract, lc, succ=None):
        from .dsl import param_obj
        c = self.loop_ctx(st, fr, contract, self.entry_of(fr))
        out = {(o, ()) for k, o in fr.cells.items() if isinstance(k, tuple) and k[0] == 'anon'}    # results
        for b in (self.p.loops(fr.fn)[succ] if succ is not None else ()):      # plain local variables assigned in the loop
            for ins in fr.fn['blocks'][b]['instrs']:
                if ins['op'] == 'store' and ins['addr']['k'] == 'reg' and ('cell', ins['addr']['n']) in fr.cells:
                    out.add((fr.cells[('cell', ins['addr']['n'])], ()))
        for spec in lc.mod:
            if spec.startswith('local:'):
                for d in fr.cells.get(('decls', spec[6:]), ()):
                    out.add((fr.cells[('cell', d)], ()))
                continue
            if spec.startswith('heap:'):
                tn, _, f = spec.partition('#')
                self.heapobj(st, tn)
                out.add((tn, (('f', self.p.field_index(st.info[tn].t, f)),) if f else ()))
                continue
            if spec.startswith('global:'):
                out.add((spec, ()))
                continue
            nm, _, f = spec.partition('.')
            i = c._names.index(nm)
            o = param_obj(self, st, fr.args[i])
            if f == '*' or not f:
                out.add((o, ()))
            else:
                out.add((o, (('f', self.p.field_index(st.info[o].t, f)),)))
        return out

    def check_declared(self):
        for loopname, mark, ws, mod, known, names in self.declared:
            for o, p in ws:
                if not isinstance(o, str) and o not in known:
                    continue
                if not any(o == o2 and p[:len(p2)] == p2 for o2, p2 in mod):
                    raise Unsupported('%s writes something its contract does not declare: %s %s' % (loopname, names.get(o, o), p))

    def peekpath(self, st, key):
        o, p = key
        if o not in st.objs:
            return None
        v = st.objs[o]
        for e in p:
            if not isinstance(v, StructV):
                return None
            v = v.f[e[1]]
        return v

    def inv_list(self, st, fr, lc, contract, succ=None, first=False):
        c = self.loop_ctx(st, fr, contract, self.entry_of(fr), succ, first)
        r = []
        if lc is not None and lc.inv is not None:
            for i, x in enumerate(lc.inv(c)):
                if isinstance(x, tuple):
                    r.append(x)
                else:
                    r.append(('invariant %d' % (i + 1), x))
        return r

    def entry_of(self, fr):
        return fr.cells.get('$entry')

    def loop_enter(self, st, fr, b, succ, contract, work, stopset, out):
        c, lc, k = self.lc(fr, succ, contract)
        loopname = 'loop %d of %s' % (k, fr.fn['name'])
        fr = fr.copy()
        if lc is not None and lc.cut is not None and self.case is not None and fr.depth == 0 and c.cases[self.case][0] != lc.cutcase:
            # the part from here on is the case lc.cutcase, for every state that satisfies these clauses
            heads = sorted(self.p.loops(fr.fn))
            last = fr.cells.get(('last', heads[c.case_loop]))
            if last is None:
                raise Unsupported('%s entered from outside the main loop' % loopname)
            if not self.quiet:
                c0 = self.loop_ctx(last[0][0], last[0][1], c, self.entry_of(fr))
                c1 = self.loop_ctx(st, fr, c, self.entry_of(fr))
                for lab, f in lc.cutinv(c1) + lc.cut(c0, c1):
                    self.oblige(st, '%s: %s' % (loopname, lab), f, kind='iteration')
            return []
        if lc is not None and lc.unroll:
            # bounded unrolling is only used where complete (operand width)
            raise Unsupported('unroll')
        for lab, f in self.alias_clauses(st, fr, lc, c) + self.autoinv(st, fr, succ) + self.inv_list(st, fr, lc, c, succ, first=True):
            self.oblige(st, '%s: %s holds initially' % (loopname, lab), f, kind='invariant')
        fr.cells[('before', succ)] = (st.copy(), fr.copy())
        # discover what the loop modifies
        body = self.p.loops(fr.fn)[succ]
        hard = set()
        soft = {}
        if lc is not None and lc.mod is not None:
            # declared: every write during the run is checked against it at the end
            mod = self.declared_mod(st, fr, c, lc, succ)
            mark = next(_ids)
            ws = set()
            self.writes.append((mark, ws, True))
            fr.cells[('mark', succ)] = mark
            self.declared.append((loopname, mark, ws, mod, set(st.objs), {**{k: (i.kind, self.p.types[i.t]['str'] if i.t is not None else None) for k, i in st.info.items()}, **{v: k for k, v in fr.cells.items() if not isinstance(v, (tuple, State))}}))
        else:
            mod = set()
            for rnd in range(14):
                s2 = st.copy()
                f2 = fr.copy()
                mark = next(_ids)
                soft = self.havoc(s2, mod, hard)
                starts = []
                for s3, f3 in self.alias_variants(s2, f2, lc, c):
                    for lab, f in self.autoinv(s3, f3, succ) + self.inv_list(s3, f3, lc, c, succ):
                        s3.assume(f)
                    f3.loops = f3.loops + [(succ, None, None)]
                    starts.append((s3, f3))
                ws = set()
                self.writes.append((mark, ws, False))
                self.quiet += 1
                self.backs.append((fr.fn['name'], succ, soft, hard))
                nh = len(hard)
                try:
                    for s3, f3 in starts:
                        self.run_blocks(s3, f3, succ, None, [], contract, (body,))
                finally:
                    self.quiet -= 1
                    self.writes.pop()
                    self.backs.pop()
                ws = {(o, p) for (o, p) in ws if o in st.objs or (isinstance(o, str))}
                new = self.norm_mod(mod | ws)
                if new == mod and len(hard) == nh:
                    break
                mod = new
            else:
                raise Unsupported('loop modification set does not stabilise in ' + loopname)
        for o, p in mod:
            self.log(st, o, p)
        if ('mark', succ) in fr.cells:
            st.ghost[('active', fr.cells[('mark', succ)])] = True
        self.havoc(st, mod, hard)
        res = []
        for s, f in self.alias_variants(st, fr, lc, c):
            res += self.loop_start(s, f, lc, c, k, succ, loopname, contract, work, stopset, out)
        return res

    def local_cell(self, fr, name):
        return fr.cells[('cell', fr.cells[('decls', name)][-1])]

    def alias_variants(self, st, fr, lc, c):
        """what a pointer variable points to at the loop head: one state per possibility"""
        if lc is None or not lc.alias:
            return [(st, fr)]
        todo = [(st, fr)]
        for name, fn in lc.alias.items():
            nxt = []
            for s, f in todo:
                for cond, v in fn(self.loop_ctx(s, f, c, self.entry_of(f))):
                    s2, f2 = s.copy(), f.copy()
                    s2.assume(cond)
                    s2.objs[self.local_cell(f2, name)] = v
                    if self.feasible(s2):
                        nxt.append((s2, f2))
            todo = nxt
        return todo

    def alias_clauses(self, st, fr, lc, c):
        r = []
        for name, fn in (lc.alias.items() if lc is not None and lc.alias else ()):
            v = st.objs[self.local_cell(fr, name)]
            alts = []
            for cond, u in fn(self.loop_ctx(st, fr, c, self.entry_of(fr))):
                if v is None and u is None:
                    alts.append(cond)
                elif isinstance(v, Loc) and isinstance(u, Loc) and v.obj == u.obj and [e[0] for e in v.path] == [e[0] for e in u.path]:
                    alts.append(And(cond, *[x[1] == y[1] if z3.is_expr(x[1]) or z3.is_expr(y[1]) else BoolVal(x[1] == y[1]) for x, y in zip(v.path, u.path)]))
                elif isinstance(v, SliceV) and isinstance(u, SliceV) and v.obj == u.obj:
                    alts.append(And(cond, v.off == u.off, v.len == u.len, v.cap == u.cap, v.isnil == u.isnil))
            r.append(('%s points where the contract says' % name, Or(*alts) if alts else BoolVal(False)))
        return r

    def loop_start(self, st, fr, lc, c, k, succ, loopname, contract, work, stopset, out):
        target = None
        if c is not None and c.cases is not None and c.case_loop == k and self.case is not None and fr.depth == 0:
            for k2, l2 in c.loops.items():
                if l2.cut is not None and l2.cutcase == c.cases[self.case][0]:
                    target = (sorted(self.p.loops(fr.fn))[k2], l2)
        if target:
            # this case starts at an inner loop, in any state its entry clauses allow
            for lab, f in target[1].cutinv(self.loop_ctx(st, fr, c, self.entry_of(fr))):
                st.assume(f)
        else:
            for lab, f in self.autoinv(st, fr, succ) + self.inv_list(st, fr, lc, c, succ):
                st.assume(f)
            if lc is not None and lc.assume is not None:
                for lab, f in lc.assume(self.loop_ctx(st, fr, c, self.entry_of(fr), succ)):
                    st.assume(f)
                    self.assumptions.add('%s: %s' % (loopname, lab))
        if c is not None and c.cases is not None and c.case_loop == k and self.case is not None and fr.depth == 0:
            nm, cf = c.cases[self.case][:2]
            st.assume(cf(self.loop_ctx(st, fr, c, self.entry_of(fr), succ)))
            st.ghost['caseon'] = True
        if not self.quiet and lc is not None and lc.inv is not None:
            self.covers.append((self.top, 'loop head reachable: ' + loopname, list(st.pc)))
        m0 = None
        if lc is not None and lc.decreases is not None:
            m0 = lc.decreases(self.loop_ctx(st, fr, c, self.entry_of(fr), succ))
        snap = None
        if lc is not None and (lc.iteration is not None or lc.exit is not None):
            snap = (st.copy(), fr.copy())
            fr.cells[('last', succ)] = (snap, lc, loopname)
        fr.loops = fr.loops + [(succ, m0, snap)]
        if target:
            return self.loop_enter(st, fr, succ, target[0], contract, work, stopset, out)
        return [(fr, st, succ)]

    def norm_mod(self, mod):
        out = set()
        for o, p in mod:
            if any(o == o2 and len(p2) < len(p) and p[:len(p2)] == p2 for o2, p2 in mod):
                continue
            out.add((o, p))
        return out

    def loop_back(self, st, fr, b, succ, act, contract):
        c, lc, k = self.lc(fr, succ, contract)
        loopname = 'loop %d of %s' % (k, fr.fn['name'])
        if self.quiet:
            for (fnn, hd, soft, hard) in self.backs:
                if fnn == fr.fn['name'] and hd == succ:
                    for key, v0 in soft.items():
                        if key in hard:
                            continue
                        v1 = self.peekpath(st, key)
                        if not (isinstance(v1, SliceV) and v1.obj is v0.obj or isinstance(v1, SliceV) and v1.obj == v0.obj) or not v1.off.eq(v0.off) or not v1.cap.eq(v0.cap):
                            hard.add(key)
            return
        f2 = fr.copy()
        while f2.loops and f2.loops[-1][0] != succ:
            f2.loops = f2.loops[:-1]
        for lab, f in self.alias_clauses(st, f2, lc, c) + self.autoinv(st, f2, succ) + self.inv_list(st, f2, lc, c, succ):
            self.oblige(st, '%s: %s is preserved' % (loopname, lab), f, kind='invariant')
        if lc is not None and lc.iteration is not None and act[2] is not None:
            c0 = self.loop_ctx(act[2][0], act[2][1], c, self.entry_of(fr))
            c1 = self.loop_ctx(st, f2, c, self.entry_of(fr), succ)
            for x in lc.iteration(c0, c1):
                lab, f = x if isinstance(x, tuple) else ('iteration', x)
                self.oblige(st, '%s: %s' % (loopname, lab), f, kind='iteration')
        if act[1] is not None:
            m1 = lc.decreases(self.loop_ctx(st, f2, c, self.entry_of(fr), succ))
            self.oblige(st, '%s: terminates (variant decreases)' % loopname, And(m1 < act[1], act[1] >= 0), kind='termination')

    def havoc(self, st, mod, hard=()):
        """forget the modified places; a slice whose backing array, offset and
        capacity stay the same (not in hard) only loses its length"""
        soft = {}
        for o, p in sorted(mod, key=str):
            v = self.peekpath(st, (o, p)) if not (isinstance(o, str) and o.startswith('heap:')) else None
            if isinstance(v, SliceV) and (o, p) not in hard and not self.w.bv and not isinstance(v.obj, ArrLoc):
                ln, nl = fresh(I, 'len'), fresh(B, 'nil')
                st.assume(And(0 <= ln, ln <= v.cap, Implies(nl, v.cap == 0)))
                nv = SliceV(v.obj, v.off, ln, v.cap, nl)
                self.setpath_raw(st, o, p, nv)
                soft[(o, p)] = nv
                continue
            self.havoc_at(st, o, p)
        return soft

    def havoc_at(self, st, o, p):
        if isinstance(o, str) and o.startswith('heap:'):
            h = self.heapobj(st, o)
            ms = self.w.members(st.info[o].t)
            for i, (n, ft) in enumerate(ms):
                if not p or p[0][1] == i:
                    h = h.set(i, fresh(h.f[i].sort(), 'heap_' + n))
            st.objs[o] = h
            return
        if o not in st.objs:
            return
        inf = st.info[o]
        if inf.kind == 'arr':
            th = self.w.seq(inf.t)
            old = st.objs[o]
            n = fresh(th.sort, 'arr')
            if not self.w.bv:
                st.assume(th.len(n) == th.len(old))
            st.objs[o] = n
            return
        if inf.kind == 'map':
            v = st.objs[o]
            if p:
                raise Unsupported('map path')
            st.objs[o] = StructV([v.f[0], fresh(v.f[1].sort(), 'dom'), fresh(v.f[2].sort(), 'val')])
            return
        t = inf.t
        for e in p:
            t = self.w.members(t)[e[1]][1]
        nv = self.freshv(st, t, 'h')
        self.setpath_raw(st, o, p, nv)

    def step_block(self, st, fr, b, pred, idx, out, contract, work, stopset):
        fn = fr.fn
        blk = fn['blocks'][b]
        ins = blk['instrs']
        i = idx
        while i < len(ins):
            x = ins[i]
            op = x['op']
            if op == 'jump':
                self.goto(st, fr, b, blk['succs'][0], work, contract, stopset, out)
                return
            if op == 'if':
                c = self.val(st, fr, x['x'])
                c = z3.simplify(c)
                if z3.is_true(c):
                    self.goto(st, fr, b, blk['succs'][0], work, contract, stopset, out)
                    return
                if z3.is_false(c):
                    self.goto(st, fr, b, blk['succs'][1], work, contract, stopset, out)
                    return
                f1 = self.feasible(st, c)
                f2 = self.feasible(st, Not(c))
                self.npaths += 1
                if self.npaths > self.maxpaths:
                    raise Unsupported('too many paths')
                if f1 and f2:
                    st2, fr2 = st.copy(), fr.copy()
                    st2.assume(Not(c))
                    self.goto(st2, fr2, b, blk['succs'][1], work, contract, stopset, out)
                    st.assume(c)
                    self.goto(st, fr, b, blk['succs'][0], work, contract, stopset, out)
                elif f1:
                    st.assume(c)
                    self.goto(st, fr, b, blk['succs'][0], work, contract, stopset, out)
                elif f2:
                    st.assume(Not(c))
                    self.goto(st, fr, b, blk['succs'][1], work, contract, stopset, out)
                return
            if op == 'return':
                res = [self.val(st, fr, r) for r in x['res']]
                out.append((st, res, fr))
                return
            if op == 'panic':
                self.do_panic(st, fr, x, contract)
                return
            if op == 'phi':
                if pred is None:
                    raise Unsupported('phi at a loop head')
                k = blk['preds'].index(pred)
                vals = []
                j = i
                while ins[j]['op'] == 'phi':
                    vals.append((ins[j]['id'], self.val(st, fr, ins[j]['edges'][k])))
                    j += 1
                for rid, v in vals:
                    fr.regs[rid] = v
                i = j
                continue
            r = self.instr(st, fr, x, contract, stopset)
            if r is None:
                i += 1
                continue
            # multiple continuations: list of (state, value)
            for (s2, v) in r[1:]:
                f2 = fr.copy()
                if 'id' in x:
                    f2.regs[x['id']] = v
                work.append((s2, f2, b, pred, i + 1))
            if not r:
                return
            s1, v = r[0]
            st = s1
            if 'id' in x:
                fr.regs[x['id']] = v
            i += 1

    def do_panic(self, st, fr, x, contract):
        c = contract
        for key, v in fr.cells.items():
            if key[0] == 'last' and v[1].panics is not None:
                (s0, f0), lc, loopname = v
                f = lc.panics(self.loop_ctx(s0, f0, c, self.entry_of(fr), key[1]))
                self.oblige(st, '%s: panics only in a malformed state' % loopname, f, x.get('line'), kind='panic')
                return
        if c is not None and c.panics is not None and self.top == c.fn:
            f = c.panics(self.loop_ctx(self.entry_of(fr) or st, fr, c, self.entry_of(fr)))
            self.oblige(st, 'panics only when the contract allows it', f, x.get('line'), kind='panic')
            return
        self.oblige(st, 'panic is unreachable', BoolVal(False), x.get('line'), kind='safety')

    # ---------- instructions ----------
    def instr(self, st, fr, x, contract, stopset):
        op = x['op']
        m = getattr(self, 'i_' + op.replace(':', '_').replace('*', '').replace('.', '_'), None)
        if m is None:
            raise Unsupported('instruction ' + op)
        r = m(st, fr, x)
        if isinstance(r, Multi):
            return r.l
        if 'id' in x:
            fr.regs[x['id']] = r
        return None

    def i_alloc(self, st, fr, x):
        et = self.p.T(x['t'])['elem']
        if self.w.ptrmode(x['t']) == 'ref' and x.get('heap') and not self.islocalvar(fr, x):
            # new heap object of a shared type
            ref = fresh(I, 'new_' + self.w.sname(et))
            ho = 'heap:' + self.p.name(et)
            self.heapobj(st, ho)
            al = st.ghost.get(('alloc', ho))
            if al is None:
                al = z3.Const('alloc_' + self.w.sname(et), z3.ArraySort(I, B))
            st.assume(And(ref > 0, Not(z3.Select(al, ref))))
            st.ghost[('alloc', ho)] = z3.Store(al, ref, BoolVal(True))
            self.store(st, Loc(ho, (('r', ref),)), self.zero(st, et), et)
            return RefV(ref, et)
        o = self.newobj(st, et, self.zero(st, et))
        nm = x.get('name') or ''
        if not nm:
            fr.cells[('anon', x['id'])] = o
        if nm:
            # one slot per declaration, in order of first execution
            decls = fr.cells.get(('decls', nm), ())
            if x['id'] not in decls:
                fr.cells[('decls', nm)] = decls + (x['id'],)
            fr.cells[('cell', x['id'])] = o
            fr.cells[('reg', x['id'])] = nm
        return Loc(o)

    def islocalvar(self, fr, x):
        # `new(T)`/&T{} literals are named "complit"/"new" by ssa; variables carry their own name
        return x.get('name') not in ('complit', 'new')

    def i_store(self, st, fr, x):
        a = self.val(st, fr, x['addr'])
        v = self.val(st, fr, x['val'])
        loc = self.deref(st, a, 'store', x.get('line'))
        t = x['val']['t']
        if not z3.is_expr(v) and getattr(self.w, 'opaque_fields', None) and loc.path and loc.path[-1][0] == 'f' and not isinstance(loc.obj, str):
            ct = st.info[loc.obj].t
            for e in loc.path[:-1]:
                ct = self.w.members(ct)[e[1]][1] if e[0] == 'f' else None
                if ct is None:
                    break
            if ct is not None and self.p.kind(ct) == 'ptr':
                ct = self.p.T(ct)['elem']
            if ct is not None and self.p.kind(ct) == 'struct' and (self.p.name(ct), self.p.fields(ct)[loc.path[-1][1]]['name']) in self.w.opaque_fields:
                v, t = fresh(I, 'opaque'), self.p.fields(ct)[loc.path[-1][1]]['type']
        self.store(st, loc, v, t, x.get('line'))
        return None

    def i_unop(self, st, fr, x):
        tok = x['tok']
        v = self.val(st, fr, x['x'])
        if tok == '*':
            loc = self.deref(st, v, 'load', x.get('line'))
            return self.load(st, loc, x['t'], x.get('line'))
        if tok == '!':
            return Not(v)
        if tok == '-':
            return -v
        if tok == '^':
            if self.w.bv:
                return ~v
            n = self.w.bname(x['t'])
            if n in SIGNED:
                return -v - 1
            return IntVal((1 << WIDTH[n]) - 1) - v
        raise Unsupported('unop ' + tok)

    def wrap(self, t, v):
        if self.w.bv or not z3.is_int(v):
            return v
        n = self.w.bname(t)
        if n not in WRAP:
            return v
        w = WIDTH[n]
        sv = z3.simplify(v)
        if z3.is_int_value(sv):
            k = sv.as_long() % (1 << w)
            if n in SIGNED and k >= 1 << (w - 1):
                k -= 1 << w
            return IntVal(k)
        if n in SIGNED:
            h = 1 << (w - 1)
            return (v + h) % (1 << w) - h
        return v % (1 << w)

    def i_binop(self, st, fr, x):
        tok = x['tok']
        a = self.val(st, fr, x['x'])
        b = self.val(st, fr, x['y'])
        t = x['x']['t']
        tb = x['y']['t']
        k = self.p.kind(t)
        if tok in ('==', '!='):
            r = self.equal(st, a, b, t, tb)
            return r if tok == '==' else Not(r)
        if k == 'basic':
            n = self.w.bname(t)
            if 'string' in n:
                if tok == '+':
                    return BYTES.cat(a, b)
                slt = z3.Function('str_lt', BYTES.sort, BYTES.sort, B)
                return {'<': lambda: slt(a, b), '>': lambda: slt(b, a), '<=': lambda: Not(slt(b, a)), '>=': lambda: Not(slt(a, b))}[tok]()
            if 'float' in n:
                if tok in '+-*/':
                    f = z3.Function('float_' + {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[tok], z3.RealSort(), z3.RealSort(), z3.RealSort())
                    return f(a, b)
                return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[tok]
            if n in ('bool', 'untyped bool'):
                if tok == '&':
                    return And(a, b)
                if tok == '|':
                    return Or(a, b)
            if self.w.bv:
                return self.bvop(st, tok, a, b, t, tb, x)
            return self.intop(st, tok, a, b, t, x)
        raise Unsupported('binop %s on %s' % (tok, self.p.name(t)))

    def bvop(self, st, tok, a, b, t, tb, x):
        sg = self.w.bname(t) in SIGNED
        if tok in ('<<', '>>'):
            if b.size() < a.size():
                b = z3.ZeroExt(a.size() - b.size(), b)
            elif b.size() > a.size():
                big = z3.UGE(b, a.size())
                b2 = z3.Extract(a.size() - 1, 0, b)
                s = a << b2 if tok == '<<' else (a >> b2 if sg else z3.LShR(a, b2))
                return If(big, z3.BitVecVal(0, a.size()) if not (sg and tok == '>>') else a >> (a.size() - 1), s)
            return a << b if tok == '<<' else (a >> b if sg else z3.LShR(a, b))
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                '&^': lambda: a & ~b,
                '/': lambda: a / b if sg else z3.UDiv(a, b), '%': lambda: z3.SRem(a, b) if sg else z3.URem(a, b),
                '<': lambda: a < b if sg else z3.ULT(a, b), '>': lambda: a > b if sg else z3.UGT(a, b),
                '<=': lambda: a <= b if sg else z3.ULE(a, b), '>=': lambda: a >= b if sg else z3.UGE(a, b)}[tok]()

    def valid(self, st, f):
        return not self.feasible(st, Not(f))

    def intop(self, st, tok, a, b, t, x):
        if tok in ('+', '-', '*'):
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[tok]()
            return self.wrap(t, r)
        if tok in ('<', '>', '<=', '>='):
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[tok]
        if tok in ('/', '%'):
            self.oblige(st, 'division by zero', b != 0, x.get('line'), kind='safety')
            if z3.is_int_value(b) and b.as_long() > 0 and self.valid(st, a >= 0):
                return a / b if tok == '/' else a % b
            if not z3.is_int_value(b) and self.valid(st, And(a >= 0, b > 0)):
                q = a / b
                st.assume(And(q >= 0, q * b <= a, a < q * b + b))
                return q if tok == '/' else a - b * q
            q = If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if tok == '/' else a - b * q
        if tok == '<<':
            bs = z3.simplify(b)
            if z3.is_int_value(bs):
                return self.wrap(t, a * (1 << bs.as_long()))
            p2 = z3.Function('pow2', I, I)
            return self.wrap(t, a * p2(b))
        if tok == '>>':
            bs = z3.simplify(b)
            if z3.is_int_value(bs):
                return a / (1 << bs.as_long())
            p2 = z3.Function('pow2', I, I)
            return a / p2(b)
        if tok == '&':
            for u, v in ((a, b), (b, a)):
                v = z3.simplify(v)
                if z3.is_int_value(v):
                    m = v.as_long()
                    if m >= 0 and (m & (m + 1)) == 0:
                        return u % (m + 1)
                    if m > 0 and (m & (m - 1)) == 0:
                        return ((u / m) % 2) * m
            f = z3.Function('band', I, I, I)
            return f(a, b)
        if tok == '|':
            for u, v in ((a, b), (b, a)):
                for k in (8, 16, 24, 32):
                    if self.valid(st, And(u % (1 << k) == 0, 0 <= v, v < (1 << k), u >= 0)):
                        return u + v
            f = z3.Function('bor', I, I, I)
            return f(a, b)
        if tok in ('^', '&^'):
            f = z3.Function('bxor' if tok == '^' else 'bandnot', I, I, I)
            return f(a, b)
        raise Unsupported('int op ' + tok)

    def equal(self, st, a, b, t, tb=None):
        k = self.p.kind(t)
        kb = self.p.kind(tb) if tb is not None else k
        if k == 'slice':
            # only comparison with nil is legal
            for u, v in ((a, b), (b, a)):
                if isinstance(v, SliceV) and z3.is_true(v.isnil):
                    return u.isnil
        if k == 'map':
            for u, v in ((a, b), (b, a)):
                if isinstance(v, MapV) and z3.is_true(st.objs[v.obj].f[0]):
                    return st.objs[u.obj].f[0]
        if k == 'func':
            return BoolVal((a is None) == (b is None) and (a is None or b is None))
        if k == 'ptr':
            def isnil(v):
                if v is None:
                    return BoolVal(True)
                if isinstance(v, Loc):
                    return BoolVal(False)
                if isinstance(v, Hnd):
                    if v.id in st.hobj:
                        return BoolVal(False)
                    return self.w.D(st.hinfo[v.id][0]).isnil(st.hterm[v.id])
                if isinstance(v, RefV):
                    return v.term == 0
            if isinstance(a, RefV) and isinstance(b, RefV):
                return a.term == b.term
            if a is None:
                return isnil(b)
            if b is None:
                return isnil(a)
            if isinstance(a, Loc) and isinstance(b, Loc):
                if a.obj != b.obj:
                    return BoolVal(False)
                if a.path == b.path:
                    return BoolVal(True)
            if isinstance(a, Hnd) and isinstance(b, Hnd) and a.id == b.id:
                return BoolVal(True)
            raise Unsupported('pointer comparison')
        if k == 'iface' or kb == 'iface':
            if k == 'iface' and kb == 'iface':
                if isinstance(a, IfaceV) and isinstance(b, IfaceV) and (a.t is None or b.t is None):
                    return BoolVal(a.t is None and b.t is None)
                if isinstance(a, IfaceV) and a.t is None:
                    a, b = b, a
                if isinstance(b, IfaceV) and b.t is None:
                    if isinstance(a, IfaceV):
                        return BoolVal(a.t is None)
                    if self.p.name(t) in self.w.iface:
                        return self.w.D(t).isnil(a)
                    return a == 0
                return self.fold(st, a, t) == self.fold(st, b, tb)
            raise Unsupported('interface comparison with concrete value')
        fa, fb = self.fold(st, a, t), self.fold(st, b, t)
        return eq(fa, fb)

    def i_convert(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        f, t = x['x']['t'], x['t']
        kf, kt = self.p.kind(f), self.p.kind(t)
        if kf == 'basic' and kt == 'basic':
            nf, nt = self.w.bname(f), self.w.bname(t)
            if self.w.is_int(f) and self.w.is_int(t):
                if self.w.bv:
                    a, b = v.size(), WIDTH[nt]
                    if a == b:
                        return v
                    if a > b:
                        return z3.Extract(b - 1, 0, v)
                    return z3.SignExt(b - a, v) if nf in SIGNED else z3.ZeroExt(b - a, v)
                if nt in ('int', 'int64') and nf not in ('uint64',):
                    return v
                if nt in ('uint', 'uintptr', 'uint64'):
                    if nf in ('uint8', 'byte', 'uint16', 'uint32', 'uint', 'uint64'):
                        return v
                    if self.valid(st, v >= 0):
                        return v
                    return v % (1 << 64)
                if nt in ('int32', 'rune') and nf in ('uint8', 'byte', 'uint16', 'int16', 'int8'):
                    return v
                wf, wt = WIDTH[nf], WIDTH[nt]
                if nf not in SIGNED and (nt not in SIGNED and wf <= wt or nt in SIGNED and wf < wt):
                    return v
                if nt in SIGNED:
                    h = 1 << (wt - 1)
                    r = (v + h) % (1 << wt) - h
                    if self.valid(st, And(-h <= v, v < h)):
                        return v
                    return r
                if self.valid(st, And(0 <= v, v < (1 << wt))):
                    return v
                return v % (1 << wt)
            if 'string' in nf and 'string' in nt:
                return v
            if 'float' in nt and self.w.is_int(f):
                return z3.ToReal(v)
            if 'float' in nt:
                return v
            if 'string' in nt and self.w.is_int(f):
                return z3.Function('rune_to_string', I, BYTES.sort)(v)
            raise Unsupported('convert %s to %s' % (nf, nt))
        if kf == 'slice' and kt == 'basic':
            d = self.slice_data(st, v)
            if d.sort() != BYTES.sort:
                return z3.Function('runes_to_string', d.sort(), BYTES.sort)(d)
            return d
        if kf == 'basic' and kt == 'slice':
            o = self.newobj(st, self.p.T(t)['elem'], v, 'arr', BoolVal(True))
            n = BYTES.len(v)
            return SliceV(o, IntVal(0), n, n, BoolVal(False))
        if kf == kt:
            return v
        raise Unsupported('convert')

    def i_changetype(self, st, fr, x):
        return self.val(st, fr, x['x'])

    def i_changeiface(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        f, t = x['x']['t'], x['t']
        if isinstance(v, IfaceV):
            return v
        cf, ct = self.p.name(f) in self.w.iface, self.p.name(t) in self.w.iface
        if not cf and not ct or self.p.name(f) == self.p.name(t):
            return v
        if cf and not ct and self.p.T(t).get('methods') in (None, []):
            # to the empty interface: identity is forgotten
            r = fresh(I, 'any')
            st.assume((r == 0) == self.w.D(f).isnil(self.fold(st, v, f)))
            return r
        raise Unsupported('change interface')

    def i_makeiface(self, st, fr, x):
        return IfaceV(x['x']['t'], self.val(st, fr, x['x']))

    def i_typeassert(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        at, ft = x['at'], x['x']['t']
        toiface = self.p.kind(at) == 'iface'
        if isinstance(v, IfaceV):
            if toiface:
                if v.t is None:
                    ok = BoolVal(False)
                else:
                    ms = self.p.T(at)['methods'] or []
                    have = self.p.methods.get(v.t, {})
                    ok = BoolVal(all(mm in have for mm in ms))
                res = v if z3.is_true(ok) else IfaceV(None, None)
            else:
                ok = BoolVal(v.t == at)
                res = v.v if v.t == at else self.zero(st, at)
        elif self.p.name(ft) in self.w.iface:
            d = self.w.D(ft)
            if toiface:
                ms = self.p.T(at)['methods'] or []
                goods = [ct for ct in d.box if all(mm in self.p.methods.get(ct, {}) for mm in ms)]
                ok = Or(*[d.isbox[ct](v) for ct in goods]) if goods else BoolVal(False)
                res = v
                if not (self.p.name(at) == self.p.name(ft)):
                    res = IntVal(1)
            else:
                if at in d.box:
                    ok = d.isbox[at](v)
                    res = None
                else:
                    ok = BoolVal(False)
                    res = self.zero(st, at)
                if res is None:
                    ok = z3.simplify(ok)
                    outs = []
                    for val_, s_ok in ((True, ok), (False, Not(ok))):
                        if z3.is_false(z3.simplify(s_ok)) or not self.feasible(st, s_ok):
                            continue
                        s2 = st.copy()
                        s2.assume(s_ok)
                        if val_:
                            rv = self.unfoldv(s2, at, d.unbox[at](v), None, False)
                        else:
                            if not x['commaok']:
                                self.oblige(s2, 'type assertion', BoolVal(False), x.get('line'), kind='safety')
                                continue
                            rv = self.zero(s2, at)
                        outs.append((s2, TupleV([rv, BoolVal(val_)]) if x['commaok'] else rv))
                    return Multi(outs)
        else:
            h = self.opts.get('typeassert', {}).get((self.p.name(ft), self.p.name(at)))
            if h is None:
                raise Unsupported('type assertion %s to %s' % (self.p.name(ft), self.p.name(at)))
            ok, res = h(self, st, v, at)
        if x['commaok']:
            return TupleV([res, ok])
        self.oblige(st, 'type assertion', ok, x.get('line'), kind='safety')
        st.assume(ok)
        return res

    def i_extract(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        return v.e[x['i']]

    def i_fieldaddr(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        loc = self.deref(st, v, 'field', x.get('line'))
        return Loc(loc.obj, loc.path + (('f', x['f']),))

    def i_field(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        t = x['x']['t']
        if z3.is_expr(v):
            v = self.unfoldv(st, t, v)
        fv = v.f[x['f']]
        if z3.is_expr(fv):
            fv = self.unfoldv(st, x['t'], fv, None, False)
        return fv

    def bounds(self, st, i, n, what, line):
        if self.w.bv:
            self.oblige(st, 'index in range (%s)' % what, And(0 <= i, i < n), line, kind='safety')
            st.assume(And(0 <= i, i < n))
        else:
            self.oblige(st, 'index in range (%s)' % what, And(0 <= i, i < n), line, kind='safety')
            st.assume(And(0 <= i, i < n))

    def toidx(self, v, t):
        if self.w.bv:
            n = self.w.bname(t)
            if v.size() < 64:
                return z3.SignExt(64 - v.size(), v) if n in SIGNED else z3.ZeroExt(64 - v.size(), v)
        return v

    def i_indexaddr(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        i = self.toidx(self.val(st, fr, x['i']), x['i']['t'])
        k = self.p.kind(x['x']['t'])
        if k == 'slice':
            self.bounds(st, i, v.len, 'slice', x.get('line'))
            pos = z3.simplify(v.off + i)
            if isinstance(v.obj, ArrLoc):
                return Loc(v.obj.loc.obj, v.obj.loc.path + (('i', pos),))
            return Loc(v.obj, (('i', pos),))
        loc = self.deref(st, v, 'index', x.get('line'))
        at = self.p.T(x['x']['t'])['elem']
        self.bounds(st, i, self.lint(self.p.T(at)['len']), 'array', x.get('line'))
        return Loc(loc.obj, loc.path + (('i', z3.simplify(i)),))

    def i_index(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        i = self.toidx(self.val(st, fr, x['i']), x['i']['t'])
        t = x['x']['t']
        if self.p.kind(t) == 'basic':
            self.bounds(st, i, BYTES.len(v), 'string', x.get('line'))
            r = BYTES.at(v, i)
            self.typeinv(st, x['t'], r)
            return r
        self.bounds(st, i, self.lint(self.p.T(t)['len']), 'array', x.get('line'))
        return self.getpath(st, v, t, (('i', i),), None, None)

    def i_lookup(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        t = x['x']['t']
        i = self.val(st, fr, x['i'])
        if self.p.kind(t) == 'basic':
            self.bounds(st, i, BYTES.len(v), 'string', x.get('line'))
            r = BYTES.at(v, i)
            self.typeinv(st, x['t'], r)
            return r
        T = self.p.T(t)
        kk = self.fold(st, i, T['key'])
        o = st.objs[v.obj]
        ok = And(Not(o.f[0]), z3.Select(o.f[1], kk))
        val = If(ok, z3.Select(o.f[2], kk), self.defterm(T['elem']))
        rv = self.unfoldv(st, T['elem'], val, None, False)
        if x['commaok']:
            return TupleV([rv, ok])
        return rv

    def i_mapupdate(self, st, fr, x):
        v = self.val(st, fr, x['m'])
        T = self.p.T(x['m']['t'])
        kk = self.fold(st, self.val(st, fr, x['key']), T['key'])
        vv = self.fold(st, self.val(st, fr, x['val']), T['elem'])
        o = st.objs[v.obj]
        self.oblige(st, 'assignment to entry in nil map', Not(o.f[0]), x.get('line'), kind='safety')
        st.objs[v.obj] = StructV([o.f[0], z3.Store(o.f[1], kk, BoolVal(True)), z3.Store(o.f[2], kk, vv)])
        self.log(st, v.obj, ())
        return None

    def i_makemap(self, st, fr, x):
        t = x['t']
        T = self.p.T(t)
        o = self.newobj(st, t, StructV([BoolVal(False), z3.K(self.w.sort(T['key']), BoolVal(False)), self._defarr(t)]), 'map')
        return MapV(o)

    def i_makeslice(self, st, fr, x):
        et = self.p.T(x['t'])['elem']
        n = self.val(st, fr, x['len'])
        c = self.val(st, fr, x['cap'])
        self.oblige(st, 'make: length and capacity in range', And(0 <= n, n <= c), x.get('line'), kind='safety')
        st.assume(And(0 <= n, n <= c))
        th = self.w.seq(et)
        o = self.newobj(st, et, th.rep(self.fold(st, self.zero(st, et), et), c), 'arr', BoolVal(True))
        return SliceV(o, self.lint(0), n, c, BoolVal(False))

    def i_slice(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        t = x['x']['t']
        k = self.p.kind(t)
        lo = self.val(st, fr, x['lo'])
        hi = self.val(st, fr, x['hi'])
        mx = self.val(st, fr, x['max'])
        if lo is None:
            lo = self.lint(0)
        if k == 'basic':
            n = BYTES.len(v)
            if hi is None:
                hi = n
            self.oblige(st, 'slice bounds', And(0 <= lo, lo <= hi, hi <= n), x.get('line'), kind='safety')
            st.assume(And(0 <= lo, lo <= hi, hi <= n))
            return BYTES.sub(v, lo, hi)
        if k == 'ptr':
            at = self.p.T(t)['elem']
            n = self.lint(self.p.T(at)['len'])
            loc = self.deref(st, v, 'slice', x.get('line'))
            v = SliceV(ArrLoc(loc, at), self.lint(0), n, n, BoolVal(False))
        if hi is None:
            hi = v.len
        capend = v.cap if mx is None else mx
        self.oblige(st, 'slice bounds', And(0 <= lo, lo <= hi, hi <= capend, capend <= v.cap), x.get('line'), kind='safety')
        st.assume(And(0 <= lo, lo <= hi, hi <= capend, capend <= v.cap))
        isn = v.isnil
        return SliceV(v.obj, z3.simplify(v.off + lo), z3.simplify(hi - lo), z3.simplify(capend - lo), isn)

    def i_closure(self, st, fr, x):
        return FuncV(x['fn']['n'], [self.val(st, fr, b) for b in x['bind']])

    def i_phi(self, st, fr, x):
        raise Unsupported('phi')

    def i_range(self, st, fr, x):
        v = self.val(st, fr, x['x'])
        it = IterV((v, x['x']['t']))
        if isinstance(v, MapV):
            # the keys seen so far
            o = st.objs[v.obj]
            t = x['x']['t']
            it.pos = (o.f[1], self.newobj(st, t, StructV([BoolVal(False), z3.K(self.w.sort(self.p.T(t)['key']), BoolVal(False)), self._defarr(t)]), 'map'))
            st.ghost['visited'] = it.pos[1]
        return it

    def i_next(self, st, fr, x):
        # iteration over a map (any order, any number of steps) or a string
        it = self.val(st, fr, x['x'])
        v, t = it.m
        if x.get('str'):
            raise Unsupported('range over string')
        T = self.p.T(t)
        ok = fresh(B, 'more')
        key = self.freshv(st, T['key'], 'key')
        kk = self.fold(st, key, T['key'])
        o = st.objs[v.obj]
        st.assume(Implies(ok, And(Not(o.f[0]), z3.Select(o.f[1], kk))))
        if it.pos is not None:
            # every key comes once; one that was there from the start and still is comes
            dom0, vo = it.pos
            vis = st.objs[vo].f[1]
            q = z3.Const('key!v', kk.sort())
            st.assume(Implies(ok, Not(z3.Select(vis, kk))))
            st.assume(Or(ok, o.f[0], z3.ForAll([q], Implies(And(z3.Select(dom0, q), z3.Select(o.f[1], q)), z3.Select(vis, q)))))
            st.objs[vo] = StructV([BoolVal(False), If(ok, z3.Store(vis, kk, BoolVal(True)), vis), st.objs[vo].f[2]])
            self.log(st, vo, ())
        val = self.unfoldv(st, T['elem'], z3.Select(o.f[2], kk), None, False)
        return TupleV([ok, key, val])

    def i_defer(self, st, fr, x):
        fr.defers = fr.defers + [(x, self.callee(st, fr, x), [self.val(st, fr, a) for a in x['args']])]
        return None

    def i_rundefers(self, st, fr, x):
        states = [st]
        for (dx, cal, args) in reversed(fr.defers):
            ns = []
            for s in states:
                ns += [s2 for s2, _ in self.do_call(s, fr, dx, cal, args)]
            states = ns
        fr.defers = []
        return Multi([(s, None) for s in states])

    def i_go(self, st, fr, x):
        self.assumptions.add('goroutines started by %s are executed to completion at the go statement (sequentialised)' % fr.fn['name'])
        return self.i_call(st, fr, x)

    def callee(self, st, fr, x):
        if 'invoke' in x:
            return ('invoke', x['invoke'], self.val(st, fr, x['recv']), x['rectype'])
        return ('fn', self.val(st, fr, x['fn']))

    def i_call(self, st, fr, x):
        cal = self.callee(st, fr, x)
        args = [self.val(st, fr, a) for a in x['args']]
        r = self.do_call(st, fr, x, cal, args)
        return Multi(r)

    def do_call(self, st, fr, x, cal, args):
        if cal[0] == 'invoke':
            _, meth, recv, rt = cal
            if isinstance(recv, IfaceV):
                if recv.t is None:
                    self.oblige(st, 'call on nil interface', BoolVal(False), x.get('line'), kind='safety')
                    return []
                tgt = self.p.methods.get(recv.t, {}).get(meth)
                if tgt is not None and (tgt in self.p.funcs or tgt in self.contracts or tgt in self.externs):
                    return self.call_static(st, fr, x, tgt, [recv.v] + args)
            nm = '%s.%s' % (self.p.name(rt), meth)
            if nm in self.externs:
                self.used_externs.add(nm)
                return self.externs[nm](self, st, x, [recv] + args)
            raise Unsupported('interface call ' + nm)
        f = cal[1]
        if f is None:
            self.oblige(st, 'call of nil function', BoolVal(False), x.get('line'), kind='safety')
            return []
        if not isinstance(f, FuncV):
            h = self.opts.get('opaque_call')
            if h:
                return h(self, st, x, f, args)
            raise Unsupported('call of unknown function value')
        if f.fn.startswith('builtin:'):
            return self.builtin(st, fr, x, f.fn[8:], args)
        return self.call_static(st, fr, x, f.fn, args, f.binds)

    def call_static(self, st, fr, x, name, args, binds=()):
        if name in self.externs:
            self.used_externs.add(name)
            return self.externs[name](self, st, x, list(binds) + args)
        c = self.contracts.get(name)
        if c is not None and not c.inline and (not binds):
            return self.apply_contract(st, fr, x, c, args)
        fn = self.p.funcs.get(name)
        if fn is None:
            raise Unsupported('call of %s (no source, no contract)' % name)
        if fr.depth > 12:
            raise Unsupported('inlining too deep at ' + name)
        self.inlined.add(name)
        npc, objs0 = len(st.pc), dict(st.objs)
        out = self.run_fn(st, fn, args, binds, fr.depth + 1, c)
        if len(out) > 1 and not binds:
            out = self.merge_pure(npc, objs0, out)
        res = []
        for (s, r, _) in out:
            if len(r) == 0:
                res.append((s, None))
            elif len(r) == 1:
                res.append((s, r[0]))
            else:
                res.append((s, TupleV(r)))
        return res

    def merge_pure(self, npc, objs0, out):
        """paths through a call that changed nothing and returned one scalar each
        become one path with a conditional result"""
        def same(a, b):
            if a is b:
                return True
            return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
        for s, r, _ in out:
            if len(r) != 1 or not isinstance(r[0], z3.ExprRef) or r[0].sort() not in (I, B):
                return out
            if any(k not in s.objs or not same(s.objs[k], v) for k, v in objs0.items()):
                return out
            if any(k in s.objs and k not in objs0 for k in s.objs if isinstance(k, str)):
                return out
            if s.ghost != out[0][0].ghost:
                return out
        s0 = out[0][0]
        conds = [And(*s.pc[npc:]) if len(s.pc) > npc else BoolVal(True) for s, _, _ in out]
        v = out[-1][1][0]
        for i in range(len(out) - 2, -1, -1):
            v = If(conds[i], out[i][1][0], v)
        s0.pc = s0.pc[:npc]
        s0.assume(Or(*conds))
        return [(s0, [v], out[0][2])]

    def builtin(self, st, fr, x, nm, args):
        if nm == 'len':
            v = args[0]
            t = x['args'][0]['t']
            k = self.p.kind(t)
            if k == 'slice':
                return [(st, v.len)]
            if k == 'basic':
                return [(st, BYTES.len(v))]
            if k == 'map':
                r = fresh(I, 'maplen')
                st.assume(r >= 0)
                mo = st.objs[v.obj]
                mk_ = z3.Const('key!l', mo.f[1].sort().domain())
                st.assume(Implies(r == 0, z3.ForAll([mk_], Not(z3.Select(mo.f[1], mk_)))))
                return [(st, r)]
            if k == 'array':
                return [(st, self.lint(self.p.T(t)['len']))]
            raise Unsupported('len')
        if nm == 'cap':
            return [(st, args[0].cap)]
        if nm == 'append':
            return self.b_append(st, fr, x, args)
        if nm == 'copy':
            return self.b_copy(st, fr, x, args)
        if nm == 'panic':
            raise Stop()
        if nm == 'delete':
            v = args[0]
            T = self.p.T(x['args'][0]['t'])
            kk = self.fold(st, args[1], T['key'])
            o = st.objs[v.obj]
            st.objs[v.obj] = StructV([o.f[0], z3.Store(o.f[1], kk, BoolVal(False)), o.f[2]])
            self.log(st, v.obj, ())
            return [(st, None)]
        if nm in ('print', 'println'):
            return [(st, None)]
        if nm == 'ssa:deferstack':
            return [(st, None)]
        if nm == 'ssa:wrapnilchk':
            return [(st, args[0])]
        if nm in ('min', 'max'):
            r = args[0]
            for a in args[1:]:
                r = If(a < r, a, r) if nm == 'min' else If(a > r, a, r)
            return [(st, r)]
        raise Unsupported('builtin ' + nm)

    def b_append(self, st, fr, x, args):
        s, e = args
        et = self.p.T(x['t'])['elem']
        th = self.w.seq(et)
        if isinstance(e, SliceV):
            edata = self.slice_data(st, e)
            en = e.len
        else:
            edata = e
            en = BYTES.len(e)
        line = x.get('line')
        sdata = self.slice_data(st, s)
        newlen = z3.simplify(s.len + en)
        if self.append_mode == 'value':
            cp = fresh(I, 'cap')
            spare = fresh(th.sort, 'spare')
            st.assume(And(cp >= newlen, th.len(spare) == cp - newlen))
            st.assume(Implies(And(s.cap >= newlen), cp == s.cap))
            content = th.cat(th.cat(sdata, edata), spare)
            o = self.newobj(st, et, content, 'arr', BoolVal(True))
            st.ghost[('adata', o)] = True
            nn = th.cat(sdata, edata)
            st.ghost[('data', o)] = (nn, newlen)
            isn = z3.simplify(And(s.isnil, newlen == 0))
            self.assumptions.add('append results are treated as values: no other live slice header extends over the appended region')
            return [(st, SliceV(o, IntVal(0), newlen, cp, isn))]
        out = []
        fits = newlen <= s.cap
        fits = z3.simplify(fits)
        if not z3.is_false(fits) and self.feasible(st, fits):
            s2 = st.copy()
            s2.assume(fits)
            content = self.arr_content(s2, s.obj)
            tot = th.len(content)
            new = th.cat(th.cat(th.sub(content, IntVal(0), z3.simplify(s.off + s.len)), edata), th.sub(content, z3.simplify(s.off + newlen), tot))
            self.arr_set(s2, s.obj, new, line, 'append in place')
            out.append((s2, SliceV(s.obj, s.off, newlen, s.cap, z3.simplify(And(s.isnil, newlen == 0)))))
        if not z3.is_true(fits) and self.feasible(st, Not(fits)):
            st.assume(Not(fits))
            cp = fresh(I, 'cap')
            spare = fresh(th.sort, 'spare')
            st.assume(And(cp >= newlen, th.len(spare) == cp - newlen))
            nn = th.cat(sdata, edata)
            o = self.newobj(st, et, th.cat(nn, spare), 'arr', BoolVal(True))
            st.ghost[('data', o)] = (nn, newlen)
            out.append((st, SliceV(o, IntVal(0), newlen, cp, BoolVal(False))))
        return out

    def b_copy(self, st, fr, x, args):
        d, s = args
        et = self.p.T(x['args'][0]['t'])['elem']
        th = self.w.seq(et)
        if isinstance(s, SliceV):
            src = self.slice_data(st, s)
            sn = s.len
        else:
            src = s
            sn = BYTES.len(s)
        res = []
        for cond, n in ((sn <= d.len, sn), (sn > d.len, d.len)):
            cond = z3.simplify(cond)
            if z3.is_false(cond) or not self.feasible(st, cond):
                continue
            s2 = st.copy()
            s2.assume(cond)
            content = self.arr_content(s2, d.obj)
            tot = th.len(content)
            if isinstance(d.obj, ArrLoc):
                tot = IntVal(self.p.T(d.obj.t)['len'])
            part = th.sub(src, IntVal(0), n)
            new = th.cat(th.cat(th.sub(content, IntVal(0), d.off), part), th.sub(content, z3.simplify(d.off + n), tot))
            self.arr_set(s2, d.obj, new, x.get('line'), 'copy')
            res.append((s2, n))
        return res


class Multi:
    def __init__(self, l):
        self.l = l
