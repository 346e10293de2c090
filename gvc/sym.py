"""Symbolic executor / verification-condition generator over SSA."""
import z3, itertools, copy
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal, Int
from . import smt
from .smt import I, B, fresh, seq_theory, BYTES, SeqTheory, eq, is_seq, theory_of

WIDTH = {'uint8': 8, 'byte': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'uint': 64, 'uintptr': 64,
         'int8': 8, 'int16': 16, 'int32': 32, 'rune': 32, 'int64': 64, 'int': 64}
SIGNED = {'int8', 'int16', 'int32', 'int64', 'int', 'rune', 'untyped int', 'untyped rune'}
WRAP = {'uint8', 'byte', 'uint16', 'uint32', 'int8', 'int16', 'uint64'}


class Unsupported(Exception):
    pass


class StructV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def set(self, i, v):
        l = list(self.f)
        l[i] = v
        return StructV(l)


class SliceV:
    __slots__ = ('obj', 'off', 'len', 'cap', 'isnil')

    def __init__(self, obj, off, ln, cap, isnil):
        self.obj, self.off, self.len, self.cap, self.isnil = obj, off, ln, cap, isnil


class ArrLoc:
    """an array living at a location, used as the backing store of a slice"""
    __slots__ = ('loc', 't')

    def __init__(self, loc, t):
        self.loc, self.t = loc, t


class MapV:
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj


class Loc:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, tuple(path)

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.obj, self.path)


class Hnd:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class RefV:
    """typed reference into a per-type heap (shared, aliasable objects)"""
    __slots__ = ('term', 't')

    def __init__(self, term, t):
        self.term, self.t = term, t


class FuncV:
    __slots__ = ('fn', 'binds')

    def __init__(self, fn, binds=()):
        self.fn, self.binds = fn, tuple(binds)


class IfaceV:
    __slots__ = ('t', 'v', 'memo')

    def __init__(self, t, v):
        self.t, self.v, self.memo = t, v, None


class TupleV:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)


class Poison:
    pass


class IterV:
    __slots__ = ('m', 'pos')

    def __init__(self, m):
        self.m = m
        self.pos = None


class ObjInfo:
    __slots__ = ('t', 'kind', 'own', 'parent')

    def __init__(self, t, kind, own=None, parent=None):
        self.t, self.kind, self.own, self.parent = t, kind, own, parent


_ids = itertools.count(1)


class State:
    def __init__(self):
        self.objs = {}
        self.info = {}
        self.pc = []
        self.hterm = {}
        self.hobj = {}
        self.hinfo = {}
        self.ghost = {}

    def copy(self):
        s = State.__new__(State)
        s.objs = dict(self.objs)
        s.info = self.info  # append-only, shared
        s.pc = list(self.pc)
        s.hterm = self.hterm
        s.hobj = dict(self.hobj)
        s.hinfo = self.hinfo
        s.ghost = dict(self.ghost)
        return s

    def assume(self, f):
        if f is True:
            return
        if f is False:
            f = BoolVal(False)
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if z3.is_true(f):
            return
        self.pc.append(f)


class Obligation:
    def __init__(self, fn, label, hyps, goal, line=None, kind='post'):
        self.fn, self.label, self.hyps, self.goal, self.line, self.kind = fn, label, hyps, goal, line, kind


class World:
    """sorts and type modelling shared by all functions of a run"""

    def __init__(self, prog, bv=False):
        self.p = prog
        self.bv = bv
        self.ptr_ref = set()      # type strings of elements whose pointers are heap references
        self.iface = {}           # closed interfaces: type string -> list of concrete type strings
        self.sorts = {}
        self.dt = {}
        self.opaque_struct = set()

    # --- sorts ---
    def is_int(self, t):
        T = self.p.T(t)
        return T['kind'] == 'basic' and (T['name'] in WIDTH or T['name'].startswith('untyped int') or T['name'] == 'untyped rune')

    def bname(self, t):
        return self.p.T(t).get('name')

    def seq_of(self, et):
        p = self.p
        T = p.T(et)
        if T['kind'] == 'basic' and T['name'] in ('uint8', 'byte') and not self.bv:
            return BYTES
        nm = ('bv_' if self.bv else '') + self.sname(et)
        if T['kind'] == 'basic' and T['name'] in ('uint8', 'byte'):
            nm = 'bv_uint8'
        th = SeqTheory.by_name.get(nm)
        if th is None:
            th = SeqTheory(nm, ix=z3.BitVecSort(64) if self.bv else None)
            th.setelem(None)
            th._lazy = (self, et)
        return th

    def ready(self, th):
        if th._elem is None:
            w, et = th._lazy
            th.setelem(w.sort(et))
        return th

    def seq(self, et):
        return self.ready(self.seq_of(et))

    def sname(self, t):
        s = self.p.types[t]['str']
        for a, b in (('*', 'p_'), ('[]', 'sl_'), (' ', '_'), ('.', '_'), ('{', '_'), ('}', '_'), ('[', '_'), (']', '_'), (';', '_'), ('(', '_'), (')', '_'), (',', '_'), ('"', '_'), ('/', '_')):
            s = s.replace(a, b)
        return s

    def small_array(self, t):
        T = self.p.T(t)
        return T['kind'] == 'array' and T['len'] <= 8

    def sort(self, t):
        if t in self.sorts:
            return self.sorts[t]
        p = self.p
        T = p.T(t)
        k = T['kind']
        s = None
        if k == 'basic':
            n = T['name']
            if n in ('bool', 'untyped bool'):
                s = B
            elif n in WIDTH or n in ('untyped int', 'untyped rune'):
                s = z3.BitVecSort(WIDTH.get(n, 64)) if self.bv else I
            elif n in ('string', 'untyped string'):
                s = BYTES.sort
            elif 'float' in n:
                s = z3.RealSort()
            elif n == 'untyped nil':
                s = I
            else:
                raise Unsupported('sort of basic ' + n)
        elif k == 'struct' or (k == 'array' and T['len'] <= 8):
            self.build(t)
            return self.sorts[t]
        elif k == 'array':
            s = self.seq_of(T['elem']).sort
        elif k == 'slice':
            self.slcdt(T['elem'])
            s = self.dt[('slc', self.sname(T['elem']))].sort
        elif k == 'ptr':
            if self.ptrmode(t) == 'ref':
                s = I
            else:
                self.build(t)
                return self.sorts[t]
        elif k == 'iface':
            if p.name(t) in self.iface:
                self.build(t)
                return self.sorts[t]
            s = I
        elif k == 'map':
            s = self.mapdt(t).sort
        elif k in ('func', 'chan'):
            s = I
        else:
            raise Unsupported('sort of ' + p.name(t))
        self.sorts[t] = s
        return s

    def ptrmode(self, t):
        e = self.p.T(t)['elem']
        if self.p.name(e) in self.ptr_ref:
            return 'ref'
        if self.p.kind(e) != 'struct':
            return 'other'
        return 'owned'

    class DT:
        pass

    def slcdt(self, et):
        key = ('slc', self.sname(et))
        if key in self.dt:
            return self.dt[key]
        nm = 'Slc_' + key[1]
        d = z3.Datatype(nm)
        LI = z3.BitVecSort(64) if self.bv else I
        d.declare('mk_' + nm, ('data_' + nm, self.seq_of(et).sort), ('cap_' + nm, I), ('own_' + nm, B), ('nil_' + nm, B))
        s = d.create()
        o = World.DT()
        o.sort = s
        o.mk = s.constructor(0)
        o.data, o.cap, o.own, o.isnil = [s.accessor(0, i) for i in range(4)]
        self.dt[key] = o
        self.dt[('slcsort', s.name())] = (o, et)
        return o

    def mapdt(self, t):
        T = self.p.T(t)
        key = ('map', self.sname(t))
        if key in self.dt:
            return self.dt[key]
        nm = 'Map_' + key[1]
        d = z3.Datatype(nm)
        ks, vs = self.sort(T['key']), self.sort(T['elem'])
        d.declare('mk_' + nm, ('nil_' + nm, B), ('dom_' + nm, z3.ArraySort(ks, B)), ('val_' + nm, z3.ArraySort(ks, vs)))
        s = d.create()
        o = World.DT()
        o.sort = s
        o.mk = s.constructor(0)
        o.isnil, o.dom, o.val = [s.accessor(0, i) for i in range(3)]
        self.dt[key] = o
        return o

    def members(self, t):
        """(label, type id) of direct components for a struct/small array"""
        T = self.p.T(t)
        if T['kind'] == 'struct':
            return [(f['name'] if f['name'] != '_' else 'blank%d' % i, f['type']) for i, f in enumerate(T.get('fields') or [])]
        return [('e%d' % i, T['elem']) for i in range(T['len'])]

    def build(self, t0):
        """create the (mutually recursive) datatypes reachable from t0"""
        p = self.p
        group = {}

        def canon(t):
            # named types keep their identity by type id; share between identical sname
            return t

        def visit(t):
            if t in self.sorts or t in group:
                return
            T = p.T(t)
            k = T['kind']
            if k == 'struct' or (k == 'array' and T['len'] <= 8):
                group[t] = z3.Datatype('T_' + self.sname(t))
                for _, ft in self.members(t):
                    visit(ft)
            elif k == 'ptr' and self.ptrmode(t) == 'owned':
                group[t] = z3.Datatype('P_' + self.sname(T['elem']))
                visit(T['elem'])
            elif k == 'ptr' and self.ptrmode(t) == 'other':
                self.sorts[t] = I
            elif k == 'iface' and p.name(t) in self.iface:
                group[t] = z3.Datatype('If_' + self.sname(t))
                for cn in self.iface[p.name(t)]:
                    visit(p.tstr[cn])
            else:
                self.sort(t)
        visit(t0)

        def ref(t):
            if t in group:
                return group[t]
            return self.sort(t)
        for t, d in group.items():
            T = p.T(t)
            k = T['kind']
            sn = d.name
            if k in ('struct', 'array'):
                d.declare('mk_' + sn, *[('%s__%s' % (sn, n), ref(ft)) for n, ft in self.members(t)])
            elif k == 'ptr':
                d.declare('nil_' + sn)
                d.declare('ref_' + sn, ('val_' + sn, ref(T['elem'])))
            else:
                d.declare('nil_' + sn)
                for cn in self.iface[p.name(t)]:
                    ct = p.tstr[cn]
                    c2 = self.sname(ct)
                    d.declare('box_%s_%s' % (sn, c2), ('unbox_%s_%s' % (sn, c2), ref(ct)))
                d.declare('other_' + sn, ('otherid_' + sn, I))
        if not group:
            return
        ts = list(group)
        ss = z3.CreateDatatypes(*[group[t] for t in ts])
        for t, s in zip(ts, ss):
            self.sorts[t] = s
            o = World.DT()
            o.sort = s
            k = p.kind(t)
            if k in ('struct', 'array'):
                o.mk = s.constructor(0)
                o.acc = [s.accessor(0, i) for i in range(len(self.members(t)))]
            elif k == 'ptr':
                o.nil = s.constructor(0)()
                o.ref = s.constructor(1)
                o.val = s.accessor(1, 0)
                o.isnil = s.recognizer(0)
            else:
                o.nil = s.constructor(0)()
                o.isnil = s.recognizer(0)
                o.box = {}
                o.unbox = {}
                o.isbox = {}
                for j, cn in enumerate(self.iface[p.name(t)]):
                    ct = p.tstr[cn]
                    o.box[ct] = s.constructor(j + 1)
                    o.unbox[ct] = s.accessor(j + 1, 0)
                    o.isbox[ct] = s.recognizer(j + 1)
            self.dt[t] = o
            if k == 'ptr':
                self.dt[('ptrsort', s.name())] = (o, t)

    def D(self, t):
        self.sort(t)
        return self.dt[t]

    def range_of(self, t, v):
        """type invariant of a basic value"""
        if self.bv:
            return None
        T = self.p.T(t)
        if T['kind'] != 'basic':
            return None
        n = T['name']
        if n not in WIDTH:
            return None
        w = WIDTH[n]
        if n in ('int', 'int64'):
            return None
        if n in SIGNED:
            return And(-(1 << (w - 1)) <= v, v < (1 << (w - 1)))
        if n in ('uint', 'uint64', 'uintptr'):
            return v >= 0
        return And(0 <= v, v < (1 << w))

    def to_bytes_sort(self):
        return BYTES.sort


def isz(x):
    return z3.is_expr(x)
