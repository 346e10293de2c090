"""SSA program as exported by gossa."""
import json


class Prog:
    def __init__(self, data):
        self.types = data['types']
        self.funcs = data['funcs']
        self.methods = {int(k): v for k, v in data['methods'].items()}
        self.consts = {k: int(v) for k, v in (data.get('consts') or {}).items()}
        self.tstr = {}
        for i, t in enumerate(self.types):
            self.tstr.setdefault(t['str'], i)
        for n, f in self.funcs.items():
            f['name'] = n
            for k in ('params', 'freevars', 'blocks'):
                f[k] = f.get(k) or []
            for b in f['blocks']:
                for k in ('succs', 'preds', 'instrs'):
                    b[k] = b.get(k) or []
                for x in b['instrs']:
                    for k in ('args', 'res', 'bind'):
                        if k in x and x[k] is None:
                            x[k] = []
        self._loops = {}

    @staticmethod
    def load(path):
        return Prog(json.load(open(path)))

    def under(self, t):
        T = self.types[t]
        while T['kind'] == 'named':
            t = T['under']
            T = self.types[t]
        return t

    def kind(self, t):
        return self.types[self.under(t)]['kind']

    def T(self, t):
        return self.types[self.under(t)]

    def name(self, t):
        return self.types[t]['str']

    def fields(self, t):
        return self.T(t).get('fields') or []

    def field_index(self, t, name):
        for i, f in enumerate(self.fields(t)):
            if f['name'] == name:
                return i
        return None

    def loops(self, fn):
        """header block -> set of blocks of the natural loop"""
        n = fn['name']
        if n in self._loops:
            return self._loops[n]
        bl = fn['blocks']
        N = len(bl)
        dom = [set(range(N)) for _ in range(N)]
        dom[0] = {0}
        ch = True
        reach = {0}
        st = [0]
        while st:
            b = st.pop()
            for s in bl[b]['succs']:
                if s not in reach:
                    reach.add(s)
                    st.append(s)
        while ch:
            ch = False
            for b in range(1, N):
                if b not in reach:
                    continue
                ps = [p for p in bl[b]['preds'] if p in reach]
                nd = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in sorted(reach):
            for s in bl[b]['succs']:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st += [p for p in bl[x]['preds'] if p in reach]
        self._loops[n] = loops
        return loops

    def global_ints(self, name):
        """Field values (integers) of a struct global that is only ever set by its initialiser, else None."""
        g = {'k': 'global', 'n': name}

        def mentions(x):
            if isinstance(x, dict):
                if x.get('k') == 'global' and x.get('n') == name:
                    return True
                return any(mentions(v) for v in x.values())
            if isinstance(x, list):
                return any(mentions(v) for v in x)
            return False
        stores, typ = [], None
        for n, f in self.funcs.items():
            for b in f['blocks']:
                for x in b['instrs']:
                    if not mentions(x):
                        continue
                    if x['op'] == 'unop' and x.get('tok') == '*':
                        typ = x['t']
                    elif x['op'] == 'store' and not mentions(x['val']) and n == name.split('.')[0] + '.init':
                        stores.append((f, x))
                    else:
                        return None
        if typ is None or len(stores) > 1:
            return None
        vals = [0] * len(self.fields(typ))
        if not stores:
            return vals
        f, x = stores[0]
        defs = {i['id']: i for b in f['blocks'] for i in b['instrs'] if 'id' in i}
        src = defs.get(x['val'].get('n'))
        if not src or src['op'] != 'unop' or src.get('tok') != '*':
            return None
        al = defs.get(src['x'].get('n'))
        if not al or al['op'] != 'alloc':
            return None
        for b in f['blocks']:
            for i in b['instrs']:
                if i['op'] == 'store':
                    fa = defs.get(i['addr'].get('n')) if i['addr'].get('k') == 'reg' else None
                    if fa and fa['op'] == 'fieldaddr' and fa['x'].get('n') == al['id']:
                        if not i['val'].get('int'):
                            return None
                        vals[fa['f']] = int(i['val']['v'])
        return vals
