import sys, json
from .ir import Prog
from .prove import load_module

mn, ssa, prop = sys.argv[1:4]
prog = Prog.load(ssa)
m, w, reg = load_module(mn, prog)
items, missing = [], []
for fn in reg.order:
    c = reg.contracts[fn]
    if prop != 'ALL' and prop not in c.props:
        continue
    if c.trusted:
        continue
    if fn not in prog.funcs:
        if c.required:
            missing.append(fn)
        continue
    if c.cases is not None:
        cs = c.cases(prog) if callable(c.cases) else c.cases
        items += [['case', fn + ' # ' + x[0]] for x in cs if prop == 'ALL' or len(x) < 3 or prop in x[2]]
        continue
    items.append(['fn', fn])
for l in reg.lemmas:
    if prop == 'ALL' or prop in l[3]:
        items.append(['lemma', l[0]])
for s in reg.schemes:
    if prop == 'ALL' or prop in s[2]:
        items.append(['scheme', s[0]])
tr = ['assumed contract (not verified): ' + fn for fn in reg.order if reg.contracts[fn].trusted] + list(reg.trusted)
json.dump(dict(items=items, missing=missing, trusted=tr), sys.stdout)
