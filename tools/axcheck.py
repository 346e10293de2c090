"""axcheck.py SSA MODULE [seeds]: look for contradictions among the axioms and contract hypotheses (any unsat is a bug of the contracts)."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from gvc import prove as P, smt
from gvc.exe import Exec
from gvc.dsl import verify_safe
from multiprocessing import Pool
ssa, mod = sys.argv[1:3]
seeds = int(sys.argv[3]) if len(sys.argv) > 3 else 6


def chk(fs, seed, to):
    s = z3.Solver()
    s.set('timeout', to)
    s.set('smt.mbqi', False)
    s.set('smt.random_seed', seed)
    for f in fs:
        s.add(f)
    return s.check()


def small(fs, seed):
    n = max(1, len(fs) // 2)
    while True:
        i, ch = 0, False
        while i < len(fs):
            g = fs[:i] + fs[i + n:]
            if chk(g, seed, 3000) == z3.unsat:
                fs, ch = g, True
            else:
                i += n
        if n == 1 and not ch:
            return fs
        n = max(1, n // 2)


def one(fn):
    prog, m, w, reg = P.load_cached(ssa, mod)
    out = []
    if fn is None:
        sets = [('axioms', 'all', [a[1] for a in smt.AXIOMS])]
        for (nm, hyps, goal, props, lim) in reg.lemmas:
            g = goal() if callable(goal) else goal
            defs, axs, _ = smt.close([], g)
            sets.append(('lemma', nm, defs + axs))
    else:
        c = reg.contracts[fn]
        ex = Exec(w, reg.contracts, reg.externs, reg.opts)
        ex.deadline = time.time() + 240
        ex.case = None
        try:
            o, cv, e = verify_safe(ex, c)
        except Exception as x:
            return ['%s: %s' % (fn, x)]
        sets = []
        for f, lab, hs in cv:
            for h in (hs[:4] if lab == 'some return is reachable' else [hs]):
                defs, axs, _ = smt.close(h, z3.BoolVal(True))
                sets.append((fn, lab, list(h) + defs + axs))
    for a, b, fs in sets:
        if a == fn and 'precondition' not in b and 'return' not in b and 'loop' not in b:
            continue
        for seed in range(seeds):
            if chk(fs, seed, 4000) == z3.unsat:
                out.append('%s %s UNSAT seed %d\n   ' % (a, b, seed) + '\n   '.join(str(f)[:500] for f in small(fs, seed)))
                break
    return out


if __name__ == '__main__':
    prog, m, w, reg = P.load_cached(ssa, mod)
    items = [None] + [c for c in reg.contracts if reg.contracts[c].fn in prog.funcs and not getattr(reg.contracts[c], 'inline', False) and not getattr(reg.contracts[c], 'trusted', False)]
    with Pool(6) as p:
        for r in p.imap_unordered(one, items):
            for l in r:
                print(l, flush=True)
    print(mod, 'done', len(items))
