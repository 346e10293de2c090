"""Prove all contracts of a module that belong to a property."""
import os, sys, time, pickle, json, importlib, hashlib, subprocess, traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, as_completed
import multiprocessing as mp
import z3
from . import smt
from .ir import Prog
from .sym import *
from .exe import Exec
from .dsl import verify_safe, verify, Contract, Ctx, View

PKGS = ['./charset', './input', './input/linerope', './vm', './isa', './pattern', './memo/...', './re', './rxconv']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def goenv():
    e = dict(os.environ)
    e.update(PATH='/opt/veriftools/go1.27.3/bin:' + e.get('PATH', ''), GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off',
             HOME='/root')
    return e


def build_exporter():
    out = os.path.join(HERE, 'bin', 'gossa')
    src = os.path.join(HERE, 'gossa', 'main.go')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        p = subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=os.path.join(HERE, 'gossa'), env=goenv(), capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError(p.stderr)
        os.replace(tmp, out)
    return out


def export_ssa(repo, out):
    b = build_exporter()
    with open(out, 'w') as f:
        p = subprocess.run([b, repo] + PKGS, cwd=repo, env=goenv(), stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError('cannot load the code under test: ' + p.stderr[-2000:])


class Reg:
    """what a contract module provides"""

    def __init__(self):
        self.contracts = {}
        self.externs = {}
        self.order = []
        self.opts = {}
        self.lemmas = []
        self.trusted = []
        self.schemes = []

    def contract(self, fn, **kw):
        c = Contract(fn, **kw)
        self.contracts[fn] = c
        self.order.append(fn)
        return c

    def use(self, mod, w):
        """rely on the contracts of another module (verified under its own properties)"""
        r2 = Reg()
        mod.build(w, r2)
        for fn, c in r2.contracts.items():
            if fn not in self.contracts:
                c.props = ()
                self.contracts[fn] = c
        self.externs.update(r2.externs)
        for k, v in r2.opts.items():
            if isinstance(v, dict):
                d = self.opts.setdefault(k, {})
                d.update(v)
        return r2

    def induction(self, name, props, n, stmt, others=(), patterns=(), symbols=None, hyps=(), start=0, elim=None, ihpat=None):
        """lemma proved by induction on n >= start, then available as an axiom"""
        lim = len(smt.AXIOMS)
        body = stmt(n)
        self.lemmas.append((name + ' (base)', list(hyps), stmt(IntVal(start)), tuple(props), lim))
        self.lemmas.append((name + ' (step)', list(hyps) + [n >= start, body] + ([z3.ForAll(list(others), body, patterns=list(ihpat or []))] if others else []), stmt(n + 1), tuple(props), lim))
        syms = symbols
        if elim is not None:
            # the induction variable is determined by the others
            term = z3.ForAll(list(others), z3.substitute(z3.Implies(z3.And(n >= start, *hyps), body), (n, elim)), patterns=list(patterns))
        else:
            term = z3.ForAll([n] + list(others), z3.Implies(z3.And(n >= start, *hyps), body), patterns=list(patterns))
        smt.axiom(syms, term, 'lemma ' + name)

    def fact(self, name, props, body, vs, patterns, symbols, using=()):
        """lemma proved directly, then available as an axiom"""
        lim = len(smt.AXIOMS)
        self.lemmas.append((name, [z3.Function('seen_' + u.sort().name(), u.sort(), z3.BoolSort())(u) for u in using], body, tuple(props), lim))
        smt.axiom(symbols, z3.ForAll(list(vs), body, patterns=list(patterns)), 'lemma ' + name)

    def lemma(self, name, hyps, goal, props=()):
        self.lemmas.append((name, hyps, goal, tuple(props), len(smt.AXIOMS)))


_loaded = {}


def load_cached(ssa, modname):
    """one module per process: sorts, axioms and spec functions are global"""
    k = (ssa, modname)
    if k not in _loaded:
        assert not _loaded, 'one contract module per process'
        prog = Prog.load(ssa)
        _loaded[k] = (prog,) + load_module(modname, prog)
    return _loaded[k]


def load_module(modname, prog):
    m = importlib.import_module('gvc.contracts.' + modname)
    w = World(prog, bv=getattr(m, 'BV', False))
    reg = Reg()
    m.build(w, reg)
    return m, w, reg


def job_vcs(ssa, modname, item, prop=None):
    """worker: symbolic execution of one function -> list of obligations as SMT-LIB text"""
    t0 = time.time()
    kind, name = item
    prog, m, w, reg = load_cached(ssa, modname)
    res = dict(item=item, module=modname, obls=[], covers=[], error=None, inlined=[], used=[], externs=[], assumptions=[], secs=0)
    try:
        if kind == 'lemma':
            for (nm, hyps, goal, props, lim) in reg.lemmas:
                if nm == name:
                    smt.AXLIMIT = lim
                    h, g = (hyps() if callable(hyps) else hyps), (goal() if callable(goal) else goal)
                    res['obls'].append(mk(nm, 'lemma', 'lemma', h, g))
            smt.AXLIMIT = None
            res['secs'] = time.time() - t0
            return res
        if kind == 'scheme':
            for (nm, fn, props) in reg.schemes:
                if nm == name:
                    for (lab, h, g) in fn(prog, w, reg):
                        res['obls'].append(mk(nm, lab, 'scheme', h, g))
            res['secs'] = time.time() - t0
            return res
        case = None
        if kind == 'case':
            name, _, cn = name.partition(' # ')
            case = [x[0] for x in reg.contracts[name].cases].index(cn)
        c = reg.contracts[name]
        ex = Exec(w, reg.contracts, reg.externs, reg.opts)
        ex.deadline = time.time() + 240
        ex.case = case
        obls, covers, err = verify_safe(ex, c)
        res['error'] = err
        if 'wanted' in reg.opts:
            obls = [o for o in obls if reg.opts['wanted'](prop, c, o)]
        if 'prune' in reg.opts:
            for o in obls:
                if o.hyps:
                    o.hyps = reg.opts['prune'](c, o)        # (may also set o.without: axioms to leave out)
        res['obls'] += mk_all(c, obls)
        if kind == 'case':
            for o in res['obls']:
                o['fn'] = item[1]
        for (fn, lab, hs) in covers:
            if any(x[1] == lab and x[2] for x in res['covers']):
                continue
            res['covers'] = [x for x in res['covers'] if x[1] != lab]
            if lab == 'some return is reachable':
                ok = False
                detail = []
                for pc in hs:
                    if cover_ok(pc):
                        ok = True
                        break
                res['covers'].append((fn, lab, ok))
            else:
                res['covers'].append((fn, lab, cover_ok(hs)))
        res['inlined'] = sorted(ex.inlined)
        res['used'] = sorted(ex.used_contracts)
        res['externs'] = sorted(ex.used_externs)
        res['assumptions'] = sorted(ex.assumptions)
        res['npaths'] = ex.npaths
    except Unsupported as e:
        res['error'] = 'unsupported: %s' % e
    except Exception as e:
        res['error'] = 'engine error: ' + traceback.format_exc()[-1500:]
    res['secs'] = time.time() - t0
    return res


def cover_ok(pc):
    """the hypotheses are not contradictory (as far as the solver can see)"""
    defs, axs, _ = smt.close(pc, z3.BoolVal(True))
    s = z3.Solver()
    s.set('timeout', 1500)
    s.set('smt.mbqi', False)
    for f in list(pc) + defs + axs:
        s.add(f)
    return s.check() != z3.unsat


def mk(fn, label, kind, hyps, goal, line=None, tlim=None, without=None, opaque=()):
    g = z3.simplify(goal) if z3.is_expr(goal) else z3.BoolVal(bool(goal))
    if z3.is_true(g):
        return dict(fn=fn, label=label, kind=kind, line=line, text=None)
    defs, axs, origins = smt.close(hyps or [], goal, without=without, opaque=opaque)
    return dict(fn=fn, label=label, kind=kind, line=line, text=smt.to_smt2(hyps or [], defs, axs, goal), origins=sorted(set(origins)), tlim=tlim)


def mk_all(c, obls):
    """obligations to text; large sets are split over forked children"""
    n = 1 if len(obls) < 150 else 6
    if n == 1:
        return [mk(c.fn, o.label, o.kind, o.hyps, o.goal, o.line, c.tlim, getattr(o, 'without', None), getattr(o, 'opaque', ())) for o in obls]
    pipes = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                d = [mk(c.fn, o.label, o.kind, o.hyps, o.goal, o.line, c.tlim, getattr(o, 'without', None), getattr(o, 'opaque', ())) for o in obls[k::n]]
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(d, f)
                os._exit(0)
            finally:
                os._exit(1)
        os.close(w)
        pipes.append((pid, r))
    out = [None] * len(obls)
    for k, (pid, r) in enumerate(pipes):
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        out[k::n] = pickle.loads(data)
    return out


DEADLINE = [None]


def job_solve(text, tlim):
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        return 'unknown', '-', 0.0, 'no time left'
    r = smt.solve_text(text, tlim, deadline=DEADLINE[0])
    return r.status, r.backend, r.secs, r.detail


def prove(prop, modules, ssa, tlim=10, workers=8, only=None, verbose=False):
    """returns a summary dict"""
    t0 = time.time()
    prog = Prog.load(ssa)
    items = []
    report = dict(functions=[], failed=[], undecided=[], backends={}, solver_time=0.0, obligations=0, discharged=0, trivial=0,
                  assumptions=set(), trusted=set(), errors=[], vacuity=[], inlined=set(), origins=set())
    for mn in modules:
        p = subprocess.run([sys.executable, '-m', 'gvc.listitems', mn, ssa, prop], capture_output=True, text=True, cwd=HERE)
        if p.returncode:
            report['errors'].append(dict(fn=mn, label='contract module loads', detail=p.stderr[-1500:]))
            continue
        d = json.loads(p.stdout)
        for it in d['items']:
            items.append((mn, tuple(it)))
        report['trusted'] |= set(d['trusted'])
        for fn in d['missing']:
            report['errors'].append(dict(fn=fn, label='function under contract exists', detail='function not found in the current source'))
    if only:
        items = [x for x in items if only in x[1][1]]
    ctx = mp.get_context('spawn')
    mods = sorted(set(mn for mn, it in items))
    pools = {mn: ProcessPoolExecutor(min(workers, max(1, sum(1 for x in items if x[0] == mn))), mp_context=ctx) for mn in mods}
    try:
        futs = [pools[mn].submit(job_vcs, ssa, mn, it, prop) for mn, it in items]
        with ThreadPoolExecutor(workers) as tp:
            sfuts = {}
            cache = {}
            for f in as_completed(futs):
                r = f.result()
                nm = r['item'][1]
                if verbose:
                    print('  %s: %d obligations, %.1fs%s' % (nm, len(r['obls']), r['secs'], ' ERROR ' + r['error'] if r['error'] else ''), flush=True)
                report['functions'].append(dict(name=nm, kind=r['item'][0], obligations=len(r['obls']), secs=round(r['secs'], 2), module=r['module']))
                if r['error']:
                    report['errors'].append(dict(fn=nm, label='obligations can be generated', detail=r['error']))
                if not r['obls'] and not r['error']:
                    report['vacuity'].append('%s: no obligation generated' % nm)
                for (fn, lab, ok) in r['covers']:
                    if not ok and not nm.endswith('# invalid'):
                        report['vacuity'].append('%s: %s: NO' % (nm, lab))
                report['inlined'] |= set(r['inlined'])
                report['trusted'] |= {'extern contract: ' + e for e in r['externs']}
                report['assumptions'] |= set(r['assumptions'])
                for o in r['obls']:
                    report['obligations'] += 1
                    report['origins'] |= set(o.get('origins') or [])
                    if o['text'] is None:
                        report['discharged'] += 1
                        report['trivial'] += 1
                        continue
                    h = hashlib.sha1(o['text'].encode()).hexdigest()
                    if h not in cache:
                        cache[h] = tp.submit(job_solve, o['text'], o.get('tlim') or tlim)
                    sfuts.setdefault(h, []).append(o)
            for h, os_ in sfuts.items():
                status, be, secs, detail = cache[h].result()
                report['solver_time'] += secs
                if status == 'proved':
                    report['discharged'] += len(os_)
                    report['backends'][be] = report['backends'].get(be, 0) + len(os_)
                else:
                    for o in os_:
                        d = dict(fn=o['fn'], label=o['label'], kind=o['kind'], line=o['line'], status=status, detail=detail, text=o['text'])
                        report['failed'].append(d)
                if verbose and (status != 'proved' or secs > 3):
                    for o in os_:
                        print('  %s %s: %s (line %s) %s' % (status.upper(), o['fn'], o['label'], o['line'], detail), flush=True)
    finally:
        for p in pools.values():
            p.shutdown(wait=False, cancel_futures=True)
    report['backends']['simplifier'] = report['trivial']
    report['wall'] = time.time() - t0
    for k in ('assumptions', 'trusted', 'inlined', 'origins'):
        report[k] = sorted(report[k])
    return report


def retry(report, tlim, maxn=16):
    """second chance with a longer limit (a loaded machine is no reason for an alarm)"""
    fs = report['failed']
    if not fs or len(fs) > 40:
        return report
    keep = []
    uniq = {}
    for d in fs:
        uniq.setdefault(d['text'], []).append(d)
    with ThreadPoolExecutor(8) as tp:
        futs = {t: tp.submit(job_solve, t, tlim) for t in list(uniq)[:maxn]}
        for t, ds in uniq.items():
            if t in futs:
                status, be, secs, detail = futs[t].result()
                report['solver_time'] += secs
                if status == 'proved':
                    report['discharged'] += len(ds)
                    report['backends'][be] = report['backends'].get(be, 0) + len(ds)
                    continue
                for d in ds:
                    d['status'], d['detail'] = status, detail
            keep += ds
    report['failed'] = keep
    return report


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('modules')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--only')
    ap.add_argument('--tlim', type=int, default=10)
    ap.add_argument('--dump')
    ap.add_argument('--deadline', type=int)
    a = ap.parse_args()
    ssa = '/tmp/ssa.%d.json' % os.getpid()
    if a.deadline:
        DEADLINE[0] = time.time() + a.deadline
    export_ssa(a.repo, ssa)
    r = prove(a.prop, a.modules.split(','), ssa, a.tlim, only=a.only, verbose=True)
    os.unlink(ssa)
    import collections
    for k, n in collections.Counter(('FAILED %s | %s | line %s %s' % (d['fn'], d['label'], d['line'], d['status'])) for d in r['failed']).items():
        print(n, 'x', k)
    if a.dump:
        os.makedirs(a.dump, exist_ok=True)
        for i, d in enumerate(r['failed']):
            open('%s/%d.smt2' % (a.dump, i), 'w').write('; %s %s\n%s' % (d['fn'], d['label'], d['text']))
    for e in r['errors']:
        print('ERROR', e['fn'], e['label'], e['detail'])
    print('vacuity', r['vacuity'])
    print({k: (round(v, 1) if isinstance(v, float) else v) for k, v in r.items() if k in ('obligations', 'discharged', 'trivial', 'backends', 'solver_time', 'wall')})
