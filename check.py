#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough]: prove the contracts of one property
on the current source of /repo, and replay them against the real code."""
import os, sys, json, time, subprocess, tempfile, argparse, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
try:
    import z3  # noqa: only present in the tool environment
except ImportError:
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)
sys.path.insert(0, HERE)
from gvc.props import PROPS, COMMON_TRUST, COMMON_ASSUME
from gvc import prove as PV

REPO = '/repo'


def known_ids(prop):
    ids = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                w = l.split()
                ids.append(w[2].rstrip(':'))
    except FileNotFoundError:
        pass
    return ids


def run_replay(prop, cfg, seed, tier, tmp, out):
    """build and run the contract-replay program against /repo"""
    if not cfg.get('replay'):
        return dict(status='none')
    env = PV.goenv()
    exe = os.path.join(tmp, 'replay')
    t0 = time.time()
    p = subprocess.run(['go', 'build', '-o', exe, './cmd/' + cfg['replay']], cwd=os.path.join(HERE, 'replay'), env=env, capture_output=True, text=True)
    if p.returncode:
        return dict(status='build', detail=(p.stdout + p.stderr)[-4000:])
    budget = cfg['replay_thorough'] if tier == 'thorough' else cfg['replay_quick']
    cmd = [exe, '-seed', str(seed), '-budget', '%ds' % budget, '-tier', tier, '-out', out, '-known', ','.join(known_ids(prop))]
    try:
        p = subprocess.run(['prlimit', '--as=%d' % (12 << 30)] + cmd, cwd=tmp, env=env, capture_output=True, text=True, timeout=budget * 4 + 120, errors='replace')
    except subprocess.TimeoutExpired:
        return dict(status='fail', detail='the replay program does not terminate', cmd=cmd)
    o = p.stdout
    r = dict(status='ok', cmd=cmd, secs=time.time() - t0, known=[l for l in o.split('\n') if l.startswith('KNOWN-FINDING')])
    if p.returncode == 0 and 'REPLAY-OK ' in o:
        r.update(json.loads(o.split('REPLAY-OK ')[1].split('\n')[0]))
        return r
    r['status'] = 'fail'
    r['detail'] = (o + p.stderr)[-6000:]
    if not os.path.exists(out):
        json.dump(dict(property=prop, error='the real code crashed the replay program', output=r['detail'], command=cmd), open(out, 'w'), indent=1)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = PROPS[prop]
    t0 = time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    rfile = os.path.join(ev, 'replay', prop + '.json')
    pfile = os.path.join(ev, 'replay', prop + '.proof.txt')
    for f in (rfile, pfile):
        if os.path.exists(f):
            os.unlink(f)
    tmp = tempfile.mkdtemp(prefix='gvc.')
    rc = 0
    try:
        report, problem = None, None
        ssa = os.path.join(tmp, 'ssa.json')
        try:
            PV.export_ssa(REPO, ssa)
        except RuntimeError as e:
            problem = str(e)
        rep = run_replay(prop, cfg, seed, tier, tmp, rfile)
        if problem is None:
            # with a failing input in hand the proof only names the obligations that fail
            PV.DEADLINE[0] = time.time() + (120 if rep['status'] == 'fail' else 420 if tier == 'quick' else 3000)
            report = PV.prove(prop, cfg['modules'], ssa, tlim=cfg.get('tlim', 10) * (3 if tier == 'thorough' else 1), verbose=a.v)
            if rep['status'] != 'fail':
                PV.DEADLINE[0] = time.time() + (200 if tier == 'quick' else 1200)
                report = PV.retry(report, 40)
            if (report['failed'] or report['errors'] or report['vacuity']) and rep['status'] == 'ok':
                # give the replay more time to find a concrete failing input
                c2 = dict(cfg)
                c2['replay_quick'] = max(60, cfg['replay_quick'])
                rep2 = run_replay(prop, c2, seed + 1000, tier, tmp, rfile)
                if rep2['status'] == 'fail':
                    rep = rep2
        for l in rep.get('known', []):
            print(l)
        bad = []
        if problem:
            bad.append('the code under test cannot be loaded: ' + problem)
        if report:
            for d in report['failed']:
                bad.append('OBLIGATION NOT DISCHARGED %s: %s (source line %s): %s [%s]' % (d['fn'], d['label'], d['line'], d['status'], d['detail']))
            for e in report['errors']:
                bad.append('NO OBLIGATIONS %s: %s: %s' % (e['fn'], e['label'], e['detail']))
            for v in report['vacuity']:
                bad.append('VACUOUS ' + v)
        if rep['status'] == 'build':
            bad.append('the replay program no longer compiles against the code under test:\n' + rep['detail'])
        write_evidence(prop, tier, seed, cfg, report, rep, time.time() - t0, bad)
        if rep['status'] == 'fail':
            print(rep['detail'][-3000:])
            for b in bad[:20]:
                print(b[:600])
            if bad:
                try:
                    d = json.load(open(rfile))
                    d['failed_obligations'] = [b[:2000] for b in bad[:50]]
                    json.dump(d, open(rfile, 'w'), indent=1)
                except Exception:
                    pass
            print('VIOLATION property=%s replay=%s' % (prop, rfile))
            rc = 1
        elif bad:
            with open(pfile, 'w') as f:
                f.write('Property %s: the verifier did not accept the following on the current source.\n\n' % prop)
                for b in bad:
                    f.write(b + '\n')
                if report:
                    for d in report['failed'][:5]:
                        f.write('\n; %s: %s\n%s\n' % (d['fn'], d['label'], d['text'][:200000]))
            for b in bad[:20]:
                print(b[:600])
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, pfile))
            rc = 1
        else:
            print('OK property=%s: %d obligations discharged (%d functions), %s replay cases, %.1fs' % (
                prop, report['discharged'], len(report['functions']), rep.get('cases', 0), time.time() - t0))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def write_evidence(prop, tier, seed, cfg, report, rep, wall, bad):
    cov = {}
    if report:
        cov = dict(
            obligations=report['obligations'], discharged=report['discharged'],
            checker_cmd='python3-vt -m gvc.prove %s %s' % (prop, ','.join(cfg['modules'])),
            trusted_base=COMMON_TRUST + cfg.get('trusted', []) + report['trusted'],
            functions_under_contract=[f for f in report['functions'] if f['kind'] in ('fn', 'case')],
            lemmas_and_schemes=[f for f in report['functions'] if f['kind'] not in ('fn', 'case')],
            inlined_functions=report['inlined'],
            backends=report['backends'], solver_time_s=round(report['solver_time'], 2),
            undischarged=['%s: %s' % (d['fn'], d['label']) for d in report['failed']],
            axioms_used=report['origins'])
    else:
        cov = dict(obligations=0, discharged=0, checker_cmd='', trusted_base=COMMON_TRUST)
    cov['bounded_parts_not_counted_as_proved'] = cfg['bounded']
    cov['outside_the_proof'] = cfg['gaps']
    cov['replay'] = dict(cases=rep.get('cases', 0), phases=rep.get('phases', {}), status=rep['status'],
                         rule='contracts executed on the real code with generated inputs; validates assumed contracts and supplies failing inputs; bounded, not counted as proved')
    cov['evaluations'] = rep.get('cases', 0)
    if cfg['level'] != 'proof':
        cov['explanation'] = cfg.get('explanation', '')
    d = dict(property=prop, tier=tier, seed=seed, level=cfg['level'], coverage=cov,
             assumptions=COMMON_ASSUME + cfg.get('assume', []) + (report['assumptions'] if report else []),
             wall_s=round(wall, 2), violations=1 if (bad or rep['status'] == 'fail') else 0)
    json.dump(d, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
