#!/usr/bin/env python3
"""mkseed.py SPEC.py ...: plant bugs in a scratch copy of /repo, confirm them, keep them in /verif/seeded.

A spec file defines SEEDS = [dict(id=, property=, edits=[(file, old, new)], pkg=, demo=<Go test source with TestZZDemo>, needs=, breaks=)]."""
import sys, os, subprocess, json, shutil, runpy
S = '/tmp/seedrepo'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GODEBUG='randautoseed=0')
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the demonstrated input
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$R" || exit 2
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\": {\\"$R/%s/zz_demo_test.go\\": \\"$D/demo_test.go.txt\\"}}" > "$T/o.json"
go test -count=1 -vet=off -timeout 120s -overlay "$T/o.json" -run 'TestZZDemo' ./%s
'''


def sh(c, cwd=S):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd %s; %s' % (cwd, c)], capture_output=True, text=True, env=ENV)


def fails():
    o = sh('go test ./... 2>&1').stdout
    return sorted(l.strip().split(' (')[0] for l in o.split('\n') if '--- FAIL' in l or l.startswith('FAIL') or 'panic:' in l or 'cannot' in l), o


def main():
    shutil.rmtree('/tmp/seedrepo', ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', S], check=True)
    base, _ = fails()
    base = [b.split('\t')[0:2] for b in base]
    for spec in sys.argv[1:]:
        for s in runpy.run_path(spec)['SEEDS']:
            sh('git checkout -q -- .')
            d = '/verif/seeded/' + s['id']
            ok = True
            for f, old, new in s['edits']:
                t = open(S + '/' + f).read()
                if t.count(old) != 1:
                    print(s['id'], 'BAD EDIT', f, t.count(old))
                    ok = False
                    break
                open(S + '/' + f, 'w').write(t.replace(old, new))
            if not ok:
                continue
            os.makedirs(d, exist_ok=True)
            open(d + '/demo_test.go.txt', 'w').write(s['demo'])
            open(d + '/demo.sh', 'w').write(DEMO % (s['pkg'], s['pkg']))
            os.chmod(d + '/demo.sh', 0o755)
            b = sh('go build ./... && go vet ./%s' % s['pkg'])
            diff = sh('git diff').stdout
            open(d + '/patch.diff', 'w').write(diff)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            now, o = fails()
            now = [x.split('\t')[0:2] for x in now]
            bad = sh('bash %s/demo.sh' % d)
            sh('git checkout -q -- .')
            good = sh('bash %s/demo.sh' % d)
            res = []
            if b.returncode:
                res.append('BUILD ' + b.stderr[-300:])
            if now != base:
                res.append('TESTS DIFFER %s' % [x for x in now if x not in base])
            if bad.returncode == 0:
                res.append('DEMO PASSES WITH PATCH')
            if good.returncode:
                res.append('DEMO FAILS ON CLEAN ' + (good.stdout + good.stderr)[-800:])
            if res:
                shutil.rmtree(d)
            print(s['id'], 'OK' if not res else 'REJECTED ' + '; '.join(res))
    shutil.rmtree('/tmp/seedrepo', ignore_errors=True)


main()
