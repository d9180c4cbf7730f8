#!/usr/bin/env python3
"""Developer tool: plant a bug in a scratch way and keep it under seeded/<id>/ once it is confirmed.

usage: seed.py FILE.py   where FILE.py defines ID PROP NEEDS BREAKS EDITS=[(path, old, new), ...] DEMO (python text)
       seed.py --check [ID ...]   run each property's check against its bug
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '31d41e7'
SH = '''#!/bin/bash
# exit 0 when the property holds on this input, nonzero when it does not
D="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d)
trap '/bin/rm -rf "$W"' EXIT
R="$PWD"
cd "$W"
PYTHONPATH="$R" PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:$PATH /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def git(*a):
    return sh(['git', '-C', '/repo'] + list(a))


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    if git('status', '--porcelain').stdout.strip():
        sys.exit('/repo is not clean')
    d = os.path.join(HERE, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    ok = True
    try:
        for p, old, new in ns['EDITS']:
            s = open('/repo/' + p).read()
            if s.count(old) != 1:
                sys.exit('%s: %d matches of %r' % (p, s.count(old), old))
            base = git('show', BASE + ':' + p).stdout.splitlines()
            for l in old.splitlines():
                if l not in new.splitlines() and l not in base and l.strip() not in [b.strip() for b in base]:
                    print('WARNING: not an original line:', l)
            open('/repo/' + p, 'w').write(s.replace(old, new))
        patch = git('diff').stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        r = sh(['bash', '/opt/vp/build.sh'])
        print('build', r.returncode, r.stderr[-300:])
        ok &= r.returncode == 0
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
        print('demo with bug:', r.returncode, (r.stdout + r.stderr)[-300:])
        ok &= r.returncode != 0
        if '--notest' not in sys.argv:
            r = sh(['bash', '/opt/vp/test.sh', '/tmp/w/out.json'])
            print(r.stdout.strip().splitlines()[-1])
            ok &= ' 0 failed' in r.stdout
    finally:
        git('checkout', '--', '.')
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
    print('demo without:', r.returncode, (r.stdout + r.stderr)[-300:])
    ok &= r.returncode == 0
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('OK' if ok else 'BAD', ns['ID'])


def check(ids):
    for i in ids or sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        d = os.path.join(HERE, 'seeded', i)
        prop = json.load(open(d + '/meta.json'))['property']
        r = git('apply', d + '/patch.diff')
        if r.returncode:
            print(i, 'does not apply', r.stderr)
            continue
        try:
            r = sh([os.path.join(HERE, 'run.py'), prop], env=dict(os.environ, VERIF_REPLAY_DIR='/tmp/w/replays', VERIF_SHRINK_S='10'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i, prop, 'CAUGHT' if v and r.returncode == 1 else 'missed', r.returncode, (v + r.stdout.splitlines()[-1:])[0][:150], flush=True)
        finally:
            git('checkout', '--', '.')


if sys.argv[1] == '--check':
    check(sys.argv[2:])
else:
    for f in sys.argv[1:]:
        if not f.startswith('--'):
            main(f)
