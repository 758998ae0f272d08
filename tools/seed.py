#!/usr/bin/env python3
"""tools/seed.py make [ids..]   build seeded/<id>/ from tools/seeds/*.py (PATCHES as old/new text)
   tools/seed.py test [ids..]   apply each to /repo, run demo + repository tests (-t) + the property's check, undo
"""
import glob, importlib.util, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_DEV_REPO', '/repo')
SEEDS = {}


def seed(id, prop, needs, breaks, edits, demo):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def load():
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), dict(seed=seed))


def make(id):
    s = SEEDS[id]
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C ' + R + ' status --porcelain').stdout.strip(), 'repo not clean'
    try:
        for f, old, new in s['edits']:
            p = R + '/' + f
            t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C ' + R + ' diff').stdout)
    finally:
        sh('git -C ' + R + ' checkout -- .')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export TMPDIR="$W" HOME="$W" MPLCONFIGDIR="$W" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export PYTHONPATH="$PWD/python"
cd "$W"
/opt/venv/bin/python -W ignore "$here/demo.py"
''')
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip())
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)


def test(id, tests=False, check=True):
    s = SEEDS[id]
    d = os.path.join(V, 'seeded', id)
    res = [id, s['prop']]
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    res.append('demo-clean:%d' % r0.returncode)
    if r0.returncode:
        res.append(r0.stdout[-600:])
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    if a.returncode:
        return res + ['PATCH DOES NOT APPLY']
    try:
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        res.append('demo-bug:%d' % r1.returncode)
        if tests:
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            t = json.load(open('/tmp/seedtest.json'))
            res.append('tests:%s' % (json.dumps({k: (len(v) if hasattr(v, '__len__') else v) for k, v in t.items()})))
        if check:
            r2 = sh('./check %s' % s['prop'], cwd=V)
            res.append('check:%d%s' % (r2.returncode, '' if r2.returncode == 1 else '   <<<<<<<< MISSED ' + r2.stdout[-300:]))
    finally:
        sh('git -C ' + R + ' checkout -- .')
    return res


if __name__ == '__main__':
    load()
    opts = [a for a in sys.argv[2:] if a.startswith('-')]
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    ids = [i for i in SEEDS if not ids or i in ids or SEEDS[i]['prop'] in ids]
    for i in ids:
        if sys.argv[1] == 'make':
            make(i)
        else:
            print(*test(i, '-t' in opts, '-n' not in opts), flush=True)
