"""Author and try seeded changes (never used by a check).

  tools_seed.py make FILE.py      FILE.py defines SEEDS: list of dict(id, property, edits=[(file, old, new)], demo, needs, breaks)
  tools_seed.py verify [ID...]    demo on the clean tree, then patched: build, stable tests, demo, the property's check
"""
import json
import os
import runpy
import subprocess
import sys

REPO, HOME = '/repo', '/verif/seeded'
HEAD = '''#!/bin/bash
# exits 0 when the behaviour is right; run in the repository after its build
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
'''


def sh(cmd, timeout=900, cwd=REPO):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout + p.stderr


def clean():
    rc, out = sh('git status --porcelain')
    if out.strip():
        sys.exit('repository not clean:\n' + out)


def make(path):
    clean()
    for s in runpy.run_path(path)['SEEDS']:
        d = os.path.join(HOME, s['id'])
        try:
            for f, old, new in s['edits']:
                p = os.path.join(REPO, f)
                text = open(p).read()
                if text.count(old) != 1:
                    sys.exit('%s: %d matches in %s for %r' % (s['id'], text.count(old), f, old))
                open(p, 'w').write(text.replace(old, new))
            rc, diff = sh('git diff')
        finally:
            sh('git checkout -- .')
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        demo = os.path.join(d, 'demo.sh')
        open(demo, 'w').write(HEAD + s['demo'].lstrip('\n'))
        os.chmod(demo, 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('made ' + s['id'])


def verify(ids, tests=True):
    clean()
    table = []
    for i in ids or sorted(os.listdir(HOME)):
        d = os.path.join(HOME, i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        row = {'id': i, 'property': prop}
        rc, out = sh('bash %s/demo.sh' % d, 300)
        row['demo_clean'] = rc
        if rc:
            print(out[-1500:])
        rc, out = sh('git apply %s/patch.diff' % d)
        if rc:
            row['apply'] = out[-300:]
            table.append(row)
            print(row)
            continue
        try:
            if tests:
                rc, out = sh('bash /opt/vp/build.sh', 1800)
                row['build'] = rc
                if rc:
                    print(out[-1500:])
                rc, out = sh('bash /opt/vp/test.sh /tmp/seed_out.json', 1800)
                row['tests'] = out.strip().splitlines()[-1]
                if ' 0 failed' not in row['tests']:
                    print('\n'.join(l for l in out.splitlines() if 'FAILED' in l or 'Error' in l)[-1500:])
            rc, out = sh('bash %s/demo.sh' % d, 300)
            row['demo_bug'] = rc
            if not rc:
                print(out[-800:])
            rc, out = sh('./check %s quick' % prop, 1200, '/verif')
            row['check'] = rc
            v = [l for l in out.splitlines() if l.startswith('violated')]
            row['saw'] = (v or out.strip().splitlines()[-1:] or [''])[0][:200]
        finally:
            sh('git checkout -- .')
        table.append(row)
        print(json.dumps(row), flush=True)
    sh('bash /opt/vp/build.sh', 1800)
    bad = [r['id'] for r in table if r.get('demo_clean') or not r.get('demo_bug') or r.get('build') or
           (tests and ' 0 failed' not in r.get('tests', ''))]
    print('unusable: %s' % bad)
    print('missed: %s' % [r['id'] for r in table if r['id'] not in bad and r.get('check') != 1])


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        verify([a for a in sys.argv[2:] if a != '--notests'], '--notests' not in sys.argv)
