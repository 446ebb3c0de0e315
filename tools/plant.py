"""Makes seeded/<id>/ out of a specification and confirms it.

usage: plant.py SPEC.py [ID...]     SPEC.py defines BUGS, a list of dicts with
    id, property, edits [(path under pydatastructs/, old, new)], demo (Python), needs, breaks
For each: applies the edits to /repo, builds, tests, runs the demonstration and the property's check at a few
seeds, then restores /repo.
"""
import json, os, re, subprocess, sys

REPO, VERIF = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'cddaa7c'
SEEDS = os.environ.get('SEEDS', '1 2 3').split()

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def restore():
    sh('git -C /repo checkout -q -- .')

def original(path, old):
    """Whether the lines an edit removes were in the original repository."""
    base = sh(f'git -C {REPO} show {BASE}:pydatastructs/{path}').stdout
    lines = set(base.split('\n'))
    return [l for l in old.split('\n') if l not in lines]

def one(b):
    d = os.path.join(VERIF, 'seeded', b['id'])
    if sh('git -C /repo status --porcelain').stdout.strip():
        sys.exit('/repo is not clean')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(b['demo'].lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\ncd /repo && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n'
                .replace('cd /repo && ', 'D=$(cd "$(dirname "$0")" && pwd)\ncd /repo && ')
                .replace('"$(dirname "$(realpath "$0")")/demo.py"', '"$D/demo.py"'))
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
        f.write('\n')
    sh('bash /opt/vp/build.sh')
    r0 = sh(f'bash {d}/demo.sh', timeout=300)
    try:
        for path, old, new in b['edits']:
            p = f'{REPO}/pydatastructs/{path}'
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            s = s.replace('\r\n', '\n')
            n = s.count(old)
            if n != 1:
                print(b['id'], f'SPEC ERROR: {n} matches in {path} for {old!r}')
                return
            s = s.replace(old, new)
            open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        diff = sh('git -C /repo diff').stdout if not crlf else None
        raw = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(raw)
        mine = []
        cur = None
        for l in raw.decode().replace('\r', '').split('\n'):
            if l.startswith('--- a/'):
                cur = l[len('--- a/pydatastructs/'):]
            elif l.startswith('-') and not l.startswith('--'):
                base = sh(f'git -C {REPO} show {BASE}:pydatastructs/{cur}').stdout.replace('\r', '').split('\n')
                if l[1:] not in base:
                    mine.append(l)
        bl = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/plant.%d.json' % os.getpid()).stdout.strip().split('\n')[-1]
        try:
            r1 = sh(f'bash {d}/demo.sh', timeout=120)
            r1c, r1o = r1.returncode, r1.stdout.strip().split('\n')[-1]
        except subprocess.TimeoutExpired:
            r1c, r1o = 'timeout', ''
        ok = bl.returncode == 0 and '179 passed, 0 failed' in t and r0.returncode == 0 and r1c != 0 and not mine
        print(b['id'], 'OK' if ok else 'BAD', f'build={bl.returncode} tests={t!r} demo0={r0.returncode} demo1={r1c} {r1o[:100]}',
              'NOT ORIGINAL: %s' % mine if mine else '', flush=True)
        if r0.returncode:
            print(r0.stdout[-500:])
        if bl.returncode:
            print(bl.stdout[-500:])
        if ok and not os.environ.get('NOCHECK'):
            for seed in SEEDS:
                c = sh(f'timeout 900 /opt/venv/bin/python {VERIF}/run.py {b["property"]}',
                       env=dict(os.environ, VERIF_SEED=seed))
                v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
                print('   seed', seed, 'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode,
                      (v or [''])[0][:160], flush=True)
        if not ok:
            sh(f'rm -r {d}')
    finally:
        restore()

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns['BUGS']:
        if len(sys.argv) < 3 or b['id'] in sys.argv[2:]:
            one(b)
    sh('bash /opt/vp/build.sh')

main()
