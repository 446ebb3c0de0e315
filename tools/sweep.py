"""Runs the checks against the planted bugs in seeded/.  usage: sweep.py [--seeds "1 2"] [ID...]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
seeds = ['1']
if a[:1] == ['--seeds']:
    seeds = a[1].split()
    a = a[2:]
for i in a or sorted(os.listdir(V + '/seeded')):
    d = f'{V}/seeded/{i}'
    p = json.load(open(d + '/meta.json'))['property']
    if subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff']).returncode:
        print(i, 'DOES NOT APPLY')
        continue
    out = []
    try:
        for s in seeds:
            r = subprocess.run([sys.executable, V + '/run.py', p, '--noshrink'], env=dict(os.environ, VERIF_SEED=s), capture_output=True, text=True)
            out.append('caught' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED')
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    print(i, p, *out, flush=True)
