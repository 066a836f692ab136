"""Runs the checks against the planted bugs (development aid): trybugs.py [-a] [-t TIER] [id ...]
   -a: every check on every bug, else the check of the bug's property."""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
args = sys.argv[1:]
al = '-a' in args
tier = args[args.index('-t') + 1] if '-t' in args else 'quick'
ids = [a for a in args if not a.startswith('-') and a not in ('quick', 'thorough')]
props = [c['property'] for c in json.load(open(ROOT / 'MANIFEST.json'))['checks']]
for d in sorted((ROOT / 'seeded').iterdir()):
    if ids and d.name not in ids or not (d / 'meta.json').exists():
        continue
    prop = json.load(open(d / 'meta.json'))['property']
    w = tempfile.mkdtemp(prefix='bug-')
    try:
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s && cd %s && git apply %s/patch.diff' % (w, w, d), shell=True, check=True)
        hits = []
        for p in props if al else [prop]:
            env = dict(os.environ, VF_REPO=w, VERIF_TIER=tier, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
            r = subprocess.run(['./check', p], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('  [')]
            if r.returncode == 1:
                hits.append(p + ('*' if p == prop else '') + ' ' + (v[0].strip()[:90] if v and (p == prop) else ''))
            elif r.returncode:
                hits.append(p + ' exit %d' % r.returncode)
        print('%-24s %s  %s' % (d.name, prop, '; '.join(hits) or 'MISSED'), flush=True)
    finally:
        shutil.rmtree(w)
