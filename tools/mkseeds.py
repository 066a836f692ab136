"""Writes /verif/seeded/<id>/ from tools/seeds/*.txt definitions and confirms each one:
patch applies, only original lines change, the tests pass, the demonstration tells the
trees apart. usage: mkseeds.py [--notest] [id ...]"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parent.parent
SEEDED = ROOT / 'seeded'
sys.path.insert(0, str(ROOT / 'tools' / 'seeds'))


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run_demo(d, cwd):
    env = dict(os.environ, PYTHONPATH=str(cwd), PYTHONDONTWRITEBYTECODE='1', VERIF_SEED='')
    t = tempfile.mkdtemp(prefix='demo-')
    try:
        for f in d.iterdir():
            if f.suffix not in ('.diff', '.patch') and f.name != 'meta.json':
                shutil.copy(f, t)
        return sh('bash %s/demo.sh' % t, cwd=cwd, env=env, timeout=300)
    finally:
        shutil.rmtree(t)


def make(s, test, first):
    d = SEEDED / s['id']
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        sh('git -C /repo archive HEAD | tar -x -C %s' % w)
        sh('git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', cwd=w)
        for f, old, new in s['edits']:
            p = pathlib.Path(w) / 'pdfme' / f
            t = p.read_text()
            if t.count(old) != 1:
                return 'edit of %s matches %d times: %s' % (f, t.count(old), old[:60])
            p.write_text(t.replace(old, new))
        diff = sh('git diff', cwd=w).stdout
        (d / 'patch.diff').write_text(diff)
        for line in diff.splitlines():
            if line.startswith('-') and not line.startswith('---') and line[1:].strip():
                if not any(line[1:] in t for t in first.values()):
                    return 'changes a line that is not original: ' + line
        (d / 'demo.py').write_text('from lib import *\n' + s['demo'].lstrip('\n'))
        shutil.copy(ROOT / 'tools' / 'seeds' / 'lib.py', d)
        (d / 'demo.sh').write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (d / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        r = run_demo(d, w)
        if r.returncode == 0:
            return 'the demonstration passes with the change'
        if 'BROKEN' not in r.stdout and not s.get('raises'):
            return 'the demonstration fails oddly: ' + r.stdout[-300:]
        sh('git checkout -q -- .', cwd=w)
        r2 = run_demo(d, w)
        if r2.returncode:
            return 'the demonstration fails without the change: ' + r2.stdout[-400:]
        if test:
            sh('git apply %s/patch.diff' % d, cwd=w)
            r3 = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=180 --randomly-seed=20 --randomly-dont-reorganize '
                    '-o python_files="test_*.py running_section_per_page.py group_element.py" tests 2>&1 | tail -4', cwd=w, env=dict(os.environ, PYTHONPATH=w, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
            if '15 passed' not in r3.stdout:
                return 'tests: ' + r3.stdout[-300:]
        return 'ok: ' + r.stdout.strip().splitlines()[-1][:110]
    finally:
        shutil.rmtree(w)


def main():
    from defs import SEEDS
    import defs2
    import defs3
    import defs4
    assert defs2 and defs3 and defs4
    test = '--notest' not in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    root = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
    # the tree before the first commit made here
    base = sh('git -C /repo log --format=%H --reverse').stdout.split()
    orig = next((p for p, q in zip(base, base[1:]) if sh('git -C /repo log -1 --format=%s ' + q).stdout.startswith('fix:')), root)
    first = {f: sh('git -C /repo show %s:pdfme/%s' % (orig, f)).stdout for f in os.listdir('/repo/pdfme') if f.endswith('.py')}
    todo = [s for s in SEEDS if not ids or s['id'] in ids]
    assert len({s['id'] for s in SEEDS}) == len(SEEDS)
    with ThreadPoolExecutor(3) as ex:
        for s, r in zip(todo, ex.map(lambda s: make(s, test, first), todo)):
            if not r.startswith('ok'):
                shutil.rmtree(SEEDED / s['id'], ignore_errors=True)
            print(s['id'], s['property'], r, flush=True)


main()
