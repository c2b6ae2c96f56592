#!/usr/bin/env python3
"""Runs checks on edits that keep the behaviour: they must stay quiet.

tools/quiet.py [--runs N] [--jobs J] [--checks C01,C02] [edit ...]
"""
import argparse
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from plant import sh, PY  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('edits', nargs='*')
    ap.add_argument('--runs', type=int, default=3000)
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--checks')
    ap.add_argument('--file', default=HERE + '/refactors/edits.py')
    a = ap.parse_args()
    ed = runpy.run_path(a.file)['R']
    checks = a.checks.split(',') if a.checks else [
        c['property'] for c in json.load(
            open(HERE + '/MANIFEST.json'))['checks']]
    base = tempfile.mkdtemp(prefix='quiet', dir='/tmp')
    bad = 0
    try:
        for name in a.edits or ed:
            w = os.path.join(base, name)
            shutil.copytree('/repo', w, symlinks=True,
                            ignore=shutil.ignore_patterns('__pycache__'))
            for f, old, new in ed[name]:
                p = os.path.join(w, f)
                s = open(p).read()
                if old not in s:
                    print(name, 'does not apply:', old[:60])
                    bad = 1
                open(p, 'w').write(s.replace(old, new))
            rc, out = sh([PY, '-m', 'pytest', '-q', '-x',
                          '-p', 'no:cacheprovider'], w,
                         {'PYTHONPATH': w + '/src'})
            if rc:
                print(name, 'TESTS FAIL', out[-400:])
                bad = 1
                shutil.rmtree(w)
                continue

            def one(c):
                env = {'FAUXDOC_SRC': w + '/src',
                       'SIM_EVIDENCE': f'{base}/ev-{name}-{c}',
                       'VERIF_SEED': str(a.seed)}
                os.makedirs(env['SIM_EVIDENCE'], exist_ok=True)
                runs = a.runs // {'C01': 3, 'C14': 3, 'C21': 8}.get(c, 1)
                return c, sh([PY, HERE + '/run.py', 'check', c, '--runs',
                              str(runs), '--workers', '2'], HERE, env)

            says = []
            with cf.ThreadPoolExecutor(a.jobs) as ex:
                for c, (rc, out) in ex.map(one, checks):
                    if rc:
                        says.append((c, rc, out[-600:]))
            print(name, 'quiet' if not says else 'ALARM', flush=True)
            for s in says:
                bad = 1
                print('   ', *s, flush=True)
            shutil.rmtree(w)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(bad)


if __name__ == '__main__':
    main()
