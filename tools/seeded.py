"""Runs the check of every planted bug in seeded/ and says how soon it is
caught.

    python3 tools/seeded.py [--seeds 1,2,3] [--jobs 4] [--runs N] [ids ...]
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    bug, seed, runs = job
    d = os.path.join(HERE, 'seeded', bug)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    w = tempfile.mkdtemp(prefix='seeded-')
    try:
        shutil.copytree('/repo/src', os.path.join(w, 'src'))
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')],
                       cwd=w, check=True)
        cmd = [sys.executable, os.path.join(HERE, 'run.py'), 'check', prop,
               '--seed', str(seed), '--workers', '2']
        if runs:
            cmd += ['--runs', str(runs), '--cap', '2000']
        env = dict(os.environ, FAUXDOC_SRC=os.path.join(w, 'src'),
                   SIM_EVIDENCE=os.path.join(w, 'ev'))
        p = subprocess.run(cmd, env=env, capture_output=True, text=True)
        line = (p.stdout.strip() or p.stderr[-200:]).replace('\n', ' | ')
        return bug, prop, seed, p.returncode, line[:230]
    finally:
        shutil.rmtree(w)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('--seeds', default='1')
    p.add_argument('--jobs', type=int, default=4)
    p.add_argument('--runs', type=int)
    p.add_argument('ids', nargs='*')
    a = p.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    jobs = [(i, int(s), a.runs) for i in ids for s in a.seeds.split(',')]
    missed = 0
    with ThreadPoolExecutor(a.jobs) as ex:
        for bug, prop, seed, rc, line in ex.map(one, jobs):
            m = re.search(r'(\d+) runs', line)
            print(bug, prop, seed, 'CAUGHT' if rc == 1 else f'MISSED rc={rc}',
                  m and m[1], line if rc != 1 else '', flush=True)
            missed += rc != 1
    print(f'{missed} of {len(jobs)} missed')


if __name__ == '__main__':
    main()
