#!/usr/bin/env python3
"""Tries planted bugs: tools/plant.py BUGS.py [id ...] [--all] [--runs N]

BUGS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (Python source, exits non-zero when the bug shows), needs, breaks.  Each
is applied to a scratch copy of /repo; the stable tests and the demonstration
are run, then the checks.  With --keep, those confirmed are written to
seeded/<id>/.
"""
import argparse
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '62549fc'
DEMO_SH = '''#!/bin/sh
# Exits 0 if the property holds in this case, 1 if it does not.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec timeout 250 \\
    /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return p.returncode, p.stdout + p.stderr


def copy():
    d = tempfile.mkdtemp(prefix='wt', dir='/tmp/pl')
    w = os.path.join(d, 'repo')
    shutil.copytree('/repo', w, symlinks=True,
                    ignore=shutil.ignore_patterns('__pycache__'))
    return d, w


def originality(w, patch):
    """How many removed lines are original, and how many are our fixes'."""
    orig = ours = 0
    fn, line = None, 0
    for row in patch.splitlines():
        if row.startswith('--- a/'):
            fn = row[6:]
        elif row.startswith('@@'):
            line = int(row.split()[1].split(',')[0][1:])
        elif row.startswith('-') and not row.startswith('---'):
            out = sh(['git', 'blame', '-s', '-L', f'{line},{line}', 'HEAD',
                      '--', fn], w)[1]
            if sh(['git', 'merge-base', '--is-ancestor',
                   out.split()[0].lstrip('^'), BASE], w)[0] == 0:
                orig += 1
            else:
                ours += 1
            line += 1
        elif row.startswith(' '):
            line += 1
    return orig, ours


def attempt(b, a):
    d, w = copy()
    res = {'id': b['id'], 'property': b['property']}
    try:
        demo = os.path.join(d, 'demo.py')
        with open(demo, 'w', encoding='utf8') as f:
            f.write(b['demo'].lstrip('\n'))
        env = {'PYTHONPATH': os.path.join(w, 'src')}
        rc, out = sh(['timeout', '250', PY, demo], w, env)
        res['demo_clean'] = rc if rc == 0 else (rc, out[-400:])
        for fn, old, new, *last in b['edits']:
            p = os.path.join(w, 'src/fauxdoc', fn)
            s = open(p, encoding='utf8').read()
            if last:        # the last of several
                at = s.rindex(old)
                s = s[:at] + new + s[at + len(old):]
                open(p, 'w', encoding='utf8').write(s)
                continue
            if s.count(old) != 1:
                res['error'] = f'{s.count(old)} matches in {fn}: {old[:60]!r}'
                return res
            open(p, 'w', encoding='utf8').write(s.replace(old, new))
        patch = sh(['git', 'diff'], w)[1]
        res['lines'] = originality(w, patch)
        rc, out = sh([PY, '-m', 'pytest', '-q', '-x', '-p',
                      'no:cacheprovider', '--timeout=120', 'tests'], w, env)
        res['tests'] = 'pass' if rc == 0 else out[-500:]
        rc, out = sh(['timeout', '100', PY, demo], w, env)
        res['demo_bug'] = rc
        if rc == 0:
            res['note'] = 'DEMO DOES NOT FAIL'
        if rc not in (0, 1):
            res['demo_out'] = out[-300:]
        ids = [b['property']]
        if a.all:
            ids += [f'C{i:02}' for i in range(1, 16)
                    if f'C{i:02}' != b['property']]
        if rc != 0 and res['tests'] == 'pass' and not a.nocheck:
            for pid in ids:
                cmd = [PY, os.path.join(a.verif, 'run.py'), 'check', pid,
                       '--workers', '2', '--cap', '120']
                if a.runs:
                    cmd += ['--runs', str(a.runs)]
                ev = os.path.join(d, 'ev')
                rc, out = sh(cmd, a.verif,
                             {'FAUXDOC_SRC': os.path.join(w, 'src'),
                              'SIM_EVIDENCE': ev})
                last = [x for x in out.splitlines()
                        if 'KNOWN' not in x][-3:]
                res.setdefault('checks', {})[pid] = (
                    rc, ' | '.join(last)[-330:] if rc else '')
        if a.keep and rc is not None and res['lines'][0] and b['needs'] and res['tests'] == 'pass' and \
                res['demo_clean'] == 0 and res['demo_bug'] != 0:
            t = os.path.join(HERE, 'seeded', b['id'])
            os.makedirs(t, exist_ok=True)
            with open(t + '/patch.diff', 'w', encoding='utf8') as f:
                f.write(patch)
            shutil.copy(demo, t + '/demo.py')
            with open(t + '/demo.sh', 'w', encoding='utf8') as f:
                f.write(DEMO_SH)
            os.chmod(t + '/demo.sh', 0o755)
            with open(t + '/meta.json', 'w', encoding='utf8') as f:
                json.dump({'property': b['property'], 'needs': b['needs'],
                           'what_it_breaks': b['breaks']}, f, indent=1)
    finally:
        shutil.rmtree(d)
    return res


def main():
    p = argparse.ArgumentParser()
    p.add_argument('bugs')
    p.add_argument('ids', nargs='*')
    p.add_argument('--all', action='store_true')
    p.add_argument('--keep', action='store_true')
    p.add_argument('--nocheck', action='store_true')
    p.add_argument('--runs', type=int)
    p.add_argument('--jobs', type=int, default=4)
    p.add_argument('--verif', default=HERE)
    a = p.parse_args()
    bugs = runpy.run_path(a.bugs)['BUGS']
    if a.ids:
        bugs = [b for b in bugs if b['id'] in a.ids]
    os.makedirs('/tmp/pl', exist_ok=True)
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(lambda b: attempt(b, a), bugs):
            c = r.pop('checks', {})
            own = c.get(r['property'])
            print('=====', r['id'], r['property'],
                  'CAUGHT' if own and own[0] == 1 else
                  'MISSED' if own else 'no check',
                  {k: v for k, v in r.items()
                   if k not in ('id', 'property')
                   and v not in (0, 'pass')})
            for k, v in c.items():
                if v[0]:
                    print('   ', k, v)
            sys.stdout.flush()


if __name__ == '__main__':
    main()
