#!/usr/bin/env python3
"""Systematic small changes to fauxdoc: tools/mutate.py [FILE ...]

Makes one small syntactic change at a time in a scratch copy, keeps those
that pass the stable tests, and runs every check against them.  Prints the
survivors: changes that no check notices.
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['emitter.py', 'mixins.py', 'group.py', 'profile.py', 'mathtools.py',
         'emitters/choice.py', 'emitters/fixed.py', 'emitters/fromfields.py',
         'emitters/text.py', 'emitters/wrappers.py']
ORDER = ('C06 C11 C22 C10 C02 C20 C13 C07 C08 C09 C15 C12 C24 C23 C04 C05 '
         'C03 C19 C01 C16 C14 C21').split()
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
       ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add],
       ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div]}


def variants(node):
    """Changed versions of one node, with a word on each."""
    n = node
    if isinstance(n, ast.Compare):
        for i, op in enumerate(n.ops):
            for new in CMP.get(type(op), []):
                m = copy.deepcopy(n)
                m.ops[i] = new()
                yield m, 'cmp'
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            m = copy.deepcopy(n.left)
            if isinstance(n.ops[0], ast.Is):
                m = ast.UnaryOp(ast.Not(), m)
            yield m, 'truth'
    elif isinstance(n, ast.BinOp):
        for new in BIN.get(type(n.op), []):
            m = copy.deepcopy(n)
            m.op = new()
            yield m, 'bin'
        if isinstance(n.op, (ast.Mult,)) and isinstance(n.left, ast.List):
            pass
    elif isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        yield m, 'bool'
        for v in n.values:
            yield copy.deepcopy(v), 'drop-operand'
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield copy.deepcopy(n.operand), 'not'
    elif isinstance(n, ast.Constant):
        if n.value is True or n.value is False:
            yield ast.Constant(not n.value), 'const'
        elif isinstance(n.value, (int, float)):
            yield ast.Constant(n.value + 1), 'const'
            if n.value:
                yield ast.Constant(0), 'const'
                yield ast.Constant(-n.value), 'const'
        elif n.value is None:
            yield ast.Constant(0), 'const'
    elif isinstance(n, ast.IfExp):
        yield copy.deepcopy(n.body), 'ifexp'
        yield copy.deepcopy(n.orelse), 'ifexp'
    elif isinstance(n, ast.Call):
        if len(n.args) == 1 and not n.keywords and isinstance(
                n.func, ast.Name) and n.func.id in (
                    'list', 'tuple', 'str', 'bool', 'iter', 'set'):
            yield copy.deepcopy(n.args[0]), 'unwrap'
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n)
            del m.keywords[i]
            yield m, 'drop-kw'
        if len(n.args) >= 2:
            m = copy.deepcopy(n)
            m.args.pop()
            yield m, 'drop-arg'
            m = copy.deepcopy(n)
            m.args[0], m.args[1] = m.args[1], m.args[0]
            yield m, 'swap-args'
    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        for a, b in (('_replace', '_replace_only_after_call'),
                     ('_replace_only_after_call', '_replace'),
                     ('num_unique_values', 'num_unique_items'),
                     ('num_unique_items', 'num_unique_values'),
                     ('_num_unique_items', 'num_unique_values'),
                     ('_weights', '_cum_weights'),
                     ('_cum_weights', '_weights'),
                     ('fields', 'public_fields')):
            if n.attr == a:
                m = copy.deepcopy(n)
                m.attr = b
                yield m, 'attr'
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) \
            and isinstance(n.ctx, ast.Load):
        yield copy.deepcopy(n.value), 'unslice'
    elif isinstance(n, ast.Lambda):
        pass


def is_doc(stmt):
    return isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant)


def stmt_variants(body):
    """Changed versions of a list of statements."""
    for i, s in enumerate(body):
        if is_doc(s) or isinstance(s, (ast.FunctionDef, ast.ClassDef,
                                       ast.Import, ast.ImportFrom)):
            continue
        new = body[:i] + body[i + 1:]
        yield (new or [ast.Pass()]), s, 'drop-stmt'
        if isinstance(s, ast.If):
            yield body[:i] + s.body + body[i + 1:], s, 'if-always'
            yield (body[:i] + s.orelse + body[i + 1:]) or [ast.Pass()], s, \
                'if-never'
        if isinstance(s, ast.Try) and s.finalbody:
            yield body[:i] + s.body + s.finalbody + body[i + 1:], s, \
                'no-finally'
        if isinstance(s, ast.Try) and s.handlers:
            yield body[:i] + s.body + body[i + 1:], s, 'no-try'
        if i + 1 < len(body) and not isinstance(
                body[i + 1], (ast.FunctionDef, ast.ClassDef)) and \
                not isinstance(s, ast.Return):
            yield body[:i] + [body[i + 1], s] + body[i + 2:], s, 'swap-stmt'
        if isinstance(s, ast.Return) and s.value is not None:
            yield body[:i] + [ast.Return(ast.Constant(None))] + \
                body[i + 1:], s, 'return-none'


def mutants(path, rel):
    src = open(path, encoding='utf8').read()
    tree = ast.parse(src)

    def emit(fn, line, what):
        try:
            t = ast.fix_missing_locations(tree)
            text = ast.unparse(t)
            compile(text, path, 'exec')
        except Exception:       # pylint: disable=broad-except
            return None
        return {'file': rel, 'line': line, 'what': what, 'text': text,
                'fn': fn}
    base = ast.unparse(tree)
    parents = []
    stack = [(tree, '')]
    while stack:
        node, fn = stack.pop()
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = f'{fn}.{node.name}' if fn else node.name
        for field, val in ast.iter_fields(node):
            if field in ('annotation', 'returns', 'decorator_list', 'bases'):
                continue
            if isinstance(val, ast.AST):
                parents.append((node, field, None, fn))
                stack.append((val, fn))
            elif isinstance(val, list):
                for i, v in enumerate(val):
                    if isinstance(v, ast.AST):
                        parents.append((node, field, i, fn))
                        stack.append((v, fn))
    seen = set()
    for node, field, i, fn in parents:
        val = getattr(node, field)
        old = val if i is None else val[i]
        if not isinstance(old, ast.expr) or isinstance(node, ast.JoinedStr) \
                or isinstance(node, ast.FormattedValue):
            continue
        if isinstance(node, ast.Expr) and isinstance(old, ast.Constant):
            continue
        if isinstance(node, ast.AnnAssign) and field != 'value':
            continue
        if isinstance(node, ast.Subscript) and field == 'slice' and \
                not isinstance(old, (ast.Constant, ast.BinOp, ast.Slice)):
            continue
        for new, what in list(variants(old)):
            if i is None:
                setattr(node, field, new)
            else:
                val[i] = new
            m = emit(fn, old.lineno, f'{what}: {ast.unparse(old)[:70]} -> '
                     f'{ast.unparse(new)[:70]}')
            if i is None:
                setattr(node, field, old)
            else:
                val[i] = old
            if m and m['text'] != base and m['text'] not in seen:
                seen.add(m['text'])
                yield m
    blocks = []
    stack = [(tree, '')]
    while stack:
        node, fn = stack.pop()
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = f'{fn}.{node.name}' if fn else node.name
        for field in ('body', 'orelse', 'finalbody'):
            v = getattr(node, field, None)
            if isinstance(v, list):
                if not isinstance(node, (ast.Module, ast.ClassDef)):
                    blocks.append((node, field, fn))
        for c in ast.iter_child_nodes(node):
            stack.append((c, fn))
    for node, field, fn in blocks:
        old = getattr(node, field)
        for new, s, what in list(stmt_variants(old)):
            setattr(node, field, new)
            m = emit(fn, s.lineno, f'{what}: {ast.unparse(s)[:90]!r}')
            setattr(node, field, old)
            if m and m['text'] != base and m['text'] not in seen:
                seen.add(m['text'])
                yield m


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return p.returncode, p.stdout + p.stderr


def trial(m, a):
    d = tempfile.mkdtemp(prefix='mu', dir='/tmp/pl')
    w = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', w, symlinks=True,
                        ignore=shutil.ignore_patterns('__pycache__', '.git'))
        with open(os.path.join(w, 'src/fauxdoc', m['file']), 'w',
                  encoding='utf8') as f:
            f.write(m['text'])
        env = {'PYTHONPATH': os.path.join(w, 'src')}
        rc, _ = sh(['timeout', '60', PY, '-m', 'pytest', '-q', '-x', '-p',
                    'no:cacheprovider', 'tests'], w, env)
        if rc != 0:
            return 'tests', None
        caught = {}
        for pid in ORDER:
            rc, out = sh(['timeout', '300', PY, os.path.join(HERE, 'run.py'),
                          'check', pid, '--workers', '1', '--cap', '200',
                          '--runs', str(a.runs if pid != 'C01'
                                        else a.runs // 4)], HERE,
                         {'FAUXDOC_SRC': os.path.join(w, 'src'),
                          'SIM_EVIDENCE': os.path.join(d, 'ev')})
            if rc:
                caught[pid] = (rc, [x for x in out.splitlines()
                                    if 'KNOWN' not in x][-2:-1])
                if not a.all:
                    break
        return ('caught' if caught else 'SURVIVED'), caught
    finally:
        shutil.rmtree(d)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('files', nargs='*')
    p.add_argument('--runs', type=int, default=2500)
    p.add_argument('--jobs', type=int, default=8)
    p.add_argument('--all', action='store_true')
    p.add_argument('--count', action='store_true')
    p.add_argument('--fn')
    p.add_argument('--out', default='/tmp/pl/mut.jsonl')
    a = p.parse_args()
    os.makedirs('/tmp/pl', exist_ok=True)
    todo = []
    for rel in a.files or FILES:
        todo += list(mutants(os.path.join('/repo/src/fauxdoc', rel), rel))
    if a.fn:
        todo = [m for m in todo if a.fn in m['fn']]
    if a.count:
        print(len(todo))
        return
    n = {}
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as f:
        for m, (res, caught) in zip(todo, ex.map(lambda m: trial(m, a),
                                                 todo)):
            n[res] = n.get(res, 0) + 1
            rec = {k: m[k] for k in ('file', 'line', 'what', 'fn')}
            rec.update(res=res, caught=caught)
            f.write(json.dumps(rec) + '\n')
            f.flush()
            if res != 'tests':
                print(res, m['file'], m['line'], m['fn'], m['what'],
                      {k: v[0] for k, v in (caught or {}).items()})
                sys.stdout.flush()
    print(n)


main()
