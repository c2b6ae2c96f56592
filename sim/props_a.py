"""C01-C06: seeding, restarting, selection without replacement, full answers.
"""
import collections
import copy
import itertools
import json
import os
import random
import signal
import subprocess
import sys
import threading
from sim import seams, world, parts
from sim.execu import (Violation, Subject, must, faulty, gen_arm, drain,
                       observe, run_threads)
from sim.seams import HarnessError
from sim.world import G, norm, items_of

REQS = [None, 1, 2, 3, 5, 8, 13]


def gen_n(r, big=13):
    p = r.random()
    if p < .3:
        return None
    if p < .4:
        return 1
    if p < .45:
        return 0
    if p > .9985:
        return r.choice([64, 100, 257, 600, 1025, 2100, 4200, 9000, 17000])
    return r.randint(2, big)


def gen_root(g, r, schema=.35, field=.2):
    p = r.random()
    if p < schema:
        return g.schema(nmax=4, depth=r.choice([1, 1, 2]))
    if p < schema + field:
        return g.field('f0')
    return g.emitter('any')


def needs_user_hits(spec):
    return any(s['k'] in ('urand', 'ucount', 'useedy', 'uparent', 'ufunc',
                          'uitems', 'wrap1', 'wrapn', 'based')
               or (s['k'] == 'iter' and s['fac'] in ('gen', 'obj'))
               for s in world.walk(spec))


class Prop:
    """One property: how to plan a run of it and how to execute the plan."""

    id = None
    shrink_lists = ('ops',)       # keys whose lists may lose elements
    quick_runs = 1000
    thorough_runs = 40000

    def gen(self, rng, run):
        raise NotImplementedError

    def execute(self, run, plan):
        raise NotImplementedError

    def env(self, plan):
        return seams.Env(plan.get('entropy', 0), plan.get('const'))


# ==========================================================================
# C01
# ==========================================================================

class C01(Prop):
    """Same seed, same configuration, same requests: same data."""

    id = 'C01'
    quick_runs = 12000
    thorough_runs = 100000
    shrink_lists = ('ops', 'sched', 'noise')

    def gen(self, rng, run):
        g = G.swarm(rng)
        mode = rng.choice(['ops', 'ops', 'lines'])
        tenants = []
        base = None
        same_seed = rng.random() < .4
        s0 = self.seed(rng)
        for i in range(rng.choice([1, 2, 2, 3])):
            if base is not None and rng.random() < .6:
                spec = self.sibling(g, rng, base)
            elif rng.random() < .15:
                spec = g.choice('any', lo=20, hi=120)
            else:
                spec = gen_root(g, rng)
            base = base or spec
            how = rng.choice(['ctor', 'method', 'method-then-reset'])
            s = s0 if same_seed else self.seed(rng)
            ops = []
            cur = with_seed(spec, s)
            for _ in range(rng.randint(2, 9)):
                p = rng.random()
                if rng.random() < .15:
                    more, cur = gen_history(g, rng, cur, 1, arms=0, cfg=.7,
                                            kids=.2, seeds=.05)
                    if more[0].get('s', 1) is None:
                        continue
                    ops += more
                    if more[0]['o'] == 'cfg' and \
                            more[0]['ch']['c'] == 'swap':
                        ops.append({'o': 'reset'})  # which seeds the new part
                    continue
                if p < .7:
                    op = {'o': 'call', 'n': gen_n(rng),
                          'how': rng.choice(['call', 'call', 'method'])}
                    if mode == 'ops' and rng.random() < .12 and \
                            needs_user_hits(spec):
                        op['arm'] = gen_arm(rng, ('fault',))
                    elif mode == 'ops' and rng.random() < .08:
                        op['arm'] = gen_arm(rng, ('draw',))
                elif p < .8:
                    op = {'o': 'reset'}
                    if mode == 'ops' and rng.random() < .3:
                        op['arm'] = gen_arm(rng, ('draw',))
                elif p < .9:
                    op = {'o': 'seed', 's': self.seed(rng)}
                elif p < .94:
                    op = {'o': 'store', 'v': [None, self.seed(rng)],
                          'n': gen_n(rng)}
                else:
                    op = {'o': 'observe'}
                ops.append(op)
            tenants.append({'spec': spec, 'how': how, 's': s, 'ops': ops})
        total = sum(len(t['ops']) for t in tenants)
        if mode == 'ops':
            sched = [rng.randrange(len(tenants)) for _ in range(total * 2)]
            noise = []
            for _ in range(rng.randint(0, 8)):
                noise.append(self.gen_noise(rng, g, tenants, total))
        else:
            sched = [[rng.randrange(len(tenants)),
                      rng.choice([1, 1, 2, 3, 5, 9, 20, 60])]
                     for _ in range(rng.randint(20, 200))]
            noise = []
        plan = {'mode': mode, 'tenants': tenants, 'sched': sched,
                'noise': noise, 'entropy': run, 'ops': []}
        if rng.random() < .025:
            plan['interp'] = rng.randrange(1, 4000000)
        if mode == 'lines' and rng.random() < .5:
            # Built, and used so often, by the main thread beforehand.
            plan['handover'] = [rng.randint(0, 3) for _ in tenants]
        elif mode == 'ops':
            if rng.random() < .25:
                plan['hands'] = [rng.randrange(total + 1)
                                 for _ in range(rng.randint(1, total))]
            if rng.random() < .06:
                plan['fork'] = rng.randrange(total + 1)
        return plan

    @staticmethod
    def seed(rng):
        if rng.random() < .12:
            t = rng.choice(['bytes', 'bytearray', 'int'])
            return [t, rng.choice([0, 1, 2 ** 70]) if t == 'int'
                    else rng.choice(['', 'a', 'seed-é', 'x' * 300])]
        return gen_seed_s(rng)

    @staticmethod
    def sibling(g, rng, base):
        """The same configuration, or one that differs in a few settings."""
        spec = copy.deepcopy(base)
        for _ in range(rng.choice([0, 0, 1, 2])):
            path, at = rng.choice(list(parts.paths(spec)))
            ch = parts.gen_change(g, at, path[-1] if path else None)
            if ch is not None and parts.change_ok(spec, path, ch):
                spec = parts.replace_at(spec, path,
                                        parts.change_spec(at, ch))
        return spec

    @staticmethod
    def gen_noise(rng, g, tenants, total):
        at = rng.randrange(total + 1)
        t = rng.choice(['global', 'global', 'other', 'other', 'unseeded',
                        'jump', 'shuffle', 'boom'])
        n = {'at': at, 't': t, 'x': rng.randrange(10 ** 6)}
        if t in ('other', 'boom'):
            src = rng.choice(tenants)['spec']
            n['spec'] = copy.deepcopy(src) if rng.random() < .5 else \
                g.emitter('any')
        return n

    def make(self, run, lib, t):
        spec, s, how = t['spec'], t['s'], t['how']
        if how == 'ctor':
            h = History(run, with_seed(spec, s), lib)
        else:
            h = History(run, spec, lib)
            must(h.sub.seed(s), 'seed')
            h.spec = h.sub.spec = with_seed(spec, s)
            if how == 'method-then-reset':
                must(h.sub.reset(), 'reset')
        return h

    def step(self, run, h, op):
        o, sub = op['o'], h.sub
        if o == 'call':
            got = sub.emit(op['n'], arm=op.get('arm'),
                           how=op.get('how', 'call'))
            if got is None:
                return '-'
            n, out = got
            if not out.ok and not faulty(out):
                must(out, f'request({n})')
            return f'{n}={out.key()}'
        if o == 'reset':
            must(sub.reset(arm=op.get('arm')), 'reset')
            return 'reset'
        if o == 'seed':
            must(sub.seed(op['s']), 'seed')
            return 'seed'
        if o == 'observe':
            return sub.observe()
        if o == 'store':
            # For the next reset only: until then it goes on as seeded.
            h.apply({'o': 'setseed', 's': op['v'][0]})
            got = self.step(run, h, {'o': 'call', 'n': op['n']})
            h.apply({'o': 'setseed', 's': op['v'][1]})
            return got
        h.apply(op)
        return o

    def solo(self, run, t):
        lib = seams.boot()
        sub = self.make(run, lib, t)
        return [self.step(run, sub, op) for op in t['ops']]

    def do_noise(self, run, lib, n, subs):
        t = n['t']
        run.count('noise:' + t)
        if t == 'global':
            random.seed(n['x'])
            random.random()
        elif t == 'jump':
            seams.ENV.jump(n['x'])
        elif t == 'shuffle':
            must(run.call(lib.mathtools.weighted_shuffle, list(range(9)),
                          [1] * 9), 'weighted_shuffle')
        elif t == 'unseeded':
            c = lib.choice.Choice('abcdef', replace=False)
            run.call(c, 4)
        elif t == 'other':
            s = Subject(run, n['spec'], lib)
            for m in (None, 3, 2):
                s.emit(m)
        elif t == 'boom':
            s = Subject(run, n['spec'], lib)
            s.emit(5, arm={'t': 'fault', 'k': n['x'] % 4, 'part': None,
                           'exc': 'CustomError'})
            s.emit(5, arm={'t': 'intr', 'k': n['x'] % 30})

    def execute(self, run, plan):
        tenants = plan['tenants']
        want = []
        for i, t in enumerate(tenants):
            random.seed(i)
            want.append(self.solo(run, t))
        run.record('solo', json.dumps(want))
        if plan.get('interp'):
            self.other_interpreter(run, plan, want)
        seams.ENV.entropy = seams.RealRandom(f'other:{plan["entropy"]}')
        random.seed(f'global{plan["entropy"]}')
        # Another process may well be an optimized one.
        seams.ENV.opt = plan.get('opt2') or -1
        lib = seams.boot()
        if plan['mode'] == 'ops':
            got = spread(run, lambda fork: self.interleave_ops(
                run, plan, lib, fork))
        else:
            got = self.interleave_lines(run, plan, lib)
        for i, (w, h) in enumerate(zip(want, got)):
            for j, (a, b) in enumerate(zip(w, h)):
                if a != b:
                    raise Violation(
                        'not-reproducible',
                        f'tenant {i}, operation {j} {tenants[i]["ops"][j]}: '
                        f'alone it gave {a[:200]}, alongside others '
                        f'{b[:200]}')

    def interleave_ops(self, run, plan, lib, fork):
        tenants = plan['tenants']
        subs = [self.make(run, lib, t) for t in tenants]
        nxt = [0] * len(tenants)
        got = [[] for _ in tenants]
        noise = collections.defaultdict(list)
        for n in plan['noise']:
            noise[n['at']].append(n)
        done = 0
        order = list(plan['sched']) + [
            i for i, t in enumerate(tenants) for _ in t['ops']]
        trace = []
        hands = set(plan.get('hands', ()))
        for i in order:
            i %= len(tenants)
            if nxt[i] >= len(tenants[i]['ops']):
                continue
            if plan.get('fork') == done:
                fork()
            for n in noise.pop(done, []):
                self.do_noise(run, lib, n, subs)
            op = tenants[i]['ops'][nxt[i]]
            if done in hands:
                got[i].append(on_a_thread(self.step, run, subs[i], op))
                run.count('ops_on_another_thread')
            else:
                got[i].append(self.step(run, subs[i], op))
            nxt[i] += 1
            done += 1
            trace.append(i)
            run.record('op', i, got[i][-1])
            run.state('C01', i, op['o'], tenants[i]['spec']['k'],
                      got[i][-1][:60])
        run.sched = ('ops', tuple(trace))
        return got

    def interleave_lines(self, run, plan, lib):
        tenants = plan['tenants']

        def body(i, t):
            sub, k = None, 0
            first = []
            if 'handover' in plan:
                k = plan['handover'][i % len(plan['handover'])]
                sub = self.make(run, lib, t)
                first = [self.step(run, sub, op) for op in t['ops'][:k]]
                run.count('handed_over')

            def inner():
                mine = sub or self.make(run, lib, t)
                return first + [self.step(run, mine, op)
                                for op in t['ops'][k:]]
            return inner
        world.user_parts(lib)
        got, taken = run_threads([body(i, t) for i, t in enumerate(tenants)],
                                 plan['sched'])
        run.count('line_switches', len(taken))
        run.sched = ('lines', tuple(taken))
        run.record('lines', len(taken), json.dumps(got))
        return got

    def other_interpreter(self, run, plan, want):
        """The same tenants, alone, in a fresh interpreter."""
        sub = {k: plan[k] for k in ('tenants', 'entropy')}
        sub['entropy'] += 7919
        env = dict(os.environ, PYTHONHASHSEED=str(plan['interp']))
        if plan['interp'] % 3:
            env['PYTHONOPTIMIZE'] = str(plan['interp'] % 3)
        code = ('import sys; sys.path.insert(0, %r); '
                'from sim import runner; runner.solo_main()' %
                os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        p = subprocess.run([sys.executable, '-c', code], env=env,
                           input=json.dumps(sub), capture_output=True,
                           text=True, timeout=120)
        if p.returncode != 0:
            raise HarnessError('fresh interpreter: ' + p.stderr[-800:])
        got = json.loads(p.stdout.strip().splitlines()[-1])
        run.count('fresh_interpreters')
        if got.get('violation'):
            raise Violation(got['violation'][0], got['violation'][1])
        if got['solo'] != want:
            raise Violation('differs-between-processes',
                            f'{str(want)[:300]} became '
                            f'{str(got["solo"])[:300]} in a fresh '
                            'interpreter')


def on_a_thread(func, *args):
    """The result of a call made by a thread that does nothing else."""
    box = []

    def body():
        try:
            box.append((True, func(*args)))
        except BaseException as e:      # pylint: disable=broad-except
            box.append((False, e))
    t = threading.Thread(target=body)
    t.start()
    t.join(60)
    if not box:
        raise HarnessError('an operation on a thread did not finish')
    if not box[0][0]:
        raise box[0][1]
    return box[0][1]


def spread(run, body):
    """The result of body(fork), which may call fork() once.

    From there a copy of this process does everything this one does, and
    only reports: it must have seen exactly what this one saw.
    """
    at = {}

    def fork():
        if at:
            return
        run.count('forked')
        at['rd'], at['wr'] = os.pipe()
        at['pid'] = os.fork()

    def tell(what):
        with os.fdopen(at['wr'], 'w', encoding='utf8') as f:
            json.dump(what, f)

    try:
        got = body(fork)
        if at.get('pid') == 0:
            tell({'got': got})
    except Violation as e:
        if at.get('pid') != 0:
            raise
        tell({'violation': [e.kind, e.detail]})
    except BaseException as e:      # pylint: disable=broad-except
        if at.get('pid') != 0:
            raise
        tell({'error': repr(e)})
    finally:
        if at.get('pid') == 0:
            os._exit(0)
        text = None
        if at:
            os.close(at['wr'])
            try:
                with os.fdopen(at['rd'], encoding='utf8') as f:
                    text = f.read()
            finally:
                if text is None:
                    os.kill(at['pid'], signal.SIGKILL)
                os.waitpid(at['pid'], 0)
    if not at:
        return got
    other = json.loads(text or '{}')
    if other.get('violation'):
        raise Violation(*other['violation'])
    if other.get('got') is None:
        raise HarnessError(f'in a forked process: {other}')
    if other['got'] != got:
        raise Violation('differs-in-forked-process',
                        f'{str(got)[:300]} in this process, '
                        f'{str(other["got"])[:300]} in the one forked')
    return got


def gen_seed_s(rng):
    s = world.gen_seed(rng)
    return s


def with_seed(spec, s):
    """The spec with every random part seeded with `s` from its root."""
    spec = dict(spec)
    spec['seed'] = s
    if spec['k'] == 'schema':
        spec['fields'] = [with_seed(f, s) for f in spec['fields']]
    return spec


# ==========================================================================
# shared by C02/C03/C11: a subject with a history of all kinds of things
# ==========================================================================

class History:
    """Applies history operations to a subject, keeping its spec current."""

    def __init__(self, run, spec, lib, override=Ellipsis):
        self.run = run
        self.lib = lib
        self.spec = copy.deepcopy(spec)
        self.sub = Subject(run, self.spec, lib, override_seed=override)
        if override is not Ellipsis:
            self.spec = with_seed(self.spec, override)

    def set_spec(self, spec):
        left = self.sub.left
        self.spec = spec
        self.sub.spec = spec
        self.sub.refresh()
        if self.sub.pool < world.INF:
            self.sub.left = min(left, self.sub.pool)

    def part(self, path):
        return parts.obj_at(self.sub.obj, self.spec, path)

    def apply(self, op):
        run, sub, o = self.run, self.sub, op['o']
        run.count('op:' + o)
        arm = op.get('arm')
        if o == 'call':
            got = sub.emit(op['n'], arm=arm, how=op.get('how', 'call'))
            if got is None:
                return None
            n, out = got
            if not out.ok and not faulty(out):
                must(out, f'request({n})')
            if not out.ok and arm['t'] == 'intr':
                # Interrupted mid-selection: what is left is unknown.
                if sub.pool < world.INF:
                    sub.left = 0
            run.record('call', n, out.key())
            return out
        if o == 'reset':
            out = sub.reset(arm=arm)
            if not out.ok and not faulty(out):
                must(out, 'reset')
            if not out.ok:
                sub.left = 0 if sub.pool < world.INF else sub.left
            run.record('reset', out.key())
            return out
        if o == 'seed':
            must(sub.seed(op['s']), 'seed')
            if hasattr(sub.obj, 'seed') or self.spec['k'] == 'schema':
                self.spec = with_seed(self.spec, op['s'])
                sub.spec = self.spec
            run.record('seed')
            return None
        if o == 'setseed':
            if self.spec['k'] == 'schema':
                self.spec.pop('seed', None)     # the fields have it now
                for f in self.spec['fields']:
                    sub.obj.fields[f['name']].rng_seed = world.sd(op['s'])
                    f['seed'] = op['s']
            elif hasattr(sub.obj, 'rng_seed'):
                sub.obj.rng_seed = world.sd(op['s'])
                self.spec['seed'] = op['s']
            sub.spec = self.spec
            return None
        if o == 'observe':
            run.record('obs', sub.observe())
            return None
        pool = [(p, s) for p, s in parts.paths(self.spec)]
        if o in ('childcall', 'childseed', 'childreset', 'childsetseed'):
            kids = [(p, s) for p, s in pool if p]
            if not kids:
                return None
            path, spec = kids[op['i'] % len(kids)]
            obj = self.part(path)
            if o == 'childcall':
                if spec['k'] == 'field':
                    if sub.left < 1:
                        return None
                    sub.left -= 1 if sub.left < world.INF else 0
                    must(run.call(obj), 'field call')
                    return None
                n = op['n'] or 1
                n = min(n, world.cap(spec), sub.left, world.pool(spec))
                if spec['k'] in ('copy', 'based'):
                    n = 1
                if n < 1:
                    return None
                if sub.left < world.INF:
                    sub.left -= n
                must(run.call(obj, n), 'part call')
            elif o == 'childseed':
                if hasattr(obj, 'seed'):
                    must(run.call(obj.seed, world.sd(op['s'])), 'part seed')
                    if len(path) == 1 and spec['k'] == 'field':
                        self.spec.pop('seed', None)
                        spec['seed'] = op['s']
            elif o == 'childsetseed':
                if hasattr(obj, 'rng_seed'):
                    obj.rng_seed = world.sd(op['s'])
                    if len(path) == 1 and spec['k'] == 'field':
                        self.spec.pop('seed', None)
                        spec['seed'] = op['s']
            else:
                if hasattr(obj, 'reset'):
                    must(run.call(obj.reset), 'part reset')
            return None
        if o == 'cfg':
            path = op['path']
            try:
                parts.spec_at(self.spec, path)
            except (KeyError, IndexError, TypeError):
                return None
            if not parts.change_ok(self.spec, path, op['ch']):
                return None
            if op['ch']['c'] == 'fn' and sub.left < 1:
                must(sub.reset(), 'reset')
            if op['ch']['c'] == 'fn' and world.pool(
                    parts.spec_at(self.spec, path)) < world.INF:
                # Setting a wrapper tries it on a value, which needs one.
                must(sub.reset(), 'reset')
            spec = parts.spec_at(self.spec, path)
            obj = self.part(path)
            must(run.call(parts.do_change, obj, spec, op['ch'], self.lib,
                          sub.ctx), f'change {op["ch"]["c"]}')
            self.set_spec(parts.replace_at(
                self.spec, path, parts.change_spec(spec, op['ch'])))
            if sub.pool < world.INF and (
                    op['ch']['c'] in ('swap', 'addfields') or 'rep' in path):
                # What is left was counted in terms of the old parts.
                must(sub.reset(), 'reset')
            run.count('cfg:' + op['ch']['c'])
            run.record('cfg', op['ch']['c'])
            return None
        raise HarnessError(o)


def gen_history(g, r, spec, n, arms=.2, cfg=.15, kids=.15, seeds=.12):
    """Random history operations, with the spec evolving as they are made."""
    ops = []
    for _ in range(n):
        p = r.random()
        if p < cfg:
            cand = [(q, s) for q, s in parts.paths(spec)]
            q, s = r.choice(cand)
            ch = parts.gen_change(g, s, q[-1] if q else None) or \
                parts.gen_source(g, spec, q)
            if ch is not None and parts.change_ok(spec, q, ch):
                ops.append({'o': 'cfg', 'path': q, 'ch': ch})
                spec = parts.replace_at(spec, q, parts.change_spec(
                    parts.spec_at(spec, q), ch))
                continue
        p = r.random()
        if p < kids:
            o = r.choice(['childcall', 'childcall', 'childseed',
                          'childreset', 'childsetseed'])
            ops.append({'o': o, 'i': r.randrange(12), 'n': gen_n(r, 5),
                        's': gen_seed_s(r)})
        elif p < kids + seeds:
            ops.append({'o': r.choice(['seed', 'seed', 'setseed']),
                        's': None if r.random() < .1 else gen_seed_s(r)})
        elif p < kids + seeds + .1:
            op = {'o': 'reset'}
            if r.random() < arms:
                op['arm'] = gen_arm(r, ('fault', 'intr', 'drawfail', 'draw'))
            ops.append(op)
        elif p < kids + seeds + .15:
            ops.append({'o': 'observe'})
        else:
            op = {'o': 'call', 'n': gen_n(r)}
            if r.random() < arms:
                op['arm'] = gen_arm(r)
            ops.append(op)
    return ops, spec


class C02(Prop):
    """Reset is a full restart."""

    id = 'C02'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng)
        spec = gen_root(g, rng)
        if rng.random() < .75:
            spec = with_seed(spec, gen_seed_s(rng))
        ops, _ = gen_history(g, rng, spec, rng.randint(1, 12),
                             arms=rng.choice([0, .2, .5]),
                             cfg=rng.choice([0, .15, .4]))
        return {'spec': spec, 'ops': ops, 'const': rng.randrange(1, 99999),
                'reqs': [gen_n(rng) for _ in range(rng.randint(2, 5))],
                'twice': rng.random() < .2}

    def execute(self, run, plan):
        lib = seams.boot()
        h = History(run, plan['spec'], lib)
        for op in plan['ops']:
            h.apply(op)
        must(h.sub.reset(), 'reset')
        if plan.get('twice'):
            must(h.sub.reset(), 'reset')
        obs1 = h.sub.observe()
        got = drain(h.sub, plan['reqs'])
        obs1b = h.sub.observe()
        twin = Subject(run, h.spec, lib)
        obs2 = twin.observe()
        want = drain(twin, plan['reqs'])
        obs2b = twin.observe()
        run.record('end', got, want, obs1)
        run.state('C02', h.spec['k'], obs1[:80], str(got)[:80])
        if obs1 != obs2:
            raise Violation('reset-leaves-state', f'after reset: '
                            f'{obs1[:300]}; newly built: {obs2[:300]}')
        if got != want:
            raise Violation('reset-differs', f'after reset it emitted '
                            f'{str(got)[:300]}, newly built '
                            f'{str(want)[:300]}')
        if obs1b != obs2b:
            raise Violation('reset-leaves-state', f'after reset and use: '
                            f'{obs1b[:300]}; newly built: {obs2b[:300]}')


class C03(Prop):
    """A seed reaches every random part, and only when applied."""

    id = 'C03'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng)
        mode = rng.choice(['reach', 'reach', 'store', 'differ', 'entropy'])
        spec = gen_root(g, rng, schema=.3, field=.3)
        if mode in ('differ', 'entropy'):
            spec = self.busy(rng, g)
        plan = {'mode': mode, 'spec': spec, 'ops': [],
                's': gen_seed_s(rng) if rng.random() < .92 else None,
                's2': gen_seed_s(rng) if rng.random() < .9 else None,
                'order': rng.choice(['reset-seed', 'seed-reset',
                                     'setseed-reset', 'seed-only']),
                'reqs': [gen_n(rng) for _ in range(rng.randint(2, 4))]}
        if mode in ('reach', 'store'):
            if rng.random() < .5:
                plan['spec'] = with_seed(spec, gen_seed_s(rng))
            plan['ops'], _ = gen_history(
                g, rng, plan['spec'], rng.randint(0, 8), arms=0,
                cfg=rng.choice([0, .3]))
            plan['const'] = rng.randrange(1, 99999)
            had = [op['s'] for op in plan['ops'] if op.get('s') is not None]
            if plan['spec'].get('seed') is not None:
                had.append(plan['spec']['seed'])
            if had and rng.random() < .3:
                plan['s'] = rng.choice(had)
        else:
            plan['entropy'] = run
            plan['how'] = rng.choice(['ctor', 'seed'])
        return plan

    @staticmethod
    def busy(rng, g):
        """A spec with at least one part of high entropy, at some depth."""
        leaf = rng.choice([
            {'k': 'urand', 'bits': 64},
            {'k': 'choice', 'items': {'t': 'range', 'v': [0, 2 ** 40]}},
            {'k': 'choice', 'items': {'t': 'range', 'v': [0, 60]},
             'replace': False},
            {'k': 'word', 'len': {'k': 'static', 'v': 24},
             'alpha': {'k': 'choice', 'items': {
                 't': 'str', 'v': 'abcdefghijklmnopqrstuvwxyz'}}},
            {'k': 'text', 'num': {'k': 'static', 'v': 24},
             'word': {'k': 'choice', 'items': {
                 't': 'str', 'v': 'abcdefghijklmnopqrstuvwxyz'}}},
            {'k': 'wrap1', 'fn': 'pick', 'src': {'k': 'static', 'v': 1}},
        ])
        spec = copy.deepcopy(leaf)
        for _ in range(rng.randint(0, 3)):
            t = rng.choice(['wrap1', 'wrapn', 'uparent', 'field'])
            if t == 'wrap1':
                spec = {'k': 'wrap1', 'fn': rng.choice(['tag', 'ident']),
                        'src': spec}
            elif t == 'wrapn':
                spec = {'k': 'wrapn', 'fn': 'kw',
                        'srcs': {'a': {'k': 'static', 'v': 0}, 'b': spec}}
            elif t == 'uparent':
                spec = {'k': 'uparent', 'srcs': {'z': spec}}
        if rng.random() < .4:
            slot = rng.choice(['em', 'em'])
            spec = {'k': 'field', 'name': 'f0', slot: spec}
            if rng.random() < .5:
                spec = {'k': 'schema', 'fields': [
                    {'k': 'field', 'name': 'g', 'em': {'k': 'static',
                                                       'v': 1}}, spec]}
        return spec

    def execute(self, run, plan):
        getattr(self, 'ex_' + plan['mode'])(run, plan)

    def ex_reach(self, run, plan):
        lib = seams.boot()
        s = plan['s']
        h = History(run, plan['spec'], lib)
        for op in plan['ops']:
            h.apply(op)
        order = plan['order']
        if order == 'seed-reset':
            must(h.sub.seed(s), 'seed')
            must(h.sub.reset(), 'reset')
        elif order == 'setseed-reset':
            h.apply({'o': 'setseed', 's': s})
            must(h.sub.reset(), 'reset')
        elif order == 'seed-only' and stateless(h.spec) and s is not None:
            # All its state is in random generators: nothing to reset.
            must(h.sub.seed(s), 'seed')
            h.sub.refresh()
        else:
            must(h.sub.reset(), 'reset')
            must(h.sub.seed(s), 'seed')
        got = drain(h.sub, plan['reqs'])
        twin = Subject(run, with_seed(h.spec, s), lib)
        want = drain(twin, plan['reqs'])
        run.record('reach', order, got)
        run.state('reach', order, h.spec['k'], repr(s), str(got)[:60])
        if got != want:
            raise Violation('seed-missed', f'seeding an existing object with '
                            f'{s!r} ({order}) gave {str(got)[:250]}; building '
                            f'one with that seed gave {str(want)[:250]}')
        # A second copy made with that seed in another way.
        if not world.is_random(h.spec):
            return
        twin2 = Subject(run, h.spec, lib)
        must(twin2.seed(s), 'seed')
        got2 = drain(twin2, plan['reqs'])
        if got2 != want:
            raise Violation('seed-missed', f'seed({s!r}) on a new object gave '
                            f'{str(got2)[:250]}; building one with that seed '
                            f'gave {str(want)[:250]}')

    def ex_store(self, run, plan):
        """Storing a seed changes nothing until it is applied."""
        lib = seams.boot()
        a = History(run, plan['spec'], lib)
        b = History(run, plan['spec'], lib)
        for op in plan['ops']:
            a.apply(op)
            b.apply(op)
        k = a.spec['k']
        if k != 'schema' and not hasattr(a.sub.obj, 'rng_seed'):
            return
        a.apply({'o': 'setseed', 's': plan['s2']})
        got, want = drain(a.sub, plan['reqs']), drain(b.sub, plan['reqs'])
        run.record('store', got)
        run.state('store', k, str(got)[:60])
        if got != want:
            raise Violation('stored-seed-acts', 'storing a seed changed the '
                            f'data at once: {str(got)[:250]} instead of '
                            f'{str(want)[:250]}')
        must(a.sub.reset(), 'reset')
        twin = Subject(run, with_seed(a.spec, plan['s2']), lib)
        got, want = drain(a.sub, plan['reqs']), drain(twin, plan['reqs'])
        if got != want:
            raise Violation('stored-seed-lost', 'a stored seed was not used '
                            f'at the next reset: {str(got)[:250]} instead of '
                            f'{str(want)[:250]}')

    def make(self, run, plan, lib, s):
        if plan['how'] == 'ctor':
            return Subject(run, with_seed(plan['spec'], s), lib)
        sub = Subject(run, plan['spec'], lib)
        must(sub.seed(s), 'seed')
        return sub

    def ex_differ(self, run, plan):
        lib = seams.boot()
        s, s2 = plan['s'], plan['s2']
        if s is None or s2 is None or (seams.RealRandom(s).getrandbits(128)
                         == seams.RealRandom(s2).getrandbits(128)):
            return
        a, b = self.make(run, plan, lib, s), self.make(run, plan, lib, s2)
        reqs = [None] * 6
        x, y = drain(a, reqs), drain(b, reqs)
        run.record('differ', x, y)
        run.state('differ', plan['spec']['k'], repr(s))
        if x == y:
            raise Violation('seed-ignored', f'seeds {s!r} and {s2!r} gave the '
                            f'same data {str(x)[:250]}')

    def ex_entropy(self, run, plan):
        lib = seams.boot()
        a, b = (Subject(run, plan['spec'], lib) for _ in range(2))
        if plan['how'] == 'seed':
            must(a.seed(5), 'seed')
            must(b.seed(5), 'seed')
            must(a.seed(None), 'seed')
            must(b.seed(None), 'seed')
        reqs = [None] * 6
        x, y = drain(a, reqs), drain(b, reqs)
        must(a.reset(), 'reset')
        z = drain(a, reqs)
        run.record('entropy', x, y)
        run.state('entropy', plan['spec']['k'])
        if x == y or x == z:
            raise Violation('unseeded-repeats', 'unseeded emitters repeated '
                            f'each other: {str(x)[:250]}')


def stateless(spec):
    """Whether seeding it alone decides all it gives from there on."""
    return all(s['k'] in ('static', 'choice', 'chance', 'poisson', 'gauss',
                          'word', 'text', 'wrap1', 'wrapn', 'urand',
                          'useedy', 'uitems', 'ufunc', 'copy', 'based',
                          'field', 'schema')
               or (s['k'] == 'uparent' and not s.get('deep'))
               for s in world.walk(spec))


# ==========================================================================
# C04
# ==========================================================================

class C04(Prop):
    """Without replacement: every item once, and the counts are true."""

    id = 'C04'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        unhash = rng.random() < .12
        g = G(rng, unhashable=unhash, zero_weights=rng.random() < .4)
        size = rng.choice([1, 2, 3, 5, 8, 12, 20, 40, 90])
        if rng.random() < .03:
            size = rng.choice([110, 260, 520, 1100])
        kind = rng.choice(['choice'] * 5 + ['poisson', 'gauss'])
        shape = rng.choice(['any', 'dups', 'str', 'unhash' if unhash
                            else 'any'])
        if shape == 'dups':
            vals = [rng.choice('ABCDEF') for _ in range(size)]
            items = {'t': 'list', 'v': vals}
        elif shape == 'str':
            items = {'t': rng.choice(['list', 'tuple', 'useq']),
                     'v': [f'w{i}' for i in range(size)]}
        elif shape == 'unhash':
            items = {'t': 'list', 'v': [[i // 2] for i in range(size)]}
            if rng.random() < .5:
                # Equal ones that do not look equal.
                items['v'] = [[rng.choice([0, 0.0, False, 1, 1.0, True, 2,
                                           None, '1'])]
                              for _ in range(size)]
        else:
            items = g.items('any', size, size)
        n = len(items_of(items))
        if kind == 'choice':
            spec = {'k': 'choice', 'items': items}
            if rng.random() < .6:
                spec['w'] = g.weights(n)
                if rng.random() < .3:
                    acc, cw = 0, []
                    for x in spec.pop('w'):
                        acc += x
                        cw.append(acc)
                    spec['cw'] = cw
        else:
            spec = {'k': kind, 'items': items, 'mu': rng.choice([1, 2, 4]),
                    'floor': rng.choice([0, 0, .01])}
            if kind == 'gauss':
                spec['sigma'] = rng.choice([1, 2, 5])
        spec['replace'] = False
        start = rng.choice(['ctor', 'ctor', 'toggle', 'toggle-roac'])
        if rng.random() < .6:
            spec['seed'] = gen_seed_s(rng)
        consumers = [rng.choice(['direct', 'wrap', 'field', 'frep', 'text',
                                 'pair'])
                     for _ in range(rng.choice([1, 1, 2, 3]))]
        if shape != 'str':
            consumers = ['direct' if c == 'text' else c for c in consumers]
        faults = rng.random() < .4
        blind = rng.choice([0, 0, .5, .8])
        ops = []
        for _ in range(rng.randint(3, 14)):
            p = rng.random()
            c = rng.randrange(3)
            if p < .62:
                op = {'o': 'take', 'c': c,
                      'n': rng.choice([None, 0, 1, 2, 3, 5, n // 2, n])}
                if faults and rng.random() < .25:
                    op['arm'] = gen_arm(rng, ('fault', 'intr'))
            elif p < .72:
                op = {'o': 'over', 'c': c, 'd': rng.choice([1, 1, 2, 50])}
            elif p < .8:
                op = {'o': 'reset'}
                if faults and rng.random() < .4:
                    op['arm'] = gen_arm(rng, ('draw', 'draw', 'drawfail',
                                              'intr'), kmax=n)
            elif p < .86:
                op = {'o': 'seed', 's': gen_seed_s(rng)}
                if faults and rng.random() < .4:
                    op['arm'] = gen_arm(rng, ('draw',), kmax=n)
            elif p < .91:
                op = {'o': 'weights', 'v': g.weights(n),
                      'cum': rng.random() < .3}
                if faults and rng.random() < .4:
                    op['arm'] = gen_arm(rng, ('draw',), kmax=n)
            elif p < .95:
                op = {'o': 'toggle', 'via': rng.choice(['replace', 'roac']),
                      'n': rng.randrange(4)}
            else:
                op = {'o': 'noop-config'}
            if rng.random() < blind:
                op['blind'] = True      # nobody reads the counts after it
            ops.append(op)
        return {'spec': spec, 'start': start, 'consumers': consumers,
                'ops': ops, 'entropy': run, 'drain': rng.random() < .7}

    def execute(self, run, plan):
        lib = seams.boot()
        spec = plan['spec']
        if plan['start'] == 'ctor':
            obj = must(run.call(world.build, spec, lib), 'construction')
        else:
            s2 = dict(spec)
            s2['replace'] = True
            s2['roac'] = plan['start'] == 'toggle-roac'
            obj = must(run.call(world.build, s2, lib), 'construction')
            must(run.call(obj), 'request')
        items = [norm(i) for i in items_of(spec['items'])]
        outs = []
        for name in plan['consumers']:
            outs.append((name, must(run.call(self.consumer, name, obj, lib),
                                    'construction')))
        if plan['start'] != 'ctor':
            must(run.call(setattr, obj, 'replace', False), 'replace=False')
        m = Model04(run, obj, items, items_of(spec['items']))
        for op in plan['ops']:
            m.blind = op.get('blind', False)
            self.step(run, m, op, outs, lib)
        if plan['drain'] and not m.torn:
            rest = m.count()
            out = run.call(obj, rest) if rest else run.call(obj, 0)
            m.deliver(must(out, f'request({rest})'), rest)
            if not m.lost and m.left():
                raise Violation('items-missing', 'after every item was drawn '
                                f'{m.left()} never appeared')
            for n in (None, 1, 2):
                self.refused(run, m, run.call(obj, n), n or 1)

    @staticmethod
    def consumer(name, obj, lib):
        if name == 'direct':
            return obj
        if name == 'wrap':
            return lib.wrappers.WrapOne(obj, world.fn_ident)
        if name == 'pair':
            return lib.wrappers.WrapMany({'a': obj}, world.fn_kw)
        if name == 'field':
            return lib.profile.Field('f', obj)
        if name == 'frep':
            rep = lib.fixed.Static(0)
            return lib.profile.Field('f', obj, repeat=rep)
        if name == 'text':
            return lib.text.Text(lib.fixed.Static(0), obj)
        raise HarnessError(name)

    @staticmethod
    def ask(run, name, con, n, arm):
        """Asks for n items; returns (how many were asked, out, items)."""
        if name in ('direct', 'wrap', 'pair'):
            out = run.call(con, n, arm=arm)
            k = 1 if n is None else n
            if out.ok:
                got = [out.value] if n is None else out.value
                if name == 'pair':
                    got = [v[0][1] for v in got]
                return k, out, got
            return k, out, None
        if name == 'field':
            out = run.call(con, arm=arm)
            return 1, out, [out.value] if out.ok else None
        k = 1 if n is None else n
        if name == 'frep':
            con.repeat_emitter.value = k
            out = run.call(con, arm=arm)
            return k, out, out.value if out.ok else None
        con.numwords_emitter.value = k
        out = run.call(con, arm=arm)
        if not out.ok:
            return k, out, None
        return k, out, out.value.split(' ') if out.value else []

    def refused(self, run, m, out, n):
        if out.ok:
            raise Violation('oversize-answered', f'{n} requested with '
                            f'{m.left()} left, and it answered '
                            f'{out.value!r:.200}')
        if not isinstance(out.exc, ValueError):
            raise Violation('oversize-wrong-error',
                            f'{n} requested with {m.left()} left raised '
                            f'{type(out.exc).__name__}: {out.exc}')

    def step(self, run, m, op, outs, lib):
        o, arm = op['o'], op.get('arm')
        obj = m.obj
        run.count('op:' + o)
        if o in ('take', 'over'):
            if m.torn:
                # Only what is known after an interruption: never a repeat.
                if not outs or o == 'over':
                    return
                name, con = outs[op['c'] % len(outs)]
                out = run.call(con) if name != 'frep' else None
                if out is not None and out.ok and name in ('direct', 'wrap',
                                                           'field'):
                    m.dup_only([out.value])
                return
            name, con = outs[op['c'] % len(outs)]
            avail = m.count()
            n = op.get('n')
            if o == 'take':
                k = 1 if n is None or name == 'field' else n
                if k > avail:
                    n = avail
                    if name == 'field' or n == 0:
                        return
            else:
                n = avail + op['d']
                if name == 'field':
                    if avail:
                        return
            k, out, got = self.ask(run, name, con, n, arm)
            run.record(o, name, n, out.key()[:200], m.count())
            if o == 'over':
                self.refused(run, m, out, k)
                m.check('after a refused request')
                return
            if not out.ok:
                if not faulty(out):
                    must(out, f'{name} request({n})')
                if arm['t'] == 'intr':
                    m.torn = True
                else:
                    m.lose(k)
                return
            m.deliver(got, k)
            run.state('C04', name, k, m.left(), m.lost)
            m.check('after a request')
            return
        if o in ('reset', 'seed', 'weights'):
            if o == 'reset':
                out = run.call(obj.reset, arm=arm)
            elif o == 'seed':
                out = run.call(obj.seed, op['s'], arm=arm)
            elif op['cum']:
                acc, cw = 0, []
                for x in op['v']:
                    acc += x
                    cw.append(acc)
                out = run.call(setattr, obj, 'cum_weights', cw, arm=arm)
            else:
                out = run.call(setattr, obj, 'weights', op['v'], arm=arm)
            run.record(o, out.key())
            if not out.ok and not faulty(out):
                must(out, o)
            if not out.ok:
                must(run.call(obj.reset), 'reset')
            m.restart()
            m.check(f'after {o}')
            return
        if o == 'toggle':
            if m.torn:
                return
            if op['via'] == 'replace':
                must(run.call(setattr, obj, 'replace', True), 'replace=True')
            else:
                must(run.call(setattr, obj, 'replace_only_after_call', True),
                     'replace_only_after_call=True')
            if not obj.replace:
                raise Violation('toggle-ignored', 'replace stayed False')
            n = min(op['n'], len(m.items))
            must(run.call(obj, n), 'request')
            cnt = must(run.call(getattr, obj, 'num_unique_items'), 'reading')
            if cnt != len(m.items):
                raise Violation('count-wrong', f'with replacement, '
                                f'num_unique_items is {cnt}, not '
                                f'{len(m.items)}')
            must(run.call(setattr, obj, 'replace', False), 'replace=False')
            m.restart()
            if obj.replace or obj.replace_only_after_call:
                raise Violation('toggle-ignored', 'replace=False left '
                                f'replace={obj.replace} '
                                f'roac={obj.replace_only_after_call}')
            m.check('after toggling replacement')
            return
        if o == 'noop-config':
            if m.torn:
                return
            must(run.call(setattr, obj, 'replace', False), 'replace=False')
            obj.noun = 'thing'
            m.check('after setting replace=False again')
            return
        raise HarnessError(o)


def unequal(values):
    """How many of them are different by `==`."""
    values = list(values)
    if len(values) > 100:
        try:
            return len(frozenset(values))
        except TypeError:
            pass
    out = []
    for v in values:
        if v not in out:
            out.append(v)
    return len(out)


class Model04:
    """What may still be drawn, as multisets."""

    def __init__(self, run, obj, items, values):
        self.run = run
        self.obj = obj
        self.items = items
        self.values = dict(zip(items, values))
        self.blind = False
        self.restart()

    def distinct(self):
        """How many unequal values are left."""
        return unequal(self.values[key] for key, c in self.rest.items()
                       if c > 0)

    def restart(self):
        self.rest = collections.Counter(self.items)
        self.lost = 0
        self.torn = False

    def left(self):
        return sum(self.rest.values()) - self.lost

    def count(self):
        return self.left()

    def dup_only(self, got):
        for v in got:
            if self.rest[norm(v)] <= 0:
                raise Violation('item-repeated', f'{v!r} came out more often '
                                'than it is in the items')
            self.rest[norm(v)] -= 1

    def deliver(self, got, k):
        if not isinstance(got, list):
            raise Violation('not-a-list', f'{got!r:.200}')
        if len(got) != k:
            raise Violation('wrong-amount', f'{k} requested, {len(got)} came')
        self.dup_only(got)

    def lose(self, k):
        """A failed request may or may not have used up its items."""
        now = must(self.run.call(getattr, self.obj, 'num_unique_items'),
                   'reading')
        before = self.left()
        if not before - k <= now <= before:
            raise Violation('count-wrong', f'{before} left, {k} requested and '
                            f'failed, and {now} are said to be left')
        self.lost += before - now

    def check(self, when):
        run, obj = self.run, self.obj
        if self.blind:
            return
        n = must(run.call(getattr, obj, 'num_unique_items'), 'reading')
        if n != self.left():
            raise Violation('count-wrong', f'{when}: {self.left()} items are '
                            f'left but num_unique_items says {n}')
        u = must(run.call(getattr, obj, 'num_unique_values'), 'reading')
        e = must(run.call(getattr, obj, 'emits_unique_values'), 'reading')
        if not self.lost:
            want = self.distinct()
            if u != want:
                raise Violation('count-wrong', f'{when}: {want} distinct '
                                f'values are left but num_unique_values says '
                                f'{u}')
        if bool(e) != (u == n):
            raise Violation('count-wrong', f'{when}: {n} items, {u} values '
                            f'but emits_unique_values is {e}')


# ==========================================================================
# C05
# ==========================================================================

class C05(Prop):
    """Replacement only after each call."""

    id = 'C05'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G(rng, unhashable=rng.random() < .1,
              zero_weights=rng.random() < .5)
        size = rng.choice([1, 2, 3, 5, 9, 15, 40])
        if rng.random() < .04:
            size = rng.choice([110, 260, 520, 1100])
        words = rng.random() < .5
        if words:
            if rng.random() < .3:
                vals = [rng.choice(['aa', 'bb', 'cc', 'dd'])
                        for _ in range(size)]
            else:
                vals = [f'w{i}' for i in range(size)]
            items = {'t': rng.choice(['list', 'tuple', 'useq']), 'v': vals}
        else:
            items = g.items('any', size, size)
        n = len(items_of(items))
        spec = {'k': 'choice', 'items': items, 'roac': True,
                'replace': rng.random() < .7}
        if rng.random() < .65:
            spec['w'] = g.weights(n)
        if rng.random() < .15:
            spec = {'k': rng.choice(['poisson', 'gauss']), 'items': items,
                    'mu': rng.choice([1, 3]), 'sigma': 2, 'roac': True,
                    'floor': rng.choice([0, .01])}
        if rng.random() < .6:
            spec['seed'] = gen_seed_s(rng)
        start = rng.choice(['ctor', 'ctor', 'toggle', 'toggle-noreplace'])
        cons = ['direct', 'wrap', 'frep', 'pair'] + (['text'] * 2 if words
                                                     else [])
        consumers = [rng.choice(cons) for _ in range(rng.choice([1, 2, 3]))]
        ops = []
        faults = rng.random() < .5
        blind = rng.choice([0, 0, .5, .8])
        for _ in range(rng.randint(3, 14)):
            p = rng.random()
            c = rng.randrange(3)
            if p < .65:
                op = {'o': 'take', 'c': c,
                      'n': rng.choice([None, 0, 1, 2, 3, n // 3, n // 2,
                                       n, n])}
                if faults and rng.random() < .4:
                    op['arm'] = gen_arm(rng, ('draw', 'draw', 'drawfail',
                                              'fault', 'intr'), kmax=n)
            elif p < .78:
                op = {'o': 'over', 'c': c, 'd': rng.choice([1, 1, 2, 30])}
            elif p < .84:
                op = {'o': 'reset'}
            elif p < .9:
                op = {'o': 'seed', 's': gen_seed_s(rng)}
            elif p < .95:
                op = {'o': 'weights', 'v': g.weights(n),
                      'cum': rng.random() < .3}
            else:
                op = {'o': 'toggle', 'n': rng.randrange(3)}
            if rng.random() < blind:
                op['blind'] = True
            ops.append(op)
        if n > 100 and rng.random() < .6:
            # Many small requests: a repeat would be rare in each.
            few = rng.choice([2, 3, 4, 7, 12, 30])
            c = rng.randrange(3)
            ops += [{'o': 'take', 'c': c, 'n': few}
                    for _ in range(rng.randint(30, 90))]
        return {'spec': spec, 'start': start, 'consumers': consumers,
                'ops': ops, 'entropy': run}

    def execute(self, run, plan):
        lib = seams.boot()
        spec = plan['spec']
        s2 = dict(spec)
        if plan['start'] != 'ctor':
            s2['roac'] = False
            s2['replace'] = plan['start'] == 'toggle'
        obj = must(run.call(world.build, s2, lib), 'construction')
        if plan['start'] != 'ctor':
            must(run.call(setattr, obj, 'replace_only_after_call', True),
                 'replace_only_after_call=True')
        if not obj.replace or not obj.replace_only_after_call:
            raise Violation('toggle-ignored', f'replace={obj.replace} '
                            f'roac={obj.replace_only_after_call}')
        items = [norm(i) for i in items_of(spec['items'])]
        whole = collections.Counter(items)
        distinct = unequal(items_of(spec['items']))
        outs = [(c, must(run.call(C04.consumer, c, obj, lib), 'construction'))
                for c in plan['consumers']]
        for op in plan['ops']:
            o, arm = op['o'], op.get('arm')
            run.count('op:' + o)
            if o in ('take', 'over'):
                name, con = outs[op['c'] % len(outs)]
                n = op.get('n') if o == 'take' else len(items) + op['d']
                if o == 'take' and n is not None:
                    n = min(n, len(items))
                if name == 'text' and n is not None:
                    # Texts promise this up to the number of values there are.
                    n = min(n, len(whole))
                    if o == 'over':
                        continue
                k, out, got = C04.ask(run, name, con, n, arm)
                run.record(o, name, n, out.key()[:200])
                if o == 'over':
                    if out.ok:
                        raise Violation('oversize-answered', f'{k} distinct '
                                        f'requested of {len(items)} and it '
                                        f'answered {out.value!r:.200}')
                    if not isinstance(out.exc, ValueError):
                        raise Violation(
                            'oversize-wrong-error', f'{k} of {len(items)} '
                            f'raised {type(out.exc).__name__}: {out.exc}')
                    continue
                if not out.ok:
                    if not faulty(out):
                        must(out, f'{name} request({n})')
                    continue
                if not isinstance(got, list) or len(got) != k:
                    raise Violation('wrong-amount', f'{k} requested, got '
                                    f'{got!r:.200}')
                cnt = collections.Counter(norm(v) for v in got)
                for v, c in cnt.items():
                    if c > whole[v]:
                        raise Violation('repeat-within-call', f'{v} came '
                                        f'{c} times in one call of {k}; the '
                                        f'items have it {whole[v]} times')
                run.state('C05', name, k, len(items))
            elif o == 'reset':
                must(run.call(obj.reset), 'reset')
            elif o == 'seed':
                must(run.call(obj.seed, op['s']), 'seed')
            elif o == 'weights':
                if op.get('cum'):
                    must(run.call(setattr, obj, 'cum_weights', list(
                        itertools.accumulate(op['v']))), 'cum_weights')
                else:
                    must(run.call(setattr, obj, 'weights', op['v']),
                         'weights')
            elif o == 'toggle':
                must(run.call(setattr, obj, 'replace', False), 'replace')
                if obj.replace_only_after_call:
                    raise Violation('toggle-ignored', 'replace=False left '
                                    'replace_only_after_call on')
                must(run.call(obj, min(op['n'], len(items))), 'request')
                must(run.call(setattr, obj, 'replace_only_after_call', True),
                     'replace_only_after_call=True')
                if not obj.replace:
                    raise Violation('toggle-ignored', 'replace stayed False')
            if op.get('blind'):
                continue
            n = must(run.call(getattr, obj, 'num_unique_items'), 'reading')
            if n != len(items):
                raise Violation('count-wrong', f'{len(items)} items can be '
                                f'emitted but num_unique_items says {n}')
            n = must(run.call(getattr, obj, 'num_unique_values'), 'reading')
            if n != distinct:
                raise Violation('count-wrong', f'{distinct} distinct values '
                                f'can be emitted but num_unique_values says '
                                f'{n}')
            if obj.emits_unique_values:
                raise Violation('count-wrong', 'emits_unique_values with '
                                'replacement after each call')


# ==========================================================================
# C06
# ==========================================================================

class C06(Prop):
    """Every request is answered in full with values the spec permits."""

    id = 'C06'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng)
        spec = gen_root(g, rng, schema=.15, field=.2)
        if rng.random() < .5:
            spec = with_seed(spec, gen_seed_s(rng))
        faults = rng.choice([0, 0, .2, .5])
        ops = []
        for _ in range(rng.randint(3, 14)):
            p = rng.random()
            if p < .86:
                op = {'o': 'call', 'n': gen_n(rng, rng.choice([4, 13, 40])),
                      'how': rng.choice(['call', 'call', 'method'])}
                if rng.random() < faults:
                    op['arm'] = gen_arm(rng)
            elif p < .93:
                op = {'o': 'reset'}
                if rng.random() < faults:
                    op['arm'] = gen_arm(rng)
            else:
                op = {'o': 'seed', 's': gen_seed_s(rng)}
            ops.append(op)
        if rng.random() < .03:
            ops[rng.randrange(len(ops))] = {
                'o': 'call', 'n': rng.randint(200, 2600), 'how': 'call'}
        return {'spec': spec, 'ops': ops, 'entropy': run}

    def execute(self, run, plan):
        lib = seams.boot()
        spec = plan['spec']
        sub = Subject(run, spec, lib)
        for op in plan['ops']:
            o, arm = op['o'], op.get('arm')
            run.count('op:' + o)
            if o == 'seed':
                must(sub.seed(op['s']), 'seed')
                continue
            if o == 'reset':
                out = sub.reset(arm=arm)
                if not out.ok:
                    if not faulty(out):
                        must(out, 'reset')
                    must(sub.reset(), 'reset after a failed reset')
                continue
            got = sub.emit(op['n'], arm=arm, how=op.get('how', 'call'))
            if got is None:
                continue
            n, out = got
            run.record('call', n, out.key()[:300])
            if not out.ok:
                if not faulty(out):
                    must(out, f'request({n})')
                if arm['t'] == 'intr' and sub.pool < world.INF:
                    must(sub.reset(), 'reset')
                continue
            run.state('C06', spec['k'], n, out.key()[:60])
            self.check(spec, n, out.value)

    @staticmethod
    def check(spec, n, value):
        if spec['k'] == 'schema':
            if not isinstance(value, dict):
                raise Violation('not-a-record', f'{value!r:.200}')
            for f in spec['fields']:
                if f['hide']:
                    continue
                if f['name'] not in value:
                    raise Violation('field-missing', f'{f["name"]} of '
                                    f'{value!r:.200}')
                if f['em']['k'] not in ('copy', 'based') and \
                        not world.permits_field(f, value[f['name']]):
                    raise Violation('not-permitted', f'field {f["name"]} '
                                    f'emitted {value[f["name"]]!r:.200}')
            return
        if spec['k'] == 'field':
            if not world.permits_field(spec, value):
                raise Violation('not-permitted', f'field emitted '
                                f'{value!r:.200}')
            return
        if n is None:
            vals = [value]
        else:
            if not isinstance(value, list):
                raise Violation('not-a-list', f'request({n}) gave '
                                f'{value!r:.200}')
            if len(value) != n:
                raise Violation('wrong-amount', f'request({n}) gave '
                                f'{len(value)} values: {value!r:.200}')
            vals = value
        for v in vals:
            if not world.permits(spec, v):
                raise Violation('not-permitted', f'request({n}) gave '
                                f'{v!r:.200}')


PROPS_A = [C01, C02, C03, C04, C05, C06]
