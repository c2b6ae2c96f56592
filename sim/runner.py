"""Runs a property's simulations: workers, verdict, replay files, evidence."""
import argparse
import hashlib
import json
import os
import pickle
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from sim import execu, seams
from sim.execu import Run, Violation
from sim.seams import HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('SIM_EVIDENCE') or \
    os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.json')
HANG_SECONDS = 25
HANG_LINES = 3_000_000
MEMORY = 3 << 30
_perf = time.perf_counter
_wall = time.time


def props():
    from sim.props_a import PROPS_A
    from sim.props_b import PROPS_B
    from sim.props_c import PROPS_C
    from sim.props_d import PROPS_D
    from sim.props_e import PROPS_E
    from sim.props_f import PROPS_F
    return {p.id: p for p in PROPS_A + PROPS_B + PROPS_C + PROPS_D
            + PROPS_E + PROPS_F}


class Hang(HarnessError):
    """A run took far longer than any run should, in real time."""


def _on_alarm(signum, frame):
    raise Hang('run exceeded its real-time allowance')


# --------------------------------------------------------------------------
# one run
# --------------------------------------------------------------------------

def make_plan(prop, seed, i):
    rng = seams.RealRandom(f'{seed}:{prop.id}:{i}')
    plan = prop.gen(rng, i)
    rng = seams.RealRandom(f'{seed}:{prop.id}:{i}:opt')
    if rng.random() < .05:
        plan['opt'] = rng.choice([1, 2])
    if rng.random() < .15:
        plan['opt2'] = rng.choice([1, 2])
    return plan


def canonical(plan):
    """The plan as it will be after a trip through a replay file."""
    return json.loads(json.dumps(plan))


def from_lib(exc):
    """Whether an exception came out of fauxdoc's own code."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    return last is not None and \
        last.tb_frame.f_code.co_filename.startswith(seams.LIBDIR)


def one_run(prop, plan, line_budget=None):
    """Executes a plan.  Returns (run, env, violation or None)."""
    random.seed(f'run:{plan.get("entropy", 0)}')
    env = seams.set_env(prop.env(plan))
    env.opt = plan.get('opt') or -1
    run = Run(plan)
    execu.LINE_BUDGET = line_budget
    bad = None
    try:
        prop.execute(run, plan)
    except Violation as v:
        bad = v
    except HarnessError:
        raise
    except seams.SimLivelock as e:
        bad = Violation('no-progress', str(e))
    except ImportError:
        raise
    except Exception as e:      # pylint: disable=broad-except
        if not from_lib(e) and not isinstance(e, (
                AttributeError, TypeError, KeyError, IndexError, ValueError)):
            raise
        # Either the library failed by itself, or what it gave made no sense
        # to its user (here, the simulation), which is as bad.
        bad = Violation('unexpected-exception:' + type(e).__name__,
                        f'{type(e).__name__}: {e}')
    finally:
        sys.settrace(None)
        execu.LINE_BUDGET = None
    if bad is not None:
        run.record('VIOLATION', bad.kind, bad.detail)
    return run, env, bad


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    sys.setrecursionlimit(3000)


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------

def known_findings(pid):
    try:
        with open(KNOWN, encoding='utf8') as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get('findings', []) if e['property'] == pid]


def match_known(known, bad):
    for e in known:
        if e['kind'] == bad.kind and e['contains'] in bad.detail:
            return e
    return None


def worker(a):
    """Executes a stripe of runs and writes a pickled report."""
    limits()
    prop = props()[a.property]()
    known = known_findings(a.property)
    out = {'runs': 0, 'steps': 0, 'stats': {}, 'fired': {}, 'hits': {},
           'sim_s': 0.0, 'states': set(), 'scheds': set(), 'digests': [],
           'nontrivial': set(), 'samples': [], 'violation': None,
           'known': {}, 'slow': 0, 'draws': 0, 'capped': False,
           'hang': None, 'error': None, 'seen_kinds': {}}
    signal.signal(signal.SIGALRM, _on_alarm)
    t0 = _perf()
    with seams.simulated_world():
        for i in range(a.start, a.runs, a.stride):
            if _perf() - t0 > a.cap:
                out['capped'] = True
                break
            plan = None
            try:
                signal.alarm(HANG_SECONDS)
                plan = canonical(make_plan(prop, a.seed, i))
                run, env, bad = one_run(prop, plan)
                signal.alarm(0)
            except Hang:
                out['hang'] = {'run': i, 'plan': plan}
                break
            except BaseException as e:      # pylint: disable=broad-except
                signal.alarm(0)
                out['error'] = (f'run {i}: {type(e).__name__}: {e}\n'
                                + traceback.format_exc()[-3000:]
                                + '\nplan: ' + json.dumps(plan)[:3000])
                break
            out['runs'] += 1
            out['steps'] += run.steps
            out['draws'] += env.draws
            out['sim_s'] += max(0.0, env.now - 1_600_000_000.0)
            for src, dst in ((run.stats, 'stats'), (env.fired, 'fired'),
                             (env.hits, 'hits')):
                for k, v in src.items():
                    out[dst][k] = out[dst].get(k, 0) + v
            out['states'] |= run.states
            d = run.log.hexdigest()
            out['digests'].append((i, d))
            if run.nlog >= 1 and run.steps >= 2:
                out['nontrivial'].add(d[:16])
            if run.sched is not None:
                out['scheds'].add(hashlib.sha256(
                    repr(run.sched).encode()).hexdigest()[:16])
            if i < 2:
                out['samples'].append({'run': i, 'plan': plan,
                                       'trail': run.trail[-6:]})
            if bad is not None:
                e = match_known(known, bad)
                if e is not None:
                    k = e['id']
                    out['known'][k] = out['known'].get(k, 0) + 1
                    continue
                if a.survey:
                    lst = out['seen_kinds'].setdefault(bad.kind, [])
                    lst.append((i, bad.detail[:400]))
                    continue
                out['violation'] = {'run': i, 'kind': bad.kind,
                                    'detail': bad.detail, 'plan': plan,
                                    'digest': d}
                break
    out['wall'] = _perf() - t0
    with open(a.out, 'wb') as f:
        pickle.dump(out, f)


def spawn(args, **kw):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen([sys.executable, os.path.join(HERE, 'run.py')]
                            + [str(x) for x in args], env=env, cwd=HERE, **kw)


def run_workers(pid, seed, runs, nworkers, cap, survey=False):
    tmp = tempfile.mkdtemp(prefix='simrun')
    procs = []
    for w in range(nworkers):
        out = os.path.join(tmp, f'{w}.pkl')
        args = ['worker', pid, '--seed', seed, '--runs', runs, '--start', w,
                '--stride', nworkers, '--cap', cap, '--out', out]
        if survey:
            args.append('--survey')
        procs.append((spawn(args, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT), out))
    reports, errors = [], []
    deadline = _perf() + cap + HANG_SECONDS + 60
    for p, out in procs:
        try:
            text = p.communicate(timeout=max(1, deadline - _perf()))[0]
        except subprocess.TimeoutExpired:
            p.kill()
            text = p.communicate()[0]
            errors.append('worker did not finish: ' + text.decode()[-2000:])
            continue
        if p.returncode != 0 or not os.path.exists(out):
            errors.append(f'worker ended with {p.returncode}: '
                          + text.decode('utf8', 'replace')[-3000:])
            continue
        with open(out, 'rb') as f:
            reports.append(pickle.load(f))
        os.remove(out)
    try:
        os.rmdir(tmp)
    except OSError:
        pass
    return reports, errors


# --------------------------------------------------------------------------
# check
# --------------------------------------------------------------------------

def sub_json(args, payload, timeout):
    """Runs a subcommand with JSON in and JSON out, in a fresh process."""
    p = spawn(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
              stderr=subprocess.PIPE, text=True)
    try:
        out, err = p.communicate(json.dumps(payload), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {'timeout': True}
    if p.returncode != 0:
        return {'error': err[-3000:]}
    return json.loads(out.strip().splitlines()[-1])


def check(a):
    t0 = _perf()
    tier = a.tier
    table = props()
    if a.property not in table:
        print(f'unknown property {a.property}')
        return 2
    prop = table[a.property]
    runs = a.runs or (prop.quick_runs if tier == 'quick'
                      else prop.thorough_runs)
    cap = a.cap or (120 if tier == 'quick' else 600)
    try:
        os.remove(os.path.join(EVIDENCE, f'replay-{a.property}.json'))
    except FileNotFoundError:
        pass
    reports, errors = run_workers(a.property, a.seed, runs, a.workers, cap,
                                  a.survey)
    if a.survey:
        for r in reports:
            if r['error']:
                print('ERROR', r['error'])
            if r['hang']:
                print('HANG', r['hang'])
            for k, lst in r['seen_kinds'].items():
                print(k, len(lst), lst[:2])
        print(errors, 'runs', sum(r['runs'] for r in reports),
              'wall', round(_perf() - t0, 1))
        return 0
    verdict, replay, viol = 0, None, None
    cands = [r['violation'] for r in reports if r['violation']]
    for r in reports:
        if r['error']:
            errors.append(r['error'])
    hangs = [r['hang'] for r in reports if r['hang']]
    if not cands and hangs:
        h = min(hangs, key=lambda x: x['run'])
        got = sub_json(['one', a.property, '--lines', HANG_LINES],
                       h['plan'], 400)
        if got.get('kind'):
            cands.append({'run': h['run'], 'kind': got['kind'],
                          'detail': got['detail'], 'plan': h['plan'],
                          'digest': got['digest'], 'lines': HANG_LINES})
        elif got.get('timeout') or got.get('error'):
            errors.append(f'run {h["run"]} does not finish: {got}')
        else:
            errors.append(f'run {h["run"]} was too slow to judge')
    if cands:
        viol = min(cands, key=lambda x: x['run'])
        replay = report(a, viol)
        verdict = 1
    if errors and verdict == 0:
        verdict = 2
    write_evidence(a, prop, tier, runs, reports, viol, replay, errors,
                   _perf() - t0)
    for e in known_findings(a.property):
        n = sum(r['known'].get(e['id'], 0) for r in reports)
        print(f'KNOWN-FINDING: property={a.property} {e["what"]} '
              f'(met {n} times in this run)')
    for e in errors:
        print('ERROR', e)
    done = sum(r['runs'] for r in reports)
    print(f'{a.property} {tier}: {done} runs, seed {a.seed}, '
          f'{_perf() - t0:.1f} s')
    if verdict == 1:
        print(f'{viol["kind"]}: {viol["detail"]}')
        print(f'VIOLATION property={a.property} replay={replay}')
    return verdict


def report(a, viol):
    """Minimises a violation, confirms it afresh, writes its replay file."""
    plan, lines = viol['plan'], viol.get('lines')
    small = None
    if not lines:
        small = sub_json(['minimise', a.property],
                         {'plan': plan, 'kind': viol['kind']}, 150)
    best = {'plan': plan, 'kind': viol['kind'], 'detail': viol['detail'],
            'digest': viol['digest']}
    tried = 0
    if small and small.get('plan') is not None:
        best = {k: small[k] for k in ('plan', 'kind', 'detail', 'digest')}
        tried = small['tried']
    data = {'property': a.property, 'seed': a.seed, 'run': viol['run'],
            'kind': best['kind'], 'detail': best['detail'],
            'digest': best['digest'], 'plan': best['plan'],
            'original_plan': plan, 'minimiser_tried': tried,
            'lines': lines, 'stripe': None}
    confirm = sub_json(['one', a.property] + (
        ['--lines', lines] if lines else []), best['plan'], 400)
    if confirm.get('kind') != best['kind'] or \
            confirm.get('digest') != best['digest']:
        # Something outlives a run in the process: replay its predecessors.
        data['stripe'] = [viol['run'] % a.workers, a.workers]
        data['plan'] = plan
        data['kind'], data['detail'] = viol['kind'], viol['detail']
        data['digest'] = viol['digest']
    else:
        data['trail'] = confirm.get('trail')
    viol.update(kind=data['kind'], detail=data['detail'])
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f'replay-{a.property}.json')
    with open(path, 'w', encoding='utf8') as f:
        json.dump(data, f, indent=1)
    return os.path.relpath(path, HERE)


def cmd_one(a):
    """Executes one plan from stdin; says what happened as JSON."""
    limits()
    prop = props()[a.property]()
    plan = json.load(sys.stdin)
    with seams.simulated_world():
        run, _, bad = one_run(prop, plan, a.lines)
    print(json.dumps({'kind': bad and bad.kind, 'detail': bad and bad.detail,
                      'digest': run.log.hexdigest(), 'trail': run.trail}))
    return 0


def cmd_minimise(a):
    limits()
    from sim.minimise import minimise
    prop = props()[a.property]()
    data = json.load(sys.stdin)
    signal.signal(signal.SIGALRM, _on_alarm)
    with seams.simulated_world():
        got = minimise(prop, data['plan'], data['kind'], one_run,
                       signal.alarm)
    print(json.dumps(got))
    return 0


def cmd_replay(a):
    """Replays a file: exit 1 and the same violation, or exit 0."""
    limits()
    with open(a.file, encoding='utf8') as f:
        data = json.load(f)
    prop = props()[data['property']]()
    bad = run = None
    with seams.simulated_world():
        if data.get('stripe'):
            start, stride = data['stripe']
            for i in range(start, data['run'], stride):
                one_run(prop, canonical(make_plan(prop, data['seed'], i)))
        run, _, bad = one_run(prop, data['plan'], data.get('lines'))
    for line in run.trail:
        print('  ' + line)
    if bad is None:
        print('no violation on this tree')
        return 0
    same = bad.kind == data['kind'] and \
        run.log.hexdigest() == data['digest']
    print(f'{bad.kind}: {bad.detail}')
    print('reproduced exactly' if same else
          f'differs from the recorded violation ({data["kind"]})')
    print(f'VIOLATION property={data["property"]} replay={a.file}')
    return 1


def solo_main():
    """For C01: tenants run alone in a fresh interpreter."""
    limits()
    from sim.props_a import C01
    plan = json.load(sys.stdin)
    prop = C01()
    res = {}
    with seams.simulated_world():
        seams.set_env(seams.Env(plan['entropy']))
        run = Run(plan)
        try:
            solo = []
            for i, t in enumerate(plan['tenants']):
                random.seed(i)
                solo.append(prop.solo(run, t))
            res['solo'] = solo
        except Violation as v:
            res['violation'] = [v.kind, v.detail]
    print(json.dumps(res))


# --------------------------------------------------------------------------
# evidence
# --------------------------------------------------------------------------

RULE = ('Each run is a plan drawn from a PRNG keyed by (VERIF_SEED, property, '
        'run number): which emitters, fields and schemas to build, which '
        'operations to make on them, in what order, and which faults to '
        'inject where. It is non-trivial if at least two operations were made '
        'on real fauxdoc objects and at least one result was recorded; two '
        'runs are the same if all their recorded results are the same.')

FAULTS = {'interrupt': 'asynchronous interrupt at a chosen line of fauxdoc',
          'failed_line': 'allocation or recursion failure at a chosen line '
          'of fauxdoc',
          'rare_draw': 'random() made to return a once-in-2**53 value',
          'draw_failure': 'random draw made to raise',
          'clock_jump': 'simulated clock jumped',
          'entropy_reads': 'fresh entropy supplied by the simulator',
          'boots': 'fresh import of fauxdoc (a new process, to the library)'}


def write_evidence(a, prop, tier, runs, reports, viol, replay, errors, wall):
    done = sum(r['runs'] for r in reports)

    def total(key):
        out = {}
        for r in reports:
            for k, v in r[key].items():
                out[k] = out.get(k, 0) + v
        return dict(sorted(out.items()))

    def union(key):
        out = set()
        for r in reports:
            out |= r[key]
        return out
    fired = total('fired')
    faults = {k: v for k, v in fired.items()
              if k not in ('entropy_reads', 'boots')}
    digest = hashlib.sha256(repr(sorted(
        d for r in reports for d in r['digests'])).encode()).hexdigest()
    samples = sorted((s for r in reports for s in r['samples']),
                     key=lambda s: s['run'])
    scheds = union('scheds')
    cov = {
        'evaluations': done,
        'distinct_nontrivial': len(union('nontrivial')),
        'rule': RULE,
        'samples': [json.loads(json.dumps(s)) for s in samples[:3]],
        'planned_runs': runs,
        'runs_per_hour': int(done / wall * 3600) if wall else 0,
        'seeds': f'VERIF_SEED={a.seed}, runs 0..{runs - 1}, one PRNG each',
        'simulated_operations': sum(r['steps'] for r in reports),
        'simulated_draws': sum(r['draws'] for r in reports),
        'simulated_seconds': round(sum(r['sim_s'] for r in reports), 3),
        'simulated_time_note': 'fauxdoc sets no timers, so simulated time '
        'moves only by clock jumps and reads; operations are its steps',
        'faults_injected': faults,
        'fault_kinds': {k: v for k, v in FAULTS.items() if k in faults},
        'library_boots': fired.get('boots', 0),
        'fresh_entropy_reads': fired.get('entropy_reads', 0),
        'user_part_calls': total('hits'),
        'operations': total('stats'),
        'distinct_states': len(union('states')),
        'distinct_states_measure': 'distinct (operation, configuration, '
        'result prefix) tuples recorded by the property, hashed to 64 bits',
        'distinct_interleavings': len(scheds),
        'distinct_interleavings_measure': 'distinct executed tenant orders, '
        'or (thread, quantum) sequences, where the property interleaves',
        'real_code': 'all of /repo/src/fauxdoc, imported from the working '
        'tree; CPython random.Random generation',
        'stubs': 'entropy source, clock, and the user-supplied callables, '
        'iterators and emitters are simulator parts; threads are real but '
        'run one at a time as the schedule says',
        'trace_digest': digest,
        'known_findings_met': total('known'),
        'wall_capped': any(r['capped'] for r in reports),
        'errors': errors[:3],
    }
    if viol:
        cov['violation'] = {'kind': viol['kind'], 'run': viol['run'],
                            'detail': viol['detail'][:600],
                            'replay': replay}
    data = {
        'property': a.property, 'tier': tier, 'seed': a.seed,
        'level': 'exploration', 'coverage': cov,
        'assumptions': [
            'random.Random of this CPython is deterministic given a seed',
            'plans cover the spec grammar of sim/world.py, not every '
            'user-written emitter',
        ],
        'wall_s': round(wall, 2), 'violations': 1 if viol else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f'{a.property}.json')
    with open(path + '.tmp', 'w', encoding='utf8') as f:
        json.dump(data, f, indent=1)
    os.replace(path + '.tmp', path)


# --------------------------------------------------------------------------
# self test
# --------------------------------------------------------------------------

def cmd_selftest(a):
    """Same seed, any process and any number of workers: same traces."""
    bad = 0
    for pid in sorted(props()):
        if a.property and pid != a.property:
            continue
        seen = set()
        for w in (1, 3, 8):
            reports, errors = run_workers(pid, a.seed, a.runs or 60, w, 300)
            if errors:
                print(errors)
            seen.add(hashlib.sha256(repr(sorted(
                d for r in reports for d in r['digests'])).encode())
                .hexdigest())
        print(pid, 'same' if len(seen) == 1 else 'DIFFERENT', *seen)
        bad += len(seen) != 1
    return 1 if bad else 0


def main(argv=None):
    p = argparse.ArgumentParser()
    sub = p.add_subparsers(dest='cmd', required=True)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = sub.add_parser('check')
    c.add_argument('property')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    c.add_argument('--seed', type=int, default=seed)
    c.add_argument('--runs', type=int)
    c.add_argument('--cap', type=float)
    c.add_argument('--workers', type=int, default=8)
    c.add_argument('--survey', action='store_true')
    c.set_defaults(func=check)
    c = sub.add_parser('worker')
    c.add_argument('property')
    c.add_argument('--seed', type=int)
    c.add_argument('--runs', type=int)
    c.add_argument('--start', type=int)
    c.add_argument('--stride', type=int)
    c.add_argument('--cap', type=float)
    c.add_argument('--out')
    c.add_argument('--survey', action='store_true')
    c.set_defaults(func=worker)
    c = sub.add_parser('one')
    c.add_argument('property')
    c.add_argument('--lines', type=int)
    c.set_defaults(func=cmd_one)
    c = sub.add_parser('minimise')
    c.add_argument('property')
    c.set_defaults(func=cmd_minimise)
    c = sub.add_parser('replay')
    c.add_argument('file')
    c.set_defaults(func=cmd_replay)
    c = sub.add_parser('selftest-determinism')
    c.add_argument('property', nargs='?')
    c.add_argument('--seed', type=int, default=seed)
    c.add_argument('--runs', type=int)
    c.set_defaults(func=cmd_selftest)
    a = p.parse_args(argv)
    if a.cmd == 'check' and a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    return a.func(a) or 0
