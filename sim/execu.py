"""Executing plans: operations on real objects, with faults armed around them.
"""
import hashlib
import sys
from sim import parts, seams, world
from sim.seams import SimInterrupt, SimLivelock, HarnessError
from sim.world import norm


class Violation(Exception):
    """A property does not hold, shown by this run."""

    def __init__(self, kind, detail):
        if len(detail) > 1500:
            detail = detail[:1100] + ' [...] ' + detail[-390:]
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = detail


class Outcome:
    """What one operation did: a value, or an exception."""

    __slots__ = ('ok', 'value', 'exc', 'fired', 'arm')

    def __init__(self, ok, value=None, exc=None, fired=False, arm=None):
        self.ok = ok
        self.value = value
        self.exc = exc
        self.fired = fired
        self.arm = arm

    def key(self):
        if self.ok:
            return norm(self.value)
        return f'!{type(self.exc).__name__}'

    def __repr__(self):
        if self.ok:
            return repr(self.value)
        return f'{type(self.exc).__name__}({self.exc})'


class LineTracer:
    """Counts lines run inside fauxdoc; may interrupt at the k-th."""

    def __init__(self, k=None, budget=None, exc=None):
        self.k = k
        self.exc = exc or SimInterrupt('interrupted by the simulator')
        self.n = 0
        self.fired = False
        self.budget = budget
        self.where = None

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(seams.LIBDIR):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            if self.k is not None and self.n == self.k and not self.fired:
                self.fired = True
                self.n += 1
                self.where = (frame.f_code.co_name, frame.f_lineno)
                raise self.exc
            self.n += 1
            if self.budget is not None and self.n > self.budget:
                raise SimLivelock(
                    f'more than {self.budget} lines run in one operation')
        return self.local


# Set when re-running in "hang" mode: every operation gets a line budget.
LINE_BUDGET = None
# Simulated threads always count lines, so they always have a budget.
THREAD_LINES = 1_500_000
_threaded = False


class Run:
    """Bookkeeping for one simulated run."""

    def __init__(self, plan):
        self.plan = plan
        self.log = hashlib.sha256()
        self.nlog = 0
        self.steps = 0
        self.stats = {}
        self.states = set()
        self.trail = []           # last few operations, for reports
        self.sched = None

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def record(self, *parts):
        line = '|'.join(str(p) for p in parts)
        self.log.update(line.encode('utf8', 'backslashreplace'))
        self.log.update(b'\n')
        self.nlog += 1
        self.trail.append(line[:300])
        if len(self.trail) > 12:
            del self.trail[0]

    def state(self, *parts):
        h = hashlib.blake2b('|'.join(str(p) for p in parts).encode(
            'utf8', 'backslashreplace'), digest_size=8).digest()
        self.states.add(h)

    def call(self, func, *args, arm=None, **kwargs):
        """Runs one library operation, with an arm if given."""
        env = seams.ENV
        env.begin_op()
        env.fault = env.extreme = env.draw_fail = None
        env.last_fault = None
        self.steps += 1
        tracer = None
        if arm:
            t = arm['t']
            if t == 'fault':
                env.fault = [arm['k'], arm['exc'], arm.get('part')]
            elif t == 'intr':
                exc = seams.make_exc(arm['exc']) if arm.get('exc') else None
                tracer = LineTracer(k=arm['k'], budget=LINE_BUDGET, exc=exc)
            elif t == 'draw':
                env.extreme = [arm['k'], arm['v']]
            elif t == 'drawfail':
                env.draw_fail = [arm['k'], arm['exc']]
            elif t == 'jump':
                env.jump(arm['s'])
            else:
                raise HarnessError(f'arm {arm}')
        if tracer is None and LINE_BUDGET is not None and not _threaded:
            tracer = LineTracer(budget=LINE_BUDGET)
        before = dict(env.fired)
        prev = sys.gettrace()
        try:
            if tracer is not None:
                sys.settrace(tracer.glob)
            try:
                value = func(*args, **kwargs)
                out = Outcome(True, value)
            finally:
                if tracer is not None:
                    sys.settrace(prev)
        except SimLivelock as e:
            raise Violation('no-progress', str(e))
        except (HarnessError, Violation):
            raise
        except BaseException as e:      # pylint: disable=broad-except
            out = Outcome(False, exc=e)
        out.arm = arm
        if arm:
            if arm['t'] == 'intr':
                out.fired = tracer.fired
                if tracer.fired:
                    env.note('failed_line' if arm.get('exc')
                             else 'interrupt')
                    env.last_fault = tracer.exc
            elif arm['t'] == 'draw':
                out.fired = env.fired.get('rare_draw', 0) > before.get(
                    'rare_draw', 0)
            elif arm['t'] in ('fault', 'drawfail'):
                out.fired = env.last_fault is not None
            elif arm['t'] == 'jump':
                out.fired = True
        env.fault = env.extreme = env.draw_fail = None
        return out


def must(out, what):
    """The operation must have succeeded."""
    if not out.ok:
        if isinstance(out.exc, (SimInterrupt,)):
            raise HarnessError(f'stray interrupt in {what}')
        raise Violation('unexpected-exception:' + type(out.exc).__name__,
                        f'{what} raised {type(out.exc).__name__}: {out.exc}')
    return out.value


def faulty(out):
    """True if this failure is the injected one, and nothing else."""
    if out.ok or not out.fired:
        return False
    arm = out.arm
    if arm['t'] in ('intr', 'fault', 'drawfail'):
        return out.exc is seams.ENV.last_fault
    return False


def gen_arm(rng, kinds=('fault', 'intr', 'draw', 'drawfail'), kmax=6,
            parts=(None,)):
    """A random arm for one operation."""
    t = rng.choice(list(kinds))
    k = min(int(rng.expovariate(1 / 2.0)), kmax)
    if t == 'fault':
        return {'t': 'fault', 'k': k, 'part': rng.choice(list(parts)),
                'exc': rng.choice(sorted(seams.EXC_KINDS))}
    if t == 'intr':
        arm = {'t': 'intr', 'k': rng.randrange(0, 40)}
        if rng.random() < .3:
            # Not an interruption, but no memory left at that line.
            arm['exc'] = rng.choice(['MemoryError', 'MemoryError',
                                     'RecursionError'])
        return arm
    if t == 'draw':
        return {'t': 'draw', 'k': k,
                'v': rng.choice([0.0, 0.0, 1 - 2.0 ** -53, 2.0 ** -53, 0.5])}
    if t == 'drawfail':
        return {'t': 'drawfail', 'k': k,
                'exc': rng.choice(['MemoryError', 'OSError',
                                   'KeyboardInterrupt'])}
    if t == 'jump':
        return {'t': 'jump', 's': rng.choice([-3600, 1, 86400, 10 ** 9])}
    raise HarnessError(t)


# --------------------------------------------------------------------------
# the subject of a run: one built spec, driven by operations
# --------------------------------------------------------------------------

class Subject:
    """Real objects built from a spec, and limits on what they can be asked."""

    def __init__(self, run, spec, lib, override_seed=Ellipsis, ctx=None):
        self.run = run
        self.spec = spec
        self.lib = lib
        self.ctx = ctx or world.Ctx(lib)
        self.kind = spec['k']
        self.obj = must(run.call(world.build, spec, lib, self.ctx,
                                 override_seed), 'construction')
        self.refresh()

    def refresh(self):
        self.cap = world.cap(self.spec)
        self.pool = world.pool(self.spec)
        self.left = self.pool

    def clamp(self, n):
        """The nearest request to `n` this subject must be able to answer."""
        if self.kind in ('field', 'schema'):
            return None if self.left >= 1 else Ellipsis
        if n is None:
            return None if self.left >= 1 else Ellipsis
        m = min(n, self.left)
        if m > 1:
            m = min(m, max(self.cap, 1))
        return m

    def emit(self, n, arm=None, how='call'):
        """One request for data; Ellipsis if nothing may be asked now."""
        n = self.clamp(n)
        if n is Ellipsis:
            return None
        used = 1 if n is None else n
        self.left -= used
        if self.kind in ('field', 'schema'):
            out = self.run.call(self.obj, arm=arm)
        elif how == 'method' and hasattr(self.obj, 'emit'):
            if n is None:
                out = self.run.call(self.obj.emit, arm=arm)
            else:
                out = self.run.call(self.obj.emit_many, n, arm=arm)
        elif n is None:
            out = self.run.call(self.obj, arm=arm)
        else:
            out = self.run.call(self.obj, n, arm=arm)
        return n, out

    def reset(self, arm=None):
        self.left = self.pool
        name = 'reset_fields' if self.kind == 'schema' else 'reset'
        func = getattr(self.obj, name, None)
        if func is None:
            return Outcome(True)
        return self.run.call(func, arm=arm)

    def seed(self, s, arm=None):
        name = 'seed_fields' if self.kind == 'schema' else 'seed'
        func = getattr(self.obj, name, None)
        if func is None:
            return Outcome(True)
        return self.run.call(func, world.sd(s), arm=arm)

    def observe(self):
        """Everything the object says about itself."""
        return observe(self.run, self.obj, self.spec)


OBS_CHOICE = ('num_unique_items', 'num_unique_values', 'emits_unique_values',
              'weights', 'cum_weights', 'replace', 'replace_only_after_call')
OBS_UNIQUE = ('num_unique_values', 'emits_unique_values')
OBS = {'uitems': OBS_UNIQUE, 'chance': OBS_CHOICE, 'choice': OBS_CHOICE, 'poisson': OBS_CHOICE,
       'gauss': OBS_CHOICE, 'static': OBS_UNIQUE + ('value',),
       'seq': OBS_UNIQUE + ('reset_after_call',),
       'iter': OBS_UNIQUE + ('reset_after_call',),
       'word': OBS_UNIQUE, 'text': OBS_UNIQUE, 'wrap1': OBS_UNIQUE,
       'wrapn': OBS_UNIQUE, 'copy': OBS_UNIQUE + ('separator',),
       'based': OBS_UNIQUE,
       'field': ('multi_valued', 'previous', 'hide', 'name')}
OBS_ITEMS = ('uitems', 'chance', 'choice', 'poisson', 'gauss', 'static', 'seq')


def observe(run, obj, spec, deep=True, skip=()):
    """What the public attributes of an object say, as comparable text.

    With `deep`, what those of its parts say, too.
    """
    k = spec['k']
    out = []
    if k == 'schema':
        out.append(f'fields={list(obj.fields)}')
        out.append(f'hidden={list(obj.hidden_fields)}')
        out.append(f'public={list(obj.public_fields)}')
    for name in OBS.get(k, ()):
        if name in skip:
            continue
        got = run.call(getattr, obj, name)
        out.append(f'{name}={must(got, "reading " + name)!r}')
    if k in OBS_ITEMS:
        got = must(run.call(getattr, obj, 'items'), 'reading items')
        out.append(f'items={list(got)!r:.400}')
    text = ';'.join(out)
    if deep:
        for step, c in world.children(spec):
            text += f'|{step}:' + observe(
                run, parts.obj_step(obj, spec, step), c, deep, skip)
    return text


def drain(subject, requests):
    """Outcome keys of a fixed list of requests, all of which must succeed."""
    out = []
    for n in requests:
        got = subject.emit(n)
        if got is None:
            out.append('-')
            continue
        n, res = got
        out.append(norm(must(res, f'request({n})')))
        if subject.spec['k'] == 'schema':
            out.append(norm([(f.name, f.previous)
                             for f in list(subject.obj.fields.values())
                             if f.hide]))
    return out


# --------------------------------------------------------------------------
# real threads, one at a time, at moments a schedule decides
# --------------------------------------------------------------------------

def run_threads(bodies, schedule, max_switches=100000):
    """Runs callables on real threads; the schedule alone decides who runs.

    Each thread runs until it has executed `quantum` lines inside fauxdoc,
    then parks.  `schedule` is a list of (thread, quantum); entries for
    finished threads are skipped, and when it runs out the remaining threads
    run to completion in order.  Returns (results, switches taken).
    """
    global _threaded        # pylint: disable=global-statement
    _threaded = True
    try:
        return _run_threads(bodies, schedule, max_switches)
    finally:
        _threaded = False


def _run_threads(bodies, schedule, max_switches):
    import threading
    n = len(bodies)
    lines = [0] * n
    sems = [threading.Semaphore(0) for _ in range(n)]
    main = threading.Semaphore(0)
    quantum = [0] * n
    done = [False] * n
    results = [None] * n
    errors = [None] * n

    def make(i):
        def local(frame, event, arg):
            if event == 'line':
                quantum[i] -= 1
                lines[i] += 1
                if lines[i] > THREAD_LINES:
                    raise SimLivelock(
                        f'more than {THREAD_LINES} lines run in one thread')
                if quantum[i] <= 0:
                    main.release()
                    sems[i].acquire()
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(seams.LIBDIR):
                return local
            return None

        def body():
            sems[i].acquire()
            try:
                sys.settrace(glob)
                try:
                    results[i] = bodies[i]()
                finally:
                    sys.settrace(None)
            except BaseException as e:      # pylint: disable=broad-except
                errors[i] = e
            finally:
                done[i] = True
                main.release()
        return body

    threads = [threading.Thread(target=make(i), daemon=True)
               for i in range(n)]
    for t in threads:
        t.start()
    taken = []
    queue = list(schedule)
    pos = 0
    while not all(done):
        if pos < len(queue) and len(taken) < max_switches:
            tid, q = queue[pos]
            pos += 1
            tid %= n
            if done[tid]:
                continue
        else:
            tid = done.index(False)
            q = 10 ** 9
        quantum[tid] = max(1, q)
        taken.append((tid, q))
        sems[tid].release()
        if not main.acquire(timeout=60):
            raise HarnessError('simulated thread did not park or finish')
    for t in threads:
        t.join(10)
    for e in errors:
        if e is not None:
            raise e
    return results, taken
