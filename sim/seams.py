"""The seams: every source of nondeterminism fauxdoc could reach, simulated.

fauxdoc itself is synchronous, in-memory Python.  What is outside its own
control is: random number generators and the entropy behind them, the clock,
the parts its users hand it (callables, iterators, custom emitters), being
interrupted, and who else is running in the same process.  This module owns
the first two and the loading of fauxdoc itself, so that "a fresh process" is
one more thing a run can do.
"""
import contextlib
import importlib.abc
import importlib.machinery
import os
import random
import sys
import time
import warnings

REPO_SRC = os.environ.get('FAUXDOC_SRC', '/repo/src')
LIBDIR = os.path.join(REPO_SRC, 'fauxdoc')

RealRandom = random.Random
_real = {
    'time': {n: getattr(time, n) for n in
             ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter',
              'perf_counter_ns', 'process_time', 'process_time_ns', 'sleep')},
    'urandom': os.urandom,
    'random_urandom': random._urandom,
}
real_perf = time.perf_counter


class SimLivelock(BaseException):
    """A seam was used more often than any terminating call could need."""


class SimInterrupt(BaseException):
    """An asynchronous interruption (Ctrl-C, cancellation, timeout)."""


class HarnessError(Exception):
    """The simulator itself went wrong; never reported as a violation."""


class Env:
    """State of the simulated outside world for one run."""

    def __init__(self, entropy_seed=0, const_entropy=None, draw_budget=400000,
                 hit_budget=200000):
        self.entropy = RealRandom(f'entropy:{entropy_seed}')
        self.entropy_seed = entropy_seed
        self.const_entropy = const_entropy
        self.now = 1_600_000_000.0
        self.draws = 0
        self.draw_budget = draw_budget
        self.draws_left = draw_budget
        self.hit_budget = hit_budget
        self.hits_left = hit_budget
        self.extreme = None       # [countdown, value]: next rare draw
        self.draw_fail = None     # [countdown, exc]
        self.fault = None         # [countdown, exc]: next user part to fail
        self.fired = {}           # fault kind -> times it really happened
        self.hits = {}            # user part kind -> number of calls
        self.last_fault = None
        self.depth = 0
        self.opt = -1             # as with python -O (1) or -OO (2)

    def note(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # -- entropy
    def fresh_entropy(self):
        self.note('entropy_reads')
        if self.const_entropy is not None:
            return self.const_entropy
        return self.entropy.getrandbits(256)

    def urandom(self, n):
        if self.const_entropy is not None:
            return bytes((self.const_entropy * 7 + i) % 256 for i in range(n))
        return bytes(self.entropy.getrandbits(8) for _ in range(n))

    # -- clock
    def clock(self):
        self.now += 1e-6
        return self.now

    def jump(self, secs):
        self.now += secs
        self.note('clock_jump')

    # -- budgets: called at the start of each operation
    def begin_op(self):
        self.draws_left = self.draw_budget
        self.hits_left = self.hit_budget

    def on_draw(self):
        self.draws += 1
        self.draws_left -= 1
        if self.draws_left < 0:
            raise SimLivelock('random draws without end')
        if self.draw_fail is not None:
            self.draw_fail[0] -= 1
            if self.draw_fail[0] < 0:
                exc = make_exc(self.draw_fail[1])
                self.draw_fail = None
                self.last_fault = exc
                self.note('draw_failure')
                raise exc

    def hit(self, kind):
        """Called by every user-supplied part each time it runs."""
        self.hits[kind] = self.hits.get(kind, 0) + 1
        self.hits_left -= 1
        if self.hits_left < 0:
            raise SimLivelock(f'user part {kind} called without end')
        f = self.fault
        if f is not None and (f[2] is None or f[2] == kind):
            f[0] -= 1
            if f[0] < 0:
                self.fault = None
                name = f[1]
                if kind in ('iterator', 'factory') and \
                        name == 'GeneratorExit':
                    name = 'CustomError'    # there it only means "the end"
                exc = make_exc(name)
                self.last_fault = exc
                self.note('part_failure:' + kind)
                raise exc


# (No StopIteration: what a loop makes of it depends on how it is written,
# as a comprehension, a `map` or a generator.)
class CustomError(Exception):
    """What a user's own code might raise."""


class CustomBase(BaseException):
    """What a user's own code might raise to stop everything."""


EXC_KINDS = {
    'ValueError': ValueError, 'TypeError': TypeError, 'KeyError': KeyError,
    'IndexError': IndexError, 'AttributeError': AttributeError,
    'RuntimeError': RuntimeError, 'MemoryError': MemoryError,
    'OSError': OSError, 'LookupError': LookupError,
    'ZeroDivisionError': ZeroDivisionError, 'CustomError': CustomError,
    'CustomBase': CustomBase, 'RecursionError': RecursionError,
    'OverflowError': OverflowError,
    'KeyboardInterrupt': KeyboardInterrupt,
    'NotImplementedError': NotImplementedError, 'TimeoutError': TimeoutError,
    'SystemExit': SystemExit,
    'GeneratorExit': GeneratorExit, 'StopAsyncIteration': StopAsyncIteration,
    'AssertionError': AssertionError, 'UnicodeError': UnicodeError,
    'EOFError': EOFError, 'FloatingPointError': FloatingPointError,
}


def make_exc(kind):
    return EXC_KINDS[kind]('injected by the simulator')


ENV = Env()


def set_env(env):
    global ENV
    ENV = env
    return env


class SimRandom(RealRandom):
    """random.Random, with its entropy and rarest outcomes simulated.

    Given a seed it produces exactly what random.Random produces.  Without one
    it reads the run's simulated entropy.  Rare outcomes that real deployments
    meet once in 2**53 draws can be made to happen now.
    """

    def seed(self, a=None, version=2):
        if a is None:
            a = ENV.fresh_entropy()
        super().seed(a, version)

    def random(self):
        env = ENV
        env.on_draw()
        value = super().random()
        if env.extreme is not None:
            env.extreme[0] -= 1
            if env.extreme[0] < 0:
                value = env.extreme[1]
                env.extreme = None
                env.note('rare_draw')
        return value

    def getrandbits(self, k):
        ENV.on_draw()
        return super().getrandbits(k)


class Addresses:
    """Where objects lie in memory, as far as one booted copy can tell.

    The real `id` differs from one process to the next.  This one hands out
    numbers drawn from the run's seed, so that their order is another one in
    each boot; it is as unique as the real one is among objects that live,
    and a number is handed out again as soon as its object is dead.
    """

    def __init__(self, env):
        nboot = env.fired.get('boots', 0)
        self.rng = RealRandom(f'address:{env.entropy_seed}:{nboot}')
        self.env = env
        self.known = {}
        self.free = []

    def number(self, obj, /):
        key = id(obj)
        found = self.known.get(key)
        if found is not None:
            return found[0]
        if not self.known:
            self.env.note('addresses_told')
        for k in list(self.known)[:64]:
            # Nobody else: the table, and the call that asks.
            if sys.getrefcount(self.known[k][1]) == 2:
                self.free.append(self.known.pop(k)[0])
        if self.free and self.rng.random() < 0.75:
            number = self.free.pop()
            self.env.note('address_reused')
        else:
            number = self.rng.getrandbits(44) << 4
        self.known[key] = (number, obj)
        return number


IDS = Addresses(ENV)


class _CodeCache(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads fauxdoc from /repo's working tree, compiling each file once."""

    def __init__(self):
        self.codes = {}

    def _path(self, fullname):
        parts = fullname.split('.')
        base = os.path.join(REPO_SRC, *parts)
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            return init, True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'fauxdoc' and not fullname.startswith('fauxdoc.'):
            return None
        fpath, is_pkg = self._path(fullname)
        if fpath is None:
            return None
        spec = importlib.machinery.ModuleSpec(
            fullname, self, origin=fpath, is_package=is_pkg)
        spec.has_location = True
        if is_pkg:
            spec.submodule_search_locations = [os.path.dirname(fpath)]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fpath = module.__spec__.origin
        key = fpath, ENV.opt
        code = self.codes.get(key)
        if code is None:
            with open(fpath, 'rb') as f:
                src = f.read()
            code = compile(src, fpath, 'exec', dont_inherit=True,
                           optimize=ENV.opt)
            self.codes[key] = code
        module.__dict__['id'] = IDS.number
        exec(code, module.__dict__)


CODE_CACHE = _CodeCache()


class Lib:
    """The names of one fresh copy of fauxdoc."""

    def __init__(self, pkg):
        from importlib import import_module
        self.pkg = pkg
        self.choice = import_module('fauxdoc.emitters.choice')
        self.fixed = import_module('fauxdoc.emitters.fixed')
        self.fromfields = import_module('fauxdoc.emitters.fromfields')
        self.text = import_module('fauxdoc.emitters.text')
        self.wrappers = import_module('fauxdoc.emitters.wrappers')
        self.emitter = import_module('fauxdoc.emitter')
        self.mixins = import_module('fauxdoc.mixins')
        self.group = import_module('fauxdoc.group')
        self.profile = import_module('fauxdoc.profile')
        self.mathtools = import_module('fauxdoc.mathtools')
        self.dtrange = import_module('fauxdoc.dtrange')
        self.user = {}


_version_cache = {}


def _install_metadata_cache():
    from importlib import metadata
    if getattr(metadata, '_sim_wrapped', False):
        return
    real_version = metadata.version

    def version(name):
        if name not in _version_cache:
            try:
                _version_cache[name] = real_version(name)
            except Exception:           # pylint: disable=broad-except
                _version_cache[name] = '0'
        return _version_cache[name]
    metadata.version = version
    metadata._sim_wrapped = True


class LibImportError(Exception):
    """fauxdoc itself could not be imported."""


def boot():
    """A fresh process as far as fauxdoc can tell: imports it anew."""
    for name in [n for n in sys.modules
                 if n == 'fauxdoc' or n.startswith('fauxdoc.')]:
        del sys.modules[name]
    global IDS
    import importlib
    IDS = Addresses(ENV)
    ENV.note('boots')
    if ENV.opt > 0:
        ENV.note('boots_optimized')
    return Lib(importlib.import_module('fauxdoc'))


@contextlib.contextmanager
def simulated_world():
    """Puts the seams in place, and takes them out again."""
    _install_metadata_cache()
    import unittest.mock    # noqa: F401  (so that boot() does not import it)
    import datetime         # noqa: F401
    sys.meta_path.insert(0, CODE_CACHE)
    random.Random = SimRandom
    os.urandom = lambda n: ENV.urandom(n)
    random._urandom = os.urandom
    clock = {
        'time': lambda: ENV.clock(),
        'monotonic': lambda: ENV.clock(),
        'perf_counter': lambda: ENV.clock(),
        'process_time': lambda: ENV.clock(),
        'time_ns': lambda: int(ENV.clock() * 1e9),
        'monotonic_ns': lambda: int(ENV.clock() * 1e9),
        'perf_counter_ns': lambda: int(ENV.clock() * 1e9),
        'process_time_ns': lambda: int(ENV.clock() * 1e9),
        'sleep': lambda s: ENV.jump(s),
    }
    for name, func in clock.items():
        setattr(time, name, func)
    saved_filters = warnings.filters[:]
    warnings.simplefilter('ignore')
    try:
        yield
    finally:
        warnings.filters[:] = saved_filters
        for name, func in _real['time'].items():
            setattr(time, name, func)
        os.urandom = _real['urandom']
        random._urandom = _real['random_urandom']
        random.Random = RealRandom
        sys.meta_path.remove(CODE_CACHE)
