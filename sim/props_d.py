"""C20-C21: reading changes nothing; what is kept stays bounded."""
import builtins
import datetime
import functools
import gc
import sys
import types
from sim import execu, seams, world, parts
from sim.execu import Violation, must, gen_arm, observe
from sim.props_a import (Prop, History, gen_history, gen_root, gen_n,
                         gen_seed_s, with_seed)
from sim.world import G


# ==========================================================================
# C20
# ==========================================================================

# What a reader may do to the value of an attribute.
LOOKS = {
    'len': len, 'repr': repr, 'str': str, 'bool': bool, 'list': list,
    'iter': lambda v: [None for _ in iter(v)], 'dir': dir, 'id': id,
    'keys': lambda v: list(v.keys()), 'items': lambda v: list(v.items()),
    'values': lambda v: list(v.values()), 'in': lambda v: 'nobody' in v,
    'first': lambda v: v[0], 'last': lambda v: v[-1],
    'slice': lambda v: v[:2], 'eq': lambda v: v == 'other',
    'same': lambda v: v == v, 'count': lambda v: v.count('nobody'),
    'copy': lambda v: v.copy(), 'hash': hash,
    'get': lambda v: v.get('nobody'), 'rev': lambda v: list(reversed(v)),
}
# What the simulator's own parts have that is not for looking at.
OWN = {'hits'}


def public_names(obj):
    """The attributes anyone can see."""
    return sorted(n for n in dir(obj) if not n.startswith('_')
                  and n not in OWN)


def is_iterator(v):
    return hasattr(v, '__next__')


class C20(Prop):
    """Looking at things changes nothing.

    Two identical worlds go through the same history; in one of them somebody
    keeps reading what the objects say about themselves.
    """

    id = 'C20'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng)
        spec = gen_root(g, rng, schema=.35, field=.2)
        if rng.random() < .7:
            spec = with_seed(spec, gen_seed_s(rng))
        hist, _ = gen_history(g, rng, spec, rng.randint(2, 10),
                              arms=rng.choice([0, 0, .2]),
                              cfg=rng.choice([0, .15, .3]))
        ops = []
        for op in hist:
            while rng.random() < .5:
                ops.append(self.gen_look(rng))
            ops.append(op)
        ops.append(self.gen_look(rng))
        return {'spec': spec, 'ops': ops, 'const': rng.randrange(1, 99999),
                'reqs': [gen_n(rng) for _ in range(rng.randint(2, 4))]}

    @staticmethod
    def gen_look(rng):
        return {'o': 'look', 'i': rng.randrange(12),
                'all': rng.random() < .4, 'x': rng.randrange(1000),
                'how': rng.sample(sorted(LOOKS), rng.randint(1, 4)),
                'times': rng.choice([1, 1, 2, 3])}

    def execute(self, run, plan):
        lib = seams.boot()
        a = History(run, plan['spec'], lib)      # is looked at
        b = History(run, plan['spec'], lib)      # is not
        for op in plan['ops']:
            if op['o'] == 'look':
                self.look(run, a, op)
                continue
            if op['o'] == 'observe':
                continue
            fired = seams.ENV.fired.get('interrupt', 0)
            x, y = a.apply(op), b.apply(op)
            cut = seams.ENV.fired.get('interrupt', 0) - fired
            if cut:
                # Wherever that was, have both start again from there.
                must(a.sub.reset(), 'reset')
                must(b.sub.reset(), 'reset')
                continue
            self.same(x and x.key(), y and y.key(), op)
        self.look(run, a, self.everything(plan))
        got = execu.drain(a.sub, plan['reqs'])
        want = execu.drain(b.sub, plan['reqs'])
        self.same(got, want, 'the last requests')
        one, two = a.sub.observe(), b.sub.observe()
        if one != two:
            raise Violation('reading-shows', f'looked at, it reports '
                            f'{one[:300]}; not looked at {two[:300]}')
        must(a.sub.reset(), 'reset')
        must(b.sub.reset(), 'reset')
        self.same(execu.drain(a.sub, plan['reqs']),
                  execu.drain(b.sub, plan['reqs']),
                  'requests after a reset')
        run.record('end', got)

    @staticmethod
    def everything(plan):
        return {'o': 'look', 'i': 0, 'all': True, 'x': plan['const'],
                'how': ['repr', 'list', 'len', 'same'], 'times': 2,
                'deep': True}

    @staticmethod
    def same(x, y, what):
        if x != y:
            raise Violation('reading-acts', f'{what}: looked at, it gave '
                            f'{str(x)[:250]}; not looked at '
                            f'{str(y)[:250]}')

    def look(self, run, h, op):
        pool = list(parts.paths(h.spec))
        if not op.get('deep'):
            pool = [pool[op['i'] % len(pool)]]
        for path, spec in pool:
            obj = h.part(path)
            names = public_names(obj)
            if names and not op['all']:
                names = [names[(op['x'] + j * 7) % len(names)]
                         for j in range(2)]
            said = [self.read(run, obj, names, op['how'])
                    for _ in range(op['times'])]
            if any(s != said[0] for s in said):
                raise Violation('reading-acts', f'read {op["times"]} times, '
                                f'a {spec["k"]} said {said!r:.500}')
            told = observe(run, obj, spec)
            if told != observe(run, obj, spec):
                raise Violation('reading-acts', 'read twice, it did not say '
                                f'the same: {told[:400]}')
            run.record('look', spec['k'], told[:100])
            run.state('C20', spec['k'], tuple(names)[:3], tuple(op['how']),
                      told[:60])

    @staticmethod
    def read(run, obj, names, hows):
        """Reads attributes, and what they hold; what it says, as text."""
        said = []
        for how in ('repr', 'str', 'dir', 'bool', 'len', 'hash'):
            if how in hows:
                run.call(LOOKS[how], obj)
        for name in names:
            out = run.call(getattr, obj, name)
            run.count('reads')
            if not out.ok:
                said.append((name, type(out.exc).__name__))
                continue
            v = out.value
            if is_iterator(v) or isinstance(v, (
                    types.FunctionType, types.MethodType, type)) or \
                    isinstance(v, seams.RealRandom):
                continue
            if isinstance(v, (str, int, float, bool, type(None))):
                said.append((name, repr(v)))
            for how in hows:
                run.call(LOOKS[how], v)
        return said


# ==========================================================================
# C21
# ==========================================================================

SKIP = (types.ModuleType, type, types.CodeType, types.FrameType,
        types.BuiltinFunctionType, types.WrapperDescriptorType,
        types.MethodDescriptorType, types.GetSetDescriptorType,
        types.MemberDescriptorType)


def inside(obj):
    """What an object itself keeps."""
    if isinstance(obj, SKIP):
        return []
    if isinstance(obj, types.FunctionType):
        return [obj.__closure__, obj.__defaults__, obj.__kwdefaults__,
                obj.__dict__]
    if isinstance(obj, (classmethod, staticmethod)):
        return [obj.__func__]
    if isinstance(obj, property):
        return [obj.fget, obj.fset, obj.fdel]
    return gc.get_referents(obj)


def footprint(roots):
    """How much is kept, reachable from these: references and text."""
    seen = set()
    todo = list(roots)
    size = 0
    while todo:
        obj = todo.pop()
        if id(obj) in seen:
            continue
        seen.add(id(obj))
        if isinstance(obj, (str, bytes, bytearray)):
            size += len(obj) // 16
            continue
        if isinstance(obj, (int, float, bool, type(None))):
            continue
        more = inside(obj)
        size += len(more)
        todo.extend(more)
    return size


def library_roots():
    """What the library's modules and classes keep."""
    roots = []
    for name, mod in list(sys.modules.items()):
        if name != 'fauxdoc' and not name.startswith('fauxdoc.'):
            continue
        for v in list(vars(mod).values()):
            if isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type):
                if getattr(v, '__module__', '').startswith('fauxdoc'):
                    roots.extend(x for k, x in vars(v).items()
                                 if k not in ('_abc_impl', '__subclasses__'))
                continue
            if v is vars(builtins):
                continue
            roots.append(v)
    return roots


class C21(Prop):
    """What is kept does not grow with what has been given."""

    id = 'C21'
    quick_runs = 6000
    thorough_runs = 100000
    shrink_lists = ('ops',)

    def gen(self, rng, run):
        g = G.swarm(rng)
        for _ in range(50):
            spec = gen_root(g, rng, schema=.3, field=.25)
            if not any(s.get('deep') for s in world.walk(spec)):
                break           # those keep a list of seeds themselves
        else:
            spec = {'k': 'static', 'v': 1}
        if rng.random() < .7:
            spec = with_seed(spec, gen_seed_s(rng))
        ops = []
        for _ in range(rng.randint(1, 5)):
            p = rng.random()
            if p < .5:
                op = {'o': 'call', 'n': gen_n(rng, rng.choice([3, 13]))}
                if rng.random() < .15:
                    op['arm'] = gen_arm(rng, ('fault', 'intr', 'drawfail'))
            elif p < .57:
                op = {'o': 'reset'}
            elif p < .65:
                op = {'o': 'seed', 's': gen_seed_s(rng),
                      'vary': rng.random() < .5}
            elif p < .72:
                op = {'o': 'build', 'vary': rng.random() < .5}
            elif p < .79:
                op = {'o': 'observe'}
            elif p < .84:
                op = {'o': 'range', 'x': rng.randrange(24)}
            elif p < .92:
                op = {'o': 'refused', 'i': rng.randrange(12)}
            else:
                op = {'o': 'again', 'i': rng.randrange(12),
                      'x': rng.randrange(12)}
            ops.append(op)
        return {'spec': spec, 'ops': ops, 'entropy': run}

    def execute(self, run, plan):
        lib = seams.boot()
        h = History(run, plan['spec'], lib)
        early = [self.cycle(run, h, plan) for _ in range(12)][4:]
        self.spin(run, h, plan, 60)
        late = [self.cycle(run, h, plan) for _ in range(5)]
        low, high = max(early), min(late)
        run.record('kept', max(early), min(late))
        run.state('C21', plan['spec']['k'], tuple(
            op['o'] for op in plan['ops']), max(late) // 50)
        run.count('cycles', 77)
        if high <= low + 50:
            return
        # It has grown.  Does it go on growing?
        self.spin(run, h, plan, 600)
        later = min(self.cycle(run, h, plan) for _ in range(5))
        if later <= high + 500:
            return
        # Or is that something of limited size, filling up?
        self.spin(run, h, plan, 600)
        last = min(self.cycle(run, h, plan) for _ in range(5))
        if last > later + 500:
            raise Violation('keeps-growing', f'after 12, 77, 682 and 1287 '
                            f'rounds of the same requests {low}, {high}, '
                            f'{later} and {last} references are kept')

    def spin(self, run, h, plan, n):
        for _ in range(n):
            self.once(run, h, plan)

    def cycle(self, run, h, plan):
        self.once(run, h, plan)
        return footprint([h.sub.obj, getattr(h, 'dates', None)] +
                         library_roots())

    def once(self, run, h, plan):
        for op in plan['ops']:
            o = op['o']
            h.rounds = getattr(h, 'rounds', 0) + 1
            if o == 'build':
                spec = h.spec
                if op.get('vary') and 'seed' in spec:
                    spec = dict(spec, seed=h.rounds)
                must(run.call(world.build, spec, h.lib), 'construction')
            elif o == 'seed' and op.get('vary'):
                h.apply(dict(op, s=h.rounds))
            elif o == 'refused':
                self.refused(run, h, op)
            elif o == 'range':
                self.range(run, h, op)
            elif o == 'again':
                self.again(run, h, op)
            else:
                h.apply(op)
        if h.sub.pool < world.INF:
            must(h.sub.reset(), 'reset')

    @staticmethod
    def range(run, h, op):
        """Reads a long range in a place where it was not read before."""
        if not hasattr(h, 'dates'):
            h.dates = h.lib.dtrange.dtrange(
                datetime.datetime(2000, 1, 1), datetime.datetime(2040, 1, 1))
        at, x = h.rounds % 9999999 * 3, op['x']
        for i in range(at, at + 2):
            v = must(run.call(h.dates.__getitem__, i), '[i]')
            if x % 2:
                must(run.call(h.dates.index, v), 'index')
            if x % 3:
                must(run.call(h.dates.count, v), 'count')
            if x % 4:
                must(run.call(lambda v: v in h.dates, v), 'in')
        if x > 11:
            part = must(run.call(h.dates.__getitem__, slice(at, at + x)),
                        'slice')
            must(run.call(repr, part), 'repr')
            must(run.call(hash, part), 'hash')

    @staticmethod
    def refused(run, h, op):
        """A request that is too large, where there is such a thing."""
        pool = [(p, s) for p, s in parts.paths(h.spec)
                if world.is_choice(s) and world.pool(s) < world.INF]
        if pool:
            path, spec = pool[op['i'] % len(pool)]
            run.call(h.part(path), world.nitems(spec) + 1)

    @staticmethod
    def again(run, h, op):
        """Sets something to what it is."""
        pool = list(parts.paths(h.spec))
        path, spec = pool[op['i'] % len(pool)]
        obj, k, x = h.part(path), spec['k'], op['x']
        if world.is_choice(spec):
            if spec.get('w'):
                must(run.call(setattr, obj, 'weights', obj.weights),
                     'weights')
            elif world.pool(spec) == world.INF:
                roac = obj.replace_only_after_call
                must(run.call(setattr, obj, 'replace', False), 'replace')
                must(run.call(setattr, obj, 'replace', True), 'replace')
                must(run.call(setattr, obj, 'replace_only_after_call', roac),
                     'replace_only_after_call')
        elif k in ('iter', 'seq'):
            if k == 'iter' or spec['items']['t'] in ('list', 'tuple'):
                must(run.call(setattr, obj, 'iterator_factory',
                              obj.iterator_factory), 'iterator_factory')
        elif k in ('wrap1', 'wrapn'):
            must(h.sub.reset(), 'reset')
            if x % 3 == 2:
                # A function that was not there before.
                must(run.call(obj.set_wrapper_function, functools.partial(
                    obj.wrapper.function)), 'wrapper')
            elif x % 2:
                must(run.call(setattr, obj, 'wrapper', h.lib.wrappers
                              .BoundWrapper(obj.wrapper, obj)), 'wrapper')
            else:
                must(run.call(obj.set_wrapper_function, obj.wrapper),
                     'wrapper')
            must(h.sub.reset(), 'reset')
        elif k == 'copy':
            must(run.call(obj.set_source_fields, list(obj.source)),
                 'set_source_fields')
        elif k == 'schema':
            fields = list(obj.fields.values())
            must(run.call(obj.set_fields if x % 2 else obj.add_fields,
                          *fields), 'fields')
        elif k == 'field' and spec['em']['k'] == 'based':
            em = obj.emitter
            fn = em.action.function
            if x % 2:
                fn = functools.partial(fn)
            must(run.call(em.set_action_function, fn),
                 'action')


PROPS_D = [C20, C21]
