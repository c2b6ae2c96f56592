"""What a run is made of: emitters, fields and schemas described as data.

A *spec* is a JSON value describing one emitter, field or schema.  Plans hold
specs, never objects, so that a plan is its own replay file.  `build` turns a
spec into real fauxdoc objects, `gen_*` make random specs, and `permits` says
whether a spec could ever emit a given value.
"""
import collections
import datetime
import itertools
import re
import types
from collections import UserList
from sim import seams

INF = 10 ** 9


class MySeq(UserList):
    """A user's own Sequence type."""


class HitSeq(MySeq):
    """A user's own Sequence type, whose iterators can fail."""

    def __iter__(self):
        for v in self.data:
            seams.ENV.hit('iterator')
            yield v


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------

def items_of(d, lib=None):
    """The actual sequence for an items description."""
    t, v = d['t'], d['v']
    if t == 'list':
        return list(v)
    if t == 'tuple':
        return tuple(v)
    if t == 'str':
        return v
    if t == 'range':
        return range(*v)
    if t == 'useq':
        return MySeq(v)
    if t == 'hseq':
        return HitSeq(v)
    if t == 'dtr':
        if lib is None:
            start = datetime.date.fromisoformat(v[0])
            return [start + datetime.timedelta(days=i) for i in range(v[1])]
        start = datetime.date.fromisoformat(v[0])
        return lib.dtrange.DateOrTimeRange(start, v[1],
                                           datetime.timedelta(days=1))
    raise seams.HarnessError(f'items {d}')


def norm(v):
    """A value's identity for comparison: type-strict, address-free."""
    return repr(v)


# --------------------------------------------------------------------------
# user-supplied parts
# --------------------------------------------------------------------------

def fn_tag(v):
    seams.ENV.hit('wrapper')
    return ('t', v)


def fn_tagrng(v, rng):
    seams.ENV.hit('wrapper')
    return ('r', v, rng.randrange(1000))


def fn_tagrng2(rng, v=None):
    raise seams.HarnessError('never used')


def fn_fstr(v):
    seams.ENV.hit('wrapper')
    return f'<{v}>'


def fn_ident(v):
    seams.ENV.hit('wrapper')
    return v


def fn_pick(v, *, rng):
    seams.ENV.hit('wrapper')
    return ('p', v, rng.choice('xyz'), rng.getrandbits(32))


def fn_dict(v):
    seams.ENV.hit('wrapper')
    return {'v': v, 'n': 1}


def fn_bytes(v):
    seams.ENV.hit('wrapper')
    return repr(v).encode()


def fn_fset(v):
    seams.ENV.hit('wrapper')
    return frozenset([repr(v)])


class UVal:
    """A user's value, with a truth and a text of its own."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'UVal({self.v!r})'

    def __bool__(self):
        seams.ENV.hit('value')
        return bool(self.v)

    def __str__(self):
        seams.ENV.hit('value')
        return f'U{self.v!r}'


def fn_uval(v):
    seams.ENV.hit('wrapper')
    return UVal(v)


def fn_kw(**kw):
    seams.ENV.hit('wrapper')
    return tuple(sorted(kw.items()))


def fn_kwrng(rng, **kw):
    seams.ENV.hit('wrapper')
    return tuple(sorted(kw.items())) + (('rng', rng.getrandbits(24)),)


def fn_kwraw(**kw):
    seams.ENV.hit('wrapper')
    return tuple(kw.items())


class FnObj:
    """A callable object used as a wrapper."""

    def __call__(self, v):
        seams.ENV.hit('wrapper')
        return ('o', v)


FN1 = {'tag': fn_tag, 'tagrng': fn_tagrng, 'fstr': fn_fstr, 'ident': fn_ident,
       'pick': fn_pick, 'str': str, 'obj': FnObj(), 'repr': repr,
       'dict': fn_dict, 'bytes': fn_bytes, 'fset': fn_fset,
       'uval': fn_uval}
FNN = {'kw': fn_kw, 'kwrng': fn_kwrng, 'kwraw': fn_kwraw}
FN_BAD1 = {
    'noargs': lambda: None,
    'two': lambda a, b: None,
    'kwonly': lambda *, x: None,
}
FN_BADN = {
    'noargs': lambda: None,
    'wrong': lambda nobody: None,
    'extra': lambda nobody, **kw: None,
}


class NoSignature:
    """A function that cannot say how it is called, as builtins cannot."""

    def __init__(self, exc):
        self.exc = exc

    @property
    def __signature__(self):
        raise ValueError('no signature found')

    def __call__(self, *args, **kwargs):
        raise self.exc('not for such values')


FN_NOSIG = {'nosig': NoSignature(ValueError),
            'nosigtype': NoSignature(TypeError)}


def user_parts(lib):
    """The user's own emitter classes, defined against one copy of fauxdoc."""
    if lib.user:
        return lib.user
    env = seams

    class URand(lib.mixins.RandomMixin, lib.emitter.Emitter):
        """A user's random emitter built from the documented mixin."""

        def __init__(self, bits=32, **kwargs):
            self.bits = bits
            super().__init__(**kwargs)

        def emit(self):
            env.ENV.hit('emit')
            return f'u{self.rng.getrandbits(self.bits)}'

        def emit_many(self, number):
            env.ENV.hit('emit')
            return [f'u{self.rng.getrandbits(self.bits)}'
                    for _ in range(number)]

    class UCount(lib.emitter.Emitter):
        """A user's stateful, non-random emitter."""

        def __init__(self, prefix='c', start=0):
            self.prefix = prefix
            self.start = start
            self.pos = start
            self.resets = 0
            self.asked = 0

        def reset(self):
            env.ENV.hit('reset')
            self.resets += 1
            self.pos = self.start

        def emit(self):
            env.ENV.hit('emit')
            self.asked += 1
            self.pos += 1
            return f'{self.prefix}{self.pos - 1}'

        def emit_many(self, number):
            env.ENV.hit('emit')
            self.asked += number
            self.pos += number
            return [f'{self.prefix}{i}'
                    for i in range(self.pos - number, self.pos)]

    class UParent(lib.mixins.RandomWithChildrenMixin, lib.emitter.Emitter):
        """A user's emitter with children, from the documented mixin."""

        def __init__(self, children, **kwargs):
            super().__init__(children=children, **kwargs)

        def emit(self):
            env.ENV.hit('emit')
            vals = [em() for em in self.emitters.values()]
            return ('up', self.rng.getrandbits(16)) + tuple(vals)

        def emit_many(self, number):
            env.ENV.hit('emit')
            return [self.emit() for _ in range(number)]

    class UBase(lib.emitter.Emitter):
        """A user's base class, with its own state to reset and seed."""

        def __init__(self):
            self.n = 0
            self.seeds = []

        def reset(self):
            env.ENV.hit('reset')
            self.n = 0

        def seed(self, rng_seed):
            env.ENV.hit('seed')
            self.seeds.append(rng_seed)

    class UDeep(lib.mixins.RandomWithChildrenMixin, UBase):
        """A user's emitter with children and a base class of its own."""

        def emit(self):
            env.ENV.hit('emit')
            self.n += 1
            vals = [em() for em in self.emitters.values()]
            return ('ud', self.rng.getrandbits(16), self.n) + tuple(vals)

        def emit_many(self, number):
            env.ENV.hit('emit')
            return [self.emit() for _ in range(number)]

    class UItems(lib.mixins.ItemsMixin, lib.mixins.RandomMixin,
                 lib.emitter.Emitter):
        """A user's emitter of random items, from the documented mixins."""

        def emit(self):
            env.ENV.hit('emit')
            return self.rng.choice(self.items)

        def emit_many(self, number):
            env.ENV.hit('emit')
            return [self.rng.choice(self.items) for _ in range(number)]

    class UItems2(lib.mixins.RandomMixin, lib.mixins.ItemsMixin,
                  lib.emitter.Emitter):
        """The same with its bases in another order."""

        emit = UItems.emit
        emit_many = UItems.emit_many

    class UItems0(UItems):
        """One that is a collection, and an empty one at that."""

        def __len__(self):
            return 0

    class USeedy:
        """Emitter-like by protocol only; seeds and resets itself."""

        num_unique_values = None
        emits_unique_values = False

        def __init__(self, rng_seed=None):
            self._seed = rng_seed
            self.reset()

        @property
        def rng_seed(self):
            return self._seed

        @rng_seed.setter
        def rng_seed(self, rng_seed):
            env.ENV.hit('setseed')
            self._seed = rng_seed

        def reset(self):
            env.ENV.hit('reset')
            import random
            self.rng = random.Random(self.rng_seed)

        def seed(self, rng_seed):
            env.ENV.hit('seed')
            self.rng.seed(rng_seed)
            self._seed = rng_seed

        def __call__(self, number=None):
            env.ENV.hit('emit')
            if number is None:
                return f's{self.rng.getrandbits(32)}'
            return [f's{self.rng.getrandbits(32)}' for _ in range(number)]

    class USeedy2:
        """The same; the seed is an attribute of the class at first, and
        the generator is its own business."""

        num_unique_values = None
        emits_unique_values = False
        rng_seed = None

        def __init__(self, rng_seed=None):
            if rng_seed is not None:
                self.rng_seed = rng_seed
            self.reset()

        def reset(self):
            env.ENV.hit('reset')
            import random
            self._gen = random.Random(self.rng_seed)

        def seed(self, rng_seed):
            env.ENV.hit('seed')
            self._gen.seed(rng_seed)
            self.rng_seed = rng_seed

        def __call__(self, number=None):
            env.ENV.hit('emit')
            if number is None:
                return f's{self._gen.getrandbits(32)}'
            return [f's{self._gen.getrandbits(32)}' for _ in range(number)]

    class USeedy3(USeedy2):
        """The same, but the seed is kept where `vars` does not show it."""

        __slots__ = ('rng_seed', '_gen')

        def __init__(self, rng_seed=None):
            self.rng_seed = rng_seed
            self.reset()

    class UField:
        """Field-like by protocol only; cannot be reset or seeded."""

        def __init__(self, name, prefix, rep=None, hide=False):
            self.name = name
            self.hide = hide
            self.prefix = prefix
            self.rep = rep
            self.multi_valued = rep is not None
            self.previous = None
            self.pos = 0
            self.emitter = self

        def __call__(self):
            env.ENV.hit('emit')
            n = 1 if self.rep is None else self.rep
            vals = [f'{self.prefix}{i}'
                    for i in range(self.pos, self.pos + n)]
            self.pos += n
            self.previous = vals if self.multi_valued else vals[0]
            return self.previous

    class UField2(UField):
        """The same, but it can."""

        def reset(self):
            env.ENV.hit('reset')
            self.pos = 0
            self.previous = None

        def seed(self, rng_seed):
            env.ENV.hit('seed')

    def make_func(value):
        def ufunc(number=None):
            env.ENV.hit('emit')
            return value if number is None else [value] * number
        return ufunc

    lib.user.update(UDeep=UDeep, UItems=UItems, UItems2=UItems2,
                    UItems0=UItems0, UField=UField, UField2=UField2,
                    URand=URand, UCount=UCount,
                    USeedy=USeedy, USeedy2=USeedy2, USeedy3=USeedy3,
                    UParent=UParent, make_func=make_func)
    return lib.user


class ObjIter:
    """A user's iterator that survives its own failures."""

    def __init__(self, items):
        self.items = items
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.items):
            raise StopIteration
        seams.ENV.hit('iterator')
        self.i += 1
        return self.items[self.i - 1]


def _gen(items):
    for item in items:
        seams.ENV.hit('iterator')
        yield item


def make_factory(spec, lib):
    """An iterator factory for an 'iter' spec."""
    fac = spec['fac']
    if fac == 'count':
        start = spec['start']

        def factory():
            seams.ENV.hit('factory')
            return itertools.count(start)
        return factory
    items = items_of(spec['items'], lib)

    def factory():
        seams.ENV.hit('factory')
        if fac == 'gen':
            return _gen(items)
        if fac == 'obj':
            return ObjIter(items)
        return iter(items)
    return factory


# --------------------------------------------------------------------------
# building
# --------------------------------------------------------------------------

class Ctx:
    """Objects built so far: shared emitters and fields, by name."""

    def __init__(self, lib):
        self.lib = lib
        self.shared = {}
        self.fields = {}
        self.given = []         # (what, the user's own object, its repr then)
        self.tap = None         # called with each part of a word or text
        self.prefix = ''

    def part(self, label, spec):
        """Builds one part of a word or text, under a tap if one is set."""
        if self.tap is None:
            return build(spec, self.lib, self)
        outer, self.prefix = self.prefix, f'{self.prefix}{label}.'
        try:
            obj = build(spec, self.lib, self)
        finally:
            self.prefix = outer
        return self.tap(outer + label, obj)

    def give(self, what, obj):
        """Remembers a container the user handed over."""
        self.given.append((what, obj, repr(obj)))
        return obj


MAPS = [None, None, 'omap', 'odict', 'mproxy']
LISTS = [None, None, 'tuple', 'useq', 'group']


def collection(kind, obj, lib):
    """The same parts or fields in a collection of another type."""
    if kind == 'omap' and isinstance(obj, dict):
        return lib.group.ObjectMap(obj)
    if kind == 'odict' and isinstance(obj, dict):
        return collections.OrderedDict(obj)
    if kind == 'mproxy' and isinstance(obj, dict):
        return types.MappingProxyType(obj)
    if kind == 'tuple':
        return tuple(obj)
    if kind == 'useq':
        return MySeq(obj)
    if kind == 'group':
        return lib.group.ObjectGroup(*obj)
    return obj


def opt_seed(seed):
    """A user's class that was given no seed passes none on."""
    return {} if seed is None else {'rng_seed': seed}


def build(spec, lib, ctx=None, override_seed=Ellipsis):
    """Builds the real objects for a spec."""
    ctx = ctx or Ctx(lib)
    k = spec['k']
    u = user_parts(lib)
    seed = spec.get('seed')
    if override_seed is not Ellipsis:
        seed = override_seed
    seed = sd(seed)
    if 'share' in spec and spec['share'] in ctx.shared:
        return ctx.shared[spec['share']]
    if k == 'static':
        obj = lib.fixed.Static(spec['v'])
    elif k == 'seq':
        obj = lib.fixed.Sequential(ctx.give('items',
                                            items_of(spec['items'], lib)),
                                   reset_after_call=spec.get('rac', False))
    elif k == 'iter':
        obj = lib.fixed.Iterative(make_factory(spec, lib),
                                  reset_after_call=spec.get('rac', False))
    elif k == 'choice':
        kw = {}
        if spec.get('w') is not None:
            kw['weights'] = ctx.give('weights', list(spec['w']))
        if spec.get('cw') is not None:
            kw['cum_weights'] = ctx.give('weights', list(spec['cw']))
        obj = lib.choice.Choice(ctx.give('items',
                                         items_of(spec['items'], lib)),
                                replace=spec.get('replace', True),
                                replace_only_after_call=spec.get('roac',
                                                                 False),
                                rng_seed=seed, **kw)
    elif k == 'chance':
        obj = lib.choice.chance(spec['p'], rng_seed=seed)
    elif k == 'poisson':
        obj = lib.choice.poisson_choice(
            ctx.give('items', items_of(spec['items'], lib)),
            mu=spec['mu'],
            weight_floor=spec.get('floor', 0),
            replace=spec.get('replace', True),
            replace_only_after_call=spec.get('roac', False), rng_seed=seed)
    elif k == 'gauss':
        obj = lib.choice.gaussian_choice(
            ctx.give('items', items_of(spec['items'], lib)),
            mu=spec['mu'], sigma=spec['sigma'],
            weight_floor=spec.get('floor', 0),
            replace=spec.get('replace', True),
            replace_only_after_call=spec.get('roac', False), rng_seed=seed)
    elif k == 'word':
        obj = lib.text.Word(ctx.part('len', spec['len']),
                            ctx.part('alpha', spec['alpha']), rng_seed=seed)
    elif k == 'text':
        sep = given(spec, 'sep')
        obj = lib.text.Text(ctx.part('num', spec['num']),
                            ctx.part('word', spec['word']),
                            ctx.part('sep', sep) if sep else None,
                            rng_seed=seed)
        default_value(spec, 'sep', obj, 'sep_emitter')
    elif k == 'wrap1':
        obj = lib.wrappers.WrapOne(build(spec['src'], lib, ctx),
                                   lent(spec, FN1[spec['fn']], lib),
                                   rng_seed=seed)
    elif k == 'wrapn':
        obj = lib.wrappers.WrapMany(
            ctx.give('sources', collection(spec.get('coll'), {
                n: build(s, lib, ctx) for n, s in spec['srcs'].items()},
                lib)),
            lent(spec, FNN[spec['fn']], lib), rng_seed=seed)
    elif k == 'urand':
        obj = u['URand'](spec.get('bits', 32), **opt_seed(seed))
    elif k == 'uitems':
        cls = u['UItems0' if spec.get('empty') else
                'UItems2' if spec.get('alt') else 'UItems']
        obj = cls(items=ctx.give('items', items_of(spec['items'], lib)),
                  **opt_seed(seed))
    elif k == 'ucount':
        obj = u['UCount'](spec.get('prefix', 'c'))
        if spec.get('roac'):
            # It says so, but has no idea how many values it has.
            obj.replace_only_after_call = True
    elif k == 'useedy':
        obj = u[('USeedy', 'USeedy2', 'USeedy3')[spec.get('v', 0)]](
            rng_seed=seed)
    elif k == 'uparent':
        cls = u['UDeep' if spec.get('deep') else 'UParent']
        obj = cls(children=ctx.give('sources', collection(
            spec.get('coll'), {n: build(s, lib, ctx)
                               for n, s in spec['srcs'].items()}, lib)),
                  **opt_seed(seed))
    elif k == 'ufunc':
        obj = u['make_func'](spec['v'])
    elif k == 'copy':
        obj = lib.fromfields.CopyFields(sources_of(spec, ctx),
                                        spec.get('sep'))
    elif k == 'based':
        obj = lib.fromfields.BasedOnFields(
            sources_of(spec, ctx), lent(spec, action_of(spec), lib),
            rng_seed=seed)
    elif k == 'field':
        rep, gate = given(spec, 'rep'), given(spec, 'gate')
        if spec.get('user'):
            obj = u[spec['user']](
                spec['name'], spec['em']['prefix'],
                rep=rep['v'] if rep else None, hide=spec.get('hide', False))
            ctx.fields[spec['name']] = obj
            return obj
        obj = lib.profile.Field(
            spec['name'], build(spec['em'], lib, ctx),
            repeat=build(rep, lib, ctx) if rep else None,
            gate=build(gate, lib, ctx) if gate else None,
            hide=spec.get('hide', False), rng_seed=seed)
        default_value(spec, 'rep', obj, 'repeat_emitter')
        default_value(spec, 'gate', obj, 'gate_emitter')
        ctx.fields[spec['name']] = obj
    elif k == 'schema':
        fields = []
        for f in spec['fields']:
            fields.append(build(f, lib, ctx))
        obj = lib.profile.Schema(*fields)
        if seed is not None or override_seed is not Ellipsis:
            obj.seed_fields(seed)
            obj.reset_fields()
    else:
        raise seams.HarnessError(f'spec kind {k}')
    if 'share' in spec:
        ctx.shared[spec['share']] = obj
    return obj


def lent(spec, fn, lib):
    """A function, or a wrapper around it that belongs to somebody else."""
    if not spec.get('lent'):
        return fn
    return lib.wrappers.BoundWrapper(fn, lib.choice.Choice(
        'ab', rng_seed=spec['lent']))


# What a part is when none is given.  A spec that has one of these with a
# 'dflt' mark leaves that part to the library (and may change its value later).
DEFAULTS = {'sep': ' ', 'rep': None, 'gate': True}


def default_part(role):
    return {'k': 'static', 'v': DEFAULTS[role], 'dflt': True}


def given(spec, role):
    part = spec.get(role)
    return None if part is None or part.get('dflt') else part


def default_value(spec, role, obj, attr):
    """Sets the changed value of a part that was left to the library."""
    part = spec.get(role)
    if part and part.get('dflt') and \
            norm(part['v']) != norm(DEFAULTS[role]):
        getattr(obj, attr).value = part['v']


def sources_of(spec, ctx):
    src = spec['src']
    if isinstance(src, list):
        return ctx.give('fields', collection(
            spec.get('coll'), [ctx.fields[n] for n in src], ctx.lib))
    return ctx.fields[src]


def act_one(v):
    seams.ENV.hit('action')
    return ('a', v if not isinstance(v, list) else tuple(v))


def act_one_rng(v, rng):
    seams.ENV.hit('action')
    return ('a', v if not isinstance(v, list) else tuple(v),
            rng.getrandbits(20))


def act_many(**kw):
    seams.ENV.hit('action')
    return tuple((k, tuple(v) if isinstance(v, list) else v)
                 for k, v in sorted(kw.items()))


def act_many_rng(rng, **kw):
    return act_many(**kw) + (('rng', rng.getrandbits(20)),)


ACT1 = {'one': act_one, 'onerng': act_one_rng, 'str': str, 'bool': bool,
        'repr': repr}
ACTN = {'many': act_many, 'manyrng': act_many_rng}


def action_of(spec):
    n = len(spec['src']) if isinstance(spec['src'], list) else 1
    return (ACT1 if n == 1 else ACTN)[spec['fn']]


# --------------------------------------------------------------------------
# facts about specs
# --------------------------------------------------------------------------

def nitems(spec):
    return len(items_of(spec['items']))


def is_choice(spec):
    return spec['k'] in ('choice', 'poisson', 'gauss')


def children(spec):
    """Child specs, with the path step that leads to each."""
    k = spec['k']
    if k == 'word':
        return [('len', spec['len']), ('alpha', spec['alpha'])]
    if k == 'text':
        out = [('num', spec['num']), ('word', spec['word'])]
        if spec.get('sep'):
            out.append(('sep', spec['sep']))
        return out
    if k == 'wrap1':
        return [('src', spec['src'])]
    if k in ('wrapn', 'uparent'):
        return [(('srcs', n), s) for n, s in spec['srcs'].items()]
    if k == 'field':
        out = [('em', spec['em'])]
        if spec.get('rep'):
            out.append(('rep', spec['rep']))
        if spec.get('gate'):
            out.append(('gate', spec['gate']))
        return out
    if k == 'schema':
        return [(('fields', i), f) for i, f in enumerate(spec['fields'])]
    return []


def walk(spec):
    yield spec
    for _, c in children(spec):
        yield from walk(c)


def cap(spec):
    """The largest batch this emitter can be asked for in one call."""
    k = spec['k']
    if is_choice(spec):
        if spec.get('roac'):
            return nitems(spec)
        return INF
    if k == 'word':
        return cap(spec['len'])
    if k == 'text':
        return cap(spec['num'])
    if k in ('wrap1', 'wrapn'):
        return min(cap(c) for _, c in children(spec))
    return INF


def pool(spec):
    """How many values it can emit before a reset is needed."""
    k = spec['k']
    if is_choice(spec):
        if not spec.get('replace', True) and not spec.get('roac'):
            return nitems(spec)
        return INF
    if k in ('wrap1', 'wrapn', 'uparent'):
        return min(pool(c) for _, c in children(spec))
    if k == 'field':
        out = pool(spec['em'])
        if spec.get('rep'):
            if out < INF:
                out //= max(1, maxint(spec['rep']))
            out = min(out, pool(spec['rep']))
        if spec.get('gate'):
            out = min(out, pool(spec['gate']))
        return out
    if k == 'schema':
        return min([pool(f) for f in spec['fields']] + [INF])
    return INF


def maxint(spec):
    """Largest int an int emitter can emit."""
    k = spec['k']
    if k == 'static':
        return spec['v'] or 0
    if k in ('seq', 'iter', 'choice', 'poisson', 'gauss', 'uitems'):
        return max([i or 0 for i in items_of(spec['items'])])
    if k == 'wrap1' and spec['fn'] == 'ident':
        return maxint(spec['src'])
    if k == 'ufunc':
        return spec['v'] or 0
    raise seams.HarnessError(f'maxint of {k}')


def is_random(spec):
    return any(s['k'] in ('choice', 'chance', 'poisson', 'gauss', 'urand',
                          'useedy', 'uparent', 'uitems')
               or s.get('fn') in ('tagrng', 'pick', 'kwrng', 'onerng',
                                  'manyrng') for s in walk(spec))


# --------------------------------------------------------------------------
# which values a spec permits
# --------------------------------------------------------------------------

SEPS = [' ', '-', '|', '~~']
SEP_RE = re.compile('|'.join(re.escape(s) for s in SEPS))


_many = {}


def inlist(v, items):
    return any(norm(v) == norm(i) for i in items)


def initems(v, d, w=None):
    """True if `v` is one of the items described, with a weight if any."""
    raw = d['v']
    if len(raw) < 60:
        return any(norm(v) == norm(i) and (w is None or x > 0)
                   for i, x in zip(items_of(d), w or itertools.repeat(1)))
    got = _many.get(id(raw))
    if got is None or got[0] is not raw or got[1] != w or got[2] != len(raw):
        _many.clear()
        got = _many[id(raw)] = (raw, w, len(raw), {
            norm(i) for i, x in zip(items_of(d), w or itertools.repeat(1))
            if w is None or x > 0})
    return norm(v) in got[3]


def permits(spec, v):
    """True if the emitter the spec describes could emit `v`."""
    k = spec['k']
    if k == 'static' or k == 'ufunc':
        return norm(v) == norm(spec['v'])
    if k in ('seq', 'uitems') or (k == 'iter' and spec['fac'] != 'count'):
        return initems(v, spec['items'])
    if k == 'iter':
        return type(v) is int and v >= spec['start']
    if is_choice(spec):
        w = None
        if spec.get('replace', True) and not spec.get('roac'):
            w, cw = spec.get('w'), spec.get('cw')
            if w is None and cw is not None:
                w = [c > p for c, p in zip(cw, [0] + list(cw))]
        return initems(v, spec['items'], w)
    if k == 'chance':
        if spec['p'] >= 1:
            return v is True
        if spec['p'] <= 0:
            return v is False
        return v is True or v is False
    if k == 'word':
        return (isinstance(v, str) and permits_int(spec['len'], len(v))
                and all(permits(spec['alpha'], c) for c in v))
    if k == 'text':
        if not isinstance(v, str):
            return False
        if v == '':
            return (permits_int(spec['num'], 0)
                    or (permits_int(spec['num'], 1)
                        and permits(spec['word'], '')))
        words = SEP_RE.split(v)
        seps = SEP_RE.findall(v)
        sep = spec.get('sep') or {'k': 'static', 'v': ' '}
        return (permits_int(spec['num'], len(words))
                and all(permits(spec['word'], w) for w in words)
                and all(permits(sep, s) for s in seps))
    if k == 'wrap1':
        fn = spec['fn']
        if fn == 'tag':
            return (isinstance(v, tuple) and len(v) == 2 and v[0] == 't'
                    and permits(spec['src'], v[1]))
        if fn == 'obj':
            return (isinstance(v, tuple) and len(v) == 2 and v[0] == 'o'
                    and permits(spec['src'], v[1]))
        if fn == 'tagrng':
            return (isinstance(v, tuple) and len(v) == 3 and v[0] == 'r'
                    and type(v[2]) is int and permits(spec['src'], v[1]))
        if fn == 'pick':
            return (isinstance(v, tuple) and len(v) == 4 and v[0] == 'p'
                    and v[2] in 'xyz' and permits(spec['src'], v[1]))
        if fn == 'ident':
            return permits(spec['src'], v)
        if fn == 'uval':
            return isinstance(v, UVal) and permits(spec['src'], v.v)
        if fn == 'dict':
            return (isinstance(v, dict) and list(v) == ['v', 'n']
                    and v['n'] == 1 and permits(spec['src'], v['v']))
        if fn == 'bytes':
            return isinstance(v, bytes) and permits_text(
                spec['src'], v.decode(), repr)
        if fn == 'fset':
            return (isinstance(v, frozenset) and len(v) == 1
                    and permits_text(spec['src'], list(v)[0], repr))
        if fn == 'fstr':
            return (isinstance(v, str) and v[:1] == '<' and v[-1:] == '>'
                    and permits_text(spec['src'], v[1:-1], str))
        if fn in ('str', 'repr'):
            return isinstance(v, str) and permits_text(
                spec['src'], v, str if fn == 'str' else repr)
    if k == 'wrapn':
        if not isinstance(v, tuple):
            return False
        try:
            d = dict(v)
        except (TypeError, ValueError):
            return False
        if spec['fn'] == 'kwrng':
            if type(d.pop('rng', None)) is not int:
                return False
        return (set(d) == set(spec['srcs'])
                and all(permits(s, d[n]) for n, s in spec['srcs'].items()))
    if k == 'uparent':
        deep = bool(spec.get('deep'))
        return (isinstance(v, tuple)
                and len(v) == 2 + deep + len(spec['srcs'])
                and v[0] == ('ud' if deep else 'up') and type(v[1]) is int
                and all(permits(s, x) for s, x in
                        zip(spec['srcs'].values(), v[2 + deep:])))
    if k == 'urand':
        return isinstance(v, str) and re.fullmatch(r'u\d+', v) is not None
    if k == 'useedy':
        return isinstance(v, str) and re.fullmatch(r's\d+', v) is not None
    if k == 'ucount':
        return (isinstance(v, str) and re.fullmatch(
            re.escape(spec.get('prefix', 'c')) + r'\d+', v) is not None)
    if k == 'field':
        return permits_field(spec, v)
    raise seams.HarnessError(f'permits {k}')


def finite_values(spec):
    """All values of a spec with finitely many, else None."""
    k = spec['k']
    if k in ('static', 'ufunc'):
        return [spec['v']]
    if k in ('seq', 'uitems') or is_choice(spec):
        return list(items_of(spec['items']))
    if k == 'iter' and spec['fac'] != 'count':
        return list(items_of(spec['items']))
    if k == 'chance':
        return [True, False]
    return None


def permits_text(spec, text, how):
    vals = finite_values(spec)
    if vals is None:
        if how is str and spec['k'] in ('urand', 'ucount', 'useedy', 'word',
                                        'text'):
            return permits(spec, text)
        return True
    return any(how(x) == text for x in vals)


def permits_int(spec, n):
    if spec['k'] == 'wrap1':
        return permits_int(spec['src'], n)
    vals = finite_values(spec)
    return vals is None or any((x or 0) == n for x in vals)


def permits_field(spec, v):
    gate, rep = spec.get('gate'), spec.get('rep')
    if gate:
        vals = finite_values(gate)
        if v is None and (vals is None or any(not x for x in vals)):
            return True
    if rep is None or (rep['k'] == 'static' and rep['v'] is None):
        return permits(spec['em'], v)
    return (isinstance(v, list) and permits_int(rep, len(v))
            and all(permits(spec['em'], x) for x in v))


# --------------------------------------------------------------------------
# random specs
# --------------------------------------------------------------------------

SEED_VALUES = [0, 1, 2, 999, -5, 2 ** 70, '', 'abc', 'seed-é', 0.0, 0.5, 1e300,
               True, False, 12345]
ALPHAS = ['ab', 'abc', 'xyz', 'aeiou', 'é日本語', '0123456789', 'abcdefghij']


class Int(int):
    """A user's kind of integer."""


def sd(s):
    """The seed itself: what JSON cannot hold is written as a list."""
    if isinstance(s, list):
        t, v = s
        return {'bytes': lambda: v.encode(),
                'bytearray': lambda: bytearray(v.encode()),
                'int': lambda: Int(v)}[t]()
    return s


def gen_seed(rng):
    if rng.random() < 0.5:
        return rng.choice(SEED_VALUES)
    return rng.randrange(10 ** 6)


class G:
    """Generates random specs from one PRNG and a per-run choice of features."""

    def __init__(self, rng, depth=3, noreplace=True, roac=True, user=True,
                 rac=True, zero_len=True, unhashable=True, zero_weights=True,
                 large=False):
        self.r = rng
        self.large = large
        self.depth = depth
        self.noreplace = noreplace
        self.roac = roac
        self.user = user
        self.rac = rac
        self.zero_len = zero_len
        self.unhashable = unhashable
        self.zero_weights = zero_weights
        self.nshare = 0

    @classmethod
    def swarm(cls, rng, **kw):
        def on(p):
            return rng.random() < p
        feats = dict(depth=6 if on(.02) else rng.choice([1, 2, 2, 3]), noreplace=on(.6),
                     roac=on(.6), user=on(.6), rac=on(.5), zero_len=on(.5),
                     unhashable=on(.15), zero_weights=on(.4),
                     large=on(.025))
        feats.update(kw)
        return cls(rng, **feats)

    # -- sequences of values
    def values(self, n, domain):
        r = self.r
        if domain == 'int':
            lo = 0 if self.zero_len else 1
            return [r.randint(lo, 5) for _ in range(n)]
        if domain == 'char':
            base = r.choice(ALPHAS)
            return [r.choice(base) for _ in range(n)]
        if domain == 'str':
            base = r.choice(ALPHAS)
            return [''.join(r.choice(base) for _ in range(r.randint(1, 4)))
                    for _ in range(n)]
        if domain == 'sep':
            return [r.choice(SEPS) for _ in range(n)]
        if domain == 'bool':
            return [r.choice([True, False, True, False, 1, 0, '', 'y', None])
                    for _ in range(n)]
        kind = r.randrange(6)
        if kind == 0:
            return [r.randrange(-50, 50) for _ in range(n)]
        if kind == 1:
            return [r.choice([None, True, False, 0, 1, '', 'x', 2.5])
                    for _ in range(n)]
        if kind == 2 and self.unhashable:
            return [[r.randrange(3)] for _ in range(n)]
        if kind == 3:
            return [round(r.random(), 3) for _ in range(n)]
        return [f'v{i}' for i in range(n)]

    def items(self, domain, lo=1, hi=8, unique=False):
        r = self.r
        n = r.randint(lo, hi)
        if self.large and domain in ('any', 'str') and r.random() < .5:
            # Many items, some of them equal.
            self.large = False
            n = r.choice([70, 130, 260, 300, 520, 600, 1100, 2100])
            m = r.choice([n, n, n, n // 2, 60])
            if domain == 'any' and r.random() < .3:
                return {'t': 'range', 'v': [0, n]}
            return {'t': r.choice(['list', 'tuple']),
                    'v': [f'v{i % m}' for i in range(n)]}
        if domain == 'int' and r.random() < .4:
            a = 0 if self.zero_len and r.random() < .3 else 1
            return {'t': 'range', 'v': [a, a + n]}
        if domain == 'any':
            p = r.random()
            if p < .15:
                a, s = r.randrange(-5, 100), r.choice([1, 2, 7])
                return {'t': 'range', 'v': [a, a + n * s, s]}
            if p < .25:
                return {'t': 'dtr', 'v': ['2020-02-27', n]}
            if p < .35:
                return {'t': 'str', 'v': 'abcdefghijklmnopqrstuvwxyz0123456789'
                        'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[:min(n, 62)]}
        vals = self.values(n, domain)
        if unique:
            seen, out = set(), []
            for v in vals:
                if repr(v) not in seen:
                    seen.add(repr(v))
                    out.append(v)
            vals = out
        t = r.choice(['list', 'list', 'tuple', 'useq'])
        if domain == 'char' and r.random() < .4:
            return {'t': 'str', 'v': ''.join(vals)}
        return {'t': t, 'v': vals}

    def weights(self, n):
        r = self.r
        style = r.randrange(5)
        if style == 0:
            w = [1] * n
        elif style == 1:
            w = [r.randint(1, 50) for _ in range(n)]
        elif style == 2:
            w = [round(r.uniform(.01, 5), 3) for _ in range(n)]
        elif style == 3:
            w = [r.choice([.001, 1, 1000]) for _ in range(n)]
        else:
            w = [10.0 / (i + 1) for i in range(n)]
        if r.random() < .12:
            scale = r.choice([1e-200, 1e-40, 1e-15, 1e-9, 1e9, 1e40])
            w = [x * scale for x in w]
        if self.zero_weights and n > 1 and r.random() < .4:
            for _ in range(r.randint(1, n - 1)):
                w[r.randrange(n)] = 0
            if not any(w):
                w[r.randrange(n)] = 1
        return w

    def choice(self, domain='any', replace=None, roac=None, lo=1, hi=8,
               weighted=None, seed=None):
        r = self.r
        spec = {'k': 'choice', 'items': self.items(domain, lo, hi)}
        if weighted if weighted is not None else r.random() < .5:
            w = self.weights(len(items_of(spec['items'])))
            if r.random() < .35:
                acc, cw = 0, []
                for x in w:
                    acc += x
                    cw.append(acc)
                spec['cw'] = cw
            else:
                spec['w'] = w
        if replace is None:
            replace = not (self.noreplace and r.random() < .35)
        if roac is None:
            roac = replace and self.roac and r.random() < .3
        spec['replace'] = replace
        spec['roac'] = roac
        if seed is not None:
            spec['seed'] = seed
        return spec

    def leaf(self, domain, plain=False):
        """A leaf emitter; `plain` means no limits on batches or totals."""
        r = self.r
        rac = self.rac and r.random() < .25
        opts = ['static', 'seq', 'iter', 'choice', 'choice']
        if domain == 'bool':
            opts += ['chance', 'chance']
        if domain in ('any', 'int'):
            opts += ['poisson', 'gauss']
        if domain == 'any':
            opts += ['count', 'chance']
            if self.user:
                opts += ['urand', 'urand', 'ucount', 'ufunc', 'useedy']
        if self.user:
            opts.append('uitems')
        if domain == 'str' and self.user:
            opts += ['urand', 'ucount', 'useedy']
        k = r.choice(opts)
        if k == 'static':
            return {'k': 'static', 'v': self.values(1, domain)[0]}
        if k == 'ufunc':
            return {'k': 'ufunc', 'v': self.values(1, domain)[0]}
        if k == 'uitems':
            spec = {'k': 'uitems', 'items': self.items(domain)}
            p = r.random()
            if p < .3:
                spec['alt'] = True
            elif p < .5:
                spec['empty'] = True
            return spec
        if k == 'seq':
            return {'k': 'seq', 'items': self.items(domain), 'rac': rac}
        if k == 'iter':
            return {'k': 'iter', 'fac': r.choice(['list', 'gen', 'obj']),
                    'items': self.items(domain), 'rac': rac}
        if k == 'count':
            return {'k': 'iter', 'fac': 'count', 'start': r.randrange(5),
                    'rac': rac}
        if k == 'chance':
            return {'k': 'chance',
                    'p': r.choice([0, 1, .5, .1, .9, -.5, 1.5, .333])}
        if k in ('poisson', 'gauss'):
            spec = {'k': k, 'items': self.items(domain, 1, 9),
                    'mu': r.choice([1, 2, 3, 1.5]),
                    'floor': r.choice([0, 0, .001, .1])}
            if k == 'gauss':
                spec['mu'] = r.choice([0, 1, 3, 4.5])
                spec['sigma'] = r.choice([1, 2, .5, 4])
                if spec['sigma'] < 1 and spec['floor'] == 0:
                    spec['floor'] = .001
            if not plain:
                if self.noreplace and r.random() < .3:
                    spec['replace'] = False
                elif self.roac and r.random() < .3:
                    spec['roac'] = True
            return spec
        if k == 'choice':
            if plain:
                return self.choice(domain, replace=True, roac=False)
            return self.choice(domain)
        if k == 'urand':
            return {'k': 'urand', 'bits': r.choice([16, 32, 64])}
        if k == 'useedy':
            return {'k': 'useedy', 'v': r.randrange(3)}
        return {'k': 'ucount', 'prefix': r.choice(['c', 'n', 'id'])}

    def emitter(self, domain='any', depth=None, plain=False):
        r = self.r
        depth = self.depth if depth is None else depth
        if depth <= 0 or r.random() < .3:
            spec = self.leaf(domain, plain)
        elif domain == 'str':
            k = r.choice(['word', 'word', 'text', 'fstr', 'leaf'])
            if k == 'word':
                spec = self.word(depth)
            elif k == 'text':
                spec = self.textspec(depth)
            elif k == 'fstr':
                spec = {'k': 'wrap1', 'fn': r.choice(['fstr', 'str']),
                        'src': self.emitter('any', depth - 1, plain)}
            else:
                spec = self.leaf(domain, plain)
        elif domain == 'any':
            k = r.choice(['wrap1', 'wrap1', 'wrapn', 'wrapn', 'word', 'text',
                          'uparent', 'leaf', 'leaf'])
            if k == 'uparent' and not self.user:
                k = 'wrapn'
            if k == 'wrap1':
                spec = {'k': 'wrap1', 'fn': r.choice(sorted(FN1)),
                        'src': self.emitter('any', depth - 1, plain)}
                if r.random() < .08:
                    spec['lent'] = r.randrange(1, 99)
            elif k in ('wrapn', 'uparent'):
                names = r.sample(['a', 'b', 'cc', 'val', 'x1', 'items', 'a b',
                                  'class'] if r.random() < .2 else
                                 ['a', 'b', 'cc', 'val', 'x1'],
                                 r.randint(1, 3))
                spec = {'k': k, 'srcs': {
                    n: self.emitter('any', depth - 1, plain) for n in names}}
                if r.random() < .3:
                    spec['coll'] = r.choice(MAPS)
                if k == 'wrapn':
                    spec['fn'] = r.choice(sorted(FNN))
                    if r.random() < .08:
                        spec['lent'] = r.randrange(1, 99)
                elif r.random() < .5:
                    spec['deep'] = True
            elif k == 'word':
                spec = self.word(depth)
            elif k == 'text':
                spec = self.textspec(depth)
            else:
                spec = self.leaf(domain, plain)
        else:
            spec = self.leaf(domain, plain)
        return spec

    def word(self, depth=1):
        return {'k': 'word', 'len': self.leaf('int', plain=True),
                'alpha': self.leaf('char', plain=True)}

    def textspec(self, depth=1):
        r = self.r
        if r.random() < .4:
            word = self.word(depth)
        elif self.roac and r.random() < .4:
            word = self.choice('str', replace=True, roac=True)
        else:
            word = self.leaf_words()
        spec = {'k': 'text', 'num': self.leaf('int', plain=True),
                'word': word}
        if r.random() < .6:
            spec['sep'] = self.leaf('sep', plain=True)
        elif r.random() < .6:
            spec['sep'] = default_part('sep')
        return spec

    def leaf_words(self):
        r = self.r
        k = r.choice(['seq', 'choice', 'static', 'iter'])
        items = self.items('str')
        if k == 'static':
            return {'k': 'static', 'v': items['v'][0]}
        if k == 'seq':
            return {'k': 'seq', 'items': items}
        if k == 'iter':
            return {'k': 'iter', 'fac': 'gen', 'items': items}
        return {'k': 'choice', 'items': items}

    def field(self, name, depth=None, derived_from=(), hide=None):
        """A field; derived from earlier fields if any are given."""
        r = self.r
        spec = {'k': 'field', 'name': name}
        if derived_from and r.random() < .5:
            n = r.randint(1, min(3, len(derived_from)))
            src = r.sample(list(derived_from), n)
            if n == 1 and r.random() < .7:
                src = src[0]
            if r.random() < .5:
                em = {'k': 'copy', 'src': src,
                      'sep': r.choice([None, None, ' ', '; '])}
            else:
                n = len(src) if isinstance(src, list) else 1
                em = {'k': 'based', 'src': src,
                      'fn': r.choice(sorted(ACT1 if n == 1 else ACTN))}
                if r.random() < .08:
                    em['lent'] = r.randrange(1, 99)
            if isinstance(src, list) and r.random() < .3:
                em['coll'] = r.choice(LISTS)
            spec['em'] = em
        else:
            spec['em'] = self.emitter('any', depth)
        if r.random() < .4:
            top = cap(spec['em'])
            if top >= 1:
                rep = self.leaf('int')
                if maxint(rep) > top:
                    rep = {'k': 'choice',
                           'items': {'t': 'range', 'v': [1, top + 1]}}
                spec['rep'] = rep
        elif r.random() < .15:
            spec['rep'] = default_part('rep')
        if r.random() < .4:
            spec['gate'] = self.leaf('bool')
            if r.random() < .1:
                spec['gate'] = {'k': 'wrap1', 'fn': 'uval',
                                'src': spec['gate']}
        elif r.random() < .3:
            spec['gate'] = default_part('gate')
        spec['hide'] = r.random() < .25 if hide is None else hide
        return spec

    def schema(self, nmax=5, depth=None):
        r = self.r
        n = r.randint(1, nmax)
        fields, names = [], []
        for i in range(n):
            name = f'f{i}'
            fields.append(self.field(name, depth, names))
            names.append(name)
        if r.random() < .06:
            # Nothing to be seen but by what is derived from it.
            for f in fields:
                f['hide'] = True
        return {'k': 'schema', 'fields': fields}


def seal_seeds(spec, rng):
    """Gives the root a seed such that every random part is seeded."""
    spec = dict(spec)
    spec['seed'] = gen_seed(rng)
    if spec['k'] == 'schema':
        spec['fields'] = [seal_seeds(f, rng) for f in spec['fields']]
    elif spec['k'] == 'field' and spec['em']['k'] == 'based':
        pass
    return spec
