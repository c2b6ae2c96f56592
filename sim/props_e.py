"""C22-C24: true reports; splitting requests; groups."""
import copy
import inspect
import itertools
from sim import seams, world, parts
from sim.execu import Violation, Subject, must
from sim.props_a import (Prop, History, gen_history, gen_root, gen_n,
                         gen_seed_s, with_seed)
from sim.world import G, norm


# ==========================================================================
# C22
# ==========================================================================

def distinct(values):
    """How many different values there are, as the program compares them."""
    try:
        return len(set(values))
    except TypeError:
        out = []
        for v in values:
            if v not in out:
                out.append(v)
        return len(out)


class Claim:
    """What was said about values to come, and those that came."""

    def __init__(self, most, unique):
        self.most = most
        self.unique = unique
        self.seen = []

    def add(self, values):
        self.seen.extend(values)
        n = distinct(self.seen)
        if self.most is not None and n > self.most:
            raise Violation('more-than-said', f'num_unique_values said '
                            f'{self.most}, then {n} different values came: '
                            f'{self.seen!r:.300}')
        if self.unique and n < len(self.seen):
            raise Violation('not-unique', 'emits_unique_values was True, '
                            f'then came {self.seen!r:.300}')


class C22(Prop):
    """What an object reports is true."""

    id = 'C22'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng)
        p = rng.random()
        if p < .3:
            spec = g.choice('any', lo=1, hi=rng.choice([3, 8, 30]))
        elif p < .42:
            spec = g.textspec() if rng.random() < .5 else g.word()
        else:
            spec = gen_root(g, rng, schema=.35, field=.2)
        if rng.random() < .7:
            spec = with_seed(spec, gen_seed_s(rng))
        ops, cur = gen_history(g, rng, spec, rng.randint(3, 12),
                               arms=rng.choice([0, 0, .2]),
                               cfg=rng.choice([0, .2, .4]))
        for op in ops:
            if op['o'] == 'call' and rng.random() < .3:
                op['n'] = rng.choice([None, None, 1, 2])
        for _ in range(rng.randint(0, 2)):
            ops.insert(rng.randrange(len(ops) + 1), {
                'o': 'next', 'i': rng.randrange(12),
                'n': rng.randint(1, 4)})
        for _ in range(rng.randint(0, 3)):
            ops.insert(rng.randrange(len(ops) + 1), {'o': 'refused'})
        for _ in range(rng.randint(0, 2)):
            ops.insert(rng.randrange(len(ops) + 1), {
                'o': 'refn', 'i': rng.randrange(12),
                'fn': rng.randrange(12)})
        return {'spec': spec, 'ops': ops, 'const': rng.randrange(1, 99999),
                'skip': rng.random() < .3}

    def execute(self, run, plan):
        lib = seams.boot()
        h = History(run, plan['spec'], lib)
        self.claims = []
        self.sure = True        # nothing failed half-way since a reset
        self.check(run, h)
        self.claim(run, h)
        for i, op in enumerate(plan['ops']):
            o = op['o']
            if o == 'observe':
                continue
            if o == 'next':
                self.next(run, h, op)
                continue
            if o == 'refused':
                self.refused(run, h)
                continue
            if o == 'refn':
                self.refn(run, h, op)
                continue
            public = None
            if o == 'call' and h.spec['k'] == 'schema':
                public = list(h.sub.obj.public_fields)
            if o.startswith('child') or o in ('cfg', 'seed', 'setseed'):
                self.claims = []
            if o == 'reset':
                self.claims = []
                self.sure = True
            out = h.apply(op)
            if out is not None and not out.ok:
                self.claims = []
                self.sure = False
                if op.get('arm', {}).get('t') == 'intr' or o == 'reset':
                    # Whatever state that left it in, start afresh.
                    must(h.sub.reset(), 'reset')
                    self.sure = True
            elif o == 'call' and out is not None:
                self.given(run, h, out.value, op, public)
            elif o == 'seed' and hasattr(h.sub.obj, 'seed'):
                self.seeded(h, op['s'])
            if not (plan['skip'] and i % 3):
                self.check(run, h)
                self.claim(run, h)
                run.state('C22', h.spec['k'], o, len(self.claims), norm(
                    [c.most for c in self.claims[-1:]]))

    def claim(self, run, h):
        obj = h.sub.obj
        if not self.sure or not hasattr(obj, 'num_unique_values'):
            return
        self.claims.append(Claim(
            must(run.call(getattr, obj, 'num_unique_values'), 'reading'),
            must(run.call(getattr, obj, 'emits_unique_values'), 'reading')))
        run.count('claims')
        del self.claims[:-6]

    def given(self, run, h, value, op, public):
        spec, obj = h.spec, h.sub.obj
        if spec['k'] == 'schema':
            if list(value) != public:
                raise Violation('other-fields', f'public_fields were '
                                f'{public}, the record has {list(value)}')
            for f in spec['fields']:
                self.previous(obj.fields[f['name']], value, f['name'])
        elif spec['k'] == 'field':
            self.previous(obj, {obj.name: value}, obj.name)
        else:
            single = op['n'] is None
            vals = [value] if single or not isinstance(value, list) \
                else value
            for c in self.claims:
                c.add(vals)

    @staticmethod
    def previous(field, record, name):
        if name in record and norm(field.previous) != norm(record[name]):
            raise Violation('false-previous', f'{name} gave '
                            f'{record[name]!r:.200}, its previous value is '
                            f'said to be {field.previous!r:.200}')

    @staticmethod
    def seeded(h, s):
        """After seeding, that is the seed everything says it has."""
        for path, spec in parts.paths(h.spec):
            obj = h.part(path)
            if hasattr(obj, 'rng_seed') and norm(obj.rng_seed) != norm(s):
                raise Violation('false-seed', f'seeded with {s!r}, a '
                                f'{spec["k"]} says {obj.rng_seed!r}')

    def refused(self, run, h):
        """A request for one more than there is said to be."""
        spec, sub = h.spec, h.sub
        if not world.is_choice(spec) or not self.sure:
            return
        if world.cap(spec) == world.INF and sub.pool == world.INF:
            return
        n = must(run.call(getattr, sub.obj, 'num_unique_items'), 'reading')
        if n == 0 and sub.pool == world.INF:
            return
        out = run.call(sub.obj, n + 1)
        if out.ok and n + 1 > 1:
            raise Violation('more-than-said', f'num_unique_items said {n}, '
                            f'a request for {n + 1} gave {out.value!r:.200}')

    def refn(self, run, h, op):
        """Another function in the wrapper an emitter has, and back."""
        pool = [(p, s) for p, s in parts.paths(h.spec)
                if s['k'] in ('wrap1', 'wrapn', 'based')]
        if not pool:
            return
        path, spec = pool[op['i'] % len(pool)]
        obj = h.part(path)
        bound = obj.action if spec['k'] == 'based' else obj.wrapper
        if spec['k'] == 'wrapn' or (isinstance(spec.get('src'), list)
                                    and len(spec['src']) != 1):
            fns = world.FNN
        else:
            fns = {**world.FN1, **world.ACT1}
        old = bound.function
        for fn in (fns[sorted(fns)[op['fn'] % len(fns)]], old):
            must(run.call(setattr, bound, 'function', fn), 'set function')
            self.wrapper(bound, obj, fn)
        run.count('refn')

    def next(self, run, h, op):
        """The iterator goes on where the emitter is."""
        pool = [(p, s) for p, s in parts.paths(h.spec)
                if s['k'] in ('seq', 'iter') and not s.get('rac')]
        if not pool:
            return
        path, spec = pool[op['i'] % len(pool)]
        self.claims = []
        obj = h.part(path)
        must(run.call(obj.reset), 'reset')
        items = None
        if spec['k'] == 'seq' or spec['fac'] != 'count':
            items = list(world.items_of(spec['items']))
        want = []
        for i in range(op['n'] + 2):
            want.append(spec['start'] + i if items is None
                        else items[i % len(items)])
        got = [must(run.call(obj), 'request')]
        it = must(run.call(getattr, obj, 'iterator'), 'iterator')
        got.extend(must(run.call(next, it), 'next')
                   for _ in range(op['n']))
        got.append(must(run.call(obj), 'request'))
        run.record('next', norm(got))
        if norm(got) != norm(want):
            raise Violation('false-iterator', f'one request, {op["n"]} '
                            f'values of its iterator and another request '
                            f'gave {got!r:.300}, not {want!r:.300}')
        must(h.sub.reset(), 'reset')
        self.sure = True

    # -- what must agree at any time
    def check(self, run, h):
        for path, spec in parts.paths(h.spec):
            obj = h.part(path)
            func = getattr(self, 'check_' + (
                'choice' if world.is_choice(spec) or spec['k'] == 'chance'
                else spec['k']), None)
            if func:
                func(run, h, obj, spec)
            parents = world.children(spec)
            ems = getattr(obj, 'emitters', None)
            if parents and ems is not None:
                mine = [id(parts.obj_step(obj, spec, st))
                        for st, _ in parents]
                theirs = {id(v) for v in ems.values()}
                if not set(mine) <= theirs:
                    raise Violation('false-parts', f'emitters of a '
                                    f'{spec["k"]} are not its parts')
                if spec['k'] in ('wrapn', 'uparent') and \
                        list(ems) != list(spec['srcs']):
                    raise Violation('false-parts', f'emitters says '
                                    f'{list(ems)}, built with '
                                    f'{list(spec["srcs"])}')

    @staticmethod
    def agree(what, a, b):
        if norm(a) != norm(b):
            raise Violation('false-' + what, f'{what} is said to be '
                            f'{a!r:.200}; it is {b!r:.200}')

    def check_choice(self, run, h, obj, spec):
        if spec['k'] == 'chance':
            items = [True, False]
        else:
            items = list(world.items_of(spec['items']))
        self.agree('items', list(obj.items), items)
        w, cw = obj.weights, obj.cum_weights
        if (w is None) != (cw is None):
            raise Violation('false-weights', f'weights {w}, cumulative {cw}')
        if w is not None:
            if not len(w) == len(cw) == len(items):
                raise Violation('false-weights', f'{len(items)} items, '
                                f'{len(w)} weights, {len(cw)} cumulative')
            top = max(abs(x) for x in cw) or 1
            for x, y in zip(itertools.accumulate(w), cw):
                if abs(x - y) > 1e-9 * top:
                    raise Violation('false-weights', f'weights {w} do not '
                                    f'add up to cumulative {cw}')
            mine = spec.get('w') or spec.get('cw')
            if spec['k'] == 'choice' and mine is not None:
                self.agree('weights' if spec.get('w') else 'cum_weights',
                           list(w if spec.get('w') else cw), list(mine))
        elif spec.get('w') or spec.get('cw'):
            raise Violation('false-weights', 'there are weights but none are '
                            'reported')
        roac = spec.get('roac', False)
        self.agree('replace', bool(obj.replace),
                   bool(spec.get('replace', True) or roac))
        self.agree('replace_only_after_call',
                   bool(obj.replace_only_after_call), bool(roac))
        n, u = obj.num_unique_items, obj.num_unique_values
        if not 0 <= u <= n <= len(items) or (u == 0) != (n == 0):
            raise Violation('false-counts', f'{u} values, {n} items of '
                            f'{len(items)}')
        if obj.replace:
            self.agree('num_unique_values', u, distinct(items))
            self.agree('num_unique_items', n, len(items))
            self.agree('emits_unique_values', obj.emits_unique_values, False)

    def check_static(self, run, h, obj, spec):
        self.agree('value', obj.value, spec['v'])
        self.agree('items', list(obj.items), [spec['v']])
        self.agree('num_unique_values', obj.num_unique_values, 1)

    def check_seq(self, run, h, obj, spec):
        items = list(world.items_of(spec['items']))
        self.agree('items', list(obj.items), items)
        self.agree('num_unique_values', obj.num_unique_values,
                   distinct(items))
        self.agree('reset_after_call', bool(obj.reset_after_call),
                   bool(spec.get('rac')))

    def check_iter(self, run, h, obj, spec):
        self.agree('reset_after_call', bool(obj.reset_after_call),
                   bool(spec.get('rac')))
        self.agree('num_unique_values', obj.num_unique_values, None)

    def check_wrap1(self, run, h, obj, spec):
        self.wrapper(obj.wrapper, obj, world.FN1[spec['fn']])

    def check_wrapn(self, run, h, obj, spec):
        self.wrapper(obj.wrapper, obj, world.FNN[spec['fn']])

    def check_based(self, run, h, obj, spec):
        self.wrapper(obj.action, obj, world.action_of(spec))

    @staticmethod
    def wrapper(bound, owner, fn):
        if bound.function is not fn:
            raise Violation('false-function', f'it says its function is '
                            f'{bound.function!r}, not {fn!r}')
        if bound.bound_to is not owner:
            raise Violation('false-function', 'bound to something else')
        try:
            sig = inspect.signature(fn)
        except ValueError:
            sig = None
        if bound.signature != sig:
            raise Violation('false-function', f'signature {bound.signature} '
                            f'of a function with {sig}')
        if bool(bound.wants_rng) != (sig is not None
                                     and 'rng' in sig.parameters):
            raise Violation('false-function', f'wants_rng {bound.wants_rng} '
                            f'of a function with {sig}')

    def check_copy(self, run, h, obj, spec):
        self.agree('separator', obj.separator, spec.get('sep'))
        if not isinstance(spec['src'], list) and obj.single_valued:
            src = obj.source[0]
            if norm(obj.emit()) != norm(src.previous):
                raise Violation('false-single', 'single_valued, but it does '
                                'not give what its source gave')

    def check_field(self, run, h, obj, spec):
        self.agree('name', obj.name, spec['name'])
        self.agree('hide', bool(obj.hide), bool(spec.get('hide')))
        if spec['em']['k'] in ('copy', 'based') and h.spec['k'] == 'schema':
            src = spec['em']['src']
            names = src if isinstance(src, list) else [src]
            self.agree('source', [f.name for f in obj.emitter.source], names)
            if isinstance(src, list) and obj.emitter.source.single_valued:
                raise Violation('false-single', 'a list of sources is said '
                                'to be single-valued')
            func = getattr(self, 'check_' + spec['em']['k'])
            func(run, h, obj.emitter, spec['em'])
        if obj.multi_valued is False and isinstance(
                obj.previous, list) and spec['em']['k'] in (
                    'word', 'text', 'urand', 'ucount', 'useedy', 'chance'):
            raise Violation('false-multi', f'said to give one value, it gave '
                            f'{obj.previous!r:.200}')

    def check_schema(self, run, h, obj, spec):
        names = [f['name'] for f in spec['fields']]
        self.agree('fields', list(obj.fields), names)
        hide = [f['name'] for f in spec['fields'] if f.get('hide')]
        self.agree('hidden_fields', list(obj.hidden_fields), hide)
        self.agree('public_fields', list(obj.public_fields),
                   [n for n in names if n not in hide])
        for view in (obj.hidden_fields, obj.public_fields):
            for n, f in view.items():
                if obj.fields[n] is not f:
                    raise Violation('false-fields', f'{n} is another field '
                                    'in a view')


# ==========================================================================
# C23
# ==========================================================================

def pool_deep(spec):
    """How many values it can surely give, however they are asked for."""
    k = spec['k']
    if k == 'word':
        top = max(1, world.maxint(spec['len']))
        return min(pool_deep(spec['len']),
                   floordiv(pool_deep(spec['alpha']), top))
    if k == 'text':
        top = max(1, world.maxint(spec['num']))
        out = min(pool_deep(spec['num']),
                  floordiv(pool_deep(spec['word']), top))
        if spec.get('sep'):
            out = min(out, floordiv(pool_deep(spec['sep']), top))
        return out
    if k in ('wrap1', 'wrapn', 'uparent'):
        return min(pool_deep(c) for _, c in world.children(spec))
    return world.pool(spec)


def floordiv(n, d):
    return n if n >= world.INF else n // d


class C23(Prop):
    """How requests are split does not matter where order is settled."""

    id = 'C23'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng, zero_len=rng.random() < .4, unhashable=False)
        while True:
            spec = self.settled(g, rng, 'any', rng.choice([0, 1, 1, 2, 3]))
            if pool_deep(spec) > 0:
                break
        spec = with_seed(spec, gen_seed_s(rng))
        total = pool_deep(spec)
        legs = []
        for _ in range(rng.randint(1, 3)):
            room = total if total < world.INF else rng.choice(
                [3, 6, 12, 12, 25, 60] if rng.random() < .97
                else [400, 1500])
            n = rng.randint(0, room)
            legs.append({'a': self.split(rng, n), 'b': self.split(rng, n),
                         'end': rng.choice(['reset', 'reset', 'seed']),
                         's': gen_seed_s(rng)})
        return {'spec': spec, 'legs': legs, 'const': rng.randrange(1, 99999)}

    @staticmethod
    def split(rng, n):
        """One way to ask for `n` values."""
        style = rng.randrange(5)
        if style == 0:
            return [n]
        if style == 1:
            return [None] * n
        out = []
        while n:
            k = rng.randint(1, min(n, rng.choice([1, 2, 3, 8, 60, n])))
            if k == 1 and rng.random() < .6:
                k = None
            out.append(k)
            n -= k or 1
            if rng.random() < .1:
                out.append(0)
        return out

    def settled(self, g, rng, domain, depth):
        """Something whose values come in one order, whatever is asked."""
        if depth and domain == 'any':
            k = rng.choice(['wrap1', 'wrap1', 'wrapn', 'wrapn', 'word',
                            'text', 'uparent', 'leaf'])
            if k == 'wrap1':
                return {'k': k, 'fn': rng.choice(sorted(world.FN1)),
                        'src': self.settled(g, rng, 'any', depth - 1)}
            if k in ('wrapn', 'uparent'):
                names = rng.sample(['a', 'b', 'cc', 'val'],
                                   rng.randint(1, 3))
                spec = {'k': k, 'srcs': {
                    n: self.settled(g, rng, 'any', depth - 1)
                    for n in names}}
                if k == 'wrapn':
                    spec['fn'] = rng.choice(sorted(world.FNN))
                return spec
            if k == 'word':
                return {'k': k, 'len': self.settled(g, rng, 'int', 0),
                        'alpha': self.settled(g, rng, 'char', 0)}
            if k == 'text':
                spec = {'k': k, 'num': self.settled(g, rng, 'int', 0),
                        'word': self.settled(g, rng, 'str', 0)}
                if rng.random() < .7:
                    spec['sep'] = self.settled(g, rng, 'sep', 0)
                return spec
        k = rng.choice(['static', 'seq', 'seq', 'iter', 'choice', 'choice'])
        if k == 'static':
            return {'k': k, 'v': g.values(1, domain)[0]}
        if k == 'choice':
            return g.choice(domain, replace=False, roac=False, lo=1,
                            hi=rng.choice([4, 12, 60]))
        if k == 'iter' and domain == 'any' and rng.random() < .3:
            return {'k': 'iter', 'fac': 'count', 'start': rng.randrange(5)}
        spec = {'k': k, 'items': g.items(domain, 1, rng.choice([3, 8, 20]))}
        if k == 'iter':
            spec['fac'] = rng.choice(['list', 'gen', 'obj'])
        return spec

    def execute(self, run, plan):
        lib = seams.boot()
        if pool_deep(plan['spec']) < 1:
            return
        a = Subject(run, plan['spec'], lib)
        b = Subject(run, plan['spec'], lib)
        for i, leg in enumerate(plan['legs']):
            x, y = self.ask(run, a, leg['a']), self.ask(run, b, leg['b'])
            m = min(len(x), len(y))
            run.record('leg', leg['a'], leg['b'], norm(x)[:200])
            run.state('C23', plan['spec']['k'], leg['a'], leg['b'])
            if norm(x[:m]) != norm(y[:m]):
                raise Violation('split-shows', f'asked for {leg["a"]} it '
                                f'gave {x!r:.300}; for {leg["b"]} '
                                f'{y!r:.300}')
            if sum(k or 1 for k in leg['a'] if k != 0) == sum(
                    k or 1 for k in leg['b'] if k != 0) and \
                    len(x) != len(y):
                raise Violation('split-shows', f'asked for {leg["a"]} it '
                                f'gave {len(x)} values; for {leg["b"]} '
                                f'{len(y)}')
            if leg['end'] == 'seed':
                must(a.seed(leg['s']), 'seed')
                must(b.seed(leg['s']), 'seed')
            must(a.reset(), 'reset')
            must(b.reset(), 'reset')
            if i == len(plan['legs']) - 1:
                got = norm(self.ask(run, a, [2, None]))
                want = norm(self.ask(run, b, [2, None]))
                if got != want:
                    raise Violation('split-shows', 'the split shows after a '
                                    f'reset: {got!r:.200}, {want!r:.200}')

    @staticmethod
    def ask(run, sub, reqs):
        out = []
        room = pool_deep(sub.spec)
        for n in reqs:
            room -= 1 if n is None else n
            if room < 0:
                break
            run.count('op:call')
            res = run.call(sub.obj) if n is None else run.call(sub.obj, n)
            got = must(res, f'request({n})')
            if n is None:
                out.append(got)
            else:
                if not isinstance(got, list) or len(got) != n:
                    raise Violation('wrong-amount', f'request({n}) gave '
                                    f'{got!r:.200}')
                out.extend(got)
        return out


# ==========================================================================
# C24
# ==========================================================================

class Member:
    """Something in a group: has some of the attributes and methods."""

    __slots__ = ()

    def __setattr__(self, attr, value):
        self.log.append((self.name, 'set', attr, norm(value)))
        seams.ENV.hit('member')
        self.put(attr, value)

    def put(self, attr, value):
        object.__setattr__(self, attr, value)

    def __repr__(self):
        return self.name


def _method(name):
    def method(self, *args, **kwargs):
        self.log.append((self.name, name, norm(args), norm(kwargs)))
        seams.ENV.hit('member')
        return self.name
    return method


class OwnMember(Member):
    """Its attributes are its own, its methods are made when asked for."""

    def __getattr__(self, attr):
        if attr in self.__dict__.get('methods', ()):
            return _method(attr).__get__(self)
        raise AttributeError(attr)


class DynMember(Member):
    """Stands for something else, which has the attributes."""

    def __getattr__(self, attr):
        if attr in self.__dict__.get('methods', ()):
            return _method(attr).__get__(self)
        try:
            return self.__dict__['box'][attr]
        except KeyError:
            raise AttributeError(attr) from None

    def put(self, attr, value):
        self.box[attr] = value


def _property(attr):
    return property(lambda self: self.box[attr],
                    lambda self, v: self.box.__setitem__(attr, v))


def make_member(name, spec, log):
    """A member of one of the kinds of objects there are."""
    kind, attrs = spec.get('kind', 'own'), spec['a']
    facts = {'name': name, 'log': log, 'attrs': attrs, 'methods': spec['m'],
             'box': dict.fromkeys(attrs, 'old')}
    body = {m: _method(m) for m in spec['m']}
    if kind == 'own':
        cls = OwnMember
        facts.update(facts['box'])
    elif kind == 'dyn':
        cls = DynMember
    elif kind == 'slots':
        cls = type('SlotMember', (Member,), dict(
            body, __slots__=tuple(facts) + tuple(attrs)))
        facts.update(facts['box'])
    elif kind == 'class':
        cls = type('ClassMember', (Member,), dict(body, **facts['box']))
    else:
        cls = type('PropMember', (Member,), dict(
            body, **{a: _property(a) for a in attrs}))
    obj = cls()
    for k, v in facts.items():
        object.__setattr__(obj, k, v)
    return obj


class C24(Prop):
    """A group operation reaches every member; a group is a list or map."""

    id = 'C24'
    quick_runs = 40000
    thorough_runs = 600000
    shrink_lists = ('ops',)

    LIST = ['append', 'insert', 'pop', 'extend', 'remove', 'clear', 'del',
            'setitem', 'slice', 'reverse', 'iadd']
    LCOPY = ['add', 'radd', 'slice', 'mul', 'copy', 'copy.copy', 'deep']
    MAP = ['setitem', 'del', 'update', 'pop', 'popitem', 'move', 'setdefault',
           'clear', 'ior']
    MCOPY = ['copy', 'copy.copy', 'or', 'deep']

    def gen(self, rng, run):
        kind = rng.choice(['list', 'map', 'source'])
        members = []
        for i in range(rng.randint(1, 7)):
            if rng.random() < .12:
                members.append(None)
                continue
            members.append({
                'kind': rng.choice(['own', 'own', 'dyn', 'slots', 'class',
                                    'prop']),
                'a': [a for a in 'xyz' if rng.random() < .6],
                'm': [m for m in ('go', 'reset', 'seed')
                      if rng.random() < .7]})
        ops = []
        for _ in range(rng.randint(2, 10)):
            p = rng.random()
            if p < .35:
                op = {'o': 'method', 'm': rng.choice(['go', 'reset', 'seed',
                                                      'none']),
                      'args': [rng.randrange(9)
                               for _ in range(rng.randrange(3))],
                      'kw': {k: rng.randrange(9)
                             for k in 'ab' if rng.random() < .3}}
            elif p < .55:
                op = {'o': 'set', 'a': rng.choice('xyzw'),
                      'v': rng.choice([None, 1, 'v', [2]])}
            elif p < .85:
                op = {'o': 'edit', 'how': rng.choice(
                    self.MAP if kind == 'map' else self.LIST)}
            else:
                op = {'o': 'other', 'how': rng.choice(
                    self.MCOPY if kind == 'map' else self.LCOPY)}
            op['i'], op['j'] = rng.randrange(12), rng.randrange(12)
            op['n'] = rng.randrange(4)
            if op['o'] in ('method', 'set') and rng.random() < .35:
                op['arm'] = {'t': 'fault', 'part': 'member', 'k':
                             rng.randrange(5), 'exc': rng.choice(sorted(
                                 seams.EXC_KINDS) + ['AttributeError'] * 4)}
            ops.append(op)
        return {'kind': kind, 'members': members, 'ops': ops}

    def execute(self, run, plan):
        lib = seams.boot()
        log = []
        pool = [None if m is None else make_member(f'm{i}', m, log)
                for i, m in enumerate(plan['members'])]
        kind = plan['kind']
        half = pool[:(len(pool) + 1) // 2]
        if kind == 'map':
            model = {f'k{i}': m for i, m in enumerate(half)}
            obj = lib.group.ObjectMap(dict(model))
        elif kind == 'list':
            model = list(half)
            obj = lib.group.ObjectGroup(*half)
        else:
            model = list(half)
            obj = lib.fromfields.SourceFieldGroup(list(half))
        for op in plan['ops']:
            o = op['o']
            run.count('op:' + o)
            if o == 'method':
                self.method(run, obj, model, log, op)
            elif o == 'set':
                self.setattr(run, obj, model, log, op)
            elif o == 'edit':
                func = self.edit_map if kind == 'map' else self.edit_list
                func(run, obj, model, pool, op)
            else:
                func = self.copy_map if kind == 'map' else self.copy_list
                obj, model = func(run, obj, model, pool, op)
                if op['j'] % 2:
                    self.method(run, obj, model, log, {
                        'm': 'go', 'args': [], 'kw': {}})
            self.same(obj, model)
            run.record(o, op.get('how'), norm(log[-3:]))
            run.state('C24', kind, o, op.get('how') or op.get('m')
                      or op.get('a'), len(model),
                      op.get('arm', {}).get('exc'))

    @staticmethod
    def same(obj, model):
        if isinstance(model, dict):
            ok = (list(obj) == list(model) and len(obj) == len(model) and
                  all(a is b for a, b in zip(obj.values(), model.values()))
                  and all(obj[k] is v and k in obj
                          for k, v in model.items())
                  and obj == model and bool(obj) == bool(model))
        else:
            ok = (len(obj) == len(model)
                  and all(a is b for a, b in zip(obj, model))
                  and all(obj[i] is v and v in obj
                          for i, v in enumerate(model))
                  and obj == model and bool(obj) == bool(model))
        if not ok:
            raise Violation('not-the-members', f'{list(obj)!r:.300} instead '
                            f'of {list(model)!r:.300}')

    @staticmethod
    def members(model):
        return list(model.values() if isinstance(model, dict) else model)

    def expect(self, run, out, want, got, k, what):
        """Calls that should have been made, all or up to the k-th."""
        if out.ok:
            if out.fired:
                raise Violation('fault-swallowed', f'{what}: a member failed '
                                'and nothing was said')
        elif not out.fired or out.exc is not seams.ENV.last_fault:
            must(out, what)
        if not out.ok:
            want = want[:k + 1]
        if got != want:
            raise Violation('not-reached', f'{what} reached '
                            f'{[g[0] for g in got]}, not '
                            f'{[w[0] for w in want]}')

    def method(self, run, obj, model, log, op):
        want = [(m.name, op['m'], norm(tuple(op['args'])), norm(op['kw']))
                for m in self.members(model)
                if m is not None and op['m'] in m.methods]
        at = len(log)
        arm = op.get('arm')
        out = run.call(obj.do_method, op['m'], *op['args'], arm=arm,
                       **op['kw'])
        self.expect(run, out, want, log[at:], arm and arm['k'],
                    f'do_method({op["m"]})')

    def setattr(self, run, obj, model, log, op):
        a = op['a']
        want = [(m.name, 'set', a, norm(op['v']))
                for m in self.members(model)
                if m is not None and a in m.attrs]
        at = len(log)
        arm = op.get('arm')
        out = run.call(obj.setattr, a, op['v'], arm=arm)
        self.expect(run, out, want, log[at:], arm and arm['k'],
                    f'setattr({a})')
        for m in self.members(model) if out.ok else ():
            if m is not None and a in m.attrs and \
                    getattr(m, a) is not op['v']:
                raise Violation('not-reached', f'{a} of {m} is '
                                f'{getattr(m, a)!r}')

    def edit_list(self, run, obj, model, pool, op):
        how, n = op['how'], len(model)
        i = op['i'] % n if n else 0
        new = pool[op['j'] % len(pool)]
        more = [pool[(op['j'] + x) % len(pool)] for x in range(op['n'])]
        for box in (obj, model):
            if how == 'append':
                box.append(new)
            elif how == 'insert':
                box.insert(i, new)
            elif how == 'pop' and n:
                box.pop(i)
            elif how == 'extend':
                box.extend(more)
            elif how == 'remove' and n:
                box.remove(model[i] if box is obj else box[i])
            elif how == 'clear':
                box.clear()
            elif how == 'del' and n:
                del box[i]
            elif how == 'setitem' and n:
                box[i] = new
            elif how == 'slice':
                box[i:i + 2] = more
            elif how == 'reverse':
                box.reverse()
            elif how == 'iadd':
                box += more

    def edit_map(self, run, obj, model, pool, op):
        how, keys = op['how'], list(model)
        key = keys[op['i'] % len(keys)] if keys else None
        name = f'k{op["j"]}'
        new = pool[op['j'] % len(pool)]
        more = {f'k{op["j"] + x}': pool[(op['j'] + x) % len(pool)]
                for x in range(op['n'])}
        for box in (obj, model):
            if how == 'setitem':
                box[name] = new
            elif how == 'del' and keys:
                del box[key]
            elif how == 'update':
                box.update(more)
            elif how == 'pop' and keys:
                box.pop(key)
            elif how == 'popitem' and keys:
                box.popitem()
            elif how == 'move' and keys:
                if box is obj:
                    box.move_to_end(key)
                else:
                    box[key] = box.pop(key)
            elif how == 'setdefault':
                box.setdefault(name, new)
            elif how == 'clear':
                box.clear()
            elif how == 'ior':
                box |= more

    def copy_list(self, run, obj, model, pool, op):
        """Another group made of this one; goes on with that."""
        how, i = op['how'], op['i']
        more = [pool[(op['j'] + x) % len(pool)] for x in range(op['n'])]
        funcs = {
            'add': lambda b: b + more,
            'radd': lambda b: more + b,
            'slice': lambda b: b[i % 3:i % 3 + op['n'] + 1],
            'mul': lambda b: b * 2,
            'copy': lambda b: b.copy(),
            'copy.copy': copy.copy,
            'deep': lambda b: b[:]}
        new = must(run.call(funcs[how], obj), how)
        if type(new) is not type(obj):
            raise Violation('not-a-group', f'{how} gave a {type(new)}')
        self.apart(obj, new, how)
        return new, funcs[how](model)

    def copy_map(self, run, obj, model, pool, op):
        how = op['how']
        more = {f'k{op["j"] + x}': pool[(op['j'] + x) % len(pool)]
                for x in range(op['n'])}
        funcs = {
            'copy': lambda b: b.copy(),
            'copy.copy': copy.copy,
            'or': lambda b: b | more,
            'deep': lambda b: type(b)(dict(b))}
        new = must(run.call(funcs[how], obj), how)
        if type(new) is not type(obj):
            raise Violation('not-a-group', f'{how} gave a {type(new)}')
        self.apart(obj, new, how)
        return new, funcs[how](model)

    @staticmethod
    def apart(obj, new, how):
        """Emptying the one leaves the other as it is."""
        n = len(new)
        obj.clear()
        if len(new) != n:
            raise Violation('not-apart', f'what {how} gave changes with the '
                            'group it was made of')


PROPS_E = [C22, C23, C24]
