"""C12-C15: ownership of data, text assembly, frequencies, derived fields."""
import collections
import copy
import itertools
import math
from collections import UserList
from sim import seams, world, parts
from sim.execu import (Violation, Outcome, Subject, must, faulty, gen_arm,
                       drain, observe)
from sim.props_a import (Prop, History, gen_root, gen_n, gen_seed_s,
                         with_seed)
from sim.seams import HarnessError
from sim.world import G, norm, items_of


# ==========================================================================
# C12
# ==========================================================================

class C12(Prop):
    """Data crosses the boundary for good, in both directions.

    A hostile consumer changes every container it is given; a polite one,
    served by identical objects, must not be able to tell.
    """

    id = 'C12'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng)
        if rng.random() < .35:
            spec = self.shuffled(rng, g)
        else:
            spec = gen_root(g, rng, schema=.4, field=.2)
        if rng.random() < .7:
            spec = with_seed(spec, gen_seed_s(rng))
        faults = rng.choice([0, 0, .25])
        ops = []
        for _ in range(rng.randint(3, 12)):
            p = rng.random()
            if p < .8:
                op = {'o': 'call', 'n': gen_n(rng),
                      'how': rng.choice(['call', 'call', 'method']),
                      'how2': rng.choice(['clear', 'append', 'reverse', 'set',
                                          'pop', 'sort'])}
                if rng.random() < faults:
                    op['arm'] = gen_arm(rng, ('fault', 'drawfail'))
            elif p < .88:
                op = {'o': 'reset'}
            elif p < .94:
                op = {'o': 'seed', 's': gen_seed_s(rng)}
            else:
                op = {'o': 'lists', 'how2': rng.choice(['clear', 'set'])}
                if world.is_choice(spec):
                    op = {'o': 'weights', 'cum': rng.random() < .4,
                          'v': g.weights(world.nitems(spec))}
            ops.append(op)
        return {'spec': spec, 'ops': ops, 'const': rng.randrange(1, 99999),
                'weights': rng.random() < .5,
                'direct': self.gen_direct(rng, g),
                'reqs': [gen_n(rng, 6) for _ in range(3)]}

    @staticmethod
    def gen_direct(rng, g):
        """Uses of the weighted shuffle itself, on the user's own lists."""
        p = rng.random()
        if p > .2:
            return []
        if p > .15:
            return [{'ranges': rng.choice([None, [[97, 99]],
                                           [[48, 57], [97, 122]]]),
                     'how2': rng.choice(['clear', 'append', 'reverse',
                                         'set', 'pop'])}]
        items = g.items('any', 1, 30)
        n = world.nitems({'items': items})
        return [{'items': items, 'w': g.weights(n),
                 'k': rng.choice([None, rng.randint(0, n)]),
                 'seed': rng.choice([None, 1, 2, 3])}
                for _ in range(rng.randint(1, 3))]

    @staticmethod
    def direct(run, lib, d):
        """weighted_shuffle leaves its inputs, and gives away its result."""
        if 'ranges' in d:
            # So does make_alphabet.
            ranges = d['ranges'] and [tuple(r) for r in d['ranges']]
            was = repr(ranges)
            make = lib.text.make_alphabet
            first = must(run.call(make, ranges), 'make_alphabet')
            want = list(first)
            C12.spoil_list(first, d['how2'])
            got = must(run.call(make, ranges), 'make_alphabet')
            if got != want or repr(ranges) != was:
                raise Violation('consumer-reaches-in', 'after a consumer '
                                'changed an alphabet it was given, the next '
                                f'was {got!r:.200}, not {want!r:.200}')
            return
        rng = [seams.SimRandom(d['seed'])] if d['seed'] else []
        items, w = world.items_of(d['items'], lib), list(d['w'])
        was = (repr(items), repr(w))
        res = []
        for _ in range(2):
            kw = {} if d['k'] is None else {'number': d['k']}
            out = must(run.call(lib.mathtools.weighted_shuffle, items, w,
                                *rng, **kw), 'weighted_shuffle')
            if (repr(items), repr(w)) != was:
                raise Violation('input-changed', 'weighted_shuffle changed '
                                f'its items or weights: {was[1][:200]} to '
                                f'{w!r:.200}')
            res.append((list(out), out))
            out.reverse()
            out.append('junk')
        run.record('direct', res[0][0], res[1][0])
        n = len(d['w']) if d['k'] is None else d['k']
        for got, _ in res:
            if len(got) != n or not all(world.inlist(v, list(items))
                                        for v in got):
                raise Violation('consumer-reaches-in', 'weighted_shuffle '
                                f'gave {got!r:.250}')

    @staticmethod
    def shuffled(rng, g):
        """Emitters most likely to hand out their own insides."""
        k = rng.choice(['noreplace', 'single', 'static', 'roac', 'all'])
        if k == 'noreplace':
            return g.choice('any', replace=False, roac=False, lo=1, hi=12)
        if k == 'single':
            return g.choice('any', replace=True, roac=rng.random() < .5,
                            lo=1, hi=1)
        if k == 'roac':
            return g.choice('any', replace=True, roac=True, lo=1, hi=12)
        if k == 'static':
            return {'k': 'static', 'v': 'v'}
        return {'k': 'seq', 'items': g.items('any', 1, 8)}

    def execute(self, run, plan):
        lib = seams.boot()
        spec = plan['spec']
        a_ctx, b_ctx = world.Ctx(lib), world.Ctx(lib)
        a = Subject(run, spec, lib, ctx=a_ctx)       # hostile consumer
        b = Subject(run, spec, lib, ctx=b_ctx)       # polite consumer
        if plan['weights']:
            # Weights are documented as immutable once given.
            for what, obj, _ in a_ctx.given:
                if what == 'weights':
                    for i in range(len(obj)):
                        obj[i] = 0.0 if i else 7.0
            a_ctx.given = [x for x in a_ctx.given if x[0] != 'weights' and
                           not self.reuse(x[1])]
        kept = []
        for op in plan['ops']:
            o = op['o']
            run.count('op:' + o)
            if o == 'reset':
                must(a.reset(), 'reset')
                must(b.reset(), 'reset')
            elif o == 'seed':
                must(a.seed(op['s']), 'seed')
                must(b.seed(op['s']), 'seed')
            elif o == 'lists':
                self.lists(a, op['how2'])
            elif o == 'weights':
                if world.is_choice(spec) and len(op['v']) == world.nitems(
                        spec):
                    self.reweigh(run, (a, b), op)
                    must(a.reset(), 'reset')
                    must(b.reset(), 'reset')
            else:
                x = a.emit(op['n'], arm=op.get('arm'), how=op['how'])
                y = b.emit(op['n'], arm=op.get('arm'), how=op['how'])
                if x is None:
                    continue
                n, x = x
                y = y[1]
                for out in (x, y):
                    if not out.ok and not out.fired:
                        must(out, f'request({n})')
                run.record('call', n, y.key()[:300])
                run.state('C12', spec['k'], n, op['how2'], y.key()[:60])
                if x.key() != y.key():
                    raise Violation('consumer-reaches-in', 'after a consumer '
                                    'changed the data it was given, the next '
                                    f'data was {x.key()[:250]} instead of '
                                    f'{y.key()[:250]}')
                if x.ok:
                    if spec['k'] == 'schema':
                        self.apart(a.obj, spec, x.value)
                    self.spoil(spec, n, x.value, op['how2'])
                    kept.append((y.value, norm(y.value)))
            if o == 'call' and (x.ok or op['arm']['t'] != 'intr'):
                # `previous` is given data too; a consumer may change it.
                oa = observe(run, a.obj, spec, True, ('previous',))
                ob = observe(run, b.obj, spec, True, ('previous',))
                if oa != ob:
                    raise Violation('consumer-reaches-in', 'after a consumer '
                                    'changed the data it was given, it '
                                    f'reports {oa[:300]} instead of '
                                    f'{ob[:300]}')
            for val, was in kept:
                if norm(val) != was:
                    raise Violation('emitted-data-changes', 'data already '
                                    f'given out changed from {was[:250]} to '
                                    f'{norm(val)[:250]}')
        x, y = drain(a, plan['reqs']), drain(b, plan['reqs'])
        if x != y:
            raise Violation('consumer-reaches-in', 'after a consumer changed '
                            f'the data it was given: {str(x)[:250]} instead '
                            f'of {str(y)[:250]}')
        for d in plan.get('direct', ()):
            self.direct(run, lib, d)
        for ctx in (a_ctx, b_ctx):
            for what, obj, was in ctx.given:
                if repr(obj) != was:
                    raise Violation('input-changed', f'the {what} given to '
                                    f'fauxdoc changed from {was[:250]} to '
                                    f'{obj!r:.250}')

    @classmethod
    def apart(cls, obj, spec, record):
        """A list of copied values is a list of its own."""
        fields = {f['name']: f for f in spec['fields']}

        def sources(f):
            src = f['em'].get('src')
            if f['em']['k'] not in ('copy', 'based') or src is None:
                return set()
            out = set(src if isinstance(src, list) else [src])
            for name in list(out):
                out |= sources(fields[name])
            return out

        for name, f in fields.items():
            val = record.get(name)
            if f['em']['k'] != 'copy' or f.get('rep') or f['em'].get('sep') \
                    is not None or not isinstance(val, list):
                continue
            src = f['em']['src']
            if not isinstance(src, list) and fields[src].get('rep') is None:
                continue
            if isinstance(src, list) or obj.fields[src].multi_valued:
                others = [o for o in fields
                          if o != name and name not in sources(fields[o])]
                was = [(norm(record.get(o)), norm(obj.fields[o].previous))
                       for o in others]
                val.append('junk')
                now = [(norm(record.get(o)), norm(obj.fields[o].previous))
                       for o in others]
                val.pop()
                if was != now:
                    raise Violation('consumer-reaches-in', 'changing the '
                                    f'list that {name} copied changed other '
                                    'values of the record, or what its '
                                    'sources say they gave')

    @staticmethod
    def reuse(obj):
        """Changes a collection of parts or fields that was handed over."""
        if isinstance(obj, dict):
            for key in list(obj):
                obj[key + 'x'] = obj.pop(key)
            obj['junk'] = None
        elif isinstance(obj, (list, UserList)) and obj and hasattr(
                obj[0], 'previous'):
            obj.reverse()
            obj.append(obj[0])
        else:
            return False
        return True

    @staticmethod
    def reweigh(run, subjects, op):
        """Gives choices new weights, and then uses the list again."""
        for x in subjects:
            w = list(op['v'])
            if op['cum']:
                w = list(itertools.accumulate(w))
            must(run.call(setattr, x.obj, 'cum_weights' if op['cum'] else
                          'weights', w), 'weights')
            if x is subjects[0]:
                w.reverse()
                w[:] = [i + 1 for i in w]

    @staticmethod
    def lists(a, how):
        """Changes the lists of fields a schema gives out."""
        if a.kind != 'schema':
            return
        for m in (a.obj.hidden_fields, a.obj.public_fields):
            if how == 'clear':
                m.clear()
            else:
                m['zzz'] = None

    @classmethod
    def spoil(cls, spec, n, value, how):
        if spec['k'] == 'schema':
            for f in spec['fields']:
                if f['name'] in value and cls.owned(spec, f):
                    cls.spoil_list(value[f['name']], how)
            if how in ('clear', 'pop', 'sort'):
                value.clear()
            else:
                value['junk'] = 'junk'
                for k in list(value):
                    value[k] = None
        elif spec['k'] == 'field':
            if cls.owned(None, spec):
                cls.spoil_list(value, how)
        elif n is not None:
            cls.spoil_list(value, how)

    @staticmethod
    def owned(schema, f):
        """Whether a list this field gives is the library's to make."""
        rep = f.get('rep')
        if rep and not (rep['k'] == 'static' and rep['v'] is None):
            return True
        if f['em']['k'] == 'copy' and f['em'].get('sep') is None:
            return isinstance(f['em']['src'], list)
        return False

    @staticmethod
    def spoil_list(value, how):
        if not isinstance(value, list):
            return
        if how == 'clear':
            value.clear()
        elif how == 'append':
            value.append('junk')
        elif how == 'reverse':
            value.reverse()
        elif how == 'set':
            value[:] = ['junk'] * len(value)
        elif how == 'pop':
            if value:
                value.pop()
        elif how == 'sort':
            value.sort(key=repr)


# ==========================================================================
# C13
# ==========================================================================

class Tap:
    """Sits where a part was and writes down what that part delivered."""

    def __init__(self, inner):
        self.inner = inner
        self.got = []
        self.resets = 0

    def __getattr__(self, name):
        if name in ('inner', 'got', 'resets'):
            raise AttributeError(name)
        return getattr(self.inner, name)

    @property
    def rng_seed(self):
        return self.inner.rng_seed

    @rng_seed.setter
    def rng_seed(self, value):
        self.inner.rng_seed = value

    def reset(self):
        self.resets += 1
        self.inner.reset()

    def __call__(self, number=None):
        out = self.inner(number) if number is not None else self.inner()
        if number is None:
            self.got.append(out)
        else:
            self.got.extend(out)
        return out


class C13(Prop):
    """Words and texts are exactly their parts, in order, nothing lost."""

    id = 'C13'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng, unhashable=False)
        kind = rng.choice(['word', 'text', 'text', 'text'])
        if kind == 'word':
            spec = {'k': 'word', 'len': self.ints(rng, g),
                    'alpha': self.chars(rng, g)}
        else:
            p = rng.random()
            if p < .3:
                word = {'k': 'word', 'len': self.ints(rng, g),
                        'alpha': self.chars(rng, g)}
            elif p < .55:
                word = {'k': 'ucount', 'prefix': rng.choice(['w', 'word'])}
                if rng.random() < .2:
                    word['roac'] = True
            elif p < .8:
                n = rng.choice([1, 2, 3, 4, 6, 9])
                word = {'k': 'choice', 'items': {
                    't': 'list', 'v': [f'w{i}' for i in range(n)]},
                    'roac': True, 'replace': True}
                if rng.random() < .5:
                    word['w'] = g.weights(n)
            else:
                word = g.leaf_words()
            spec = {'k': 'text', 'num': self.ints(rng, g), 'word': word}
            if rng.random() < .8:
                spec['sep'] = rng.choice([
                    {'k': 'ucount', 'prefix': '.'},
                    {'k': 'seq', 'items': {'t': 'list',
                                           'v': [' ', '-', ', ']}},
                    {'k': 'choice', 'items': {'t': 'list',
                                              'v': [' ', '-', '; ']}},
                    {'k': 'static', 'v': ''},
                    {'k': 'static', 'v': '--'},
                    {'k': 'choice', 'items': {'t': 'list', 'v': [' ', '/']},
                     'replace': True, 'w': [1, 0]}])
        if rng.random() < .6:
            spec['seed'] = gen_seed_s(rng)
        faults = rng.choice([0, 0, .3])
        ops = []
        for _ in range(rng.randint(3, 12)):
            p = rng.random()
            if p < .84:
                op = {'o': 'call', 'n': gen_n(rng, rng.choice([4, 13])),
                      'how': rng.choice(['call', 'call', 'method'])}
                if rng.random() < faults:
                    op['arm'] = gen_arm(rng, ('fault', 'drawfail', 'draw',
                                              'intr'))
            elif p < .9:
                op = {'o': 'reset'}
            elif p < .95:
                op = {'o': 'seed', 's': gen_seed_s(rng)}
            else:
                op = {'o': 'ints', 'i': rng.randrange(3)}
            ops.append(op)
        return {'spec': spec, 'ops': ops, 'entropy': run,
                'taps': rng.random() < .85}

    @staticmethod
    def ints(rng, g):
        lo = 0 if rng.random() < .6 else 1
        vals = [rng.randint(lo, rng.choice([1, 3, 6]))
                for _ in range(rng.randint(1, 6))]
        k = rng.choice(['seq', 'seq', 'choice', 'static', 'iter', 'poisson'])
        items = {'t': rng.choice(['list', 'tuple']), 'v': vals}
        if k == 'static':
            return {'k': 'static', 'v': vals[0]}
        if k == 'poisson':
            return {'k': 'poisson', 'items': items, 'mu': 2, 'floor': .01}
        if k == 'iter':
            return {'k': 'iter', 'fac': rng.choice(['list', 'gen']),
                    'items': items}
        spec = {'k': k, 'items': items}
        if k == 'choice' and rng.random() < .3:
            spec['w'] = g.weights(len(vals))
        return spec

    @staticmethod
    def chars(rng, g):
        k = rng.choice(['ucount', 'seq', 'choice', 'iter', 'static'])
        items = {'t': 'list', 'v': list(rng.choice(world.ALPHAS))}
        if k == 'ucount':
            return {'k': 'ucount', 'prefix': '.'}
        if k == 'static':
            return {'k': 'static', 'v': 'q'}
        if k == 'iter':
            return {'k': 'iter', 'fac': rng.choice(['list', 'gen']),
                    'items': items}
        return {'k': k, 'items': items}

    def execute(self, run, plan):
        lib = seams.boot()
        spec = plan['spec']
        taps = {}
        ctx = world.Ctx(lib)
        if plan['taps']:
            ctx.tap = lambda label, obj: taps.setdefault(label, Tap(obj))
        sub = Subject(run, spec, lib, ctx=ctx)
        bound = sub.obj.num_unique_values
        seen = set()
        total = collections.Counter()
        ucounts = {}
        for path, s in parts.paths(spec):
            if s['k'] == 'ucount':
                ucounts['.'.join(path)] = s['prefix']
        clean = True
        for op in plan['ops']:
            o, arm = op['o'], op.get('arm')
            run.count('op:' + o)
            if o == 'reset':
                must(sub.reset(), 'reset')
                total.clear()
                clean = True
                continue
            if o == 'seed':
                must(sub.seed(op['s']), 'seed')
                continue
            if o == 'ints':
                self.jump_part(run, sub, op['i'])
                total.clear()
                clean = False
                continue
            for t in taps.values():
                t.got, t.resets = [], 0
            n, out = sub.emit(op['n'], arm=arm, how=op['how'])
            run.record('call', n, out.key()[:300])
            if not out.ok:
                if not faulty(out):
                    must(out, f'request({n})')
                clean = False
                continue
            vals = [out.value] if n is None else out.value
            if not isinstance(vals, list) or len(vals) != (
                    1 if n is None else n):
                raise Violation('wrong-amount', f'request({n}) gave '
                                f'{out.value!r:.200}')
            if any(type(v) is not str for v in vals):
                raise Violation('not-text', f'{vals!r:.200}')
            run.state('C13', spec['k'], n, spec.get('word', {}).get('k'),
                      out.key()[:40])
            seen.update(vals)
            if taps:
                self.assembled(spec, taps, vals)
                self.not_restarted(taps)
                if clean:
                    self.conserved(taps, ucounts, total)
                for name, t in taps.items():
                    total[name] += len(t.got)
        if bound is not None and len(seen) > bound:
            raise Violation('more-values-than-claimed', f'{len(seen)} '
                            'different values came out; num_unique_values '
                            f'said {bound}')

    @staticmethod
    def jump_part(run, sub, i):
        """Someone uses one of the parts on the side."""
        kids = [step for step, _ in world.children(sub.spec)]
        part = parts.obj_step(sub.obj, sub.spec, kids[i % len(kids)])
        must(run.call(part, 1), 'part call')

    @staticmethod
    def not_restarted(taps):
        """A part is only started over for more words than it can give."""
        for name, t in taps.items():
            most = t.inner.num_unique_values if name == 'word' and getattr(
                t.inner, 'replace_only_after_call', False) else None
            if t.resets and (most is None or len(t.got) <= most):
                raise Violation('part-started-over', f'{name} was reset in '
                                f'the middle of a request that took '
                                f'{len(t.got)} of its {most} values')

    @classmethod
    def assembled(cls, spec, taps, vals):
        if spec['k'] == 'word':
            cls.words('', taps, vals)
            return
        nums = taps['num'].got
        words = taps['word'].got
        seps = taps['sep'].got if 'sep' in taps else \
            [' '] * sum(max(0, n - 1) for n in nums)
        if 'word.len' in taps:
            cls.words('word.', taps, words)
        want, wi, si = [], 0, 0
        for n in nums:
            text = ''
            for j in range(n):
                if j:
                    text += seps[si] if si < len(seps) else '<no separator>'
                    si += 1
                text += words[wi] if wi < len(words) else '<no word>'
                wi += 1
            want.append(text)
        if vals != want:
            raise Violation('not-its-parts', f'numbers {nums}, words {words} '
                            f'and separators {seps} made {vals}, not {want}')
        if wi != len(words) or si != len(seps):
            raise Violation('parts-wasted', f'{len(words)} words and '
                            f'{len(seps)} separators were taken to make '
                            f'{vals}, which have {wi} and {si}')

    @staticmethod
    def words(prefix, taps, vals):
        lens = taps[prefix + 'len'].got
        chars = taps[prefix + 'alpha'].got
        want, i = [], 0
        for n in lens:
            want.append(''.join(chars[i:i + n]))
            i += n
        if list(vals) != want:
            raise Violation('not-its-parts', f'lengths {lens} and characters '
                            f'{chars} made {list(vals)}, not {want}')
        if i != len(chars):
            raise Violation('parts-wasted', f'{len(chars)} characters were '
                            f'taken to make {list(vals)}, which have {i}')

    @staticmethod
    def conserved(taps, ucounts, total):
        """Counting parts show that nothing was lost between requests."""
        for name, prefix in ucounts.items():
            got = taps[name].got
            want = [f'{prefix}{total[name] + i}' for i in range(len(got))]
            if got != want:
                raise Violation('parts-wasted', f'{name} delivered {got} to '
                                f'this request; next in line were {want}')


# ==========================================================================
# C14
# ==========================================================================

def chi_limit(df, t=27.0):
    """P(chi-square >= this) <= exp(-t), by Laurent and Massart."""
    return df + 2 * math.sqrt(df * t) + 2 * t


def group(value, n):
    """A few groups of neighbours, where the items are many."""
    return value if n <= 8 else int(value[1:]) * 4 // n


def frequencies(what, counts, probs, trials):
    """Checks observed counts against the probabilities of the outcomes."""
    extra = [k for k in counts if probs.get(k, 0) <= 0 and counts[k]]
    if extra:
        raise Violation('impossible-outcome', f'{what}: {extra[0]} came out '
                        f'{counts[extra[0]]} times; its probability is 0')
    stat, df, rest_e, rest_o = 0.0, -1, 0.0, 0
    for k, p in probs.items():
        e = p * trials
        if e < 12:
            rest_e += e
            rest_o += counts.get(k, 0)
            continue
        stat += (counts.get(k, 0) - e) ** 2 / e
        df += 1
    if rest_e >= 12:
        stat += (rest_o - rest_e) ** 2 / rest_e
        df += 1
    elif rest_o > 12 + rest_e + 10 * math.sqrt(rest_e + 12):
        raise Violation('wrong-frequencies', f'{what}: rare outcomes came '
                        f'{rest_o} times in {trials}, expected '
                        f'{rest_e:.1f}')
    if df < 1:
        return
    if stat > chi_limit(df):
        top = sorted(probs, key=lambda k: -abs(
            counts.get(k, 0) - probs[k] * trials))[:4]
        say = ', '.join(f'{k}: {counts.get(k, 0)} (expected '
                        f'{probs[k] * trials:.0f})' for k in top)
        raise Violation('wrong-frequencies', f'{what}: in {trials} trials '
                        f'{say}; chi-square {stat:.0f} on {df} degrees of '
                        'freedom')


class C14(Prop):
    """How often values come out follows the weights, in every mode."""

    id = 'C14'
    quick_runs = 12000
    thorough_runs = 150000
    shrink_lists = ('ops',)

    def gen(self, rng, run):
        mode = rng.choice(['replace', 'replace', 'noreplace', 'noreplace',
                           'roac', 'chance', 'gate', 'word', 'global'])
        n = rng.choice([2, 2, 3, 4, 5, 8])
        plan = {'mode': mode, 'ops': [], 'entropy': run, 'n': n,
                's': rng.randrange(10 ** 9)}
        kind = rng.choice(['choice'] * 4 + ['poisson', 'gauss'])
        plan['kind'] = kind
        if kind == 'choice':
            if rng.random() < .8:
                plan['w'] = self.weights(rng, n)
            plan['via'] = rng.choice(['ctor', 'ctor-cum', 'set', 'set-cum',
                                      'reset-first'])
            if rng.random() < .2:
                plan['unset'] = True
        else:
            plan['mu'] = rng.choice([1, 2, 3, 4.5])
            plan['sigma'] = rng.choice([1, 2, 3])
            plan['floor'] = rng.choice([0, .05, .2])
        if mode in ('replace', 'noreplace', 'roac', 'global') and \
                rng.random() < .12:
            plan['n'] = n = rng.choice([12, 30, 60, 180, 260, 600])
            if kind == 'choice':
                if 'w' in plan:
                    plan['w'] = self.weights(rng, n)
            else:
                plan['mu'] = rng.choice([1, 4.5, n // 2, n // 3])
                plan['sigma'] = rng.choice([1, 4, n // 5])
                plan['floor'] = rng.choice([0, 0, .001, .02])
        plan['start'] = rng.choice(['as-is', 'toggled', 'toggled'])
        plan['batch'] = rng.choice([0, 1, 2, 3, n, 50,
                                    rng.choice([100, 300, 1000, 3000])])
        plan['k'] = rng.choice([2, n, rng.randint(2, n), rng.randint(2, n)])
        plan['renew'] = rng.choice(['reset', 'seed', 'weights', 'toggle'] + [
                                    'fresh', 'fresh'] * (n < 10))
        if kind == 'choice' and mode in ('replace', 'noreplace', 'roac') and \
                rng.random() < .35:
            # New weights on the way, in one of their two forms.
            plan['then'] = [{'w': self.weights(rng, n),
                             'cum': rng.random() < .5}
                            for _ in range(rng.randint(1, 2))]
        plan['p'] = rng.choice([0, .03, .1, .25, .5, .8, .97, 1, 1.2, -.2,
                                .004, .995, .125, 1 / 3,
                                round(rng.random(), 3)])
        plan['wrap'] = rng.random() < .3
        return plan

    @staticmethod
    def weights(rng, n):
        style = rng.randrange(5)
        if n > 100 and rng.random() < .5:
            # A few stand out, or nothing would.
            w = [1] * n
            for _ in range(rng.randint(1, 3)):
                w[rng.randrange(n)] = n * rng.choice([1, 3])
        elif style == 0:
            w = [rng.randint(1, 9) for _ in range(n)]
        elif style == 1:
            w = [round(rng.uniform(.05, 1), 3) for _ in range(n)]
        elif style == 2:
            w = [1.0 / (i + 1) for i in range(n)]
        elif style == 3:
            w = [rng.choice([1, 100]) for _ in range(n)]
        else:
            w = [rng.choice([0, 1, 2]) for _ in range(n)]
            if not any(w):
                w[0] = 1
        return w

    def env(self, plan):
        return seams.Env(plan.get('entropy', 0), None, draw_budget=10 ** 7,
                         hit_budget=10 ** 7)

    # -- building
    def probs(self, plan):
        n = plan['n']
        if plan['kind'] == 'poisson':
            mu = plan['mu']
            w = [math.exp(-mu + x * math.log(mu) - math.lgamma(x + 1))
                 for x in range(1, n + 1)]
            w = [max(x, plan['floor']) for x in w]
        elif plan['kind'] == 'gauss':
            mu, sg = plan['mu'], plan['sigma']
            w = [math.exp(-.5 * ((x - mu) / sg) ** 2)
                 / (sg * math.sqrt(2 * math.pi)) for x in range(1, n + 1)]
            w = [max(x, plan['floor']) for x in w]
        elif plan.get('w') is None or plan.get('unset'):
            w = [1] * n
        else:
            w = plan['w']
        tot = sum(w)
        return [x / tot for x in w]

    def make(self, run, plan, lib, replace, roac):
        items = [f'i{j}' for j in range(plan['n'])]
        ch = lib.choice
        r0, a0 = replace, roac
        if plan['start'] == 'toggled':
            # Start as something else, become what is wanted.
            r0, a0 = {(True, False): (False, False),
                      (False, False): (True, plan['s'] % 2 == 0),
                      (True, True): (plan['s'] % 2 == 0, False)}[
                          (replace, roac)]
        kw = {'replace': r0, 'replace_only_after_call': a0,
              'rng_seed': plan['s']}
        w = plan.get('w')
        cum = None
        if w is not None:
            acc, cum = 0, []
            for x in w:
                acc += x
                cum.append(acc)
        via = plan.get('via')
        if plan['kind'] == 'poisson':
            em = ch.poisson_choice(items, mu=plan['mu'],
                                   weight_floor=plan['floor'], **kw)
        elif plan['kind'] == 'gauss':
            em = ch.gaussian_choice(items, mu=plan['mu'],
                                    sigma=plan['sigma'],
                                    weight_floor=plan['floor'], **kw)
        elif w is None or via in ('set', 'set-cum', 'reset-first'):
            em = ch.Choice(items, **kw)
        elif via == 'ctor':
            em = ch.Choice(items, weights=w, **kw)
        else:
            em = ch.Choice(items, cum_weights=cum, **kw)
        if w is not None and plan['kind'] == 'choice':
            if via == 'set':
                em.weights = w
            elif via == 'set-cum':
                em.cum_weights = cum
            elif via == 'reset-first':
                em(1)
                em.reset()
                em.weights = w
            if plan.get('unset'):
                em.weights = None
        if plan['start'] == 'toggled':
            if roac:
                em.replace_only_after_call = True
            else:
                if em.replace_only_after_call:
                    em.replace_only_after_call = False
                em.replace = replace
        return em

    def execute(self, run, plan):
        lib = seams.boot()
        seams.ENV.begin_op()
        self.em = None
        getattr(self, 'ex_' + plan['mode'])(run, plan, lib)
        for then in plan.get('then', ()):
            if self.em is None:
                break
            # The same object goes on with other weights.
            plan = {k: v for k, v in plan.items() if k != 'unset'}
            plan['w'] = then['w']
            if plan['renew'] == 'fresh':
                plan['renew'] = 'reset'
            if then['cum']:
                self.em.cum_weights = list(itertools.accumulate(then['w']))
            else:
                self.em.weights = list(then['w'])
            run.count('new_weights')
            getattr(self, 'ex_' + plan['mode'])(run, plan, lib)
        run.record(plan['mode'], plan['s'], seams.ENV.draws)
        run.state('C14', plan['mode'], plan['kind'], plan['n'],
                  plan.get('via'), plan['start'], plan['batch'],
                  plan.get('renew'), bool(plan.get('w')))

    def ask(self, em, plan, total, run):
        """`total` values or a few more, in the plan's batch size."""
        b = plan['batch']
        out = []
        while len(out) < total:
            run.steps += 1
            if b == 0:
                out.append(em())
            else:
                out.extend(em(b))
        run.count('values_drawn', len(out))
        return out

    def ex_replace(self, run, plan, lib):
        if plan['renew'] == 'fresh':
            self.check_seeds(run, plan, lib)
            return
        em = self.em = self.em or self.make(run, plan, lib, True, False)
        con = em
        if plan['wrap']:
            con = lib.wrappers.WrapOne(em, world.fn_ident)
        self.check_stream(run, plan, con)

    def check_seeds(self, run, plan, lib):
        """The first values of many emitters, seeded one after another."""
        firsts, seconds = collections.Counter(), collections.Counter()
        trials = 1500
        for i in range(trials):
            run.steps += 1
            em = self.make(run, dict(plan, s=plan['s'] + i), lib, True, False)
            got = self.ask(em, dict(plan, batch=min(plan['batch'], 3)), 2,
                           run)
            firsts[got[0]] += 1
            seconds[got[1]] += 1
        p = {f'i{j}': x for j, x in enumerate(self.probs(plan))}
        frequencies(f'first of each {plan["kind"]}', firsts, p, trials)
        frequencies(f'second of each {plan["kind"]}', seconds, p, trials)

    def check_stream(self, run, plan, con):
        p = self.probs(plan)
        total = 3000
        got = self.ask(con, plan, total, run)
        single = {f'i{j}': x for j, x in enumerate(p)}
        frequencies(f'{plan["kind"]} single', collections.Counter(got),
                    single, len(got))
        if plan['batch'] == 50:
            # The same place in every batch.
            for at in (0, 49):
                vals = got[at::50]
                frequencies(f'position {at} of each batch',
                            collections.Counter(vals), single, len(vals))
        # One value says nothing about the next, or the one after it.
        n = plan['n']
        rough = [group(v, n) for v in got]
        few = collections.Counter()
        for v, x in single.items():
            few[group(v, n)] += x
        for lag in sorted({1, 2, max(1, min(plan['batch'], 100)), 16, 64,
                           100, 128, 256, 500, 512, 1000, 1024,
                           seams.RealRandom(plan['s']).randint(3, 1200)}):
            pairs = collections.Counter(
                zip(rough[::2 * lag], rough[lag::2 * lag]))
            m = sum(pairs.values())
            frequencies(f'{plan["kind"]} pairs {lag} apart', pairs, {
                (x, y): px * py for x, px in few.items()
                for y, py in few.items()}, m)

    def renewed(self, em, plan, i):
        how = plan['renew']
        if how == 'seed':
            em.seed(plan['s'] + i)
        elif how == 'weights':
            em.weights = em.weights
        elif how == 'toggle':
            em.replace = True
            em.replace = False
        else:
            em.rng_seed = None
            em.reset()

    @staticmethod
    def ordered(p, k):
        """Probability of each ordered first `k` of a draw."""
        out = {(): 1.0}
        for _ in range(k):
            new = {}
            for seq, x in out.items():
                live = [j for j in range(len(p)) if j not in seq and p[j] > 0]
                tot = sum(p[j] for j in live)
                for j in range(len(p)):
                    if j in seq:
                        continue
                    if live:
                        new[seq + (j,)] = x * p[j] / tot
                    else:
                        # Only items with no weight are left: any of them.
                        new[seq + (j,)] = None
                        if x:
                            return None
            out = {q: x or 0 for q, x in new.items()}
        return {tuple(f'i{j}' for j in q): x for q, x in out.items()}

    @staticmethod
    def grouped(p):
        """The same for groups of items, for the first two."""
        n = len(p)
        if sum(x > 0 for x in p) < 2:
            return None
        each = collections.Counter()
        for j, x in enumerate(p):
            each[group(f'i{j}', n)] += x
        out = collections.Counter()
        for j, x in enumerate(p):
            if x <= 0:
                continue
            if x > 1 - 1e-9:
                return None
            a = group(f'i{j}', n)
            for b, y in each.items():
                out[(a, b)] += x * max(
                    0, y - (x if a == b else 0)) / (1 - x)
        return out

    def check_heads(self, what, p, heads, trials):
        """The first few of each draw, in order."""
        n = len(p)
        frequencies(f'first of {what}', collections.Counter(
            h[0] for h in heads), {f'i{j}': x for j, x in enumerate(p)},
            trials)
        # An item with a weight of next to nothing is as good as one of 0.
        if n > 8:
            probs = self.grouped(p)
            if probs is not None and min(x for x in p if x > 0) > 1e-9:
                frequencies(f'first two of {what}', collections.Counter(
                    (group(h[0], n), group(h[1], n)) for h in heads),
                    probs, trials)
            return
        for k in (2, 3, 4):
            if k > min(map(len, heads)) or (k > 2 and n > 5):
                break
            probs = self.ordered(p, k)
            if probs is None:
                break
            frequencies(f'first {k} of {what}', collections.Counter(
                tuple(h[:k]) for h in heads), probs, trials)

    @staticmethod
    def check_places(what, plan, whole, p):
        """Without weights, each place may have any item."""
        if not whole or max(p) - min(p) > 1e-12:
            return
        r = seams.RealRandom(plan['s'])
        n = len(p)
        for at in {0, n - 1, n // 2, r.randrange(n), r.randrange(n)}:
            frequencies(f'place {at} of {what}', collections.Counter(
                w[at] for w in whole), {f'i{j}': 1 / n for j in range(n)},
                len(whole))
        a, b = sorted(r.sample(range(n), 2))
        frequencies(f'order of two items of {what}', collections.Counter(
            w.index(f'i{a}') < w.index(f'i{b}') for w in whole),
            {True: .5, False: .5}, len(whole))

    def ex_noreplace(self, run, plan, lib):
        fresh = plan['renew'] == 'fresh'
        em = self.em or self.make(run, plan, lib, False, False)
        if not fresh:
            self.em = em
        p = self.probs(plan)
        if plan['renew'] == 'weights' and plan.get('unset') is None and \
                em.weights is None:
            plan = dict(plan, renew='reset')
        heads, whole = [], []
        trials = 1500
        for i in range(trials):
            run.steps += 1
            if fresh:
                em = self.make(run, dict(plan, s=plan['s'] + i), lib, False,
                               False)
            else:
                self.renewed(em, plan, i)
            k = min(4, plan['n'])
            if plan['batch'] == 0:
                got = [em() for _ in range(k)]
            elif plan['batch'] == 1:
                got = [em(1)[0] for _ in range(k)]
            elif plan['batch'] == 2:
                got = em(2)
                while len(got) + 2 <= plan['n']:
                    got = got + em(2)
            else:
                got = em(plan['k'])
            heads.append(got[:4])
            if len(got) == plan['n']:
                whole.append(got)
            run.count('values_drawn', len(got))
        what = f'{plan["kind"]} without replacement'
        self.check_heads(what, p, heads, trials)
        self.check_places(what, plan, whole, p)

    def ex_roac(self, run, plan, lib):
        em = self.make(run, plan, lib, True, True)
        if plan['renew'] != 'fresh':
            em = self.em = self.em or em
        p = self.probs(plan)
        if plan['batch'] < 2:
            self.check_stream(run, plan, em)
            return
        trials = 1500
        heads, whole = [], []
        for i in range(trials):
            run.steps += 1
            if plan['renew'] == 'fresh':
                em = self.make(run, dict(plan, s=plan['s'] + i), lib, True,
                               True)
            got = em(plan['k'])
            heads.append(got[:4])
            if len(got) == plan['n']:
                whole.append(got)
        run.count('values_drawn', plan['k'] * trials)
        what = f'{plan["kind"]} replaced after each call'
        self.check_heads(what, p, heads, trials)
        self.check_places(what, plan, whole, p)

    def ex_chance(self, run, plan, lib):
        p = min(1, max(0, plan['p']))
        em = lib.choice.chance(plan['p'], rng_seed=plan['s'])
        rare = min(p, 1 - p)
        total = min(60000, int(300 / rare)) if 0 < rare < .1 else 3000
        got = self.ask(em, plan, total, run)
        frequencies(f'chance({plan["p"]})', collections.Counter(got),
                    {True: p, False: 1 - p}, len(got))

    def ex_gate(self, run, plan, lib):
        """A gated, repeated field."""
        p = min(1, max(0, plan['p']))
        em = self.make(run, plan, lib, True, False)
        rep = lib.choice.Choice([1, 2, 3], [5, 3, 2])
        f = lib.profile.Field('f', em, repeat=rep,
                              gate=lib.choice.chance(plan['p']))
        # Unseeded parts, so that gate, repeat and data are independent.
        trials = 2000
        out = collections.Counter()
        vals = collections.Counter()
        for _ in range(trials):
            run.steps += 1
            v = f()
            out[None if v is None else len(v)] += 1
            vals.update(v or [])
        run.count('values_drawn', trials)
        frequencies('gate and repeat of a field', out,
                    {None: 1 - p, 1: p * .5, 2: p * .3, 3: p * .2}, trials)
        if sum(vals.values()):
            frequencies('values of a gated field', vals,
                        {f'i{j}': x for j, x in enumerate(self.probs(plan))},
                        sum(vals.values()))

    def ex_word(self, run, plan, lib):
        w = [1, 2, 3, 4]
        word = lib.text.Word(
            lib.choice.Choice([1, 2, 3, 4], w),
            lib.choice.Choice('abc', cum_weights=[2, 3, 6]),
            rng_seed=None)
        con = word
        if plan['wrap']:
            con = lib.text.Text(lib.fixed.Static(1), word)
        got = self.ask(con, plan, 2000, run)
        frequencies('word lengths', collections.Counter(map(len, got)),
                    {i + 1: x / 10 for i, x in enumerate(w)}, len(got))
        for at, name in ((0, 'first'), (-1, 'last')):
            frequencies(f'{name} characters', collections.Counter(
                v[at] for v in got), {'a': 2 / 6, 'b': 1 / 6, 'c': 3 / 6},
                len(got))

    def ex_global(self, run, plan, lib):
        """weighted_shuffle as users call it, with and without its rng."""
        p = self.probs(plan)
        n = plan['n']
        items = [f'i{j}' for j in range(n)]
        scale = 7.5 if plan['s'] % 2 else 1
        w = [x * scale for x in p]
        trials = 1500
        heads, whole = [], []
        rng = seams.random.Random(plan['s'])
        k = min(plan['k'], n)
        for _ in range(trials):
            run.steps += 1
            if plan['wrap']:
                got = lib.mathtools.weighted_shuffle(items, w, rng)
            else:
                got = lib.mathtools.weighted_shuffle(items, w, rng, number=k)
            heads.append(got[:4])
            if len(got) == n:
                whole.append(got)
        run.count('values_drawn', k * trials)
        self.check_heads('weighted_shuffle', p, heads, trials)
        self.check_places('weighted_shuffle', plan, whole, p)


# ==========================================================================
# C15
# ==========================================================================

class C15(Prop):
    """Deriving from fields leaves those fields as they were."""

    id = 'C15'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng)
        g.depth = 1
        fields = []
        for i in range(rng.randint(1, 4)):
            if rng.random() < .5:
                f = {'k': 'field', 'name': f'f{i}', 'hide': False,
                     'em': {'k': 'ucount', 'prefix': f'f{i}.'}}
                if rng.random() < .5:
                    f['rep'] = {'k': 'static', 'v': rng.randint(0, 3)}
                if rng.random() < .3:
                    f['gate'] = {'k': 'seq', 'items': {
                        't': 'list', 'v': [True, False, True]}}
                elif rng.random() < .25:
                    # Not a Field, but like one.
                    f['user'] = rng.choice(['UField', 'UField2'])
            else:
                f = g.field(f'f{i}', 1, hide=False)
            fields.append(with_seed(f, gen_seed_s(rng)))
        ops = []
        ders = 0
        for _ in range(rng.randint(4, 16)):
            p = rng.random()
            n = rng.randint(1, min(3, len(fields)))
            src = rng.sample(range(len(fields)), n)
            act = rng.choice(sorted(world.ACT1 if n == 1 else world.ACTN))
            one = n == 1 and rng.random() < .6
            if p < .28 or not ders:
                ders += 1
                op = {'o': 'derive', 'kind': rng.choice(['copy', 'based',
                                                         'based']),
                      'src': src, 'one': one, 'fn': act,
                      'sep': rng.choice([None, ' ']),
                      'field': rng.random() < .25}
            elif p < .4:
                op = {'o': 'source', 'i': rng.randrange(ders), 'src': src,
                      'one': one,
                      'how': rng.choice(['same', 'set', 'attr', 'slice',
                                         'append', 'pop'])}
            elif p < .62:
                op = {'o': 'action', 'i': rng.randrange(ders),
                      'r': rng.random(),
                      'how': rng.choice(['set', 'bound']),
                      'bad': rng.random() < .2}
            elif p < .7:
                op = {'o': 'emit', 'i': rng.randrange(ders),
                      'n': gen_n(rng, 5)}
            elif p < .76:
                op = {'o': rng.choice(['dreset', 'dseed', 'look']),
                      'i': rng.randrange(ders), 's': gen_seed_s(rng)}
            elif p < .8:
                op = {'o': rng.choice(['reset_source', 'seed_source']),
                      'i': rng.randrange(ders), 's': gen_seed_s(rng)}
            else:
                op = {'o': 'call', 'f': rng.randrange(len(fields))}
            if op['o'] in ('emit', 'action') and rng.random() < .2:
                op['arm'] = gen_arm(rng, ('fault',), parts=('action',))
            ops.append(op)
        plan = {'fields': fields, 'ops': ops, 'const': rng.randrange(1, 9999)}
        if rng.random() < .03:
            plan['unused'] = {'n': rng.randint(1, 2), 'r': rng.random()}
        return plan

    def unused(self, run, lib, u):
        """A rejected action on sources that have given nothing yet."""
        ctx = world.Ctx(lib)
        src = [world.build({'k': 'field', 'name': f'v{i}', 'hide': False,
                            'em': {'k': 'ucount', 'prefix': f'v{i}.'}},
                           lib, ctx) for i in range(u['n'])]
        bads = world.FN_BAD1 if u['n'] == 1 else world.FN_BADN
        names = sorted(bads)
        name = names[int(u['r'] * len(names))]
        out = run.call(lib.fromfields.BasedOnFields, src, bads[name])
        if out.ok:
            raise Violation('bad-change-accepted', 'an action with the wrong '
                            f'signature ({name}) was accepted')
        for i, f in enumerate(src):
            if f.previous is not None or f() != f'v{i}.0':
                raise Violation('rejected-action-asks-unused-source',
                                f'rejecting an action ({name}) asked a source '
                                'field that had given no value yet for one')

    def execute(self, run, plan):
        self.derive(run, plan)
        if plan.get('unused'):
            self.unused(run, seams.boot(), plan['unused'])

    def derive(self, run, plan):
        lib = seams.boot()
        specs = plan['fields']
        a_ctx, b_ctx = world.Ctx(lib), world.Ctx(lib)
        A = [must(run.call(world.build, f, lib, a_ctx), 'construction')
             for f in specs]
        B = [must(run.call(world.build, f, lib, b_ctx), 'construction')
             for f in specs]
        left = [world.pool(f) for f in specs]
        ders = []                 # (emitter, kind, source indexes, one)
        for op in plan['ops']:
            o, arm = op['o'], op.get('arm')
            run.count('op:' + o)
            if o == 'call':
                i = op['f'] % len(A)
                if left[i] < 1:
                    continue
                left[i] -= 1
                x, y = run.call(A[i]), run.call(B[i])
                must(y, 'field call')
                run.record('call', i, y.key()[:200])
                if x.key() != y.key():
                    raise Violation('source-disturbed', f'{specs[i]["name"]} '
                                    f'gave {x.key()[:200]}; without fields '
                                    f'derived from it, {y.key()[:200]}')
            else:
                self.derived_op(run, lib, op, arm, A, B, specs, ders, left)
            self.same(run, A, B, specs, o)
        # What comes later is undisturbed too.
        for i, f in enumerate(specs):
            for _ in range(2):
                if left[i] < 1:
                    break
                left[i] -= 1
                x, y = run.call(A[i]), must(run.call(B[i]), 'field call')
                if not x.ok or norm(x.value) != norm(y):
                    raise Violation('source-disturbed', f'{f["name"]} gave '
                                    f'{x.key()[:200]}; without fields '
                                    f'derived from it, {norm(y)[:200]}')

    @staticmethod
    def same(run, A, B, specs, o):
        for a, b, f in zip(A, B, specs):
            if norm(a.previous) != norm(b.previous):
                raise Violation('source-disturbed', f'{o} changed '
                                f'{f["name"]}.previous from '
                                f'{b.previous!r:.150} to {a.previous!r:.150}')
            for x in ('emitter', 'repeat_emitter', 'gate_emitter'):
                ea, eb = getattr(a, x, None), getattr(b, x, None)
                if getattr(ea, 'asked', 0) != getattr(eb, 'asked', 0) or \
                        getattr(ea, 'resets', 0) != getattr(eb, 'resets', 0):
                    raise Violation('source-disturbed', f'{o} used the '
                                    f'{x} of {f["name"]}')

    @staticmethod
    def new_source(run, lib, op, d, A):
        em, kind, old, _ = d
        how = op.get('how', 'same')
        new = list(dict.fromkeys(i % len(A) for i in op.get('src', old)))
        if how == 'append':
            new = old + [i for i in new if i not in old]
        elif how == 'pop':
            new = old[:-1] or old
        if how == 'same' or (kind == 'based'
                             and (len(new) > 1) != (len(old) > 1)):
            new = list(old)
        src = [A[i] for i in new]
        one = len(new) == 1 and op.get('one')
        if how in ('same', 'set'):
            must(run.call(em.set_source_fields, src[0] if one else src),
                 'set_source_fields')
        elif how == 'attr':
            em.source = must(run.call(lib.fromfields.SourceFieldGroup,
                                      src[0] if one else src), 'a source')
        elif how == 'slice':
            em.source[:] = src
        elif how == 'append':
            for f in src[len(old):]:
                em.source.append(f)
        elif how == 'pop' and len(new) < len(old):
            em.source.pop()
        d[2] = new

    def derived_op(self, run, lib, op, arm, A, B, specs, ders, left):
        o = op['o']
        if o == 'derive':
            idx = [i % len(A) for i in op['src']]
            idx = list(dict.fromkeys(idx))
            one = op['one'] and len(idx) == 1
            src = A[idx[0]] if one else [A[i] for i in idx]
            table = world.ACT1 if len(idx) == 1 else world.ACTN
            if op['kind'] == 'copy':
                out = run.call(lib.fromfields.CopyFields, src, op['sep'])
            else:
                fn = table.get(op['fn']) or table[sorted(table)[0]]
                out = run.call(lib.fromfields.BasedOnFields, src, fn, 5)
            em = must(out, f'deriving ({op["kind"]})')
            fld = None
            if op.get('field'):
                fld = must(run.call(lib.profile.Field, 'derived', em,
                                    rng_seed=3), 'construction')
            ders.append([em, op['kind'], idx, fld])
            return
        if not ders:
            return
        d = ders[op['i'] % len(ders)]
        em, kind, idx, fld = d
        if o == 'source':
            self.new_source(run, lib, op, d, A)
        elif o == 'action':
            if kind != 'based':
                return
            table = world.ACT1 if len(idx) == 1 else world.ACTN
            names = sorted(table)
            fn = table[names[int(op['r'] * len(names))]]
            if op['bad']:
                # Not claimed while a source has no value to show.
                if any(A[i].previous is None for i in idx):
                    return
                bads = world.FN_BAD1 if len(idx) == 1 else world.FN_BADN
                names = sorted(bads)
                fn = bads[names[int(op['r'] * len(names))]]
                if len(idx) > 1:
                    fn = bads['wrong']
            if op['how'] == 'set':
                out = run.call(em.set_action_function, fn, arm=arm)
            else:
                out = run.call(setattr, em, 'action',
                               lib.wrappers.BoundWrapper(fn, em), arm=arm)
            if op['bad']:
                if out.ok:
                    raise Violation('bad-change-accepted', 'an action with '
                                    'the wrong signature was accepted')
            elif not out.ok and not faulty(out):
                must(out, 'action')
        elif o == 'emit':
            if fld is not None:
                op = dict(op, n=None)
                out = run.call(fld, arm=arm)
            elif op['n'] is None:
                out = run.call(em, arm=arm)
            else:
                out = run.call(em, op['n'], arm=arm)
            run.record('emit', out.key()[:200])
            if not out.ok and not faulty(out):
                must(out, 'derived request')
            if out.ok and op['n'] is not None and len(out.value) != op['n']:
                raise Violation('wrong-amount', f'{op["n"]} requested, got '
                                f'{out.value!r:.200}')
            run.state('C15', kind, len(idx), op['n'], out.key()[:40])
        elif o == 'dreset':
            must(run.call((fld or em).reset), 'reset')
        elif o == 'dseed':
            if hasattr(fld or em, 'seed'):
                must(run.call((fld or em).seed, op['s']), 'seed')
        elif o == 'look':
            sv = must(run.call(getattr, em, 'single_valued')
                      if hasattr(em, 'single_valued') else
                      Outcome(True, None), 'single_valued')
            must(run.call(getattr, em, 'num_unique_values'), 'reading')
            must(run.call(getattr, em, 'emits_unique_values'), 'reading')
            del sv
        elif o == 'reset_source':
            must(run.call(em.reset_source), 'reset_source')
            for i in idx:
                must(run.call(getattr(B[i], 'reset', int)), 'reset')
                left[i] = world.pool(specs[i])
        elif o == 'seed_source':
            if not hasattr(em, 'seed_source'):
                return
            must(run.call(em.seed_source, op['s']), 'seed_source')
            for i in idx:
                must(run.call(getattr(B[i], 'seed', str), op['s']), 'seed')
                # Seeding one that selects without replacement restarts it
                # in part; only what is surely left may be asked for.
        else:
            raise HarnessError(o)


PROPS_C = [C12, C13, C14, C15]
del copy, History
