"""C07-C11: fields, schemas, cycling, faults, reconfiguration."""
import collections
import copy
import decimal
from sim import seams, world, parts
from sim.execu import (Violation, Subject, must, faulty, gen_arm, drain,
                       observe)
from sim.props_a import (Prop, History, gen_history, gen_root, gen_n,
                         gen_seed_s, with_seed, needs_user_hits, C06)
from sim.seams import HarnessError
from sim.world import G, norm, items_of


# ==========================================================================
# C07
# ==========================================================================

class C07(Prop):
    """One field call: gate, then repeat, then data, and `previous`."""

    id = 'C07'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng)
        spec = self.gen_field(g, rng)
        spec['seed'] = gen_seed_s(rng) if rng.random() < .8 else None
        faults = rng.choice([0, .2, .4])
        ops = []
        cur = spec
        for _ in range(rng.randint(4, 20)):
            p = rng.random()
            if p < .75:
                op = {'o': 'call'}
                if rng.random() < faults:
                    op['arm'] = gen_arm(rng, ('fault', 'fault', 'intr',
                                              'drawfail'))
            elif p < .82:
                op = {'o': 'reset'}
            elif p < .86:
                op = {'o': 'seed', 's': gen_seed_s(rng)}
            elif p < .93:
                op = {'o': 'part', 'slot': rng.choice(['rep', 'gate']),
                      'x': rng.randrange(10 ** 6)}
            else:
                ch = parts.gen_change(g, cur)
                if ch is None or not parts.change_ok(cur, [], ch):
                    continue
                cur = parts.change_spec(cur, ch)
                op = {'o': 'cfg', 'ch': ch}
            ops.append(op)
        return {'spec': spec, 'ops': ops, 'const': rng.randrange(1, 99999)}

    @staticmethod
    def gen_field(g, rng):
        spec = g.field('f0')
        if rng.random() < .4:
            spec['em'] = {'k': 'ucount', 'prefix': 'd'}
        if rng.random() < .5:
            vals = [rng.choice([True, False, 1, 0, None, 'yes', ''])
                    for _ in range(rng.randint(1, 6))]
            spec['gate'] = {'k': 'seq', 'items': {'t': 'list', 'v': vals}}
        if rng.random() < .5 and world.cap(spec['em']) >= 4 and \
                world.pool(spec['em']) >= 40:
            vals = [rng.randint(0, 4) for _ in range(rng.randint(1, 5))]
            if rng.random() < .15:
                vals.insert(rng.randrange(len(vals) + 1), None)
            spec['rep'] = {'k': rng.choice(['seq', 'choice']),
                           'items': {'t': rng.choice(['list', 'list',
                                                      'tuple']), 'v': vals}}
        elif rng.random() < .1:
            spec['rep'] = {'k': 'static', 'v': None}
        elif rng.random() < .03 and world.cap(spec['em']) >= world.INF and \
                world.pool(spec['em']) >= world.INF:
            # Very many values.
            spec['rep'] = {'k': 'seq', 'items': {'t': 'list', 'v': [
                rng.choice([1, 64, 101, 150, 257, 520, 1030, 2100])
                for _ in range(rng.randint(1, 3))]}}
        elif rng.random() < .05:
            spec['rep'] = {'k': rng.choice(['choice', 'seq']), 'items': {
                't': rng.choice(['list', 'tuple', 'useq']),
                'v': [None] * rng.choice([1, 1, 2])}}
        return spec

    class Twin:
        """The same three emitters, driven by the documented rule."""

        def __init__(self, run, spec, lib):
            self.run = run
            self.lib = lib
            s = spec.get('seed')
            self.em = self.part(spec['em'], s)
            self.rep = self.part(spec.get('rep') or {'k': 'static',
                                                     'v': None}, s)
            self.gate = self.part(spec.get('gate') or {'k': 'static',
                                                       'v': True}, s)

        def part(self, spec, s):
            p = must(self.run.call(world.build, spec, self.lib,
                                   world.Ctx(self.lib), s), 'construction')
            if hasattr(p, 'reset'):
                must(self.run.call(p.reset), 'reset')
            return p

        def __call__(self):
            if not self.gate():
                return None
            r = self.rep()
            return self.em() if r is None else self.em(r)

    def execute(self, run, plan):
        lib = seams.boot()
        h = History(run, plan['spec'], lib)
        twin = self.Twin(run, h.spec, lib)
        last = None
        self.multi(h)
        for op in plan['ops']:
            o = op['o']
            run.count('op:' + o)
            if o == 'call':
                got = h.sub.emit(None, arm=op.get('arm'))
                if got is None:
                    must(h.sub.reset(), 'reset')
                    twin = self.Twin(run, h.spec, lib)
                    last = None
                    continue
                out = got[1]
                run.record('call', out.key()[:200])
                if not out.ok:
                    if not faulty(out):
                        must(out, 'field call')
                    prev = h.sub.obj.previous
                    if out.arm['t'] != 'intr' and \
                            norm(prev) not in (norm(last), 'None'):
                        raise Violation('previous-wrong', 'after a failed '
                                        f'call previous is {prev!r:.200}, '
                                        f'the last value was {last!r:.200}')
                    must(h.sub.reset(), 'reset')
                    twin = self.Twin(run, h.spec, lib)
                    last = None
                    continue
                want = must(run.call(twin), 'the same parts, directly')
                if norm(out.value) != norm(want):
                    raise Violation('field-rule', f'field gave '
                                    f'{out.value!r:.200}; its gate, repeat '
                                    f'and emitter give {want!r:.200}')
                last = out.value
                prev = must(run.call(getattr, h.sub.obj, 'previous'),
                            'previous')
                if norm(prev) != norm(out.value):
                    raise Violation('previous-wrong', f'the call gave '
                                    f'{out.value!r:.200}, previous is '
                                    f'{prev!r:.200}')
                self.shape(h, out.value)
                run.state('C07', h.spec['em']['k'],
                          h.spec.get('rep', {}).get('k'),
                          h.spec.get('gate', {}).get('k'), out.key()[:40])
            elif o == 'reset':
                h.apply(op)
                twin = self.Twin(run, h.spec, lib)
                last = None
                if h.sub.obj.previous is not None:
                    raise Violation('previous-wrong', 'previous is '
                                    f'{h.sub.obj.previous!r:.200} after a '
                                    'reset')
            elif o == 'seed':
                h.apply(op)
                prev = h.sub.obj.previous
                if norm(prev) != norm(last):
                    raise Violation('previous-wrong', 'seeding changed '
                                    f'previous to {prev!r:.200}')
                must(h.sub.reset(), 'reset')
                twin = self.Twin(run, h.spec, lib)
                last = None
            elif o == 'part':
                self.set_part(run, h, twin, op)
                self.multi(h)
            elif o == 'cfg':
                if not parts.change_ok(h.spec, [], op['ch']):
                    continue
                h.apply({'o': 'cfg', 'path': [], 'ch': op['ch']})
                self.multi(h)
                prev = h.sub.obj.previous
                restarted = (op['ch']['c'] == 'swap'
                             and h.sub.pool < world.INF)
                if norm(prev) != norm(None if restarted else last):
                    raise Violation('previous-wrong', 'reconfiguring changed '
                                    f'previous to {prev!r:.200}')
                if op['ch']['c'] == 'swap':
                    # The parts that stayed keep their state; the model does
                    # not track a swapped part's own seed, so start again.
                    must(h.sub.reset(), 'reset')
                    twin = self.Twin(run, h.spec, lib)
                    last = None

    @staticmethod
    def set_part(run, h, twin, op):
        """Someone reconfigures the field's own repeat or gate part."""
        slot, r = op['slot'], seams.RealRandom(op['x'])
        spec = h.spec.get(slot) or {'k': 'static',
                                    'v': None if slot == 'rep' else True}
        if world.cap(h.spec['em']) < 4 or h.sub.pool < world.INF or \
                'share' in spec:
            return
        if spec['k'] == 'static':
            v = r.choice([None, 0, 1, 2, 3] if slot == 'rep'
                         else [True, False, 1, '', None])
            ch = {'c': 'value', 'v': v}
        elif spec['k'] == 'seq':
            ch = {'c': 'seqfactory', 'v': [
                r.choice([0, 1, 2, 3] if slot == 'rep' else [True, False])
                for _ in range(r.randint(1, 3))]}
        else:
            return
        for obj in (getattr(h.sub.obj, parts.FIELD_ATTRS[slot]),
                    getattr(twin, slot)):
            must(run.call(parts.do_change, obj, spec, ch, h.lib, None),
                 f'setting {slot}')
        new = copy.deepcopy(h.spec)
        new[slot] = parts.change_spec(spec, ch)
        h.set_spec(new)
        run.count('part:' + ch['c'])

    @staticmethod
    def multi(h):
        rep = h.spec.get('rep')
        vals = world.finite_values(rep) if rep else [None]
        want = vals is None or any(v is not None for v in vals)
        got = h.sub.obj.multi_valued
        if bool(got) != want:
            raise Violation('multi-valued-wrong', f'multi_valued is {got} '
                            f'with repeat {rep}')

    @staticmethod
    def shape(h, value):
        rep = h.spec.get('rep')
        vals = world.finite_values(rep) if rep else [None]
        if vals is not None and None in vals and \
                any(v is not None for v in vals):
            # Not a proper repeat: single values and lists may both come.
            if not world.permits_field(h.spec, value) and \
                    not world.permits_field(dict(h.spec, rep=None), value):
                raise Violation('not-permitted', f'field gave {value!r:.200}')
            return
        if h.sub.obj.multi_valued and not (value is None
                                           or isinstance(value, list)):
            raise Violation('multi-valued-wrong', 'a multi-valued field gave '
                            f'{value!r:.200}')
        if not world.permits_field(normal_field(h.spec), value):
            raise Violation('not-permitted', f'field gave {value!r:.200}')


def normal_field(spec):
    """The spec, with a repeat that only emits None left out."""
    rep = spec.get('rep')
    vals = (world.finite_values(rep) or [0]) if rep else [0]
    if all(v is None for v in vals):
        spec = dict(spec)
        del spec['rep']
    return spec


# ==========================================================================
# C08
# ==========================================================================

def copy_expected(spec, srcs):
    """What CopyFields gives for these source values, by its documentation.

    `srcs` is a list of (value, multi_valued).
    """
    if not isinstance(spec['src'], list) and not srcs[0][1]:
        return [srcs[0][0]]
    vals = []
    for v, _ in srcs:
        if v is None:
            continue
        if isinstance(v, (list, tuple)):
            vals.extend(v)
        else:
            vals.append(v)
    if spec.get('sep') is None:
        return [vals or None]
    out = spec['sep'].join(str(v) for v in vals)
    return [out] if vals else [out, None]


def based_matches(spec, srcs, names, got):
    """Whether BasedOnFields could give `got` for these source values."""
    fn = spec['fn']

    def t(v):
        return tuple(v) if isinstance(v, list) else v
    if len(srcs) == 1:
        v = srcs[0][0]
        if fn in ('str', 'bool', 'repr'):
            return norm(got) == norm({'str': str, 'bool': bool,
                                      'repr': repr}[fn](v))
        if fn == 'one':
            return norm(got) == norm(('a', t(v)))
        return (isinstance(got, tuple) and len(got) == 3
                and norm(got[:2]) == norm(('a', t(v)))
                and type(got[2]) is int)
    want = tuple(sorted((n, t(v[0])) for n, v in zip(names, srcs)))
    if fn == 'many':
        return isinstance(got, tuple) and norm(
            tuple(sorted(got, key=lambda p: p[0]))) == norm(want)
    return (isinstance(got, tuple) and len(got) == len(want) + 1
            and norm(got[:-1]) == norm(want) and got[-1][0] == 'rng')


class C08(Prop):
    """A record is coherent: one evaluation per field, derived from this one.
    """

    id = 'C08'
    ODD = ['date made', '', '__all', 'class', 'keys', 'für', 'items', '0',
           'a.b-c', 'name', 'previous', 'values', 'None', ' ', 'f_0']
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng, unhashable=False, noreplace=False)
        self.serial = 0
        fields, names = [], []
        odd = rng.random() < .1
        for i in range(rng.randint(12, 70) if rng.random() < .01
                       else rng.randint(1, 6)):
            name = f'f{i}'
            if odd and i < len(self.ODD):
                name = self.ODD[i]
            f = self.gen_field(g, rng, name, names)
            fields.append(f)
            names.append(f['name'])
        ops = []
        nxt = len(fields)
        faults = rng.choice([0, 0, .25])
        blind = rng.choice([0, .5, 1])
        for _ in range(rng.randint(3, 12)):
            p = rng.random()
            if p < .6:
                op = {'o': 'record'}
                if rng.random() < faults:
                    op['arm'] = gen_arm(rng, ('fault', 'fault', 'intr',
                                              'drawfail'), kmax=8)
            elif p < .7:
                name = f'f{nxt}' if rng.random() < .6 else rng.choice(names)
                nxt += 1
                f = self.gen_field(g, rng, name,
                                   [n for n in names if n != name])
                if name not in names:
                    names.append(name)
                op = {'o': 'add', 'field': f, 'how': rng.choice(
                    ['add', 'add', 'put', 'update'])}
            elif p < .76:
                op = {'o': 'hide', 'name': rng.choice(names),
                      'v': rng.choice([True, True, True, False, False, False,
                                       0, 1, '', 'yes', None])}
            elif p < .79:
                op = {'o': 'direct', 'name': rng.choice(names)}
            elif p < .83:
                op = {'o': 'resrc', 'name': rng.choice(names),
                      'src': [rng.choice(names)
                              for _ in range(rng.randint(1, 3))],
                      'one': rng.random() < .6,
                      'how': rng.choice(['set', 'set', 'append', 'sep',
                                         'act']),
                      'sep': rng.choice([None, ',', '']),
                      'fn': rng.randrange(9)}
            elif p < .86:
                op = {'o': 'del', 'name': rng.choice(names)}
            elif p < .865:
                op = {'o': 'orphan', 'vals': [
                    rng.choice([None, 'a', 7, 2.5, [1, 2], [None, 'b'], []])
                    for _ in range(rng.randint(1, 3))],
                      'one': rng.random() < .5,
                      'based': rng.random() < .4,
                      'sep': rng.choice([None, ',', ''])}
            elif p < .9:
                op = {'o': 'set', 'map': rng.random() < .3,
                      'names': rng.sample(names, rng.randint(0, len(names)))}
            elif p < .91:
                op = {'o': 'move', 'name': rng.choice(names),
                      'last': rng.random() < .5}
            elif p < .95:
                op = {'o': 'reset'}
            else:
                op = {'o': 'seed', 's': gen_seed_s(rng)}
            if rng.random() < blind:
                op['blind'] = True      # nobody reads the lists of fields
            ops.append(op)
        return {'fields': fields, 'ops': ops, 'entropy': run}

    shrink_lists = ('ops', 'fields')

    def gen_field(self, g, rng, name, sources):
        self.serial += 1
        spec = {'k': 'field', 'name': name, 'hide': rng.random() < .3}
        if rng.random() < .1:
            spec['hide'] = rng.choice([0, 1, '', 'x', None])
        if rng.random() < .3:
            spec['seed'] = gen_seed_s(rng)
        if sources and rng.random() < .5:
            n = rng.randint(1, min(3, len(sources)))
            src = rng.sample(list(sources), n)
            if n == 1 and rng.random() < .75:
                src = src[0]
            if rng.random() < .5:
                spec['em'] = {'k': 'copy', 'src': src,
                              'sep': rng.choice([None, None, ' ', '; '])}
            else:
                spec['em'] = {'k': 'based', 'src': src,
                              'fn': rng.choice(sorted(
                                  world.ACT1 if n == 1 else world.ACTN))}
            if isinstance(src, list) and rng.random() < .3:
                spec['em']['coll'] = rng.choice(world.LISTS)
            if rng.random() < .2:
                spec['rep'] = {'k': 'static', 'v': rng.randint(1, 3)}
            if rng.random() < .2:
                spec['gate'] = g.leaf('bool', plain=True)
            return spec
        if rng.random() < .45:
            spec['em'] = {'k': 'ucount', 'prefix': f'{name}.{self.serial}.'}
            if rng.random() < .4:
                spec['rep'] = {'k': 'static', 'v': rng.randint(0, 3)}
            if rng.random() < .15:
                # Not a Field, but like one.
                spec['user'] = rng.choice(['UField', 'UField2'])
            return spec
        em = g.leaf('any', plain=True)
        if em['k'] == 'ucount':
            em = {'k': 'urand'}
        elif rng.random() < .25:
            # Values that could be taken for lists of values.
            em = {'k': 'wrap1', 'src': em, 'fn': rng.choice(
                ['dict', 'bytes', 'fset', 'uval', 'tag'])}
        elif rng.random() < .1:
            em = g.word() if rng.random() < .5 else g.textspec()
            if em['k'] == 'text' and world.is_choice(em['word']):
                em['word'] = {'k': 'static', 'v': 'lorem'}
        spec['em'] = em
        if rng.random() < .4:
            spec['rep'] = g.leaf('int', plain=True)
        if rng.random() < .4:
            spec['gate'] = g.leaf('bool', plain=True)
        return spec

    def execute(self, run, plan):
        lib = seams.boot()
        ctx = world.Ctx(lib)
        specs, objs = {}, {}            # name -> spec / Field, as in ctx
        order = []
        self.pos = {}                   # field object id -> next count

        def make(f):
            out = run.call(self.build, f, lib, ctx)
            obj = must(out, 'construction')
            return obj

        fields = []
        for f in plan['fields']:
            if not self.buildable(f, ctx):
                continue
            obj = make(f)
            fields.append((f, obj))
        schema = must(run.call(lib.profile.Schema,
                               *[o for _, o in fields]), 'construction')
        model = []                      # list of [name, spec, obj]
        for f, o in fields:
            self.put(model, f, o)
        allf = {m[0]: m for m in model}
        for op in plan['ops']:
            o = op['o']
            run.count('op:' + o)
            self.blind = op.get('blind', False)
            if o == 'record':
                self.record(run, schema, model, op.get('arm'))
            elif o == 'resrc':
                m = allf.get(op['name'])
                if m is not None:
                    self.resrc(run, m, allf, op)
            elif o == 'add':
                f = op['field']
                if not self.buildable(f, ctx):
                    continue
                obj = make(f)
                how = op.get('how', 'add')
                if how == 'add':
                    must(run.call(schema.add_fields, obj), 'add_fields')
                elif how == 'put':
                    schema.fields[f['name']] = obj
                else:
                    schema.fields.update({f['name']: obj})
                self.put(model, f, obj)
                allf[f['name']] = [f['name'], f, obj]
                self.lists(run, schema, model)
            elif o == 'hide':
                m = allf.get(op['name'])
                if m is None:
                    continue
                m[2].hide = op['v']
                self.lists(run, schema, model)
            elif o == 'orphan':
                self.orphan(run, lib, op)
            elif o == 'direct':
                m = allf.get(op['name'])
                if m is None:
                    continue
                val = must(run.call(m[2]), 'field call')
                self.counted(m, val, run)
            elif o == 'del':
                if len(model) < 2 or op['name'] not in [m[0] for m in model]:
                    continue
                del schema.fields[op['name']]
                model = [m for m in model if m[0] != op['name']]
                self.lists(run, schema, model)
            elif o == 'move':
                if op['name'] not in [m[0] for m in model]:
                    continue
                schema.fields.move_to_end(op['name'], last=op['last'])
                ms = [m for m in model if m[0] == op['name']]
                rest = [m for m in model if m[0] != op['name']]
                model = rest + ms if op['last'] else ms + rest
                self.lists(run, schema, model)
            elif o == 'set':
                ms = [allf[n] for n in op['names'] if n in allf]
                if op.get('map'):
                    schema.fields = lib.group.ObjectMap(
                        {m[0]: m[2] for m in ms})
                else:
                    must(run.call(schema.set_fields, *[m[2] for m in ms]),
                         'set_fields')
                model = []
                for m in ms:
                    self.put(model, m[1], m[2])
                self.lists(run, schema, model)
            elif o == 'reset':
                must(run.call(schema.reset_fields), 'reset_fields')
                for m in model:
                    if m[1].get('user') == 'UField':
                        continue
                    self.pos[id(m[2])] = 0
                    if m[2].previous is not None:
                        raise Violation('reset-leaves-state',
                                        f'{m[0]}.previous is '
                                        f'{m[2].previous!r:.100}')
            elif o == 'seed':
                must(run.call(schema.seed_fields, op['s']), 'seed_fields')
        del objs, specs, order

    def build(self, f, lib, ctx):
        obj = world.build(f, lib, ctx)
        obj.sim_sources = []
        em = f['em']
        obj.sim_em = None
        if em['k'] in ('copy', 'based'):
            src = em['src'] if isinstance(em['src'], list) else [em['src']]
            obj.sim_sources = [
                s for s in obj.emitter.source]
            assert len(obj.sim_sources) == len(src)
            obj.sim_em = dict(em)
        self.pos[id(obj)] = 0
        return obj

    @staticmethod
    def buildable(f, ctx):
        em = f['em']
        if em['k'] in ('copy', 'based'):
            src = em['src'] if isinstance(em['src'], list) else [em['src']]
            return all(s in ctx.fields for s in src)
        return True

    @staticmethod
    def put(model, f, obj):
        for m in model:
            if m[0] == f['name']:
                m[1], m[2] = f, obj
                return
        model.append([f['name'], f, obj])

    @staticmethod
    def orphan(run, lib, op):
        """Fields that only the emitter derived from them still holds."""
        vals, one = op['vals'], op['one'] and len(op['vals']) == 1
        fields, srcs = [], []
        for i, v in enumerate(vals):
            if isinstance(v, list):
                f = lib.profile.Field(
                    f's{i}', lib.fixed.Sequential(v or ['x']),
                    repeat=lib.fixed.Static(len(v)))
            else:
                f = lib.profile.Field(f's{i}', lib.fixed.Static(v))
            got = must(run.call(f), 'field call')
            if norm(got) != norm(v):
                raise Violation('field-rule', f'gave {got!r}, not {v!r}')
            fields.append(f)
            srcs.append((v, isinstance(v, list)))
        names = [f.name for f in fields]
        spec = {'src': names[0] if one else names, 'sep': op['sep'],
                'fn': 'one' if len(names) == 1 else 'many'}
        arg = fields[0] if one else fields
        if op['based']:
            em = must(run.call(
                lib.fromfields.BasedOnFields, arg,
                world.ACT1['one'] if len(names) == 1
                else world.ACTN['many']), 'construction')
        else:
            em = must(run.call(lib.fromfields.CopyFields, arg, op['sep']),
                      'construction')
        del f, fields, arg
        got = must(run.call(em), 'a derived value')
        if op['based']:
            ok = based_matches(spec, srcs, names, got)
        else:
            ok = any(norm(got) == norm(w) for w in copy_expected(spec, srcs))
        if not ok:
            raise Violation('derived-wrong', f'{spec} gave {got!r:.200}; the '
                            f'sources are {srcs!r:.200}')

    @staticmethod
    def resrc(run, m, allf, op):
        """Changes what a derived field is derived from, and how."""
        obj, em = m[2], m[2].sim_em
        if em is None:
            return
        ms = {n: allf[n] for n in op['src']
              if n in allf and n != op['name']}
        objs = [x[2] for x in ms.values()]
        single = op['one'] and len(objs) == 1
        how = op['how']
        if em['k'] == 'based' and how in ('append', 'sep'):
            how = 'set'
        if how == 'sep':
            obj.emitter.separator = em['sep'] = op['sep']
        elif how == 'act':
            if em['k'] != 'based':
                return
            acts = world.ACT1 if len(obj.sim_sources) == 1 else world.ACTN
            em['fn'] = sorted(acts)[op['fn'] % len(acts)]
            must(run.call(obj.emitter.set_action_function, acts[em['fn']]),
                 'set_action_function')
        elif how == 'append':
            for o in objs:
                obj.emitter.source.append(o)
                obj.sim_sources.append(o)
            if objs:
                em['src'] = [o.name for o in obj.sim_sources]
        elif objs:
            if em['k'] == 'based' and (
                    len(objs) == 1) != (len(obj.sim_sources) == 1):
                return
            must(run.call(obj.emitter.set_source_fields,
                          objs[0] if single else objs), 'set_source_fields')
            obj.sim_sources = list(objs)
            names = [o.name for o in objs]
            em['src'] = names[0] if single else names

    def lists(self, run, schema, model):
        if self.blind:
            return
        want = [m[0] for m in model]
        got = list(schema.fields)
        pub = [m[0] for m in model if not m[2].hide]
        hid = [m[0] for m in model if m[2].hide]
        if (got != want or list(schema.public_fields) != pub
                or list(schema.hidden_fields) != hid):
            raise Violation('field-lists', f'fields {got}, public '
                            f'{list(schema.public_fields)}, hidden '
                            f'{list(schema.hidden_fields)}; expected {want}, '
                            f'{pub}, {hid}')

    def counted(self, m, val, run):
        """A counting field must have been asked exactly once."""
        name, f, obj = m
        if f['em']['k'] != 'ucount':
            return
        p = self.pos[id(obj)]
        prefix = f['em']['prefix']
        if f.get('rep'):
            n = f['rep']['v']
            want = [f'{prefix}{i}' for i in range(p, p + n)]
        else:
            n = 1
            want = f'{prefix}{p}'
        if norm(val) != norm(want):
            raise Violation('not-evaluated-once', f'{name} gave '
                            f'{val!r:.200}; evaluated once per record it '
                            f'would give {want!r:.200}')
        self.pos[id(obj)] = p + n

    def recount(self, run, schema, model):
        """After a failed record: how far each counting field got."""
        for m in model:
            if m[1]['em']['k'] != 'ucount':
                continue
            n = m[1]['rep']['v'] if m[1].get('rep') else 1
            at = m[2].emitter.pos
            p = self.pos[id(m[2])]
            if at not in (p, p + n):
                raise Violation('not-evaluated-once', f'{m[0]} was evaluated '
                                'more than once in a failed record')
            self.pos[id(m[2])] = at

    def record(self, run, schema, model, arm):
        srcs = {}
        for m in model:
            for s in m[2].sim_sources:
                srcs[id(s)] = s
        old = {i: copy.copy(s.previous) for i, s in srcs.items()}
        out = run.call(schema, arm=arm)
        run.record('record', out.key()[:400])
        if not out.ok:
            if not faulty(out):
                must(out, 'record')
            if arm['t'] == 'intr':
                # Interrupted: each field is as it was or one further on.
                must(run.call(schema.reset_fields), 'reset_fields')
                for m in model:
                    self.pos[id(m[2])] = m[2].pos \
                        if m[1].get('user') == 'UField' else 0
            else:
                self.recount(run, schema, model)
            return
        doc = out.value
        if not isinstance(doc, dict):
            raise Violation('not-a-record', f'{doc!r:.200}')
        want = [m[0] for m in model if not m[2].hide]
        if list(doc) != want:
            raise Violation('record-keys', f'record has {list(doc)}, the '
                            f'visible fields are {want}')
        seen = {}
        for name, f, obj in model:
            val = obj.previous
            if name in doc and norm(doc[name]) != norm(val):
                raise Violation('record-incoherent', f'{name} is '
                                f'{doc[name]!r:.150} in the record but '
                                f'{val!r:.150} in the field')
            self.counted([name, f, obj], val, run)
            if f['em']['k'] in ('copy', 'based'):
                self.derived(name, f, obj, val, seen, old)
            elif not world.permits_field(f, val):
                raise Violation('not-permitted', f'{name} gave {val!r:.200}')
            seen[id(obj)] = val
        run.state('C08', len(model), len(doc), str(
            [m[1]['em']['k'] for m in model]), out.key()[:30])

    @staticmethod
    def derived(name, f, obj, val, seen, old):
        em = obj.sim_em
        vals = []
        names = []
        for s in obj.sim_sources:
            v = seen[id(s)] if id(s) in seen else old[id(s)]
            vals.append((v, s.multi_valued))
            names.append(s.name)
        if val is None and f.get('gate'):
            fin = world.finite_values(f['gate'])
            if fin is None or any(not x for x in fin):
                return
        got = val
        if f.get('rep'):
            n = f['rep']['v']
            if not isinstance(val, list) or len(val) != n:
                raise Violation('derived-wrong', f'{name} gave {val!r:.200}, '
                                f'a list of {n} was asked for')
            each = val
        else:
            each = [got]
        for got in each:
            if em['k'] == 'copy':
                ok = any(norm(got) == norm(w)
                         for w in copy_expected(em, vals))
            else:
                ok = based_matches(em, vals, names, got)
            if not ok:
                raise Violation('derived-wrong', f'{name} ({em["k"]} of '
                                f'{em["src"]}) gave {got!r:.200}; its '
                                f'sources in this record are {vals!r:.200}')


# ==========================================================================
# C09
# ==========================================================================

class Passes:
    """A factory whose passes can dry up, fail, or differ, all on a plan."""

    def __init__(self, lengths, kind, dry=()):
        self.lengths = lengths
        self.kind = kind
        self.dry = dry
        self.made = 0
        self.live = []

    def __call__(self):
        seams.ENV.hit('factory')
        i = self.made
        self.made += 1
        n = self.lengths[i % len(self.lengths)]
        if any(a <= i < b for a, b in self.dry):
            n = 0
        items = [f'{i}:{j}:{n}' for j in range(n)]
        if self.kind == 'gen':
            return world._gen(items)
        it = world.ObjIter(items)
        it.passno = i
        self.live.append(it)
        if len(self.live) > 40:
            del self.live[0]
        return it


class C09(Prop):
    """Cycling emitters give exactly their items in order, for ever."""

    id = 'C09'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        mode = rng.choice(['fixed', 'fixed', 'passes'])
        plan = {'mode': mode, 'rac': rng.random() < .3, 'entropy': run}
        n = rng.choice([1, 1, 2, 3, 5, 9])
        if mode == 'fixed':
            plan['kind'] = rng.choice(['seq', 'seq', 'iter'])
            plan['fac'] = rng.choice(['list', 'gen', 'obj'])
            plan['n'] = n
            plan['t'] = rng.choice(['list', 'tuple', 'useq', 'str', 'range',
                                    'dtr', 'hseq'])
            if plan['kind'] == 'iter' and plan['t'] == 'hseq':
                plan['t'] = 'useq'
        else:
            plan['lengths'] = [rng.choice([1, 2, 3, 6])
                               for _ in range(rng.randint(1, 4))]
            plan['fac'] = rng.choice(['gen', 'obj'])
            plan['dry'] = []
            if rng.random() < .5:
                a = rng.randint(2, 6)
                plan['dry'] = [[a, a + rng.choice([1, 1, 2, 3])]]
        faults = rng.choice([0, .2, .5])
        plan['through'] = rng.choice(['direct', 'direct', 'wrap', 'field'])
        ops = []
        for _ in range(rng.randint(3, 14)):
            p = rng.random()
            if p < .75:
                op = {'o': 'call', 'n': rng.choice(
                    [None, None, 0, 1, 2, 3, n, n + 1, 2 * n, 3 * n + 1])}
                if rng.random() < faults:
                    op['arm'] = gen_arm(rng, ('fault',), kmax=8,
                                        parts=('iterator', 'factory',
                                               'iterator'))
            elif p < .85:
                op = {'o': 'reset'}
            elif p < .93:
                op = {'o': 'rac', 'v': rng.random() < .5}
            else:
                op = {'o': 'newfac', 'n': rng.choice([1, 2, 4])}
            ops.append(op)
        if mode == 'fixed' and rng.random() < .04:
            # Very many passes, at once or one value after another.
            ops.insert(rng.randrange(len(ops) + 1), {
                'o': 'call', 'n': n * rng.randint(300, 1300)})
        plan['ops'] = ops
        return plan

    def execute(self, run, plan):
        if plan['mode'] == 'fixed':
            self.fixed(run, plan)
        else:
            self.passes(run, plan)

    @staticmethod
    def items(plan):
        n, t = plan['n'], plan['t']
        if t == 'range':
            return {'t': 'range', 'v': [3, 3 + n]}
        if t == 'dtr':
            return {'t': 'dtr', 'v': ['2024-02-27', n]}
        if t == 'str':
            return {'t': 'str', 'v': 'abcdefghijkl'[:n]}
        return {'t': t, 'v': [f'i{j}' for j in range(n)]}

    @staticmethod
    def through(run, plan, em, lib):
        if plan['through'] == 'wrap':
            return must(run.call(lib.wrappers.WrapOne, em, world.fn_ident),
                        'construction')
        if plan['through'] == 'field':
            return must(run.call(lib.profile.Field, 'f', em,
                                 repeat=lib.fixed.Static(1)), 'construction')
        return em

    @staticmethod
    def ask(run, plan, con, n, arm):
        if plan['through'] == 'field':
            k = 1 if n is None else n
            con.repeat_emitter.value = k
            return k, run.call(con, arm=arm)
        if n is None:
            out = run.call(con, arm=arm)
            if out.ok:
                out.value = [out.value]
            return 1, out
        return n, run.call(con, n, arm=arm)

    def fixed(self, run, plan):
        lib = seams.boot()
        spec = {'k': plan['kind'], 'items': self.items(plan),
                'fac': plan['fac'], 'rac': plan['rac']}
        em = must(run.call(world.build, spec, lib), 'construction')
        con = self.through(run, plan, em, lib)
        items = [norm(i) for i in items_of(spec['items'])]
        pos = {0}                 # positions it may be at
        for op in plan['ops']:
            o, arm = op['o'], op.get('arm')
            run.count('op:' + o)
            if o == 'reset':
                must(run.call(con.reset), 'reset')
                pos = {0}
            elif o == 'rac':
                em.reset_after_call = op['v']
            elif o == 'newfac':
                spec = dict(spec, items={'t': 'list', 'v': [
                    f'k{j}' for j in range(op['n'])]})
                if spec['k'] == 'seq':
                    vals = spec['items']['v']
                    must(run.call(setattr, em, 'iterator_factory',
                                  lambda v=vals: iter(v)), 'new factory')
                    if [norm(i) for i in em.items] != [norm(v)
                                                       for v in vals]:
                        raise Violation('items-stale', f'items are '
                                        f'{list(em.items)}, not {vals}')
                else:
                    must(run.call(setattr, em, 'iterator_factory',
                                  world.make_factory(spec, lib)),
                         'new factory')
                items = [norm(v) for v in spec['items']['v']]
                pos = {0}
            elif o == 'call':
                k, out = self.ask(run, plan, con, op['n'], arm)
                run.record('call', k, out.key()[:200])
                size = len(items)
                if not out.ok:
                    if not faulty(out):
                        must(out, f'request({op["n"]})')
                    # Nothing was delivered; it may have consumed some of
                    # what it was asked for, or start a pass again.
                    pos = {(p + j) % size for p in pos
                           for j in range(min(k, size) + 1)} | {0}
                    if em.reset_after_call:
                        pos = {0}
                    continue
                got = out.value
                if not isinstance(got, list) or len(got) != k:
                    raise Violation('wrong-amount', f'{k} requested, got '
                                    f'{got!r:.200}')
                got = [norm(v) for v in got]
                fit = {p for p in pos if got == [items[(p + j) % size]
                                                 for j in range(k)]}
                if not fit:
                    raise Violation('cycle-broken', f'from position(s) '
                                    f'{sorted(pos)} of {items} it gave '
                                    f'{got}')
                pos = {(p + k) % size for p in fit}
                if em.reset_after_call:
                    pos = {0}
                run.state('C09', spec['k'], size, k, sorted(pos))

    def passes(self, run, plan):
        lib = seams.boot()
        fac = Passes(plan['lengths'], plan['fac'])
        em = must(run.call(lib.fixed.Iterative, fac,
                           reset_after_call=plan['rac']), 'construction')
        con = self.through(run, plan, em, lib)
        fac.dry = [(a + fac.made, b + fac.made) for a, b in plan['dry']]
        last = None               # (pass, index, length) last delivered
        fresh = True              # must start at index 0 of a pass
        loose = False             # after a fault: any later place
        for op in plan['ops']:
            o, arm = op['o'], op.get('arm')
            run.count('op:' + o)
            if o == 'reset':
                must(run.call(con.reset), 'reset')
                fresh, loose = True, False
            elif o == 'rac':
                em.reset_after_call = op['v']
            elif o == 'newfac':
                dry, fac.dry = fac.dry, []
                must(run.call(setattr, em, 'iterator_factory', fac),
                     'new factory')
                fac.dry = [(a + fac.made, b + fac.made)
                           for a, b in plan['dry']]
                del dry
                fresh, loose = True, False
            elif o == 'call':
                made = fac.made
                k, out = self.ask(run, plan, con, op['n'], arm)
                run.record('call', k, out.key()[:200])
                if not out.ok:
                    dried = any(a <= i < b for a, b in fac.dry
                                for i in range(made, fac.made))
                    if not faulty(out) and not (
                            dried and isinstance(out.exc, Exception)
                            and not isinstance(out.exc, StopIteration)):
                        must(out, f'request({op["n"]})')
                    if dried:
                        run.count('dried_up')
                    loose, fresh = True, em.reset_after_call
                    if fresh:
                        loose = False
                    continue
                got = out.value
                if not isinstance(got, list) or len(got) != k:
                    raise Violation('wrong-amount', f'{k} requested, got '
                                    f'{got!r:.200}')
                for tok in got:
                    cur = tuple(int(x) for x in tok.split(':'))
                    if loose:
                        ok = last is None or cur[0] > last[0] or (
                            cur[0] == last[0] and cur[1] > last[1])
                        ok = ok and (cur[1] == 0 or plan['fac'] == 'obj')
                    elif fresh or last is None or last[1] == last[2] - 1:
                        ok = cur[1] == 0 and (last is None
                                              or cur[0] > last[0])
                    else:
                        ok = cur[0] == last[0] and cur[1] == last[1] + 1
                    if not ok:
                        raise Violation('cycle-broken', f'{tok} came after '
                                        f'{last} (pass:index:length; '
                                        f'fresh={fresh}, loose={loose})')
                    last = cur
                    fresh = loose = False
                if got and plan['fac'] == 'obj':
                    for it in fac.live:
                        if it.passno == last[0] and it.i != last[1] + 1:
                            raise Violation(
                                'read-ahead', f'{it.i} values were taken '
                                f'from a pass to deliver {last[1] + 1}')
                if em.reset_after_call and k is not None:
                    fresh = True
                run.state('C09p', k, plan['fac'], last)


# ==========================================================================
# C10
# ==========================================================================

class C10(Prop):
    """What a user's part raises reaches the user, and nothing sticks."""

    id = 'C10'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng, user=True)
        for _ in range(20):
            spec = gen_root(g, rng, schema=.3, field=.25)
            if needs_user_hits(spec):
                break
        if rng.random() < .7:
            spec = with_seed(spec, gen_seed_s(rng))
        ops = []
        cur = spec
        kinds = sorted(seams.EXC_KINDS)
        for _ in range(rng.randint(2, 10)):
            p = rng.random()
            if p < .52:
                op = {'o': 'call', 'n': gen_n(rng, 8),
                      'how': rng.choice(['call', 'call', 'method'])}
            elif p < .66:
                op = {'o': 'reset'}
            elif p < .78:
                op = {'o': 'seed', 's': gen_seed_s(rng)}
            elif p < .88:
                op = {'o': 'build'}
            else:
                q, at = rng.choice(list(parts.paths(cur)))
                ch = parts.gen_change(g, at, q[-1] if q else None)
                if ch is None or ch['c'] not in self.CHANGES or \
                        not parts.change_ok(cur, q, ch):
                    continue
                op = {'o': 'cfg', 'path': q, 'ch': ch}
            if rng.random() < .6:
                op['arm'] = {'t': 'fault', 'part': None, 'exc':
                             rng.choice(kinds + ['AttributeError'] * 4
                                        + ['TypeError'] * 2),
                             'k': min(int(rng.expovariate(.5)), 8)}
                if op['o'] == 'cfg':
                    op['arm']['k'] = rng.choice([0, 0, 0, 1, 2])
                elif op['o'] in ('call', 'reset') and rng.random() < .1:
                    op['arm'] = {'t': 'drawfail', 'exc': rng.choice([
                        'MemoryError', 'OSError', 'NotImplementedError',
                        'KeyboardInterrupt', 'CustomError']),
                        'k': rng.choice([0, 0, 1, 2, 5])}
                elif op['o'] in ('call', 'reset') and rng.random() < .25:
                    op['arm'] = gen_arm(rng, ('intr',))
            if op['o'] == 'cfg' and 'arm' not in op:
                cur = parts.replace_at(cur, q, parts.change_spec(at, ch))
            ops.append(op)
        return {'spec': spec, 'ops': ops, 'const': rng.randrange(1, 9999),
                'reqs': [gen_n(rng, 6) for _ in range(3)]}

    # Changes that run parts of the user's.
    CHANGES = ('factory', 'seqfactory', 'samefactory', 'fn', 'swap', 'rac')

    def execute(self, run, plan):
        lib = seams.boot()
        h = History(run, plan['spec'], lib)
        sub = h.sub
        for op in plan['ops']:
            o, arm = op['o'], op.get('arm')
            run.count('op:' + o)
            if o == 'call':
                got = sub.emit(op['n'], arm=arm, how=op.get('how', 'call'))
                if got is None:
                    must(sub.reset(), 'reset')
                    continue
                n, out = got
                self.judge(run, out, f'request({n})')
                if out.ok:
                    C06.check(h.spec, n, out.value)
            elif o == 'reset':
                out = sub.reset(arm=arm)
                self.judge(run, out, 'reset')
                if not out.ok:
                    must(sub.reset(), 'reset after a failed reset')
            elif o == 'seed':
                out = sub.seed(op['s'], arm=arm)
                self.judge(run, out, 'seed')
                if not out.ok:
                    must(sub.seed(op['s']), 'seed after a failed seed')
                    must(sub.reset(), 'reset')
                if (hasattr(sub.obj, 'seed') or h.spec['k'] == 'schema'):
                    h.spec = sub.spec = with_seed(h.spec, op['s'])
            elif o == 'build':
                out = run.call(world.build, h.spec, lib, None, arm=arm)
                self.judge(run, out, 'construction')
            elif o == 'cfg':
                self.configure(run, h, op, arm)
        must(sub.reset(), 'reset')
        got = drain(sub, plan['reqs'])
        twin = Subject(run, h.spec, lib)
        want = drain(twin, plan['reqs'])
        if got != want:
            raise Violation('fault-sticks', 'after the faults and a reset it '
                            f'emitted {str(got)[:250]}; newly built '
                            f'{str(want)[:250]}')

    def configure(self, run, h, op, arm):
        """A change that may fail: then it was not made."""
        path, ch, sub = op['path'], op['ch'], h.sub
        try:
            spec = parts.spec_at(h.spec, path)
        except (KeyError, IndexError, TypeError):
            return
        if not parts.change_ok(h.spec, path, ch):
            return
        must(sub.reset(), 'reset')
        out = run.call(parts.do_change, h.part(path), spec, ch, h.lib,
                       sub.ctx, arm=arm)
        self.judge(run, out, f'change {ch["c"]}')
        run.count('cfg:' + ch['c'])
        new = parts.replace_at(h.spec, path, parts.change_spec(spec, ch))
        if out.ok:
            h.set_spec(new)
        must(sub.reset(), 'reset after a change')
        if out.ok:
            return
        # It was made in full (before that which failed) or not at all.
        reqs = [3, None]
        got = drain(sub, reqs)
        old = drain(Subject(run, h.spec, h.lib), reqs)
        want = drain(Subject(run, new, h.lib), reqs)
        if got not in (old, want):
            raise Violation(
                'fault-sticks', f'after a change that failed it emitted '
                f'{str(got)[:250]}; made in full it would be '
                f'{str(want)[:250]}')
        must(sub.reset(), 'reset after a failed change')
        if old == want:
            # Which of the two cannot be told from this: have it made.
            must(run.call(parts.do_change, h.part(path), spec, ch, h.lib,
                          sub.ctx), 'the same change again')
            must(sub.reset(), 'reset after a change')
        if old == want or got == want:
            h.set_spec(new)

    @staticmethod
    def judge(run, out, what):
        env = seams.ENV
        run.record(what, out.key()[:200], out.fired)
        run.state('C10', what, out.fired, out.arm and out.arm.get('exc'))
        if out.ok:
            if out.fired:
                raise Violation('fault-swallowed', f'{what}: a part raised '
                                f'{type(env.last_fault).__name__} and '
                                f'nothing came of it but {out.value!r:.200}')
            return
        if not out.fired:
            must(out, what)
        if out.exc is not env.last_fault:
            raise Violation('fault-replaced', f'{what}: a part raised '
                            f'{type(env.last_fault).__name__} and the caller '
                            f'got {type(out.exc).__name__}: {out.exc}')


# ==========================================================================
# C11
# ==========================================================================

def _odd_one(vals, i, v):
    vals[i] = v
    return vals


# Weights that are not numbers.
ODD = {
    'str': lambda v, i: [str(x) for x in v],
    'text': lambda v, i: 'w' * len(v),
    'dec': lambda v, i: [decimal.Decimal(x) for x in v],
    'one': lambda v, i: _odd_one(v, i, '2'),
    'none': lambda v, i: _odd_one(v, i, None),
    'list': lambda v, i: _odd_one(v, i, [1]),
}


class C11(Prop):
    """Reconfiguration takes effect whole, or not at all."""

    id = 'C11'
    quick_runs = 40000
    thorough_runs = 600000

    def gen(self, rng, run):
        g = G.swarm(rng)
        kind = rng.choice(['choice', 'choice', 'root', 'wrap', 'iter',
                           'seed', 'based'])
        if kind == 'choice':
            spec = g.choice('any', lo=1, hi=rng.choice([3, 8, 20]))
        elif kind == 'wrap':
            spec = {'k': 'wrap1', 'src': g.emitter('any', 1),
                    'fn': rng.choice(['tag', 'tagrng', 'pick'])}
            if rng.random() < .5:
                spec = {'k': 'wrapn', 'fn': rng.choice(['kw', 'kwrng']),
                        'srcs': {'a': g.emitter('any', 1),
                                 'b': g.emitter('any', 1)}}
        elif kind == 'iter':
            spec = {'k': rng.choice(['iter', 'seq']),
                    'fac': rng.choice(['list', 'gen']),
                    'items': {'t': 'list', 'v': [f'i{j}' for j in
                                                 range(rng.randint(1, 5))]},
                    'rac': rng.random() < .3}
        elif kind == 'based':
            src = {'k': 'field', 'name': 's', 'em': g.leaf('any', True)}
            if rng.random() < .4:
                src['rep'] = {'k': 'static', 'v': 2}
            many = rng.random() < .4
            fields = [src]
            if many:
                fields.append({'k': 'field', 'name': 's2',
                               'em': g.leaf('any', True)})
            em = {'k': 'based', 'src': ['s', 's2'] if many else 's',
                  'fn': 'many' if many else rng.choice(['one', 'onerng'])}
            if rng.random() < .3:
                em = {'k': 'copy', 'src': em['src'],
                      'sep': rng.choice([None, None, '-'])}
            if not many and rng.random() < .3:
                em['src'] = ['s']
            fields.append({'k': 'field', 'name': 'd', 'em': em})
            for f in fields:
                f['hide'] = False
            spec = {'k': 'schema', 'fields': fields}
        else:
            spec = gen_root(g, rng)
        spec = with_seed(spec, gen_seed_s(rng))
        ops = []
        cur = spec
        for _ in range(rng.randint(2, 10)):
            p = rng.random()
            if p < .4:
                ops.append({'o': 'call', 'n': gen_n(rng, 6)})
            elif p < .68:
                cand = list(parts.paths(cur))
                q, s = rng.choice(cand)
                bad = self.gen_bad(g, rng, s, kind)
                if bad is not None:
                    ops.append({'o': 'bad', 'path': q, 'ch': bad})
            else:
                cand = list(parts.paths(cur))
                q, s = rng.choice(cand)
                derived = [c for c in cand if c[1]['k'] in ('copy', 'based')]
                if derived and rng.random() < .35:
                    q, s = rng.choice(derived)
                elif cur['k'] == 'schema' and rng.random() < .25:
                    q, s = [], cur
                ch = parts.gen_change(g, s, q[-1] if q else None) or \
                    parts.gen_source(g, cur, q)
                if kind == 'iter' and rng.random() < .6 and not q:
                    vals = [f'n{j}' for j in range(rng.randint(1, 4))]
                    if s['k'] == 'iter':
                        ch = {'c': 'factory', 'v': {
                            'k': 'iter', 'fac': rng.choice(['list', 'gen']),
                            'items': {'t': 'list', 'v': vals}}}
                    else:
                        ch = {'c': 'seqfactory', 'v': vals}
                    if rng.random() < .3:
                        ch = {'c': 'samefactory', 'v': None}
                if s['k'] == 'static' and not isinstance(
                        s['v'], (bool, int)) and not any(
                            x in ('gate', 'rep', 'len', 'num', 'alpha',
                                  'word', 'sep') for x in q
                            if isinstance(x, str)):
                    ch = {'c': 'value', 'v': rng.choice(['new', 2.5, None])}
                if world.is_choice(s) and rng.random() < .1 and \
                        (s.get('w') or s.get('cw')):
                    ch = {'c': 'weights' if s.get('w') else 'cum_weights',
                          'v': list(s.get('w') or s['cw'])}
                if ch is not None and parts.change_ok(cur, q, ch):
                    ops.append({'o': 'cfg', 'path': q, 'ch': ch,
                                'probe': rng.random() < .6})
                    cur = parts.replace_at(cur, q, parts.change_spec(
                        parts.spec_at(cur, q), ch))
        return {'spec': spec, 'ops': ops, 'const': rng.randrange(1, 99999),
                'reqs': [gen_n(rng, 6) for _ in range(4)],
                'reset': rng.random() < .5}

    @staticmethod
    def gen_bad(g, rng, s, kind):
        k = s['k']
        if world.is_choice(s):
            n = world.nitems(s)
            d = rng.choice([-1, 1, 2, 5])
            m = n + d
            if rng.random() < .3:
                return {'c': rng.choice(['weights', 'cum_weights']),
                        'odd': rng.choice(sorted(ODD)),
                        'v': [rng.randrange(n)]}
            return {'c': rng.choice(['weights', 'cum_weights']),
                    'v': [1 + i for i in range(max(m, 0))]}
        if k == 'iter':
            return {'c': 'emptyfactory'}
        if k == 'seq':
            return {'c': rng.choice(['emptyfactory', 'nolenfactory'])}
        if k in ('wrap1', 'wrapn'):
            bads = C11.bad_fns(k)
            return {'c': 'badfn', 'v': rng.choice(sorted(bads)),
                    'how': rng.choice(['set', 'bound'])}
        if k == 'field' and s['em']['k'] == 'based':
            return {'c': 'badaction', 'v': rng.choice(sorted(
                C11.bad_fns('wrap1'))), 'how': rng.choice(['set', 'bound'])}
        if k == 'schema' and rng.random() < .7:
            return {'c': 'badfields', 'how': rng.choice(['set', 'set', 'add']),
                    'first': rng.random() < .5}
        if rng.random() < .5:
            return {'c': 'badseed'}
        return None

    @staticmethod
    def bad_fns(k):
        return dict(world.FN_BAD1 if k == 'wrap1' else world.FN_BADN,
                    **world.FN_NOSIG)

    @staticmethod
    def do_bad(obj, spec, ch, lib):
        c = ch['c']
        if 'odd' in ch:
            vals = list(range(1, world.nitems(spec) + 1))
            vals = ODD[ch['odd']](vals, ch['v'][0] % len(vals))
            setattr(obj, c, vals)
        elif c == 'weights':
            obj.weights = ch['v']
        elif c == 'cum_weights':
            obj.cum_weights = ch['v']
        elif c == 'badfields':
            bad = [lib.profile.Field('bad', lib.fixed.Static(1)), 'no field']
            if not ch['first']:
                bad.reverse()
            (obj.set_fields if ch['how'] == 'set' else obj.add_fields)(*bad)
        elif c == 'emptyfactory':
            obj.iterator_factory = lambda: iter([])
        elif c == 'nolenfactory':
            obj.iterator_factory = lambda: (x for x in 'abc')
        elif c == 'badfn':
            fns = C11.bad_fns(spec['k'])
            if ch['how'] == 'bound':
                obj.wrapper = lib.wrappers.BoundWrapper(fns[ch['v']], obj)
            else:
                obj.set_wrapper_function(fns[ch['v']])
        elif c == 'badaction':
            em = obj.emitter
            many = isinstance(spec['em']['src'], list) and \
                len(spec['em']['src']) > 1
            fn = world.FN_NOSIG.get(ch['v']) or (
                world.FN_BADN['wrong'] if many else world.FN_BAD1[ch['v']])
            if ch['how'] == 'bound':
                em.action = lib.wrappers.BoundWrapper(fn, em)
            else:
                em.set_action_function(fn)
        elif c == 'badseed':
            obj.seed({'not': 'a seed'})
        else:
            raise HarnessError(c)

    @staticmethod
    def bad_applies(spec, ch, obj):
        c, k = ch['c'], spec['k']
        if c == 'badfields':
            return k == 'schema'
        if 'odd' in ch:
            return world.is_choice(spec)
        if c in ('weights', 'cum_weights'):
            return world.is_choice(spec) and \
                len(ch['v']) != world.nitems(spec)
        if c == 'emptyfactory':
            return k in ('iter', 'seq')
        if c == 'nolenfactory':
            return k == 'seq'
        if c == 'badfn':
            return k in ('wrap1', 'wrapn') and ch['v'] in C11.bad_fns(k)
        if c == 'badaction':
            if k != 'field' or spec['em']['k'] != 'based':
                return False
            # Without a value yet, a source is asked for one to show in the
            # error: not a change to this emitter, but it moves the source.
            return all(s.previous is not None for s in obj.emitter.source)
        if c == 'badseed':
            return hasattr(obj, 'seed') and world.is_random(spec)
        return False

    def execute(self, run, plan):
        lib = seams.boot()
        a = History(run, plan['spec'], lib)      # sees the bad changes
        b = History(run, plan['spec'], lib)      # does not
        for op in plan['ops']:
            if op['o'] != 'bad':
                if op['o'] == 'cfg':
                    old = self.spec_of(a, op['path'])
                x, y = a.apply(op), b.apply(op)
                if op['o'] == 'cfg' and old is not None and \
                        parts.applies(old, op['ch']):
                    self.at_once(run, lib, op, old, a, b)
                if op['o'] == 'call' and x is not None:
                    if x.key() != y.key():
                        raise Violation('rejected-change-acts', 'after a '
                                        'rejected change it gave '
                                        f'{x.key()[:200]} instead of '
                                        f'{y.key()[:200]}')
                continue
            try:
                spec = parts.spec_at(a.spec, op['path'])
            except (KeyError, IndexError, TypeError):
                continue
            obj = a.part(op['path'])
            ch = op['ch']
            if not self.bad_applies(spec, ch, obj):
                continue
            if ch['c'] == 'badfn':
                # Trying a wrapper takes a value and then resets everything
                # below: have both start again.
                must(a.sub.reset(), 'reset')
                must(b.sub.reset(), 'reset')
            if ch['c'] == 'badaction':
                self.reset_action(run, a, b, op['path'])
            before = a.sub.observe()
            out = run.call(self.do_bad, obj, spec, ch, lib)
            run.count('bad:' + ch['c'])
            run.record('bad', ch['c'], out.key())
            if out.ok and ('odd' in ch or ch['c'] == 'badfields'):
                return      # whether to accept these is fauxdoc's choice
            if out.ok:
                raise Violation('bad-change-accepted', f'{ch} on '
                                f'{spec["k"]} was accepted')
            if not isinstance(out.exc, (ValueError, TypeError,
                                        AttributeError)):
                raise Violation('bad-change-wrong-error', f'{ch} raised '
                                f'{type(out.exc).__name__}: {out.exc}')
            if ch['c'] == 'badfn':
                # At the top it has started again of itself.
                if op['path']:
                    must(a.sub.reset(), 'reset')
                must(b.sub.reset(), 'reset')
            if ch['c'] == 'badaction':
                self.reset_action(run, a, b, op['path'])
            after = a.sub.observe()
            if before != after:
                raise Violation('rejected-change-acts', f'rejecting {ch} '
                                f'changed {before[:250]} to {after[:250]}')
            run.state('C11', spec['k'], ch['c'])
        self.weights(run, a)
        x, y = drain(a.sub, plan['reqs']), drain(b.sub, plan['reqs'])
        if x != y:
            raise Violation('rejected-change-acts', 'after rejected changes '
                            f'it gave {str(x)[:250]} instead of '
                            f'{str(y)[:250]}')
        if a.sub.observe() != b.sub.observe():
            raise Violation('rejected-change-acts', 'after rejected changes '
                            f'it reports {a.sub.observe()[:250]} instead of '
                            f'{b.sub.observe()[:250]}')
        # Accepted changes count in full: as if built that way.
        must(a.sub.reset(), 'reset')
        twin = Subject(run, a.spec, lib)
        o1, o2 = a.sub.observe(), twin.observe()
        x, y = drain(a.sub, plan['reqs']), drain(twin, plan['reqs'])
        run.record('end', x)
        if o1 != o2:
            raise Violation('change-incomplete', f'after changes and a reset '
                            f'it reports {o1[:250]}; built that way '
                            f'{o2[:250]}')
        if x != y:
            raise Violation('change-incomplete', f'after changes and a reset '
                            f'it gave {str(x)[:250]}; built that way '
                            f'{str(y)[:250]}')

    @staticmethod
    def spec_of(h, path):
        try:
            spec = parts.spec_at(h.spec, path)
        except (KeyError, IndexError, TypeError):
            return None
        return copy.deepcopy(spec)

    def at_once(self, run, lib, op, old, a, b):
        """An accepted change shows at once, as if built that way."""
        path, ch = op['path'], op['ch']
        spec = self.spec_of(a, path)
        if spec != parts.change_spec(old, ch):
            return                      # it was not made
        c = ch['c']
        limited = world.is_choice(spec) and world.pool(spec) < world.INF
        restarts = limited and (c in ('weights', 'cum_weights') or
                                world.pool(old) >= world.INF)
        skip = {'previous'}
        if limited and not restarts:
            skip |= {'num_unique_items', 'num_unique_values',
                     'emits_unique_values'}
        if spec['k'] not in ('copy', 'based', 'field', 'schema'):
            fresh = must(run.call(world.build, spec, lib, world.Ctx(lib)),
                         'construction')
            x = observe(run, a.part(path), spec, False, skip)
            y = observe(run, fresh, spec, False, skip)
            if x != y:
                raise Violation('change-incomplete', f'after {ch} it reports '
                                f'{x[:300]}; built that way {y[:300]}')
        for i in range(len(path)):
            up = self.spec_of(a, path[:i])
            if up['k'] not in ('word', 'text', 'wrap1', 'wrapn') or \
                    world.pool(up) < world.INF:
                continue
            fresh = must(run.call(world.build, up, lib, world.Ctx(lib)),
                         'construction')
            x = observe(run, a.part(path[:i]), up, False)
            y = observe(run, fresh, up, False)
            if x != y:
                raise Violation('change-incomplete', f'after {ch} of a part '
                                f'it reports {x[:300]}; built that way '
                                f'{y[:300]}')
        if path or not op.get('probe'):
            return
        run.count('probe:' + c)
        if c in ('factory', 'seqfactory', 'samefactory', 'value'):
            fresh = Subject(run, spec, lib)
            reqs = [None, 3, None, 4]
            want, got = drain(fresh, reqs), drain(a.sub, reqs)
            drain(b.sub, reqs)
            if got != want:
                raise Violation('change-incomplete', f'after {c} it gives '
                                f'{str(got)[:250]}; built that way '
                                f'{str(want)[:250]}')
        elif restarts:
            n = world.nitems(spec)
            for h in (a, b):
                h.sub.left = n
                _, out = h.sub.emit(n)
                got = sorted(map(norm, must(out, f'request({n})')))
                want = sorted(map(norm, items_of(spec['items'])))
                if got != want:
                    raise Violation('change-incomplete', f'after {c} a '
                                    'selection without replacement starts '
                                    f'again, but all {n} items were '
                                    f'{got!r:.250}')
        elif c == 'swap' and spec['k'] == 'field' and \
                spec['em']['k'] not in ('copy', 'based'):
            self.swapped(run, lib, ch, spec, a, b)

    @staticmethod
    def swapped(run, lib, ch, spec, a, b):
        """A field's very next call uses the part it was given."""
        others = [s for s in ('rep', 'gate', 'em') if s != ch['step']
                  and spec.get(s) and not (
                      spec[s]['k'] == 'static' and (s == 'em' or (
                          s == 'rep' and spec[s]['v'] is None) or (
                              s == 'gate' and spec[s]['v'])))]
        if others:
            return
        new = must(run.call(world.build, ch['v'], lib, world.Ctx(lib)),
                   'construction')
        if world.pool(ch['v']) < world.INF or 'share' in ch['v']:
            return          # those were reset when it was put in
        x = must(a.sub.emit(None)[1], 'field call')
        must(b.sub.emit(None)[1], 'field call')
        got = must(run.call(new), 'part call')
        step = ch['step']
        if step == 'em':
            want = got
        elif step == 'rep':
            em = spec['em']['v']
            want = em if got is None else [em] * got
        else:
            want = spec['em']['v'] if got else None
        if norm(x) != norm(want):
            raise Violation('change-incomplete', 'after setting its '
                            f'{parts.FIELD_ATTRS[step]} a field gave '
                            f'{x!r:.200}, not {want!r:.200}')

    @staticmethod
    def reset_action(run, a, b, path):
        """Trying an action resets its own emitter: have both do so."""
        for h in (a, b):
            must(run.call(h.part(path).emitter.reset), 'reset')

    @staticmethod
    def weights(run, h):
        for path, spec in parts.paths(h.spec):
            if not world.is_choice(spec):
                continue
            obj = h.part(path)
            w, cw = obj.weights, obj.cum_weights
            if (w is None) != (cw is None):
                raise Violation('weights-disagree', f'weights {w}, '
                                f'cum_weights {cw}')
            if w is None:
                continue
            acc = 0
            for x, c in zip(w, cw):
                acc += x
                if abs(acc - c) > 1e-6 * max(1, abs(c)):
                    raise Violation('weights-disagree', f'weights {w}, '
                                    f'cum_weights {cw}')
            want = spec.get('w')
            if want is not None and list(w) != list(want):
                raise Violation('weights-disagree', f'weights are {w}, '
                                f'{want} were set')
            want = spec.get('cw')
            if want is not None and list(cw) != list(want):
                raise Violation('weights-disagree', f'cum_weights are {cw}, '
                                f'{want} were set')


PROPS_B = [C07, C08, C09, C10, C11]
del collections
