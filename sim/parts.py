"""Reaching and reconfiguring parts of a built object, and the same as data."""
import copy
from sim import seams, world
from sim.world import items_of, nitems

PART_ATTRS = {'len': 'length_emitter', 'alpha': 'alphabet_emitter',
              'num': 'numwords_emitter', 'word': 'word_emitter',
              'sep': 'sep_emitter'}
FIELD_ATTRS = {'em': 'emitter', 'rep': 'repeat_emitter',
               'gate': 'gate_emitter'}


def step_spec(spec, step):
    if isinstance(step, (list, tuple)):
        return spec[step[0]][step[1]]
    return spec[step]


def spec_at(spec, path):
    for step in path:
        spec = step_spec(spec, step)
    return spec


def obj_step(obj, spec, step):
    k = spec['k']
    if k == 'schema':
        return obj.fields[spec['fields'][step[1]]['name']]
    if k == 'field':
        return getattr(obj, FIELD_ATTRS[step])
    if isinstance(step, (list, tuple)):
        return obj.emitters[step[1]]
    if step == 'src':
        return next(iter(obj.emitters.values()))
    return getattr(obj, PART_ATTRS[step])


def obj_at(obj, spec, path):
    for step in path:
        obj = obj_step(obj, spec, step)
        spec = step_spec(spec, step)
    return obj


def paths(spec, prefix=()):
    """All (path, spec) pairs, root first."""
    yield list(prefix), spec
    for step, c in world.children(spec):
        s = list(step) if isinstance(step, tuple) else step
        yield from paths(c, tuple(prefix) + (s,))


def replace_at(spec, path, new):
    spec = copy.deepcopy(spec)
    if not path:
        return new
    at = spec
    for step in path[:-1]:
        at = step_spec(at, step)
    last = path[-1]
    if isinstance(last, (list, tuple)):
        at[last[0]][last[1]] = new
    else:
        at[last] = new
    return spec


# --------------------------------------------------------------------------
# reconfiguration: {'c': what, 'v': value}
# --------------------------------------------------------------------------

def weights_of(spec):
    """Weights a poisson/gauss/choice spec has, as a 'w' list or None."""
    return spec.get('w')


def change_spec(spec, ch):
    """The spec after a change to that very object."""
    spec = copy.deepcopy(spec)
    c, v = ch['c'], ch['v']
    if c == 'weights' or c == 'cum_weights':
        new = {'k': 'choice', 'items': spec['items'],
               'replace': spec.get('replace', True),
               'roac': spec.get('roac', False)}
        if 'seed' in spec:
            new['seed'] = spec['seed']
        if v is not None:
            new['w' if c == 'weights' else 'cw'] = v
        return new
    if c == 'replace':
        now = spec.get('replace', True) or spec.get('roac', False)
        if v != now:
            spec['replace'] = v
            if not v:
                spec['roac'] = False
        return spec
    if c == 'roac':
        was = spec.get('roac', False)
        now = spec.get('replace', True) or was
        spec['roac'] = v
        spec['replace'] = True if v else now
        return spec
    if c == 'value':
        spec['v'] = v
    elif c == 'rac':
        spec['rac'] = v
    elif c == 'factory':
        new = dict(v)
        new['rac'] = spec.get('rac', False)
        return new
    elif c == 'seqfactory':
        spec['items'] = {'t': 'tuple', 'v': list(v)}
    elif c == 'samefactory':
        pass
    elif c == 'fn':
        spec['fn'] = v
    elif c == 'sep':
        spec['sep'] = v
    elif c == 'hide':
        spec['hide'] = v
    elif c == 'source':
        spec['src'] = v
        if ch['how'] == 'inplace' and not isinstance(v, list):
            spec['src'] = [v]
    elif c == 'copysep':
        spec['sep'] = v
    elif c == 'setfields':
        spec.pop('seed', None)          # the fields have it
        by = {f['name']: f for f in spec['fields']}
        spec['fields'] = [by[n] for n in v]
    elif c == 'addfields':
        spec.pop('seed', None)
        by = {f['name']: f for f in spec['fields']}
        by.update({f['name']: f for f in copy.deepcopy(v)})
        spec['fields'] = list(by.values())
    elif c == 'swap':
        step = ch['step']
        if isinstance(step, (list, tuple)):
            spec[step[0]][step[1]] = v
        else:
            spec[step] = v
    else:
        raise seams.HarnessError(f'change {c}')
    return spec


def many_sources(src):
    return isinstance(src, list) and len(src) > 1


def sources(field):
    """Names of the fields that a field is derived from."""
    if field['em']['k'] not in ('copy', 'based'):
        return []
    src = field['em']['src']
    return src if isinstance(src, list) else [src]


def applies(spec, ch):
    """Whether a change makes sense for this spec (it may, after shrinking)."""
    c, k = ch['c'], spec['k']
    if c in ('weights', 'cum_weights'):
        return world.is_choice(spec) and (
            ch['v'] is None or len(ch['v']) == nitems(spec))
    if c in ('replace', 'roac'):
        return world.is_choice(spec)
    if c == 'value':
        return k == 'static'
    if c == 'rac':
        return k in ('seq', 'iter')
    if c == 'factory':
        return k == 'iter'
    if c == 'samefactory':
        return k == 'iter' or (k == 'seq' and spec['items']['t'] in (
            'list', 'tuple'))
    if c == 'seqfactory':
        return k == 'seq'
    if c == 'fn':
        if k == 'wrap1':
            return ch['v'] in world.FN1
        return k == 'wrapn' and ch['v'] in world.FNN
    if c == 'hide':
        return k == 'field'
    if c == 'copysep':
        return k == 'copy'
    if c == 'source':
        if k == 'based':
            return (many_sources(spec['src']) == many_sources(ch['v'])
                    and isinstance(spec['src'], list) >= (
                        ch['how'] == 'inplace'))
        return k == 'copy' and isinstance(spec['src'], list) >= (
            ch['how'] == 'inplace')
    if c == 'setfields':
        return k == 'schema' and set(ch['v']) <= {
            f['name'] for f in spec['fields']}
    if c == 'addfields':
        return k == 'schema' and not any(
            f['name'] in sources(x) for f in ch['v']
            for x in spec['fields'] + ch['v'])
    if c == 'swap':
        if k == 'field':
            return ch['step'] in ('em', 'rep', 'gate')
        if k == 'wrap1':
            return ch['step'] == 'src'
        if k in ('wrapn', 'uparent'):
            return (isinstance(ch['step'], (list, tuple))
                    and ch['step'][1] in spec['srcs'])
    return False


def do_change(obj, spec, ch, lib, ctx):
    """Makes the change on the real object."""
    c, v = ch['c'], ch['v']
    if c == 'weights':
        obj.weights = v
    elif c == 'cum_weights':
        obj.cum_weights = v
    elif c == 'replace':
        obj.replace = v
    elif c == 'roac':
        obj.replace_only_after_call = v
    elif c == 'value':
        obj.value = v
    elif c == 'rac':
        obj.reset_after_call = v
    elif c == 'factory':
        obj.iterator_factory = world.make_factory(v, lib)
    elif c == 'samefactory':
        obj.iterator_factory = obj.iterator_factory
    elif c == 'seqfactory':
        items = list(v)
        obj.iterator_factory = lambda: iter(items)
    elif c == 'fn':
        fns = world.FN1 if spec['k'] == 'wrap1' else world.FNN
        if ch.get('how') == 'bound':
            obj.wrapper = lib.wrappers.BoundWrapper(fns[v], obj)
        elif ch.get('how') == 'function':
            # (Setting a wrapper restarts its emitter; this does not.)
            obj.wrapper.function = fns[v]
            obj.reset()
        else:
            obj.set_wrapper_function(world.lent(ch, fns[v], lib))
    elif c == 'hide':
        obj.hide = v
    elif c == 'source':
        src = world.sources_of({'src': v}, ctx)
        if ch['how'] == 'set':
            obj.set_source_fields(src)
        elif ch['how'] == 'attr':
            obj.source = lib.fromfields.SourceFieldGroup(src)
        else:
            obj.source[:] = src if isinstance(v, list) else [src]
    elif c == 'copysep':
        obj.separator = v
    elif c == 'setfields':
        obj.set_fields(*[obj.fields[n] for n in v])
    elif c == 'addfields':
        obj.add_fields(*[world.build(f, lib, ctx) for f in v])
    elif c == 'swap':
        new = world.build(v, lib, ctx)
        step = ch['step']
        if spec['k'] == 'field':
            setattr(obj, FIELD_ATTRS[step], new)
        elif isinstance(step, (list, tuple)):
            obj.emitters[step[1]] = new
        else:
            obj.emitters[next(iter(obj.emitters))] = new
    else:
        raise seams.HarnessError(f'change {c}')


def other_value(g, v, step):
    """Another value for a static part that its parent can use as well."""
    r = g.r
    if step == 'gate':
        return g.values(1, 'bool')[0]
    if step in ('len', 'num', 'rep'):
        return r.randint(0 if g.zero_len else min(1, v or 0), v or 0)
    if step == 'alpha':
        return r.choice('abcé')
    if step == 'sep':
        return r.choice(world.SEPS)
    if step == 'word':
        return g.values(1, 'str')[0]
    return g.values(1, 'any')[0]


def gen_change(g, spec, step=None):
    """A random valid change for an object of this spec, or None.

    `step` is the role it has in its parent, if any.
    """
    r, k = g.r, spec['k']
    if world.is_choice(spec):
        n = nitems(spec)
        c = r.choice(['weights', 'cum_weights', 'replace', 'roac'])
        if c == 'weights':
            return {'c': c, 'v': None if r.random() < .2 else g.weights(n)}
        if c == 'cum_weights':
            if r.random() < .15:
                return {'c': c, 'v': None}
            acc, cw = 0, []
            for x in g.weights(n):
                acc += x
                cw.append(acc)
            return {'c': c, 'v': cw}
        return {'c': c, 'v': r.random() < .5}
    if k == 'static':
        if step == 'rep' and spec['v'] is None:
            if spec.get('dflt'):
                return {'c': 'value', 'v': r.randint(0, 3)}
            return None
        return {'c': 'value', 'v': other_value(g, spec['v'], step)}
    if k in ('iter', 'seq'):
        p = r.random()
        if p < .3 and g.rac:
            return {'c': 'rac', 'v': r.random() < .5}
        if p < .45:
            return {'c': 'samefactory', 'v': None}
        if k == 'iter' and spec['fac'] == 'count':
            return {'c': 'factory', 'v': {'k': 'iter', 'fac': 'count',
                                          'start': r.randrange(5)}}
        old = items_of(spec['items'])
        vals = [copy.deepcopy(r.choice(old))
                for _ in range(r.randint(1, len(old) + 1))]
        if spec['items']['t'] == 'dtr':
            return None
        if k == 'seq':
            return {'c': 'seqfactory', 'v': vals}
        return {'c': 'factory', 'v': {
            'k': 'iter', 'fac': r.choice(['list', 'gen', 'obj']),
            'items': {'t': 'list', 'v': vals}}}
    if k == 'wrap1':
        if r.random() < .5:
            fns = sorted(world.FN1)
            if step in ('rep', 'len', 'num', 'gate', 'alpha', 'word', 'sep'):
                return None
            return {'c': 'fn', 'v': r.choice(fns),
                    'how': r.choice(['set', 'set', 'bound', 'function']),
                    'lent': r.choice([0, 0, 0, 1])}
        return {'c': 'swap', 'step': 'src',
                'v': g.emitter('any', 1)}
    if k == 'wrapn':
        if r.random() < .5:
            return {'c': 'fn', 'v': r.choice(sorted(world.FNN)),
                    'how': r.choice(['set', 'set', 'bound', 'function']),
                    'lent': r.choice([0, 0, 0, 1])}
        return {'c': 'swap', 'step': ['srcs', r.choice(sorted(spec['srcs']))],
                'v': g.emitter('any', 1)}
    if k == 'uparent':
        return {'c': 'swap', 'step': ['srcs', r.choice(sorted(spec['srcs']))],
                'v': g.emitter('any', 1)}
    if k == 'field':
        c = r.choice(['hide', 'em', 'rep', 'gate'])
        if c == 'hide':
            return {'c': 'hide', 'v': r.random() < .5}
        if spec['em']['k'] in ('copy', 'based') and c == 'em':
            return {'c': 'hide', 'v': False}
        if c == 'em':
            new = g.emitter('any', 1)
            if spec.get('rep') and world.maxint(spec['rep']) > world.cap(new):
                return None
            return {'c': 'swap', 'step': 'em', 'v': new}
        if c == 'rep':
            new = g.leaf('int')
            if world.maxint(new) > world.cap(spec['em']):
                return None
            return {'c': 'swap', 'step': 'rep', 'v': new}
        return {'c': 'swap', 'step': 'gate', 'v': g.leaf('bool')}
    if k == 'schema':
        names = [f['name'] for f in spec['fields']]
        if r.random() < .5:
            keep = r.sample(names, r.randint(0, len(names)))
            if r.random() < .7:
                keep.sort(key=names.index)
            return {'c': 'setfields', 'v': keep}
        out = []
        for _ in range(r.choice([1, 1, 2])):
            name = r.choice(names + ['g0', 'g1', 'g2'])
            f = g.field(name, 1, [n for n in names if n != name])
            if any('share' in x for x in world.walk(f)):
                continue
            f['seed'] = r.randrange(10 ** 6)
            out.append(f)
        return {'c': 'addfields', 'v': out} if out else None
    return None


def gen_source(g, root, path):
    """New sources or a new separator for a derived field of a schema."""
    r, at = g.r, spec_at(root, path)
    if at['k'] not in ('copy', 'based'):
        return None
    if at['k'] == 'copy' and r.random() < .3:
        return {'c': 'copysep', 'v': r.choice([None, ' ', '; ', ''])}
    if root['k'] != 'schema':
        return None
    before = [f['name'] for f in root['fields'][:path[0][1]]]
    src = r.sample(before, r.randint(1, min(3, len(before))))
    many = isinstance(at['src'], list) and len(at['src']) > 1
    if at['k'] == 'based' and (len(src) > 1) != many:
        src = src[:1] if not many else at['src'][::-1]
    if len(src) == 1 and r.random() < .6:
        src = src[0]
    if not many and r.random() < .3:
        # The same field, one on its own or a list of one.
        src = at['src'][0] if isinstance(at['src'], list) else [at['src']]
    return {'c': 'source', 'v': src,
            'how': r.choice(['set', 'attr', 'inplace'])}


def strip_int_choice_changes(spec, path, ch):
    """True if a change at this path could break a part its parent relies on.

    Lengths, word counts and repeats have batch needs their parents decide, so
    their replacement rules are left alone.
    """
    at = spec
    for step in path:
        parent = at
        at = step_spec(at, step)
        if parent['k'] in ('word', 'text') or (
                parent['k'] == 'field' and step == 'rep'):
            return ch['c'] not in (
                'weights', 'cum_weights', 'value', 'rac', 'factory',
                'seqfactory', 'samefactory')
    return False


def change_ok(spec, path, ch):
    """Whether the whole object still makes sense after the change."""
    if strip_int_choice_changes(spec, path, ch):
        return False
    at = spec_at(spec, path)
    if not applies(at, ch):
        return False
    if ch['c'] == 'source':
        v = ch['v'] if isinstance(ch['v'], list) else [ch['v']]
        if spec['k'] != 'schema' or not set(v) <= {
                f['name'] for f in spec['fields'][:path[0][1]]}:
            return False
    new = replace_at(spec, path, change_spec(at, ch))
    if new['k'] == 'schema':
        before = set()
        for f in new['fields']:
            if not set(sources(f)) <= before:
                return False
            before.add(f['name'])
    for p, s in paths(new):
        if s['k'] == 'field' and s.get('rep'):
            if world.maxint(s['rep']) > world.cap(s['em']):
                return False
            if world.pool(s) < 1:
                return False
    return True
