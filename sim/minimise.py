"""Shrinks a failing plan while it keeps failing in the same way."""
import copy
import json
from sim.seams import HarnessError


def minimise(prop, plan, kind, one_run, alarm, budget=900):
    """Returns the smallest failing plan found, and how it fails."""
    state = {'tried': 0, 'best': None}

    def fails(cand):
        if state['tried'] >= budget:
            return False
        state['tried'] += 1
        cand = json.loads(json.dumps(cand))
        try:
            alarm(20)
            run, _, bad = one_run(prop, cand)
        except HarnessError:
            return False
        except Exception:       # pylint: disable=broad-except
            return False        # shrunk into something meaningless
        finally:
            alarm(0)
        if bad is None or bad.kind != kind:
            return False
        state['best'] = {'plan': cand, 'kind': bad.kind,
                         'detail': bad.detail,
                         'digest': run.log.hexdigest()}
        return True

    if not fails(plan):
        return {'plan': None, 'tried': state['tried']}
    while state['tried'] < budget:
        size = weight(state['best']['plan'])
        for path in list_paths(state['best']['plan'], prop.shrink_lists):
            ddmin(state, path, fails)
        for path in arm_paths(state['best']['plan']):
            cand = copy.deepcopy(state['best']['plan'])
            at = get(cand, path)
            if isinstance(at, dict) and 'arm' in at:
                del at['arm']
                fails(cand)
        for path in number_paths(state['best']['plan']):
            shrink_number(state, path, fails)
        if weight(state['best']['plan']) >= size:
            break
    return dict(state['best'], tried=state['tried'])


def weight(plan):
    return len(json.dumps(plan))


def get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def list_paths(plan, names, prefix=()):
    """Where the lists are whose elements may be dropped."""
    out = []
    if isinstance(plan, dict):
        for k, v in plan.items():
            if k in names and isinstance(v, list):
                out.append(prefix + (k,))
            if k in ('tenants', 'cases'):
                out += list_paths(v, names, prefix + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            out += list_paths(v, names, prefix + (i,))
    return out


def arm_paths(plan, prefix=()):
    out = []
    if isinstance(plan, dict):
        if 'arm' in plan:
            out.append(prefix)
        for k, v in plan.items():
            out += arm_paths(v, prefix + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            out += arm_paths(v, prefix + (i,))
    return out


def number_paths(plan, prefix=()):
    """Request sizes, which may become smaller."""
    out = []
    if isinstance(plan, dict):
        for k, v in plan.items():
            if k == 'n' and type(v) is int and v > 1:
                out.append(prefix + (k,))
            elif isinstance(v, (dict, list)):
                out += number_paths(v, prefix + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            if isinstance(v, (dict, list)):
                out += number_paths(v, prefix + (i,))
    return out


def shrink_number(state, path, fails):
    try:
        n = get(state['best']['plan'], path)
    except (KeyError, IndexError, TypeError):
        return
    for small in (1, 2, n // 2, n - 1):
        if 0 < small < n:
            cand = copy.deepcopy(state['best']['plan'])
            get(cand, path[:-1])[path[-1]] = small
            if fails(cand):
                return


def ddmin(state, path, fails):
    try:
        items = get(state['best']['plan'], path)
    except (KeyError, IndexError, TypeError):
        return
    n = 2
    while len(items) >= 1:
        chunk = max(1, len(items) // n)
        reduced = False
        for i in range(0, len(items), chunk):
            cand = copy.deepcopy(state['best']['plan'])
            get(cand, path[:-1])[path[-1]] = items[:i] + items[i + chunk:]
            if fails(cand):
                items = get(state['best']['plan'], path)
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
