"""Smaller variants of a plan.  Variants that make no sense are refused by the
plan's execution (layout.Invalid, or any other error), never taken."""

import copy
import json


def size(plan):
    """What is minimised."""
    body = {k: v for k, v in plan.items() if k != 'schedule'}
    s = plan.get('schedule')
    n = len(json.dumps(body))
    if s is not None:
        n += 30 * len(s['explicit']) if 'explicit' in s else 10**7
    return n


def candidates(plan, res, mod):
    s = plan.get('schedule')
    if s is not None and 'explicit' not in s and res.get('schedule') is not None:
        yield put(plan, ['schedule'], {'explicit': res['schedule']})
    for key in getattr(mod, 'LISTS', ('ops', 'steps', 'tasks', 'faults', 'nested')):
        if isinstance(plan.get(key), list):
            yield from chop(plan, [key])
    if s is not None and 'explicit' in s:
        yield from chop(plan, ['schedule', 'explicit'])
    yield from nested_lists(plan)
    yield from drop_objs(plan)
    yield from drop_classes(plan)
    yield from drop_fields(plan)
    yield from simpler_values(plan)
    yield from simpler_types(plan)
    yield from smaller_numbers(plan)


def get(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def put(plan, path, value):
    new = copy.deepcopy(plan)
    get(new, path[:-1])[path[-1]] = value
    return new


def chop(plan, path):
    xs = get(plan, path)
    n = len(xs)
    k = n
    while k >= 1:
        for i in range(0, n, k):
            if k == n and n == 1 and path[0] in ('tasks', 'ops', 'steps'):
                pass
            yield put(plan, path, xs[:i] + xs[i + k:])
        k //= 2


SKIP = {'classes', 'objs', 'schedule', 'run', 'property'}


def walk(doc, path):
    if isinstance(doc, dict):
        for k, v in doc.items():
            if not path and k in SKIP:
                continue
            yield from walk(v, path + [k])
    elif isinstance(doc, list):
        yield path, doc
        for i, v in enumerate(doc):
            yield from walk(v, path + [i])


def is_op(x):
    return isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and isinstance(
        x[1], dict)


def nested_lists(plan):
    for path, xs in list(walk(plan, [])):
        if path and xs and not is_op(xs):
            yield from chop(plan, path)
    # optional arguments, and keyed faults
    for path, d in list(dicts(plan, [])):
        for k in list(d):
            if k in ('o', 'k'):
                continue
            new = copy.deepcopy(plan)
            del get(new, path)[k]
            yield new


def dicts(doc, path):
    if isinstance(doc, dict):
        if path:
            yield path, doc
        for k, v in doc.items():
            if not path and k in SKIP:
                continue
            yield from dicts(v, path + [k])
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from dicts(v, path + [i])


def refs(doc, fix):
    """Apply fix to every reference to a value ("o", "from", "objs")."""
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k in ('o', 'from') and isinstance(v, int):
                doc[k] = fix(v)
            else:
                refs(v, fix)
    elif isinstance(doc, list):
        for x in doc:
            refs(x, fix)


def drop_objs(plan):
    n = len(plan.get('objs', ()))
    if n < 2:
        return
    for i in range(n):
        new = copy.deepcopy(plan)
        del new['objs'][i]

        def fix(v):
            return v - 1 if v > i else (v if v < n - 1 else n - 2)
        for k, v in new.items():
            if k not in ('classes', 'objs', 'schedule', 'run'):
                refs(v, fix)
        yield new


def drop_classes(plan):
    n = len(plan.get('classes', ()))
    for i in reversed(range(n)):
        text = json.dumps([plan['classes'], plan['objs']])
        if n < 2:
            return
        new = copy.deepcopy(plan)
        del new['classes'][i]
        try:
            for s in new['classes']:
                if s['base'] is not None:
                    s['base'] = shift(s['base'], i)
                for key in ('args', 'fields'):
                    if s.get(key) is not None:
                        retype(s[key], i)
            revalue(new['objs'], i)
            for k, v in new.items():
                if k not in ('classes', 'objs', 'schedule', 'run'):
                    reclass(v, i)
        except LookupError:
            continue
        yield new
        del text


def shift(j, i):
    if j == i:
        raise LookupError
    return j - 1 if j > i else j


def retype(doc, i):
    if isinstance(doc, dict):
        if doc.get('k') in ('st', 'gen'):
            doc['cls'] = shift(doc['cls'], i)
        for v in doc.values():
            retype(v, i)
    elif isinstance(doc, list):
        for x in doc:
            retype(x, i)


def revalue(doc, i):
    if isinstance(doc, dict):
        if 'o' in doc and 'v' in doc:
            if isinstance(doc['o'], int):
                doc['o'] = shift(doc['o'], i)
            else:
                doc['o'][0] = shift(doc['o'][0], i)
                retype(doc['o'][1], i)
            revalue(list(doc['v'].values()), i)
        else:
            for v in doc.values():
                revalue(v, i)
    elif isinstance(doc, list):
        for x in doc:
            revalue(x, i)


def reclass(doc, i):
    """References to classes in operations ("ci")."""
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k == 'ci' and isinstance(v, int):
                doc[k] = shift(v, i)
            else:
                reclass(v, i)
    elif isinstance(doc, list):
        for x in doc:
            reclass(x, i)


def drop_fields(plan):
    for ci, s in enumerate(plan.get('classes', ())):
        for fi, (name, _) in enumerate(s['fields']):
            new = copy.deepcopy(plan)
            del new['classes'][ci]['fields'][fi]
            strip(new['objs'], name)
            yield new
    for ci, s in enumerate(plan.get('classes', ())):
        if s['form'] != 'plain':
            yield put(plan, ['classes', ci, 'form'], 'plain')
        if s['bo'] not in ('', '<'):
            yield put(plan, ['classes', ci, 'bo'], '<')


def strip(doc, name):
    if isinstance(doc, dict):
        if 'o' in doc and 'v' in doc:
            doc['v'].pop(name, None)
        for v in doc.values():
            strip(v, name)
    elif isinstance(doc, list):
        for x in doc:
            strip(x, name)


def values(doc, path):
    """Paths of values, outermost first."""
    if isinstance(doc, dict):
        if 'o' in doc and 'v' in doc:
            for k, v in doc['v'].items():
                yield path + ['v', k], v
                yield from values(v, path + ['v', k])
        elif 't' in doc:
            for i, v in enumerate(doc['t']):
                yield path + ['t', i], v
                yield from values(v, path + ['t', i])
        elif 'lx' in doc:
            for i, v in enumerate(doc['lx'][0]):
                yield path + ['lx', 0, i], v
                yield from values(v, path + ['lx', 0, i])
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield path + [i], v
            yield from values(v, path + [i])


def simpler_values(plan):
    for path, v in list(values(plan.get('objs', []), ['objs'])):
        if isinstance(v, list) and v:
            yield from chop(plan, path)
        elif isinstance(v, dict) and ('b' in v or 's' in v):
            k = 'b' if 'b' in v else 's'
            x = v[k]
            unit = 2 if k == 'b' else 1
            if x:
                yield put(plan, path, {k: ''})
                yield put(plan, path, {k: x[: len(x) // unit // 2 * unit]})
                yield put(plan, path, {k: x[:-unit]})
        elif isinstance(v, dict) and ('bx' in v or 'sx' in v):
            k = 'bx' if 'bx' in v else 'sx'
            u, n = v[k]
            for m in (n // 2, n - n // 8, n - 1):
                if 0 < m < n:
                    yield put(plan, path, {k: [u, m]})
        elif isinstance(v, dict) and 'lx' in v:
            u, n = v['lx']
            yield put(plan, path, u)
            if len(u) > 1:
                yield put(plan, path, {'lx': [u[:1], n]})
            for m in (n // 2, n - n // 8, n - 1):
                if 0 < m < n:
                    yield put(plan, path, {'lx': [u, m]})
        elif isinstance(v, int) and not isinstance(v, bool):
            for m in (0, v // 2, v - 1):
                if 0 <= m < v:
                    yield put(plan, path, m)


def simpler_types(plan):
    """Replace a union or condition by what it contains, and the like."""
    for ci, s in enumerate(plan.get('classes', ())):
        for path, t in list(types(s['fields'], ['classes', ci, 'fields'])):
            if t['k'] == 'cond':
                yield put(plan, path, t['of'])
            if t['k'] in ('lb', 'la'):
                for _, u in t['alts']:
                    if t['k'] == 'lb':
                        yield put(plan, path, u)
                if len(t['alts']) > 1:
                    for i in range(len(t['alts'])):
                        yield put(plan, path + ['alts'], t['alts'][:i] + t['alts'][i + 1:])
                if t['default'] is not None:
                    yield put(plan, path + ['default'], None)
            if t['k'] == 'arr' and t['dsize']:
                yield put(plan, path + ['dsize'], None)
            if t['k'] == 'uni' and t['enc'] != 'utf8':
                yield put(plan, path + ['enc'], 'utf8')


def types(doc, path):
    if isinstance(doc, dict):
        if 'k' in doc:
            yield path, doc
        for k, v in doc.items():
            yield from types(v, path + [k])
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from types(v, path + [i])


def smaller_numbers(plan):
    for path, xs in list(walk(plan, [])):
        pass
    for path, d in list(dicts(plan, [])):
        for k, v in d.items():
            if k in ('o', 'from', 'ci') or not isinstance(v, int) or isinstance(v, bool):
                continue
            for m in (0, v // 2, v - 1):
                if 0 <= m < v:
                    yield put(plan, path + [k], m)
