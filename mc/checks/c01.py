"""C01: what a computation receives, against labelled-array algebra."""
from datetime import datetime, timedelta
import numpy as np
import sympl
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('A case is a tuple of dims declarations for 1-3 inputs; for each, every admissible tuple of '
        'state dimension orders, with the length profiles, memory layouts, dtypes, coordinates, units and '
        'aliases of the case (large integers, complex numbers and text included), is executed through a recording component of each kind, also with the same objects holding other values and units. Distinct states are '
        'distinct (declarations, state shapes, encodings); each is compared with the model.')
SCENARIOS = ['kinds']
ASSUMPTIONS = [
    'Bounds: dimension names x, y, z, w; at most 3 inputs; lengths 0-5; the unit table of mc/lab.py.',
    'Any order of the wildcard dimensions is accepted, if it is the same for all inputs of the call.',
    'States in which a dimension is collapsed in the wildcard by one input and named beside a wildcard by '
    'another are left out (skipped_ambiguous): such a call has no consistent meaning.',
    'The model does not use sympl, xarray or pint: units are a hand-written table.',
]
TIMES = [datetime(2000, 1, 1), timedelta(hours=3), sympl.datetime(2000, 2, 30, calendar='360_day')]
DTYPES = ['float64', 'float32', 'int64', 'int32', 'bool']
LAYOUTS = ['C', 'F', 'strided', 'neg']
NAMES = ['alpha', 'beta', 'gamma']


def cases(tier):
    thorough = tier == 'thorough'
    # one input: all declarations over three names, all states over four
    for spec in L.specs('xyz'):
        yield {'kind': 'single', 'spec': spec, 'deep': thorough}
    for spec in L.specs('xyz'):
        yield {'kind': 'large', 'spec': spec}
    # every pair of units (both directions)
    us = sorted(L.UNITS)
    for u in us:
        yield {'kind': 'units', 'to': u}
    # two inputs
    small = list(L.specs('xy'))
    for a in small:
        for b in small:
            yield {'kind': 'multi', 'specs': [a, b], 'dims': 'xyw', 'profiles': ['distinct', 'equal', 'ones']}
    # three inputs sharing one wildcard
    tri = list(L.specs('x')) + [['*', 'y'], ['y', '*', 'x']]
    tri = tri if thorough else [s for s in tri if '*' in s][:3]
    for a in tri:
        for b in tri:
            for c in tri:
                yield {'kind': 'multi', 'specs': [a, b, c], 'dims': 'xy' if not thorough else 'xyw', 'profiles': ['distinct']}
    if thorough:
        big = list(L.specs('xyz'))
        for a in big:
            for b in big:
                yield {'kind': 'multi', 'specs': [a, b], 'dims': 'xyz',
                       'profiles': ['distinct'], 'cap': 3}


def build(dims, profile, units, dtype='float64', layout='C', coords=False, start=1.0):
    shape = [L.PROFILES[profile][d] for d in dims]
    data = L.layout(L.values_for(shape, start=start, dtype=dtype), layout)
    kw = {}
    if coords:
        kw['coords'] = {d: np.arange(L.PROFILES[profile][d]) * 10.0 + 5 for d in dims}
    return sympl.DataArray(data, dims=list(dims), attrs={'units': units, 'note': 'n'}, **kw)


def execute(obs, kind, comp, decls, units, aliases, state, key):
    labs = {n: L.lab_of(state[n]) for n in decls}
    if L.ambiguous(decls, labs):
        obs.count('skipped_ambiguous')
        return
    before = L.fingerprint(state)
    del C.calls(comp)[:]
    C.call(kind, comp, state)
    obs.step()
    require(len(C.calls(comp)) == 1, 'computation ran {} times', len(C.calls(comp)))
    raw = C.calls(comp)[0]
    require('time' in raw and raw['time'] == state['time'] and type(raw['time']) is type(state['time']),
            'time passed on as {!r} instead of {!r}', raw.get('time'), state['time'])
    raws = {}
    for n in decls:
        k = aliases.get(n, n)
        require(k in raw, 'input {} not delivered under {} (got {})', n, k, sorted(raw))
        require(isinstance(raw[k], np.ndarray), '{} delivered as {}', k, type(raw[k]))
        raws[n] = raw[k]
    exact = {n: L.same_unit(units[n], labs[n].units) for n in decls}
    order = L.find_wildcard_order(decls, units, labs, raws, exact)
    d = L.diff_fingerprints(before, L.fingerprint(state))
    require(d is None, 'input state altered: {}', d)
    obs.state(key)
    obs.outcome([order, [list(r.shape) for r in raws.values()]])


def make(kind, decls, units, aliases):
    props = {}
    for n in decls:
        props[n] = {'dims': decls[n], 'units': units[n]}
        if n in aliases:
            props[n]['alias'] = aliases[n]
    return C.make(kind, props)


def run(case, obs):
    if case['kind'] == 'single':
        spec = case['spec']
        i = 0
        for kind in C.KINDS:
            for alias in ({}, {'alpha': 'A'}):
                comp = make(kind, {'alpha': spec}, {'alpha': 'm'}, alias)
                for dims in L.states_for(spec, 'xyzw'):
                    for profile in L.PROFILES:
                        if profile == 'zero' and kind != 'tend':
                            continue
                        variants = [(l, t, c) for l in LAYOUTS for t in DTYPES[:3] for c in (False, True)] \
                            if case['deep'] else [(LAYOUTS[i % 4], DTYPES[i % 3], i % 5 == 0)]
                        for lay, dt, co in variants:
                            i += 1
                            state = {'alpha': build(dims, profile, ['m', 'km'][i % 2] if dt != 'bool' else 'm', dt, lay, co),
                                     'time': TIMES[i % 3]}
                            execute(obs, kind, comp, {'alpha': spec}, {'alpha': 'm'}, alias, state,
                                    [spec, dims, profile, lay, dt, co])
                            if i % 3 == 0:
                                # the same objects with other contents
                                new = {'alpha': build(dims, profile, ['km', 'm'][i % 2], dt, lay, co, start=5.), 'time': TIMES[(i + 1) % 3]}
                                execute(obs, kind, comp, {'alpha': spec}, {'alpha': 'm'}, alias, C.refill(state, new),
                                        [spec, dims, profile, lay, dt, co, 'again'])
    elif case['kind'] == 'large':
        # values which only their own type can hold, beside an input that has every dimension
        spec = case['spec']
        full = [d for d in spec if d != '*'] + (['w'] if '*' in spec else [])
        for j, (dt, start) in enumerate((('int64', 2 ** 53 + 1), ('uint64', 2 ** 64 - 999), ('int64', -2 ** 63 + 1), ('longdouble', 2 ** 60), ('float64', 1e300), ('complex128', 1 + 2j), ('U3', None))):
            kind = C.KINDS[j % 4]
            comp = make(kind, {'alpha': spec, 'beta': spec}, {'alpha': 'm', 'beta': 'Pa'}, {})
            for dims in L.states_for(spec, 'xyzw'):
                shape = [L.PROFILES['distinct'][d] for d in dims]
                n = int(np.prod(shape)) if shape else 1
                if dt == 'U3':
                    v = np.array(['a%d' % i for i in range(n)]).reshape(shape)
                else:
                    v = (np.arange(n).astype(dt) + np.dtype(dt).type(start) if dt != 'longdouble' else np.arange(n).astype(dt) * 2 + 1 + np.longdouble(start) * 16).reshape(shape)
                state = {'alpha': C.da(dims, v, 'm'), 'time': TIMES[0], 'beta': C.da(full[::-1], np.zeros([L.PROFILES['distinct'][d] for d in full[::-1]]), 'Pa')}
                execute(obs, kind, comp, {'alpha': spec, 'beta': spec}, {'alpha': 'm', 'beta': 'Pa'}, {}, state, ['large', spec, dims, dt])
    elif case['kind'] == 'units':
        to = case['to']
        for i, frm in enumerate(sorted(L.UNITS)):
            if not L.compatible(frm, to):
                continue
            for j, dt in enumerate(DTYPES):
                if dt == 'bool' and not L.same_unit(frm, to):
                    continue
                kind = C.KINDS[(i + j) % 4]
                comp = make(kind, {'alpha': ['y', 'x']}, {'alpha': to}, {})
                for dims in (['x', 'y'], ['y'], []):
                    state = {'alpha': build(dims, 'distinct', frm, dt, LAYOUTS[i % 4]), 'time': TIMES[0]}
                    execute(obs, kind, comp, {'alpha': ['y', 'x']}, {'alpha': to}, {}, state, [frm, to, dt, dims])
    else:
        names = NAMES[:len(case['specs'])]
        decls = dict(zip(names, case['specs']))
        units = dict(zip(names, ['m', 'Pa', 'K']))
        aliases = {'beta': 'B'}
        comps = {k: make(k, decls, units, aliases) for k in C.KINDS}
        opts = [L.states_for(s, case['dims']) for s in case['specs']]
        if 'cap' in case:
            opts = [[d for d in o if len(d) <= case['cap']] for o in opts]
        import itertools
        i = 0
        from_units = [('m', 'Pa', 'K'), ('km', 'hPa', 'degC')]
        for profile in case['profiles']:
            for combo in itertools.product(*opts):
                i += 1
                kind = C.KINDS[i % 4]
                fu = from_units[(i // 4) % 2]
                state = {'time': TIMES[0]}
                # quantities are put in the state in another order than declared
                for q in (range(len(names)) if i % 2 else reversed(range(len(names)))):
                    state[names[q]] = build(combo[q], profile, fu[q], 'float64', LAYOUTS[i % 4], start=1 + 100 * q)
                execute(obs, kind, comps[kind], decls, units, aliases, state,
                        [case['specs'], combo, profile])
                if i % 5 == 0:
                    new = {'time': TIMES[1]}
                    fu = from_units[(i // 4 + 1) % 2]
                    for q in range(len(names)):
                        new[names[q]] = build(combo[q], profile, fu[q], 'float64', 'C', start=7 + 50 * q)
                    execute(obs, kind, comps[kind], decls, units, aliases, C.refill(state, new), [case['specs'], combo, profile, 'again'])
