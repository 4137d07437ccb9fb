"""C03: exactly the faulty states are refused, before the computation runs."""
import itertools
from datetime import datetime
import numpy as np
import sympl
from sympl import InvalidStateError
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('For every pair of input declarations over the dims alphabet, every pair of state dimension tuples and every '
        'length conflict, a recording component is called and the verdict (accepted and computed once / refused as an '
        'invalid state without computing) compared with the model verdict; likewise for all ordered pairs of units, '
        'and all single and double faults through every component kind, composite, wrapper and time stepper.')
SCENARIOS = ['kinds']
ASSUMPTIONS = [
    'Bounds: names x, y, w; two or three inputs; the unit table of mc/lab.py plus unknown units.',
    'For composites and steppers of several components only the refusing component is required not to compute.',
    'Ambiguous wildcard states (see C01) are left out.',
]
T0 = datetime(2000, 1, 1)
LEN = {'x': 2, 'y': 3, 'z': 4, 'w': 5}


def cases(tier):
    thorough = tier == 'thorough'
    us = sorted(L.UNITS)
    for u in us:
        yield {'kind': 'units', 'to': u}
    for kind in C.KINDS:
        yield {'kind': 'faults', 'comp': kind}
    for holder in ('comp_tend', 'comp_impl', 'comp_diag', 'freq_tend', 'freq_step', 'freq_diag', 'scale_tend', 'scale_impl',
                   'scale_diag', 'scale_step', 'diff', 'AB1', 'AB3', 'LF', 'SSP2', 'SSP3'):
        yield {'kind': 'holders', 'holder': holder}
    pool = list(L.specs('xy')) if thorough else [[], ['*'], ['x'], ['x', 'y'], ['*', 'x'], ['x', '*'], ['y', '*', 'x'], ['y', 'x']]
    for a in pool:
        for b in pool:
            yield {'kind': 'dims', 'specs': [a, b], 'dims': 'xyw'}
    if thorough:
        for a, b, c in itertools.product([[], ['*'], ['x'], ['*', 'x'], ['y', 'x']], repeat=3):
            yield {'kind': 'dims', 'specs': [a, b, c], 'dims': 'xw'}


def verdict(decls, dims, shapes):
    lengths = {}
    for n, spec in decls.items():
        for d, l in zip(dims[n], shapes[n]):
            if lengths.setdefault(d, l) != l:
                return 'invalid'
            if '*' not in spec and d not in spec:
                return 'invalid'
    return 'valid'


def attempt(obs, kind, comp, state, want, what):
    n0 = len(C.calls(comp))
    before = L.fingerprint(state)
    st, val = C.outcome(C.call, kind, comp, state)
    obs.step()
    ran = len(C.calls(comp)) - n0
    if want == 'valid':
        require(st == 'ok', 'valid state refused ({}): {!r}', what, val)
        require(ran == 1, 'computation ran {} times ({})', ran, what)
    else:
        require(st == 'err', 'faulty state accepted ({})', what)
        require(ran == 0, 'computation ran on a faulty state ({})', what)
        if want == 'invalid':
            require(isinstance(val, InvalidStateError), 'refused with {!r} instead of an invalid state ({})', val, what)
    require(L.fingerprint(state) == before, 'state altered ({})', what)
    obs.outcome([want, type(val).__name__ if st == 'err' else 'ok'])


def run(case, obs):
    if case['kind'] == 'units':
        to = case['to']
        # the type of the values makes no difference
        for dt, unit, kind in itertools.product(['f8', 'f4', 'i8', 'i4', 'u1', 'b1'], [None, to, 'kg A'], C.KINDS):
            comp = C.make(kind, {'q': {'dims': ['x'], 'units': to}})
            for shape, dims in ((2, ['x']), ((), [])):
                if dt == 'b1' and unit != to and unit is not None:
                    continue
                attempt(obs, kind, comp, {'q': C.da(dims, np.ones(shape, dtype=dt), unit), 'time': T0}, 'valid' if unit == to else 'invalid',
                        '{} values in {} for {}'.format(dt, unit, to))
                obs.state(['dtype', dt, unit, to, kind, dims])
        for i, frm in enumerate(sorted(L.UNITS) + ['foobar', 'm foobar', 'K K', 's m']):
            for kind in ([C.KINDS[i % 4]] if frm in L.UNITS else C.KINDS):
                comp = C.make(kind, {'q': {'dims': ['x'], 'units': to}})
                state = {'q': C.da(['x'], np.arange(2.) + 1, frm), 'time': T0}
                if frm not in L.UNITS:
                    want = 'refused' if 'foobar' in frm else 'invalid'
                else:
                    want = 'valid' if L.compatible(frm, to) else 'invalid'
                attempt(obs, kind, comp, state, want, 'units {} for {}'.format(frm, to))
                obs.state(['units', frm, to])
    elif case['kind'] == 'dims':
        names = ['a', 'b', 'c'][:len(case['specs'])]
        decls = dict(zip(names, case['specs']))
        comps = {k: C.make(k, {n: {'dims': decls[n], 'units': 'm'} for n in names}) for k in C.KINDS}
        i = 0
        every = list(L.arrangements(case['dims']))
        if len(names) == 3:
            every = [e for e in every if len(e) <= 1] + [list(case['dims'])]
        for combo in itertools.product(every, repeat=len(names)):
            dims = dict(zip(names, combo))
            base = {n: [LEN[d] for d in dims[n]] for n in names}
            variants = [base]
            # every conflict in the length of one dimension of one quantity
            for n in names[1:]:
                for j, d in enumerate(dims[n]):
                    for alt in (1, LEN[d] + 1):
                        v = {k: list(s) for k, s in base.items()}
                        v[n][j] = alt
                        variants.append(v)
            for shapes in variants:
                i += 1
                kind = C.KINDS[i % 4]
                labs = {n: L.Lab(dims[n], np.zeros(shapes[n])) for n in names}
                if L.ambiguous(decls, labs):
                    obs.count('skipped_ambiguous')
                    continue
                state = {'time': T0}
                for n in names:
                    state[n] = C.da(dims[n], np.ones(shapes[n]), 'm')
                want = verdict(decls, dims, shapes)
                attempt(obs, kind, comps[kind], state, want, 'declared {}, state dims {}, shapes {}'.format(decls, dims, shapes))
                obs.state([case['specs'], combo, [shapes[n] for n in names]])
    elif case['kind'] == 'faults':
        kind = case['comp']
        for decls in ({'a': ['x', 'y'], 'b': ['y'], 'c': []}, {'a': ['*', 'y'], 'b': ['y', '*'], 'c': ['*']},
                      {'a': ['x'], 'b': ['*'], 'c': ['x', '*']}):
            props = {n: {'dims': d, 'units': u} for (n, d), u in zip(decls.items(), ['m', 'K', 'Pa'])}
            props['b']['alias'] = 'B'
            comp = C.make(kind, props)

            def good():
                st = {'time': T0, 'extra': C.da(['q'], np.ones(7), 'kg')}
                for (n, d), u in zip(decls.items(), ['km', 'degC', 'hPa']):
                    dims = [x if x != '*' else 'w' for x in d]
                    if n == 'c' and 'w' in dims and decls['a'] == ['x']:
                        dims = ['x']
                    st[n] = C.da(dims, np.ones([LEN[x] for x in dims]), u)
                return st
            faults = {}
            for n in decls:
                faults['missing ' + n] = lambda s, n=n: s.pop(n, None)
                faults['no units ' + n] = lambda s, n=n: n in s and s[n].attrs.pop('units', None)
                faults['wrong units ' + n] = lambda s, n=n: n in s and s[n].attrs.update(units='kg s^-1')
                faults['alias only ' + n] = lambda s, n=n: n in s and s.__setitem__('B', s.pop(n))
                if '*' not in decls[n]:
                    faults['extra dim ' + n] = lambda s, n=n: n in s and s.__setitem__(
                        n, C.da(list(s[n].dims) + ['v'], np.ones(list(s[n].shape) + [2]), s[n].attrs.get('units')))
            faults['conflict'] = lambda s: 'b' in s and s.__setitem__(
                'b', C.da(['y' if 'y' in decls['b'] or decls['b'] == ['*'] and 'y' in decls['a'] else ('x' if '*' in decls['b'] else 'y')],
                          np.ones(9), s['b'].attrs.get('units')))
            loose = {'missing time': lambda s: s.pop('time', None)}
            attempt(obs, kind, comp, good(), 'valid', 'no fault')
            keys = sorted(faults)
            for f, g in itertools.combinations_with_replacement(keys, 2):
                s = good()
                faults[f](s)
                faults[g](s)
                # the third kind of declaration cannot conflict if b alone has the dimension
                attempt(obs, kind, comp, s, 'invalid', 'faults {} and {} with {}'.format(f, g, decls))
                obs.state(['faults', kind, sorted(decls.items()), f, g])
                # the same objects, repaired and broken again
                C.refill(s, good())
                attempt(obs, kind, comp, s, 'valid', 'after faults {} and {}'.format(f, g))
                faults[f](s)
                attempt(obs, kind, comp, s, 'invalid', 'fault {} in a state that was valid before'.format(f))
            for f in [None] + keys:
                s = good()
                s.pop('time')
                if f:
                    faults[f](s)
                attempt(obs, kind, comp, s, 'refused', 'no time, {}'.format(f))
    else:
        run_holder(case['holder'], obs)


def run_holder(holder, obs):
    props = {'a': {'dims': ['x', '*'], 'units': 'm'}, 'b': {'dims': ['*'], 'units': 'K'}}
    base = holder.split('_')[-1]
    kind = {'tend': 'tend', 'impl': 'impl', 'diag': 'diag', 'step': 'step', 'diff': 'step'}.get(base, 'tend')
    main = {'a': {'units': 'm' if kind in ('step', 'diag') else 'm s^-1'}}
    inner = C.make(kind, props, main, {'d': {'dims': ['*'], 'units': 'K'}},
                   lambda raw, dt: ({'a': raw['a'] * 1.0}, {'d': raw['b'] * 1.0}))
    from datetime import timedelta
    if holder == 'comp_tend':
        obj = sympl.TendencyComponentComposite(inner)
    elif holder == 'comp_impl':
        obj = sympl.ImplicitTendencyComponentComposite(inner)
    elif holder == 'comp_diag':
        obj = sympl.DiagnosticComponentComposite(inner)
    elif holder.startswith('freq'):
        obj = sympl.UpdateFrequencyWrapper(inner, timedelta(seconds=0))
    elif holder.startswith('scale'):
        obj = sympl.ScalingWrapper(inner, input_scale_factors={'b': 2.0})
    elif holder == 'diff':
        obj = sympl.TimeDifferencingWrapper(inner)
    elif holder in ('AB1', 'AB3'):
        obj = sympl.AdamsBashforth(inner, order=int(holder[-1]))
    elif holder == 'LF':
        obj = sympl.Leapfrog(inner)
    else:
        obj = sympl.SSPRungeKutta(inner, stages=int(holder[-1]))
    ncalls = {'SSP2': 2, 'SSP3': 3}.get(holder, 1)

    def good():
        return {'time': T0, 'a': C.da(['x', 'y'], np.ones((2, 3)), 'km'), 'b': C.da(['y'], np.ones(3), 'degC')}
    faults = {
        'missing a': lambda s: s.pop('a', None), 'missing b': lambda s: s.pop('b', None),
        'units a': lambda s: 'a' in s and s['a'].attrs.pop('units', None),
        'units b': lambda s: 'b' in s and s['b'].attrs.pop('units', None),
        'wrong a': lambda s: 'a' in s and s['a'].attrs.update(units='s'),
        'wrong b': lambda s: 'b' in s and s['b'].attrs.update(units='s'),
        'conflict': lambda s: 'b' in s and s.__setitem__('b', C.da(['y'], np.ones(4), s['b'].attrs.get('units'))),
        'no time': lambda s: s.pop('time', None),
    }
    import inspect

    def go(s):
        if kind in ('impl', 'step') or holder in ('AB1', 'AB3', 'LF', 'SSP2', 'SSP3') or holder == 'comp_impl':
            return obj(s, C.DT)
        return obj(s)

    def valid(what, s=None):
        n0 = len(C.calls(inner))
        st, val = C.outcome(go, s or good())
        obs.step()
        require(st == 'ok', '{}: valid state refused ({}): {!r}', holder, what, val)
        require(len(C.calls(inner)) - n0 == ncalls, '{}: computed {} times', holder, len(C.calls(inner)) - n0)
    valid('first')
    for f, g in itertools.combinations_with_replacement(sorted(faults), 2):
        s = good()
        faults[f](s)
        faults[g](s)
        n0 = len(C.calls(inner))
        st, val = C.outcome(go, s)
        obs.step()
        obs.state([holder, f, g])
        require(st == 'err', '{}: faulty state accepted: {} and {}', holder, f, g)
        require(len(C.calls(inner)) == n0, '{}: computation ran on a faulty state: {} and {}', holder, f, g)
        obs.outcome([holder, type(val).__name__])
        if holder == 'LF':  # keeps the state it was given
            valid('after {} and {}'.format(f, g))
            continue
        valid('after {} and {}'.format(f, g), C.refill(s, good()))
        faults[f](s)
        n0 = len(C.calls(inner))
        st, val = C.outcome(go, s)
        obs.step()
        require(st == 'err' and len(C.calls(inner)) == n0, '{}: state accepted or computed with {}, having been valid before', holder, f)
        valid('after {} in place'.format(f))
