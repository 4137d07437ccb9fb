"""C10: what a time stepper leaves alone."""
import itertools
from datetime import datetime, timedelta
import numpy as np
import cftime
import sympl
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('Every time stepper (Adams-Bashforth 1-4, Leapfrog, SSP Runge-Kutta 2 and 3) x every kind of bystander quantity '
        '(all dtypes, shapes, attributes, coordinates, values that are no arrays at all), singly and together x every time '
        'type, and x every dimension order / subset / unit of the stepped quantity, over histories of steps fed with their '
        'own result; every quantity without tendency is compared bit by bit, every stepped one for units and dims, the '
        'diagnostics with those of the components called directly.')
SCENARIOS = ['stepper0', 'stepper1', 'stepper2', 'stepper3', 'stepper4', 'stepper5', 'stepper6', 'stepper7']
ASSUMPTIONS = ['Bounds: 3 steps (thorough 5); up to three dimensions.',
               'Dimension order is not compared for Leapfrog steps whose previous state had other dimensions.']
STEPPERS = [('AB', 1), ('AB', 2), ('AB', 3), ('AB', 4), ('LF', None), ('RK', 2), ('RK', 3)]
DT = timedelta(seconds=20)
T0 = datetime(2000, 1, 1)


class Thing(object):
    def __repr__(self):
        return 'Thing'


def extras():
    x = np.array
    return {
        'float32': lambda: C.da(['x'], x([1.5, 2.25], dtype='f4'), 'K', a=1),
        'int': lambda: C.da(['x', 'z'], x([[1, 2], [3, 2 ** 60 + 1]]), 'm'),
        'uint8': lambda: C.da(['z'], x([255, 0, 7], dtype='u1'), ''),
        'bool': lambda: C.da(['x'], x([True, False]), ''),
        'str': lambda: C.da(['x'], x(['a', 'bb']), ''),
        'object': lambda: C.da(['x'], x([{'a': 1}, None], dtype=object)),
        'complex': lambda: C.da(['x'], x([1 + 2j, 3]), 's'),
        'datetime64': lambda: C.da(['x'], x(['2000-01-01', '2001-02-03'], dtype='M8[ns]')),
        'timedelta64': lambda: C.da(['x'], x([1, 2], dtype='m8[ns]'), 's'),
        'nan': lambda: C.da(['x'], x([np.nan, np.inf, -0.0]), 'K'),
        'scalar': lambda: C.da([], x(3.5), 'K'),
        'scalar_int': lambda: C.da([], x(7), 'K'),
        'empty': lambda: C.da(['e'], np.zeros(0), 'K'),
        'otherlen': lambda: C.da(['x'], np.arange(5.), 'K'),
        'nounits': lambda: C.da(['x', 'y'], np.ones((2, 3))),
        'badunits': lambda: C.da(['x'], np.ones(2), 'florps'),
        'coords': lambda: sympl.DataArray(np.arange(2.), dims=['x'], coords={'x': [10, 20], 'lab': ('x', ['u', 'v'])}, attrs={'units': 'K'}, name='n'),
        'ndarray': lambda: np.arange(3),
        'number': lambda: 5,
        'float': lambda: 2.5,
        'string': lambda: 'text',
        'none': lambda: None,
        'list': lambda: [1, 'a'],
        'dict': lambda: {'units': 'm'},
        'timedelta': lambda: timedelta(hours=1),
        'object_': lambda: Thing(),
        'd1': lambda: C.da(['x'], np.arange(2), 'kg'),  # in the way of a diagnostic
        'f_in': lambda: None,
    }


TIMES = {'datetime': lambda: T0, 'timedelta': lambda: timedelta(days=1), 'cftime': lambda: cftime.DatetimeNoLeap(2001, 2, 28),
         'aware': lambda: datetime(2000, 1, 1, tzinfo=__import__('datetime').timezone.utc)}
LENS = {'x': 2, 'y': 3, 'z': 2}


def cases(tier):
    n = 3 if tier == 'quick' else 5
    names = [k for k in extras() if k != 'f_in']
    for s in STEPPERS:
        for k in names:
            yield {'stepper': s, 'extras': [k], 'time': 'datetime', 'len': n}
        for t in TIMES:
            yield {'stepper': s, 'extras': names, 'time': t, 'len': n}
        yield {'stepper': s, 'extras': [], 'time': 'datetime', 'len': n}
        if tier == 'thorough':
            for a, b in itertools.combinations(names, 2):
                yield {'stepper': s, 'extras': [a, b], 'time': 'datetime', 'len': 2}
        for dims in L.arrangements(['x', 'y', 'z']):
            yield {'stepper': s, 'layout': dims, 'len': n}


def build(spec, comps):
    k, n = spec
    if k == 'AB':
        return sympl.AdamsBashforth(*comps, order=n)
    if k == 'LF':
        return sympl.Leapfrog(*comps)
    return sympl.SSPRungeKutta(*comps, stages=n)


def comps1():
    def fn(raw, t):
        return {'q': raw['q'] * -1e-3 + raw['f']}, {'d1': raw['q'] * 2}

    def fn2(raw, t):
        return {'p': np.array([0.5, 0.25])}, {'d2': raw['p'] + 1}

    def fn3(raw, t):
        return {}, {'d3': raw['f'] * 3}
    return [C.make('tend', {'q': {'dims': ['x'], 'units': 'm'}, 'f': {'dims': ['x'], 'units': 'm s^-1'}}, {'q': {'units': 'm s^-1'}},
                   {'d1': {'dims': ['x'], 'units': 'm'}}, fn, name='One'),
            C.make('impl', {'p': {'dims': ['x'], 'units': 'K'}}, {'p': {'units': 'K s^-1'}}, {'d2': {'dims': ['x'], 'units': 'K'}}, fn2, name='Two'),
            C.make('tend', {'f': {'dims': ['*'], 'units': 'm s^-1'}}, {}, {'d3': {'dims': ['*'], 'units': 'm s^-1'}}, fn3, name='Three')]


def expected_diags(comps, state):
    out = {}
    for c in comps:
        r = c(state, DT) if isinstance(c, sympl.ImplicitTendencyComponent) else c(state)
        for n in r[1]:
            require(n not in out, 'harness: shared diagnostic')
        out.update(r[1])
    return out


def compare_diags(got, want, where):
    require(set(got) == set(want), 'diagnostics {} instead of {}, {}', sorted(got), sorted(want), where)
    for n in want:
        require(set(got[n].dims) == set(want[n].dims) and got[n].attrs.get('units') == want[n].attrs.get('units')
                and L.close(L.lab_of(got[n]).order(want[n].dims), np.asarray(want[n].values)),
                'diagnostic {} differs from that of its component on the input state, {}', n, where)


def run(case, obs):
    if 'layout' in case:
        return run_layout(case, obs)
    comps = comps1()
    stepper = build(case['stepper'], comps)
    ex = extras()
    state = {'q': C.da(['x'], np.array([100., 200.]), 'm'), 'f': C.da(['x'], np.array([1, 2]), 'm s^-1', foo='bar'),
             'p': C.da(['x'], np.array([280., 290.]), 'K'), 'time': TIMES[case['time']]()}
    for k in case['extras']:
        state[k] = ex[k]()
    for i in range(case['len']):
        where = 'step {} of {} {} with {}, time {}'.format(i + 1, case['stepper'][0], case['stepper'][1], case['extras'], case['time'])
        idle = {n: L.fingerprint(v) for n, v in state.items() if n not in ('q', 'p')}
        want = expected_diags(comps1(), state)
        keys = set(state)
        st, out = C.outcome(stepper, state, DT)
        obs.step()
        obs.state([case, i])
        require(st == 'ok', 'step failed: {!r}, {}', out, where)
        diags, new = out
        compare_diags(diags, want, where)
        require(set(new) == keys, 'new state has {} instead of {}, {}', sorted(new), sorted(keys), where)
        for n, f in idle.items():
            require(L.fingerprint(new[n]) == f and type(new[n]) is type(state[n]), '{} was changed in the new state: {!r}, {}', n, new[n], where)
            require(L.fingerprint(state[n]) == f, '{} was changed in the state passed in, {}', n, where)
        for n, u in (('q', 'm'), ('p', 'K')):
            require(new[n].dims == ('x',) and new[n].attrs.get('units') in L.UNITS and L.same_unit(new[n].attrs['units'], u),
                    '{} has dims {} units {!r}, {}', n, new[n].dims, new[n].attrs.get('units'), where)
            require(not L.close(np.asarray(new[n].values), np.asarray(state[n].values)) or i < 0, '{} was not stepped, {}', n, where)
        obs.outcome([type(v).__name__ for v in new.values()])
        state = new


def run_layout(case, obs):
    """The stepped quantity has the given dims; its tendency any others."""
    qd = case['layout']
    for spec in (['*'], ['x', 'y', 'z'], ['z', '*', 'x'], ['y', 'x', 'z']):
        # declared inputs may broadcast the quantity to dims that it lacks
        for td in (None, ['x', 'y', 'z'], ['z', 'x'], ['y']):
            for unit, tunit in (('m', 'cm s^-1'), ('km', 'm s^-1'), ('degC', 'K day^-1')):
                base = 'K' if unit == 'degC' else 'm'
                fns = [lambda raw, t: ({'q': np.asarray(raw['q']) * 0 + 0.5}, {'d1': np.asarray(raw['q']) * 2.})]
                comps = lambda: [C.make('tend', {'q': {'dims': spec, 'units': base}, 'o': {'dims': ['x', 'y', 'z'], 'units': ''}}, {'q': {'units': tunit}}, {'d1': {'dims': spec, 'units': base}}, fns[0], name='One')]
                tdims = set(qd) if spec == ['*'] else set(qd) | (set(spec) - {'*'})
                # dims of the state are unambiguous: x and z always named or never
                if td is not None:
                    shape = [LENS[d] for d in td]
                    both = lambda: comps() + [C.make('tend', {'o': {'dims': ['x', 'y', 'z'], 'units': ''}}, {'q': {'dims': td, 'units': tunit}}, {},
                                                     lambda raw, t: ({'q': np.ones(shape)}, {}), name='Two')]
                    # combined dims must be the same set or wildcard
                    st, cl = C.outcome(both)
                    tdims = tdims | set(td)
                else:
                    cl = comps()
                st, stepper = C.outcome(build, case['stepper'], cl)
                obs.step()
                if st == 'err':
                    obs.count('not_combinable')
                    continue
                state = {'q': C.da(qd, L.values_for([LENS[d] for d in qd], 10.), unit, note='mine'), 'time': T0,
                         'o': C.da(['z', 'x', 'y'], np.ones((2, 2, 3)), ''), 'other': C.da(['x'], np.array([1, 2]), 'kg')}
                for i in range(case['len']):
                    where = 'step {} of {} with q{} in {}, declared {}, other tendency dims {}'.format(i + 1, case['stepper'], state['q'].dims, unit, spec, td)
                    have = state['q'].dims
                    want = expected_diags(cl, state)
                    st, out = C.outcome(stepper, state, DT)
                    obs.step()
                    obs.state([case['stepper'], qd, spec, td, unit, i])
                    require(st == 'ok', 'step failed: {!r}, {}', out, where)
                    diags, new = out
                    compare_diags(diags, want, where)
                    require(set(new) == set(state), 'new state has {}, {}', sorted(new), where)
                    got = new['q'].dims
                    # the leapfrog scheme starts from the previous state, which may have had fewer dims
                    ordered = case['stepper'][0] != 'LF' or set(qd) == set(have)
                    require((not ordered or got[:len(have)] == have) and set(got) == set(have) | tdims, 'q has dims {}, {}', got, where)
                    require(new['q'].attrs.get('units') in L.UNITS and L.same_unit(new['q'].attrs['units'], unit), 'q has units {!r}, {}', new['q'].attrs.get('units'), where)
                    for n in ('o', 'other', 'time'):
                        require(L.fingerprint(new[n]) == L.fingerprint(state[n]), '{} changed, {}', n, where)
                    obs.outcome([list(have), list(got)])
                    state = new
