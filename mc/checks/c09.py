"""C09: SSP Runge-Kutta against the Shu-Osher form."""
import itertools
from datetime import datetime, timedelta
import numpy as np
import sympl
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('For 2 and 3 stages, all sets and orders of up to three coupled, nonlinear, state-dependent components, all units '
        'and dimension orders of the state, timesteps, and all histories of steps over an alphabet of states, states overwritten in place and component '
        'failures: every tendency evaluation (the arrays seen), the new state and the diagnostics are compared with the '
        'Shu-Osher scheme evaluated by the model.')
SCENARIOS = ['stepper6', 'stepper7']
ASSUMPTIONS = ['Bounds: histories of length 3 (thorough 5) over 8 operations; component sets of size 1-3; 4 timesteps.',
               'Three different timesteps within a history.']
T0 = datetime(2000, 1, 1)
DTS = [timedelta(seconds=10), timedelta(minutes=2, microseconds=250), timedelta(milliseconds=20), timedelta(hours=1)]
STATES = {
    'A': {'q': np.array([[1., 2., -3.], [4., -5., 6.5]]), 'p': np.array([280., 290.5])},
    'B': {'q': np.array([[-7., 0.5, 3.], [2., 1., -1.]]), 'p': np.array([300., 250.25])},
}
UN = [{'q': 'm', 'p': 'K'}, {'q': 'km', 'p': 'degC'}, {'q': 'cm', 'p': 'degF'}]
OPS = ('A', 'B', 'Akm', 'fail', 'a', 'b', 'Along', 'bshort')
SCALE = 1e-3  # rate, so that an hour is a large but finite step


def cases(tier):
    n = 3 if tier == 'quick' else 5
    comps = ['one', 'two', 'imp']
    sets = [list(p) for k in (1, 2, 3) for p in itertools.permutations(comps, k)]
    for stages in (2, 3, None):
        for cs in sets:
            for di in range(len(DTS)):
                yield {'stages': stages, 'comps': cs, 'dt': di, 'kind': 'single'}
        for first in OPS:
            yield {'stages': stages, 'comps': ['two', 'one', 'imp'], 'dt': 0, 'kind': 'history', 'len': n, 'first': first}
    yield {'kind': 'ctor'}


class Boom(Exception):
    pass


class Box(object):
    dt = None       # of the step being made
    fail_at = None
    calls = 0


def comp(which, box, dt):
    def guard():
        box.calls += 1
        if box.fail_at == box.calls:
            raise Boom()
    if which == 'one':
        def fn(raw, t):
            guard()
            return ({'q': (-raw['q'] ** 2 * SCALE + raw['p'] * 1e-4) * 1e-3, 'p': raw['q'].sum(0) * SCALE * 86400.},
                    {'d1': raw['q'] * 2 + raw['p']})
        return C.make('tend', {'q': {'dims': ['y', 'x'], 'units': 'm'}, 'p': {'dims': ['x'], 'units': 'K'}},
                      {'q': {'units': 'km s^-1'}, 'p': {'units': 'K day^-1'}}, {'d1': {'dims': ['y', 'x'], 'units': 'm'}}, fn, name='One')
    if which == 'two':
        def fn(raw, t):
            guard()
            return {'q': -raw['q'] * SCALE}, {'d2': raw['q'] + 1}
        return C.make('tend', {'q': {'dims': ['*'], 'units': 'cm'}}, {'q': {'units': 'cm s^-1'}}, {'d2': {'dims': ['*'], 'units': 'cm'}}, fn, name='Two')

    def fn(raw, t):
        guard()
        require(t == box.dt, 'implicit component received timestep {} instead of {}', t, box.dt)
        return {'p': (285. - raw['p']) * SCALE}, {}
    return C.make('impl', {'p': {'dims': ['x'], 'units': 'K'}}, {'p': {'units': 'degC s^-1'}}, {}, fn, name='Three')


def rhs(v, comps):
    out = {'q': np.zeros((2, 3)), 'p': np.zeros(2)}
    if 'one' in comps:
        out['q'] = out['q'] + (-v['q'] ** 2 * SCALE + v['p'][:, None] * 1e-4)
        out['p'] = out['p'] + v['q'].sum(1) * SCALE
    if 'two' in comps:
        out['q'] = out['q'] - v['q'] * SCALE
    if 'imp' in comps:
        out['p'] = out['p'] + (285. - v['p']) * SCALE
    return out


def model(v, comps, secs, stages):
    """-> (new values, list of the states at which tendencies are evaluated)"""
    def euler(u):
        f = rhs(u, comps)
        return {n: u[n] + secs * f[n] for n in u}
    lin = lambda a, u, b, w: {n: a * u[n] + b * w[n] for n in u}
    s1 = euler(v)
    if stages == 2:
        return lin(0.5, v, 0.5, euler(s1)), [v, s1]
    s2 = lin(0.75, v, 0.25, euler(s1))
    return lin(1 / 3., v, 2 / 3., euler(s2)), [v, s1, s2]


def state(v, u, order):
    q = L.Lab(['x', 'y'], L.convert(v['q'], 'm', u['q'])).order(order)
    return {'q': C.da(order, np.array(q), u['q'], long_name='the q'), 'p': C.da(['x'], np.array(L.convert(v['p'], 'K', u['p'])), u['p']),
            'time': T0, 'extra': C.da(['z'], np.arange(3), 'kg')}


def check(stepper, cl, names, v, u, order, dt, stages, obs, where, reuse=None):
    for c in cl:
        c.seen, c.raw, c.dts = [], [], []
    st = state(v, u, order)
    if reuse is not None:
        st = C.refill(reuse, st)
    before = L.fingerprint(st)
    diags, new = stepper(st, dt)
    obs.step()
    require(L.fingerprint(st) == before, 'state passed in was altered {}', where)
    want, evals = model(v, names, dt.total_seconds(), stages)
    for c, n in zip(cl, names):
        seen = C.calls(c)
        require(len(seen) == stages, '{} evaluated {} times instead of {} {}', n, len(seen), stages, where)
        for i, (s, e) in enumerate(zip(seen, evals)):
            if 'q' in s:
                got = s['q'].T if n == 'one' else s['q'].reshape([2, 3] if order == ['x', 'y'] else [3, 2])
                if n == 'two':
                    got = (got if order == ['x', 'y'] else got.T) / 100.
                require(L.close(got, e['q'], rtol=1e-8), '{}: q at evaluation {} is {} instead of {} {}', n, i + 1, got.tolist(), e['q'].tolist(), where)
            if 'p' in s:
                require(L.close(s['p'], e['p'], rtol=1e-8), '{}: p at evaluation {} is {} instead of {} {}', n, i + 1, s['p'].tolist(), e['p'].tolist(), where)
    for n, dims, base in (('q', ['x', 'y'], 'm'), ('p', ['x'], 'K')):
        have = new[n].attrs.get('units')
        require(have in L.UNITS and L.same_unit(have, u[n]), '{} has units {!r} instead of {!r} {}', n, have, u[n], where)
        g = L.lab_of(new[n]).order(dims)
        w = L.convert(want[n], base, u[n])
        require(np.allclose(g, w, rtol=1e-8, atol=1e-8 * float(np.abs(w).max() + 1e-3)), 'new {} is {} instead of {} {}', n, g.tolist(), w.tolist(), where)
    wd = {}
    if 'one' in names:
        wd['d1'] = v['q'] * 2 + v['p'][:, None]
    if 'two' in names:
        wd['d2'] = v['q'] * 100 + 1
    require(set(diags) == set(wd), 'diagnostics {} instead of {} {}', sorted(diags), sorted(wd), where)
    for n in wd:
        require(L.close(L.lab_of(diags[n]).order(['x', 'y']), wd[n], rtol=1e-8), 'diagnostic {} is not that of the input state {}', n, where)
    obs.outcome([round(float(x), 6) for x in want['q'].ravel()])
    return st


def build(stages, names, dt):
    box = Box()
    box.dt = dt
    cl = [comp(n, box, dt) for n in names]
    kw = {} if stages is None else {'stages': stages}
    return box, cl, sympl.SSPRungeKutta(*cl, **kw)


def run(case, obs):
    if case['kind'] == 'ctor':
        for bad in (0, 1, 4, 5, -2, 2.5, '3', None, 'two', True):
            st, val = C.outcome(lambda: sympl.SSPRungeKutta(comp('two', Box(), DTS[0]), stages=bad))
            obs.step()
            obs.state(['ctor', repr(bad)])
            require(st == 'err', 'stages={!r} accepted', bad)
        for stages in (2, 3):
            for args in ([], ['x'], [sympl.ConstantDiagnosticComponent({})]):
                if not args:
                    continue
                st, val = C.outcome(lambda: sympl.SSPRungeKutta(*args, stages=stages))
                obs.step()
                require(st == 'err', 'built around {!r}', args)
        return
    names, dt = case['comps'], DTS[case['dt']]
    stages = case['stages'] or 3
    if case['kind'] == 'single':
        for v in STATES:
            for u in UN:
                for order in (['x', 'y'], ['y', 'x']):
                    box, cl, stepper = build(case['stages'], names, dt)
                    obs.state([case, v, u, order])
                    check(stepper, cl, names, STATES[v], u, order, dt, stages, obs,
                          '(stages {}, components {}, state {}, units {}, dims {}, dt {})'.format(stages, names, v, u, order, dt))
        return
    for rest in itertools.product(OPS, repeat=case['len'] - 1):
        h = [case['first']] + list(rest)
        box, cl, stepper = build(case['stages'], names, dt)
        used = None
        for i, op in enumerate(h):
            where = 'at step {} of {} (stages {})'.format(i + 1, h, stages)
            obs.state([stages, h[:i + 1]])
            if op == 'fail':
                box.calls, box.fail_at = 0, 1 + (i * 4 + 1) % (3 * stages)
                box.dt = DTS[i % 2]
                st, val = C.outcome(stepper, state(STATES['B'], UN[0], ['x', 'y']), box.dt)
                obs.step()
                box.fail_at = None
                require(st == 'err' and isinstance(val, Boom), 'failure of a component came out as {!r} {}', val, where)
            else:
                u = UN[1] if op == 'Akm' else UN[0]
                box.dt = {'Along': DTS[3], 'bshort': DTS[2]}.get(op, dt)
                # in lower case: the objects of the previous state with new contents
                used = check(stepper, cl, names, STATES[op[0].upper()], u, ['y', 'x'] if op == 'B' else ['x', 'y'], box.dt, stages, obs, where,
                             used if op[0].islower() else None)
