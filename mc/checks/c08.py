"""C08: Leapfrog with the Robert-Asselin-Williams filter, over all histories."""
import copy
import itertools
from datetime import datetime, timedelta
import numpy as np
import sympl
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All histories up to the bound over {step, step with the state transposed and in other units, step with a state of integers, step with the '
        'returned state object itself, step with one dictionary which the caller keeps and updates with each new state, wrong timestep, first/second component fails, state whose shape contradicts a '
        'tendency, state without units}, for each filter strength and alpha, on the real stepper in lockstep with a model '
        'of the scheme in SI units; every step compares the new state, the filtered state written back, and the untouched '
        'quantities of the state passed in.')
SCENARIOS = ['stepper4', 'stepper5']
ASSUMPTIONS = [
    'Bounds: length 3 over all operations, 4 over {step, same object, kept dictionary, other units, failure}, 6 over {step, other units} '
    '(thorough: 4, 6, 9); 13 pairs of filter strength and alpha.',
    'The first timestep is that of the first completed step.',
    'The caller does not write into the arrays of a state after passing it to the stepper.',
]
ALL = ['ok', 'obj', 'same', 'km', 'int', 'wrong', 'fail', 'fail2', 'shape', 'nounits']
GOOD = ('ok', 'km', 'int', 'obj', 'same')
PARAMS = [(None, None), (0.2, 1.0), (0.0, 0.5), (0.1, 0.0), (1.0, 0.53), (0.5, None), (1.5, 0.53), (2.5, 1.0), (-0.3, 0.6), (0.3, 1.7), (0.4, -0.5),
          (0.5, 0.9999), (1e-4, 1.0001)]
DTS = [timedelta(seconds=10), timedelta(hours=1, microseconds=500), timedelta(milliseconds=20), timedelta(days=1)]
T0 = datetime(2000, 1, 1)


def cases(tier):
    d = {'quick': (3, 4, 6), 'thorough': (4, 6, 9)}[tier]
    for i, (s, a) in enumerate(PARAMS):
        for ops, n, pre in ((['ok', 'km'], d[2], 2), (['ok', 'obj', 'same', 'km', 'fail2'], d[1], 2), (ALL, d[0], 2)):
            for first in itertools.product(ops, repeat=pre):
                yield {'strength': s, 'alpha': a, 'dt': i % len(DTS), 'ops': ops, 'len': n, 'prefix': list(first)}


class Boom(Exception):
    pass


def run(case, obs):
    sim = Sim(case['strength'], case['alpha'], DTS[case['dt']])
    for op in case['prefix']:
        if not sim.step(op, obs):
            return
    explore(sim, case['ops'], case['len'] - len(case['prefix']), obs)


def explore(sim, ops, depth, obs):
    if depth == 0:
        return
    for op in ops:
        branch = copy.deepcopy(sim)
        if branch.step(op, obs):
            explore(branch, ops, depth - 1, obs)


DIMS = {'q': ['x', 'y'], 'p': ['x'], 'r': ['n']}


class Sim(object):

    def __init__(self, strength, alpha, dt):
        kw = {}
        if strength is not None:
            kw['asselin_strength'] = strength
        if alpha is not None:
            kw['alpha'] = alpha
        self.strength = 0.05 if strength is None else strength
        self.alpha = 0.5 if alpha is None else alpha
        self.dt = dt
        self.cur = {'q': np.arange(6.).reshape(2, 3) * 100 + 7, 'p': np.array([280., 290.]), 'r': np.array([1., 2.])}
        self.old = None
        self.last = None
        self.prev = None
        self.done = 0
        self.ops = []
        c1 = C.make('tend', {'q': {'dims': ['x', 'y'], 'units': 'm'}}, {'q': {'units': 'km s^-1'}, 'p': {'dims': ['x'], 'units': 'degC day^-1'}},
                    {'diag': {'dims': ['x', 'y'], 'units': 'm'}}, F1(), name='One')
        c2 = C.make('impl', {'p': {'dims': ['x'], 'units': 'K'}}, {'q': {'dims': ['y', 'x'], 'units': 'cm s^-1'}, 'r': {'dims': ['n'], 'units': 's^-1'}},
                    {}, F2(dt), name='Two')
        self.stepper = sympl.Leapfrog(c1, c2, **kw)

    def step(self, op, obs):
        dt, cur = self.dt, self.cur
        self.ops.append(op)
        ops = self.ops
        k = len(ops)
        # before the first completed step every timestep will do: the one of a step which fails is not the first
        first = op == 'wrong' and self.done == 0
        if op in ('obj', 'same') and self.last is None:
            obs.count('skipped_histories')
            return False
        BOX['op'], BOX['k'] = 'fail' if first else op, k
        if op in ('obj', 'same'):
            st = self.last
            if op == 'same':
                self.prev.update(self.last)
                st = self.prev
            u = {n: st[n].attrs['units'] for n in DIMS}
        else:
            u = {'q': 'km', 'p': 'degC', 'r': '%'} if op == 'km' else {'q': 'm', 'p': 'K', 'r': ''}
            q = L.convert(cur['q'], 'm', u['q'])
            st = {'q': C.da(['x', 'y'], q.copy(), u['q']) if op != 'km' else C.da(['y', 'x'], q.T.copy(), u['q']),
                  'p': C.da(['x'], np.array(L.convert(cur['p'], 'K', u['p'])), u['p']),
                  'r': C.da(['n'], np.array(L.convert(cur['r'], '', u['r'])), u['r']), 'time': T0 + dt * self.done,
                  'other': C.da(['x'], np.array([1, 2]), 'kg', note='n')}
        if op == 'int':
            self.cur = cur = {n: np.round(cur[n]) for n in DIMS}
            for n in DIMS:
                st[n] = C.da(DIMS[n], cur[n].astype(np.int64), u[n])
        if op == 'shape':
            st['r'] = C.da(['n'], np.ones(3), u['r'])
        if op == 'nounits':
            del st['q'].attrs['units']
        extra = {n: L.fingerprint(st[n]) for n in st if n not in DIMS}
        stepped = {n: L.fingerprint(st[n]) for n in DIMS}
        keys = set(st)
        use = dt if op != 'wrong' else (dt * 2 if k % 2 else dt + timedelta(microseconds=1))
        res, out = C.outcome(self.stepper, st, use)
        obs.step()
        where = 'at step {} of {} (strength {}, alpha {})'.format(k, ops, self.strength, self.alpha)
        obs.state([self.strength, self.alpha, ops])
        require({n: L.fingerprint(st[n]) for n in st if n not in DIMS} == extra and set(st) == keys,
                'quantities which are not stepped changed in the state passed in, {}', where)
        if op not in GOOD:
            require(res == 'err', 'step accepted though it must fail, {}', where)
            if op == 'wrong' and not first:
                require(isinstance(out, ValueError), 'other timestep refused with {!r}, {}', out, where)
            elif op in ('fail', 'fail2') or first:
                require(isinstance(out, Boom), 'failure of the component came out as {!r}, {}', out, where)
            require({n: L.fingerprint(st[n]) for n in DIMS} == stepped,
                    'stepped quantities of the state passed in changed though the step failed, {}', where)
            obs.outcome(['err', type(out).__name__])
            return True
        require(res == 'ok', 'step failed with {!r}, {}', out, where)
        secs = dt.total_seconds()
        t1q = A * (k * k + 1) - cur['q'] * 1e-3
        t2q = np.array([7. - k, k * k * k * 1.0]) * 1e-2
        tend = {'q': t1q + t2q[:, None], 'p': np.array([0.5 + k, -k * k - 1.]) / 86400., 'r': np.array([1. + 3 * k, -2.])}
        new = {}
        filt = {}
        for n in DIMS:
            if self.old is None:
                new[n] = cur[n] + secs * tend[n]
                filt[n] = cur[n]
            else:
                new[n] = self.old[n] + 2 * secs * tend[n]
                d = 0.5 * self.strength * (self.old[n] - 2 * cur[n] + new[n])
                filt[n] = cur[n] + self.alpha * d
                new[n] = new[n] + (self.alpha - 1.) * d
        diags, got = out
        require(set(diags) == {'diag'}, 'diagnostics {}, {}', sorted(diags), where)
        require(L.close(L.lab_of(diags['diag']).order(['x', 'y']), cur['q'] * 2, rtol=1e-8), 'diagnostic not of the state passed in, {}', where)
        require(set(got) == keys, 'new state has quantities {}, {}', sorted(got), where)
        for n in DIMS:
            self.compare(n, got[n], new[n], u[n], 'new ' + n, where)
            self.compare(n, st[n], filt[n], u[n], 'filtered ' + n, where)
        for n in extra:
            require(L.fingerprint(got[n]) == extra[n], '{} changed in the new state, {}', n, where)
        self.old, self.cur, self.last, self.prev = filt, new, got, st
        if op == 'km':
            st.clear()  # the caller's dictionary, it may do what it likes with it
        self.done += 1
        obs.outcome([self.strength, self.alpha, self.done])
        return True

    def compare(self, n, arr, want, u, what, where):
        have = arr.attrs.get('units')
        require(have in L.UNITS and L.same_unit(have, u), '{} has units {!r} instead of {!r}, {}', what, have, u, where)
        lab = L.lab_of(arr)
        require(set(lab.dims) == set(DIMS[n]), '{} has dims {}, {}', what, lab.dims, where)
        base = {'q': 'm', 'p': 'K', 'r': ''}[n]
        w = L.convert(want, base, u)
        g = lab.order(DIMS[n])
        # offset units lose digits: compare in the base unit
        scale = float(np.abs(want).max()) + (300 if n == 'p' else 0)
        require(np.allclose(L.convert(g, u, base), want, rtol=1e-8, atol=1e-9 * scale), '{} is {} instead of {}, {}', what, g.tolist(), w.tolist(), where)


BOX = {}
A = np.array([[1., -2., 3.], [4., 5.5, -6.]])


class F1(object):
    def __call__(self, raw, t):
        if BOX['op'] == 'fail':
            raise Boom()
        k = BOX['k']
        return {'q': A * (k * k + 1) / 1e3 - raw['q'] * 1e-6, 'p': np.array([0.5 + k, -k * k - 1.])}, {'diag': raw['q'] * 2}


class F2(object):
    def __init__(self, dt):
        self.dt = dt

    def __call__(self, raw, t):
        if BOX['op'] == 'fail2':
            raise Boom()
        require(t == self.dt, 'implicit component received timestep {}', t)
        k = BOX['k']
        return {'q': np.array([[7. - k, k * k * k * 1.0]] * 3), 'r': np.array([1. + 3 * k, -2.])}, {}
