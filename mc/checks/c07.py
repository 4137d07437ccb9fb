"""C07: Adams-Bashforth against the textbook scheme, over all histories."""
import copy
import itertools
from datetime import datetime, timedelta
import numpy as np
import sympl
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All histories up to the bound over {step, step from the objects of the previous state overwritten, step from the previous result, step with the state transposed and in other units, wrong '
        'timestep, first/second component fails, state whose shape contradicts a tendency, state without units}, for '
        'orders 1-4, are run on the real stepper in lockstep with a model holding the tendency window in SI units; '
        'every step compares all stepped quantities.')
SCENARIOS = ['stepper0', 'stepper1', 'stepper2', 'stepper3']
ASSUMPTIONS = [
    'Bounds: length 4 over all operations, 6 over {step, other units, failure}, 8 over {step, other units} '
    '(thorough: 5, 7, 11).',
    'The first timestep is that of the first completed step.',
    'Coefficients are those of the textbook Adams-Bashforth schemes, as exact fractions.',
]
AB = {1: [1.0], 2: [3 / 2., -1 / 2.], 3: [23 / 12., -16 / 12., 5 / 12.], 4: [55 / 24., -59 / 24., 37 / 24., -9 / 24.]}
ALL = ['ok', 'km', 'wrong', 'fail', 'fail2', 'shape', 'nounits']
DTS = [timedelta(seconds=10), timedelta(hours=1, microseconds=500), timedelta(milliseconds=20), timedelta(days=3)]
T0 = datetime(2000, 1, 1)


def cases(tier):
    d = {'quick': (4, 6, 8), 'thorough': (5, 7, 11)}[tier]
    for order in (1, 2, 3, 4):
        for first in itertools.product(['ok', 'km'], repeat=3):
            yield {'order': order, 'ops': ['ok', 'km'], 'len': d[2], 'prefix': list(first)}
    for order in (1, 2, 3, 4):
        for first in itertools.product(['ok', 'km', 'fail2'], repeat=2):
            yield {'order': order, 'ops': ['ok', 'km', 'fail2'], 'len': d[1], 'prefix': list(first)}
        for first in itertools.product(ALL, repeat=2):
            yield {'order': order, 'ops': ALL, 'len': d[0], 'prefix': list(first)}
        more = ['ok', 'km', 'same', 'chain', 'fail2']
        for first in itertools.product(more, repeat=d[0] - 3):
            yield {'order': order, 'ops': more, 'prefix': list(first), 'len': d[0], 'straight': True}
    yield {'ctor': True}


class Boom(Exception):
    pass


def run(case, obs):
    if case.get('ctor'):
        mk = lambda: sympl.ConstantTendencyComponent({'q': C.da(['x'], [1., 2.], 'm s^-1')})
        for o, want in [(1, 1), (2, 2), (3, 3), (4, 4), (2.0, 2), (None, 3)]:
            s = sympl.AdamsBashforth(mk(), **({} if o is None else {'order': o}))
            # the order shows in the number of steps after which the oldest tendency is dropped
            obs.step()
            obs.state(['ctor', o])
        for o in (0, 5, -1, 2.5, '2', 1.5):
            st, val = C.outcome(lambda: sympl.AdamsBashforth(mk(), order=o))
            obs.step()
            require(st == 'err', 'order {!r} accepted', o)
        return
    if case.get('straight'):
        for h in itertools.product(case['ops'], repeat=case['len'] - len(case['prefix'])):
            sim = Sim(case['order'])
            for op in case['prefix'] + list(h):
                sim.step(op, obs)
        return
    ops = case['prefix']
    sim = Sim(case['order'])
    for i, op in enumerate(ops):
        if not sim.step(op, obs):
            return
    explore(sim, case['ops'], case['len'] - len(ops), obs)


def explore(sim, ops, depth, obs):
    """Depth-first over all continuations; the real stepper is copied at each branch."""
    if depth == 0:
        return
    for op in ops:
        branch = copy.deepcopy(sim)
        if branch.step(op, obs):
            explore(branch, ops, depth - 1, obs)


class Sim(object):
    """The real stepper and the model, in lockstep."""

    def __init__(self, order):
        self.order = order
        self.dt = dt = DTS[order - 1]
                # model state in SI: q (x, y) in m, p (x) in K, r (n)
        self.val = {'q': np.arange(6.).reshape(2, 3) * 100 + 7, 'p': np.array([280., 290.]), 'r': np.array([1., 2.])}
        self.window = []
        self.done = 0
        self.used = self.new = None
        self.ops = []
        c1 = C.make('tend', {'q': {'dims': ['x', 'y'], 'units': 'm'}}, {'q': {'units': 'km s^-1'}, 'p': {'dims': ['x'], 'units': 'degC day^-1'}},
                    {'diag': {'dims': ['x', 'y'], 'units': 'm'}}, F1(), name='One')
        c2 = C.make('impl', {'p': {'dims': ['x'], 'units': 'K'}}, {'q': {'dims': ['y', 'x'], 'units': 'cm s^-1'}, 'r': {'dims': ['n'], 'units': 's^-1'}},
                    {}, F2(dt), name='Two')
        self.stepper = sympl.AdamsBashforth(c1, c2, order=order)

    def step(self, op, obs):
        order, dt, val = self.order, self.dt, self.val
        self.ops.append(op)
        ops = self.ops
        i = len(ops) - 1
        # before the first completed step every timestep will do: the one of a step which fails is not the first
        first = op == 'wrong' and self.done == 0
        BOX['op'], BOX['k'] = 'fail' if first else op, i + 1
        uq, up, ur = ('km', 'degC', '%') if op == 'km' else ('m', 'K', '')
        q = L.convert(val['q'], 'm', uq)
        st = {'q': C.da(['x', 'y'], q.copy(), uq) if op != 'km' else C.da(['y', 'x'], q.T.copy(), uq),
              'p': C.da(['x'], L.convert(val['p'], 'K', up), up),
              'r': C.da(['n'], L.convert(val['r'], '', ur), ur), 'time': T0 + dt * self.done, 'other': C.da(['x'], np.array([1, 2]), 'kg')}
        if op == 'shape':
            st['r'] = C.da(['n'], np.ones(3), ur)
        if op == 'nounits':
            del st['q'].attrs['units']
        if op == 'same' and self.used:
            # the objects of the previous call, with new contents
            st = C.refill(self.used, st)
        if op == 'chain' and self.new:
            # the result of the previous step itself
            st = dict(self.new, time=T0 + dt * self.done)
            uq, up, ur = (st[n].attrs['units'] for n in ('q', 'p', 'r'))
        self.used = st
        use = dt if op != 'wrong' else (dt * 2 if i % 2 else dt + timedelta(microseconds=1))
        res, out = C.outcome(self.stepper, st, use)
        obs.step()
        where = 'at step {} of {} (order {})'.format(i + 1, ops, order)
        obs.state([order, ops])
        if op not in ('ok', 'km', 'same', 'chain'):
            require(res == 'err', 'step accepted though it must fail, {}', where)
            if op == 'wrong' and not first:
                require(isinstance(out, ValueError), 'other timestep refused with {!r}, {}', out, where)
            elif op in ('fail', 'fail2') or first:
                require(isinstance(out, Boom), 'failure of the component came out as {!r}, {}', out, where)
            obs.outcome(['err', type(out).__name__])
            return True
        require(res == 'ok', 'step failed with {!r}, {}', out, where)
        k = i + 1
        t1q = np.array([[1., -2., 3.], [4., 5.5, -6.]]) * (k * k + 1) / 1e3 * 1e3
        t2q = np.array([7. - k, k * k * k * 1.0]) * 1e-2
        tend = {'q': t1q + t2q[:, None], 'p': np.array([0.5 + k, -k * k - 1.]) / 86400., 'r': np.array([1. + 3 * k, -2.])}
        self.window = (self.window + [tend])[-order:]
        coef = AB[len(self.window)]
        for name in val:
            val[name] = val[name] + dt.total_seconds() * sum(c * t[name] for c, t in zip(coef, self.window[::-1]))
        self.done += 1
        diags, new = out
        self.new = new
        for name, u in (('q', uq), ('p', up), ('r', ur)):
            require(name in new, '{} missing from the new state, {}', name, where)
            require(new[name].attrs.get('units') in L.UNITS and L.same_unit(new[name].attrs['units'], u),
                    '{} has units {!r} instead of {!r}, {}', name, new[name].attrs.get('units'), u, where)
            dims = {'q': ['x', 'y'], 'p': ['x'], 'r': ['n']}[name]
            lab = L.lab_of(new[name])
            require(set(lab.dims) == set(dims), '{} has dims {}, {}', name, lab.dims, where)
            base = {'m': 'm', 'km': 'm', 'K': 'K', 'degC': 'K', '': '', '%': ''}[u]
            want = L.convert(val[name], base, u)
            require(L.close(lab.order(dims), want), '{} is {} instead of {}, {}', name, lab.order(dims).tolist(), want.tolist(), where)
        obs.outcome([k, order, len(self.window)])
        return True


BOX = {}


class F1(object):
    def __call__(self, raw, t):
        if BOX['op'] == 'fail':
            raise Boom()
        k = BOX['k']
        return {'q': np.array([[1., -2., 3.], [4., 5.5, -6.]]) * (k * k + 1) / 1e3, 'p': np.array([0.5 + k, -k * k - 1.])}, {'diag': raw['q'] * 2}


class F2(object):
    def __init__(self, dt):
        self.dt = dt

    def __call__(self, raw, t):
        if BOX['op'] == 'fail2':
            raise Boom()
        require(t == self.dt, 'implicit component received timestep {}', t)
        k = BOX['k']
        return {'q': np.array([[7. - k, k * k * k * 1.0]] * 3), 'r': np.array([1. + 3 * k, -2.])}, {}
