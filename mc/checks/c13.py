"""C13: UpdateFrequencyWrapper over all sequences of call times."""
import itertools
from datetime import datetime, timedelta
import cftime
import numpy as np
import sympl
from sympl import UpdateFrequencyWrapper
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All sequences of calls up to the bound over {6 call times, forwards and backwards, with and without a failing '
        'computation of either of two exception types}, for each update interval, time type and component kind, with and '
        'without a timestep argument; after each call the number of computations and the returned results are compared '
        'with the model (time and results of the last recomputation).')
SCENARIOS = ['wrappers']
ASSUMPTIONS = ['Bounds: 4 calls (thorough 5) for components that override __call__, 3 (thorough 4) for components that '
               'run the whole base class machinery.',
               'Results handed out are not modified by the caller.']
MIN = timedelta(minutes=10)
INTERVALS = [timedelta(0), timedelta(microseconds=1), MIN, timedelta(minutes=20), timedelta(minutes=25), timedelta(days=2)]
START = {'datetime': datetime(1999, 12, 31, 23, 45), 'timedelta': timedelta(0), 'noleap': cftime.DatetimeNoLeap(2000, 2, 28, 23, 45),
         '360': cftime.Datetime360Day(2000, 2, 30, 23, 50)}
TIMES = [0, 1, 2, 3, 5]


def cases(tier):
    n, m = {'quick': (4, 3), 'thorough': (5, 4)}[tier]
    for kind in C.KINDS:
        for i in range(len(INTERVALS)):
            for j, tt in enumerate(START):
                if tier == 'quick' and (i + j) % 2:
                    continue
                yield {'kind': kind, 'interval': i, 'time': tt, 'len': m, 'real': True}
                if tier == 'quick' and (i + j) % 4:
                    continue
                for first in TIMES:
                    yield {'kind': kind, 'interval': i, 'time': tt, 'len': n, 'real': False, 'first': first}
        yield {'kind': kind, 'attrs': True}


class Boom(Exception):
    pass


class Box(object):
    n = 0
    fail = None
    dt = None


def build(kind, box, real):
    def compute():
        if box.fail is not None:
            raise box.fail
        box.n += 1
        return float(box.n)
    inp = {'p': {'dims': ['x'], 'units': 'K'}}
    if real:
        fn = lambda raw, t: ({'p': np.asarray(raw['p']) * 0 + compute()}, {'d': np.asarray(raw['p']) * 2}) if kind != 'diag' else \
            ({}, {'d': np.asarray(raw['p']) * 0 + compute()})
        main = {'p': {'units': 'K s^-1' if kind in ('tend', 'impl') else 'K'}} if kind != 'diag' else None
        return C.make(kind, inp, main, {'d': {'dims': ['x'], 'units': 'K'}}, fn)
    if kind in ('tend', 'diag'):
        def __call__(self, state):
            return ({'p': compute()}, {}) if kind == 'tend' else {'d': compute()}
    else:
        def __call__(self, state, timestep):
            require(timestep == box.dt, 'timestep {!r} passed on instead of {!r}', timestep, box.dt)
            return ({'p': compute()}, {}) if kind == 'impl' else ({}, {'p': compute()})
    main = {'p': {'units': 'K s^-1' if kind in ('tend', 'impl') else 'K'}} if kind != 'diag' else None
    cls = C.make_class(kind, inp, main, {'d': {'dims': ['x'], 'units': 'K'}} if kind == 'diag' else {}, None, {'__call__': __call__})
    return cls()


def main_value(kind, out):
    if kind == 'diag':
        return out['d']
    if kind == 'step':
        return out[1]['p']
    return out[0]['p']


def run(case, obs):
    kind = case['kind']
    if case.get('attrs'):
        return run_attrs(kind, obs)
    interval, start = INTERVALS[case['interval']], START[case['time']]
    ops = [(t, f) for t in TIMES for f in (None, 'boom', 'type')] if not case['real'] else [(t, f) for t in TIMES[:4] for f in (None, 'boom')]
    if not case['real']:
        ops = [(t, f) for t in TIMES for f in (None, 'boom')] + [(2, 'type')]
        hist = ([(case['first'], f)] + list(r) for f in (None, 'boom') for r in itertools.product(ops, repeat=case['len'] - 1))
    else:
        hist = (list(r) for r in itertools.product(ops, repeat=case['len']))
    for h in hist:
        box = Box()
        w = UpdateFrequencyWrapper(build(kind, box, case['real']), interval)
        last = None   # (time, value)
        for i, (t, f) in enumerate(h):
            now = start + t * MIN
            box.fail = {None: None, 'boom': Boom(), 'type': TypeError('inside')}[f]
            # the state changes all the time: cached results must not follow it
            state = {'p': C.da(['x'], np.array([float(i), 2.]), 'K') if case['real'] else i, 'time': now}
            # a timestep is required by two kinds and may be given to the others
            box.dt = timedelta(seconds=10 * (i % 3))
            args = (state, box.dt) if kind in ('impl', 'step') or i % 2 else (state,)
            n0 = box.n
            st, out = C.outcome(w, *args)
            obs.step()
            due = last is None or now >= last[0] + interval
            where = 'call {} of {} (times in 10 min, interval {}, {} {})'.format(i + 1, h, interval, kind, case['time'])
            if not due:
                require(st == 'ok', 'cached results expected but {!r}, {}', out, where)
                require(box.n == n0, 'recomputed though not due, {}', where)
            elif f is not None:
                require(st == 'err', 'failure of the component was hidden, {}', where)
                require(isinstance(out, Boom if f == 'boom' else TypeError), 'failure came out as {!r}, {}', out, where)
            else:
                require(st == 'ok', 'failed with {!r}, {}', out, where)
                require(box.n == n0 + 1, 'computed {} times though due, {}', box.n - n0, where)
                last = (now, float(box.n), L.fingerprint(out))
            if st == 'ok':
                v = main_value(kind, out)
                v = float(np.asarray(v.values).ravel()[0]) if case['real'] else v
                require(v == last[1], 'returned the results of computation {} instead of {}, {}', v, last[1], where)
                if case['real']:
                    require(L.fingerprint(out) == last[2], 'cached results differ from those computed, {}', where)
            obs.outcome([kind, case['interval'], due, f])
        obs.state([kind, case['interval'], case['time'], case['real'], h])


def run_attrs(kind, obs):
    box = Box()
    comp = build(kind, box, True)
    comp.special = [1, 2]
    w = UpdateFrequencyWrapper(comp, MIN)
    for phase in range(2):
        for a in ('input_properties', 'tendency_properties', 'output_properties', 'diagnostic_properties', 'name', 'special', 'array_call',
                  'tendencies_in_diagnostics', 'uses_tracers', 'nothing_like_it', 'time_unit_name'):
            s1, v1 = C.outcome(getattr, comp, a)
            s2, v2 = C.outcome(getattr, w, a)
            obs.step()
            obs.state([kind, a])
            require(s1 == s2 and (v1 == v2 if s1 == 'ok' else isinstance(v2, AttributeError)), 'attribute {} of the wrapper: {!r} instead of {!r}', a, v2, v1)
        comp.special = [3]
    base = C.BASES[kind]
    require(isinstance(w, base), 'the wrapper of a {} is none', kind)
    # a stale result is not returned to a wrapper of the same component made later
    s = {'p': C.da(['x'], np.array([1., 2.]), 'K'), 'time': START['datetime']}
    C.call(kind, w, s)
    w2 = UpdateFrequencyWrapper(comp, MIN)
    n = box.n
    C.call(kind, w2, s)
    require(box.n == n + 1, 'first call of another wrapper did not compute')
