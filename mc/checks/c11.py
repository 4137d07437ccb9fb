"""C11: composites as sums over their components."""
import itertools
from datetime import datetime, timedelta
import numpy as np
import sympl
from sympl import (TendencyComponentComposite, ImplicitTendencyComponentComposite, DiagnosticComponentComposite,
                   MonitorComposite, SharedKeyError, Monitor, ScalingWrapper, UpdateFrequencyWrapper)
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All multisets of up to three components over an alphabet of tendency declarations (quantities, units, dimension '
        'orders, wildcard, dtype), in all orders, flat and nested, for every composite class; each component reads the state '
        'and the sum, the merged diagnostics and what each component saw are compared with the model. All pairs of '
        'components with shared and distinct diagnostics, and every composite class with every kind of object.')
SCENARIOS = ['combine']
ASSUMPTIONS = ['Bounds: up to 3 components (thorough 4) from an alphabet of 9.']
T0 = datetime(2000, 1, 1)
DT = timedelta(seconds=30)
# name -> (kind, {quantity: (units, dims or None, dtype)})
ALPHA = {
    'a': ('tend', {'q': ('m s^-1', None, 'f8')}),
    'b': ('tend', {'q': ('cm s^-1', ['y', 'x'], 'f8'), 'p': ('K s^-1', None, 'f8')}),
    'c': ('tend', {'q': ('km hour^-1', ['x', 'y'], 'f4')}),
    'd': ('impl', {'q': ('m/s', ['x', 'y'], 'i8'), 'p': ('degC day^-1', ['x'], 'i4')}),
    'e': ('tend', {'p': ('mK s^-1', ['x'], 'f4')}),
    'f': ('impl', {'r': ('s^-1', ['n'], 'f8'), 'q': ('m s^-1', ['y', 'x'], 'f4')}),
    'g': ('tend', {'r': ('% s^-1', ['n'], 'f8')}),
    'w': ('tend', {'q': ('cm s^-1', ['*'], 'f8')}),
    'v': ('impl', {'q': ('m s^-1', ['y', '*'], 'f8')}),
}
BASE = {'q': ('m s^-1', ['x', 'y']), 'p': ('K s^-1', ['x']), 'r': ('s^-1', ['n'])}
SI = {'q': np.array([[1., 2., -3.], [4., -5., 6.5]]), 'p': np.array([280., 290.]), 'r': np.array([0.5, 0.25, 0.125])}


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for combo in itertools.combinations_with_replacement(sorted(ALPHA), k):
            yield {'kind': 'sum', 'comps': list(combo)}
    for k in (0, 1, 2, 3):
        for p in itertools.product(['d1', 'd2', 'd3'], repeat=k):
            yield {'kind': 'diags', 'names': list(p)}
    yield {'kind': 'chained'}
    yield {'kind': 'types'}
    yield {'kind': 'monitors'}
    yield {'kind': 'wrapped'}


def coef(i):
    """What component number i multiplies its input by (exact in f4 and int)."""
    return [2., -3., 5., 7.][i]


def make(sym, i):
    kind, tend = ALPHA[sym]
    inputs = {'q': {'dims': ['*'] if sym == 'w' else (['y', '*'] if sym == 'v' else ['x', 'y']), 'units': 'm' if i % 2 else 'cm'}, 'p': {'dims': ['x'], 'units': 'K'},
              'r': {'dims': ['n'], 'units': ''}}
    spec = inputs['q']['dims']

    def fn(raw, t):
        out = {}
        for n, (u, d, dt) in tend.items():
            d = d or inputs[n]['dims']
            v = np.asarray(raw[n], dtype=float)
            if n == 'q':
                v = v / (1. if i % 2 else 100.)
                if d != spec:
                    v = v.T
            v = np.round(v * coef(i))
            if dt.startswith('f'):
                v = v * 0.5
            out[n] = v.astype(dt)
        return out, {'diag%d' % i: np.asarray(raw['p']) * coef(i)}
    main = {n: ({'units': u} if d is None else {'units': u, 'dims': d}) for n, (u, d, dt) in tend.items()}
    return kind, C.make(kind, inputs, main, {'diag%d' % i: {'dims': ['x'], 'units': 'K'}}, fn, name='N' + sym)


def model(syms):
    out = {}
    for i, s in enumerate(syms):
        for n, (u, d, dt) in ALPHA[s][1].items():
            v = np.round(SI[n] * coef(i)) * (0.5 if dt.startswith('f') else 1.)
            out[n] = out.get(n, 0.) + L.convert(v, u, BASE[n][0])
    return out


def state():
    return {'q': C.da(['y', 'x'], SI['q'].T.copy() * 100, 'cm'), 'p': C.da(['x'], SI['p'] - 273.15, 'degC'), 'r': C.da(['n'], SI['r'] * 100, '%'),
            'time': T0, 'junk': 5}


def compare(tend, want, where):
    require(set(tend) == set(want), 'tendencies of {} instead of {}, {}', sorted(tend), sorted(want), where)
    for n in want:
        u = tend[n].attrs.get('units')
        require(u in L.UNITS and L.compatible(u, BASE[n][0]), 'tendency of {} has units {!r}, {}', n, u, where)
        require(set(tend[n].dims) == set(BASE[n][1]), 'tendency of {} has dims {}, {}', n, tend[n].dims, where)
        g = L.convert(L.lab_of(tend[n]).order(BASE[n][1]).astype(float), u, BASE[n][0])
        require(np.allclose(g, want[n], rtol=1e-5, atol=1e-6), 'tendency of {} is {} instead of {}, {}', n, g.tolist(), want[n].tolist(), where)


def run(case, obs):
    globals()['run_' + case['kind']](case, obs)


def run_sum(case, obs):
    syms = case['comps']
    made = [make(s, i) for i, s in enumerate(syms)]
    kinds = [k for k, _ in made]
    comps = [c for _, c in made]
    want = model(syms)
    classes = [ImplicitTendencyComponentComposite] + ([] if 'impl' in kinds else [TendencyComponentComposite])
    for cls in classes:
        for perm in itertools.permutations(range(len(comps))):
            order = [comps[i] for i in perm]
            shapes = [order]
            if len(order) == 3:
                shapes += [[cls(*order[:2]), order[2]], [order[0], cls(*order[1:])]]
            for si, arr in enumerate(shapes):
                for c in comps:
                    c.seen, c.raw, c.dts = [], [], []
                where = '{} of {} shape {}'.format(cls.__name__, [syms[i] for i in perm], si)
                comp = cls(*arr)
                st = state()
                before = L.fingerprint(st)
                tend, diags = comp(st, DT) if cls is ImplicitTendencyComponentComposite else comp(st)
                obs.step()
                obs.state([cls.__name__, [syms[i] for i in perm], si])
                require(L.fingerprint(st) == before, 'state altered, {}', where)
                compare(tend, want, where)
                require(set(comp.tendency_properties) == set(want), 'declares tendencies {}, {}', sorted(comp.tendency_properties), where)
                require(set(comp.diagnostic_properties) == set('diag%d' % i for i in range(len(syms))), 'declares diagnostics {}, {}',
                        sorted(comp.diagnostic_properties), where)
                require(set(diags) == set(comp.diagnostic_properties), 'diagnostics {}, {}', sorted(diags), where)
                for i in range(len(syms)):
                    d = diags['diag%d' % i]
                    require(d.dims == ('x',) and d.attrs.get('units') == 'K' and L.close(d.values, SI['p'] * coef(i)), 'diagnostic of {} is {!r}, {}', i, d, where)
                for i, c in enumerate(comps):
                    require(len(C.calls(c)) == 1, 'component {} called {} times, {}', i, len(C.calls(c)), where)
                    require(c.dts == [DT if kinds[i] == 'impl' else None], 'component {} got timestep {}, {}', i, c.dts, where)
                    q = C.calls(c)[0]['q']
                    require(L.close(np.sort(q.ravel()), np.sort((SI['q'] * (1 if i % 2 else 100)).ravel())), 'component {} saw other values of q, {}', i, where)
                obs.outcome({n: np.round(v, 4).tolist() for n, v in want.items()})


def diag_comp(kind, name):
    p = {name: {'dims': ['x'], 'units': 'K'}}
    inp = {'p': {'dims': ['x'], 'units': 'K'}}
    fn = lambda raw, t: ({}, {name: raw['p'] * 2})
    return C.make(kind, inp, {} if kind != 'diag' else None, p, fn, name='D' + name)


def run_diags(case, obs):
    names = case['names']
    dup = len(set(names)) != len(names)
    for cls, kinds in ((DiagnosticComponentComposite, ('diag',)), (TendencyComponentComposite, ('tend',)), (ImplicitTendencyComponentComposite, ('tend', 'impl'))):
        for ks in itertools.product(kinds, repeat=len(names)):
            comps = [diag_comp(k, n) for k, n in zip(ks, names)]
            st, val = C.outcome(lambda: cls(*comps))
            obs.step()
            where = '{} of diagnostics {} kinds {}'.format(cls.__name__, names, ks)
            obs.state([cls.__name__, names, ks])
            if dup:
                require(st == 'err' and isinstance(val, SharedKeyError), 'shared diagnostic gave {!r}, {}', val, where)
                obs.outcome('shared')
                continue
            require(st == 'ok', 'refused: {!r}, {}', val, where)
            r = val(state(), DT) if cls is ImplicitTendencyComponentComposite else val(state())
            d = r if cls is DiagnosticComponentComposite else r[1]
            require(set(d) == set(names) == set(val.diagnostic_properties), 'diagnostics {}, {}', sorted(d), where)
            for n in names:
                require(L.close(d[n].values, SI['p'] * 2) and d[n].attrs['units'] == 'K' and d[n].dims == ('x',), 'diagnostic {!r}, {}', d[n], where)
            if cls is not DiagnosticComponentComposite:
                require(r[0] == {}, 'tendencies {}, {}', r[0], where)
            obs.outcome(sorted(d))
    # tendencies reported as diagnostics are diagnostics too
    if len(names) == 2:
        def tid(n):
            return C.make('tend', {'q': {'dims': ['x', 'y'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}}, {}, lambda raw, t: ({'q': raw['q']}, {}),
                          tendencies_in_diagnostics=True, name='tid')
        comps = []
        for n in names:
            cls = C.make_class('tend', {'q': {'dims': ['x', 'y'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}}, {}, lambda raw, t: ({'q': raw['q']}, {}))
            comps.append(cls(tendencies_in_diagnostics=True, name=n))
        st, val = C.outcome(lambda: TendencyComponentComposite(*comps))
        obs.step()
        require((st == 'err' and isinstance(val, SharedKeyError)) if dup else st == 'ok', 'tendency diagnostics of {}: {!r}', names, val)


def run_chained(case, obs):
    """Components whose diagnostics, tendencies and inputs overlap in name: each is
    evaluated on the state that was passed, whatever its place in the list."""
    names = ('p', 'e', 'f')
    D = {n: {'dims': ['x'], 'units': 'K'} for n in names}
    val = {'p': SI['p'], 'e': np.array([1., 2.]), 'f': np.array([-7., 11.])}
    for cls, kinds in ((DiagnosticComponentComposite, ('diag',)), (TendencyComponentComposite, ('tend',)), (ImplicitTendencyComponentComposite, ('tend', 'impl'))):
        for outs in itertools.permutations(names):
            for ins in itertools.product(names, repeat=3):
                for k in itertools.product(kinds, repeat=3):
                    if len(kinds) == 2 and k not in (('tend', 'impl', 'tend'), ('impl', 'tend', 'impl')):
                        continue
                    def mk(i):
                        fn = lambda raw, t: ({ins[i]: raw[ins[i]] * 5} if kinds != ('diag',) else {}, {outs[i]: raw[ins[i]] * (i + 2)})
                        return C.make(k[i], {ins[i]: D[ins[i]]}, {ins[i]: {'units': 'K s^-1'}} if kinds != ('diag',) else None, {outs[i]: D[outs[i]]}, fn, name='Ch%d' % i)
                    comps = [mk(i) for i in range(3)]
                    where = '{} of components computing {} from {}'.format(cls.__name__, outs, ins)
                    for shape in (comps, [cls(*comps[:2]), comps[2]], [comps[0], cls(*comps[1:])]):
                        comp = cls(*shape)
                        st = {n: C.da(['x'], val[n].copy(), 'K') for n in names}
                        st['time'] = T0
                        f = L.fingerprint(st)
                        r = comp(st, DT) if cls is ImplicitTendencyComponentComposite else comp(st)
                        obs.step()
                        require(L.fingerprint(st) == f, 'state altered, {}', where)
                        d = r if cls is DiagnosticComponentComposite else r[1]
                        require(set(d) == set(names), 'diagnostics {}, {}', sorted(d), where)
                        for i in range(3):
                            require(L.close(d[outs[i]].values, val[ins[i]] * (i + 2)), '{} is {} instead of {}: {}', outs[i], d[outs[i]].values.tolist(),
                                    (val[ins[i]] * (i + 2)).tolist(), where)
                        if cls is not DiagnosticComponentComposite:
                            for n in set(ins):
                                want = val[n] * 5 * ins.count(n)
                                require(L.close(r[0][n].values, want), 'tendency of {} is {} instead of {}: {}', n, r[0][n].values.tolist(), want.tolist(), where)
                    obs.state([cls.__name__, outs, ins, k])
                    obs.outcome([outs, ins])


class Mon(Monitor):
    def __init__(self, i, log, fail=False):
        self.i, self.log, self.fail = i, log, fail

    def store(self, state):
        self.log.append((self.i, L.fingerprint(state)))


class Amon(Mon):
    priority = 1


class Zmon(Mon):
    name = 'a'
    priority = 0


def run_types(case, obs):
    objs = {k: diag_comp(k, 'd') for k in ('tend', 'impl', 'diag')}
    objs['step'] = C.make('step', {'p': {'dims': ['x'], 'units': 'K'}}, {'p': {'units': 'K'}}, {})
    objs['mon'] = Mon(0, [])
    objs['ab'] = sympl.AdamsBashforth(diag_comp('tend', 'd'))
    for j in (None, 'tend', 5, [objs['tend']], {}, object()):
        objs[repr(j)] = j
    accept = {TendencyComponentComposite: {'tend'}, ImplicitTendencyComponentComposite: {'tend', 'impl'}, DiagnosticComponentComposite: {'diag'},
              MonitorComposite: {'mon'}}
    for cls, ok in accept.items():
        good = {'tend': 'tend', 'impl': 'impl', 'diag': 'diag', 'mon': 'mon'}
        for name, o in objs.items():
            for arr in ([o],):
                st, val = C.outcome(lambda: cls(*arr))
                obs.step()
                obs.state([cls.__name__, name])
                if name in ok:
                    require(st == 'ok', '{} refused {}: {!r}', cls.__name__, name, val)
                else:
                    require(st == 'err' and isinstance(val, TypeError), '{} of {} gave {!r}', cls.__name__, name, val)
                obs.outcome([cls.__name__, st])
            # in second and in first place beside a good one
            if name not in ok:
                g = {'TendencyComponentComposite': diag_comp('tend', 'other'), 'ImplicitTendencyComponentComposite': diag_comp('impl', 'other'),
                     'DiagnosticComponentComposite': diag_comp('diag', 'other'), 'MonitorComposite': Mon(1, [])}[cls.__name__]
                for arr in ([g, o], [o, g]):
                    st, val = C.outcome(lambda: cls(*arr))
                    obs.step()
                    require(st == 'err' and isinstance(val, TypeError), '{} of {} beside a good one gave {!r}', cls.__name__, name, val)


def run_monitors(case, obs):
    for n in range(0, 4):
        for m in range(0, 4):
            log = []
            comp = MonitorComposite(*[Mon(i, log) for i in range(n)])
            want = []
            for k in range(m):
                s = state()
                s['k'] = k
                f = L.fingerprint(s)
                comp.store(s)
                obs.step()
                require(L.fingerprint(s) == f, 'state altered by store')
                want += [(i, f) for i in range(n)]
            obs.state([n, m])
            require(log == want, '{} monitors, {} stores: stored {} instead of {}', n, m, [x[0] for x in log], [x[0] for x in want])
    # every list of up to four out of monitors of three classes, the same one also repeatedly
    for n in range(1, 5):
        for pick in itertools.product(range(5), repeat=n):
            log = []
            mons = [cls(i, log) for i, cls in enumerate((Zmon, Mon, Amon, Mon, Zmon))]
            comp = MonitorComposite(*[mons[i] for i in pick])
            want = []
            for k in range(2):
                s = state()
                s['k'] = k
                want += [(i, L.fingerprint(s)) for i in pick]
                comp.store(s)
                obs.step()
            obs.state(pick)
            require(log == want, 'monitors {} stored {}', pick, [x[0] for x in log])
    log = []
    mon = Mon(0, log)
    inner = MonitorComposite(mon, mon)
    inner.store(state())
    require(len(log) == 2, 'a monitor listed twice stored {} times', len(log))


def run_wrapped(case, obs):
    """Wrapped components take part like any other."""
    for sym in sorted(ALPHA):
        for wrap in ('scale', 'freq', 'both'):
            for other in sorted(ALPHA):
                for first in (0, 1):
                    k1, c1 = make(sym, 0)
                    k2, c2 = make(other, 1)
                    w = ScalingWrapper(c1, tendency_scale_factors={n: 2. for n in ALPHA[sym][1]}) if wrap != 'freq' else c1
                    if wrap != 'scale':
                        w = UpdateFrequencyWrapper(w, timedelta(hours=1))
                    comp = ImplicitTendencyComponentComposite(*([w, c2] if first == 0 else [c2, w]))
                    st = state()
                    tend, diags = comp(st, DT)
                    obs.step()
                    obs.state(['wrapped', sym, wrap, other, first])
                    where = '{} wrapped by {} beside {}'.format(sym, wrap, other)
                    f = 1. if wrap == 'freq' else 2.
                    want = {n: f * v for n, v in model([sym]).items()}
                    both = model([sym, other])
                    for n in both:
                        alone = model([sym]).get(n, 0.)
                        want[n] = both[n] - alone + want.get(n, 0.)
                    compare(tend, want, where)
                    require(c1.dts == [DT if k1 == 'impl' else None], 'wrapped component got timestep {}, {}', c1.dts, where)
                    require(set(diags) == {'diag0', 'diag1'}, 'diagnostics {}, {}', sorted(diags), where)
