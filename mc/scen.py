"""Scenarios which run the whole library in a given way of naming and representing everything.

Each scenario takes an Env and returns observations in neutral terms: names
mapped back, dimensions in a fixed order, values as lists.  Two Envs that only
name or represent things differently must give equal observations.
"""
import os
import shutil
import tempfile
import warnings
from collections import OrderedDict
from datetime import datetime, timedelta
import numpy as np
import sympl
from sympl import DataArray
from sympl._core.tracers import reset_tracers, reset_packers
from mc import comp as C
from mc.core import Violation

warnings.filterwarnings('ignore')
T0 = datetime(2000, 3, 1)
DT = timedelta(minutes=10)
LEN = {'x': 2, 'y': 3, 'z': 4, 'w': 5}
QS = ('a', 'b', 'c', 'd', 'e')
FROM = ('N', 'Comp', 'St', 'M')


class Env(object):
    """Neutral names (qa, qb, ...; x, y, ...) unless given others."""
    tol = (1e-9, 0.)

    def __init__(self, q=None, d=None, al=None, n=None):
        self.fm = {f: f for f in FROM}
        self.fm.update(n or {})
        self.qm = {n: 'q' + n for n in QS}
        self.qm.update(q or {})
        self.dm = {n: n for n in LEN}
        self.dm.update(d or {})
        self.am = {'ala': 'ala', 'alb': 'alb'}
        self.am.update(al or {})
        self.inv = {v: k for k, v in self.qm.items()}
        for n in QS:
            for f in FROM:
                self.inv.setdefault('{}_tendency_from_{}'.format(self.qm[n], self.fm[f]), '{}_tendency_from_{}'.format(n, f))
        for n in QS:
            self.inv.setdefault('equilibrium_' + self.qm[n], 'equilibrium_' + n)
            self.inv.setdefault(self.qm[n] + '_relaxation_timescale', n + '_relaxation_timescale')
        self.dinv = {v: k for k, v in self.dm.items()}
        self.t0 = T0

    def q(self, n):
        return self.qm[n]

    def al(self, n):
        return self.am[n]

    def dims(self, dims):
        return [d if d in ('*', 'tracer') else self.dm[d] for d in dims]

    def props(self, p):
        out = {}
        for n, pr in p.items():
            pr = dict(pr)
            if 'dims' in pr:
                pr['dims'] = self.dims(pr['dims'])
            if 'alias' in pr:
                pr['alias'] = self.al(pr['alias'])
            out[self.qm.get(n, n)] = pr
        return out

    # how a state is represented
    def da(self, n, dims, data, units):
        return DataArray(np.array(data), dims=self.dims(dims), attrs={'units': units})

    def container(self, items):
        return dict(items)

    def step(self, dt):
        return dt

    def make(self, kind, inp, main, diag, fn, **kw):
        return C.make(kind, inp, main, diag, fn, **kw)

    def made(self, component, **kw):
        """Another of its class."""
        return type(component)(**kw)

    def unit(self, units):
        return units

    def state(self, spec, k=0):
        """spec: names of quantities, k varies the values"""
        items = [(self.qm.get(n, n), self.da(n, *quantity(n, k))) for n in spec]
        items.append(('time', self.t0 + k * DT))
        return self.container(items)

    # observations
    def see_q(self, v):
        if not isinstance(v, DataArray):
            return ['other', type(v).__name__, str(v)]
        dims = [self.dinv.get(d, 'unknown ' + str(d)) for d in v.dims]
        order = sorted(range(len(dims)), key=lambda i: dims[i])
        vals = np.transpose(np.asarray(v.values), order) if dims else np.asarray(v.values)
        return [sorted(dims), list(vals.shape), vals.astype(float).ravel().tolist() if vals.dtype.kind in 'fiub' else [str(x) for x in vals.ravel()], v.attrs.get('units')]

    def see(self, d):
        if isinstance(d, tuple):
            return [self.see(x) for x in d]
        return {self.inv.get(n, n if n == 'time' else 'unknown ' + str(n)): (str(v - self.t0) if n == 'time' else self.see_q(v)) for n, v in d.items()}

    def see_raw(self, raw):
        m = dict({v: k for k, v in self.am.items()}, **self.inv)
        return {m.get(n, n): self.arr(v) for n, v in raw.items() if n != 'time'}

    def shape(self, shape, dims):
        return list(shape)

    def stored(self, v, dims):
        return v.tolist()

    def in_file(self, v, dims, units):
        return [self.stored(v, dims), units]

    def arr(self, v):
        """An array whose dimensions have an order of their own."""
        return np.asarray(v, dtype=float).tolist()

    def see_props(self, p):
        return {self.inv.get(n, 'unknown ' + str(n)): [sorted(self.dinv.get(d, d) for d in pr['dims']) if 'dims' in pr else None, pr.get('units')] for n, pr in p.items()}

    def attempt(self, fn, *args, **kw):
        st, v = C.outcome(fn, *args, **kw)
        if st == 'err':
            if isinstance(v, Violation):
                raise v
            return ['err', type(v).__name__]
        return ['ok', v]


QUANT = {'a': (['y', 'x', 'z'], 'degC'), 'b': (['z', 'y'], 'm'), 'c': (['z'], 'hPa'), 'd': (['x'], 'kg'), 'e': (['w'], 's')}


def quantity(n, k):
    dims, units = QUANT[n]
    shape = [LEN[d] for d in dims]
    i = np.arange(int(np.prod(shape)))
    return dims, (1.5 + QS.index(n) + 0.25 * k + ((i * 7 + k) % 5) + i / 8.).reshape(shape), units


def same(a, b, path='', tol=(1e-9, 0.)):
    """None, or where the two observations differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '{}: {} instead of {}'.format(path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            r = same(a[k], b[k], '{}/{}'.format(path, k), tol)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '{}: {} instead of {}'.format(path, str(a)[:300], str(b)[:300])
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, '{}/{}'.format(path, i), tol)
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if a == b or a != a and b != b or abs(a - b) <= tol[0] * max(abs(a), abs(b)) + tol[1] else '{}: {} instead of {}'.format(path, a, b)
    return None if a == b else '{}: {!r} instead of {!r}'.format(path, a, b)


# components ---------------------------------------------------------------

def one(E, kind='tend', **kw):
    a, al, b, d = E.q('a'), E.al('ala'), E.q('b'), E.q('d')
    inp = E.props({'a': {'dims': ['x', '*'], 'units': 'K', 'alias': 'ala'}, 'b': {'dims': ['*'], 'units': 'km'}})
    diag = E.props({'d': {'dims': ['x', '*'], 'units': 'g'}})
    main = {} if kind == 'diag' else E.props({'a': {'units': 'K' if kind == 'step' else 'degK day^-1'}})

    def fn(raw, dt):
        m = {} if kind == 'diag' else {al: raw[al] * 1.25 + raw[b]}
        return m, {d: raw[al] - raw[b] * 1000.}
    return E.make(kind, inp, main, diag, fn, **kw)


def two(E, kind='tend', **kw):
    b, c = E.q('b'), E.q('c')
    inp = E.props({'b': {'dims': ['y', 'z'], 'units': 'cm'}, 'c': {'dims': ['z'], 'units': 'Pa'}})
    main = {} if kind == 'diag' else E.props({'b': {'units': 'cm' if kind == 'step' else 'cm hour^-1', 'dims': ['z', 'y']}, 'c': {'units': 'Pa' if kind == 'step' else 'Pa s^-1'}})

    def fn(raw, dt):
        if kind == 'diag':
            return {}, {}
        return {b: raw[b].T * 0.5 + raw[c][:, None], c: raw[c] * -1e-3}, {}
    return E.make(kind, inp, main, {}, fn, **kw)


# scenarios ------------------------------------------------------------------

def kinds(E):
    out = []
    for kind in C.KINDS:
        for f in (one, two):
            c = f(E, kind)
            for k in range(2):
                r = C.call(kind, c, E.state('abce', k), E.step(DT))
                out.append([kind, E.see(tuple(r)), E.see_raw(c.seen[-1])])
            for n in 'ab':
                st = E.state([x for x in 'abc' if x != n])
                out.append(E.attempt(lambda: E.see(tuple(C.call(kind, c, st, DT)))))
            st = E.state('abc')
            st[E.q('b')] = E.da('b', ['w'], np.ones(2), 'm')
            out.append(E.attempt(lambda: E.see(tuple(C.call(kind, c, st, DT)))))
            st = E.state('abc')
            st[E.q('b')].attrs['units'] = 'kg'
            out.append(E.attempt(lambda: E.see(tuple(C.call(kind, c, st, DT)))))
    return out


def checks(E):
    """Outputs left out or added, in each category, under name and alias."""
    out = []
    for kind in C.KINDS:
        for gives in ([], ['a'], ['ala'], ['a', 'c'], ['d'], ['b'], ['e']):
            for diag in ([], ['d'], ['b'], ['d', 'c'], ['alb'], ['ala']):
                inp = E.props({'a': {'dims': ['x'], 'units': 'K', 'alias': 'ala'}})
                main = {} if kind == 'diag' else E.props({'a': {'units': 'K' if kind == 'step' else 'K s^-1'}})
                dp = E.props({'d': {'dims': ['x'], 'units': 'K', 'alias': 'alb'}})
                name = lambda n: E.al(n) if n.startswith('al') else E.q(n)
                c = C.make(kind, inp, main, dp, lambda raw, dt: ({} if kind == 'diag' else {name(n): np.ones(2) for n in gives}, {name(n): np.ones(2) * 3 for n in diag}))
                st = E.container([(E.q('a'), E.da('a', ['x'], np.ones(2), 'K')), ('time', E.t0)])
                out.append([kind, gives, diag, E.attempt(lambda: E.see(tuple(C.call(kind, c, st, DT))))])
    return out


def declare(E):
    out = []
    good = {'dims': ['x'], 'units': 'K'}
    bad = [{'dims': ['x']}, {'units': 'K'}, {'dims': ['x'], 'units': 'm'}, good, dict(good, alias='ala'), {'dims': ['y'], 'units': 'degC'}]
    for kind in C.KINDS:
        for i in bad:
            for m in bad:
                main = {} if kind == 'diag' else {'a': dict(m, **({'units': m['units'] + ' s^-1'} if 'units' in m and kind != 'step' else {}))}
                for dg in ({}, {'a': m}, {'b': m}, {'a': m, 'b': dict(good, alias='ala')}):
                    r = E.attempt(lambda: C.make(kind, E.props({'a': i, 'e': dict(good, alias='alb')}), E.props(main), E.props(dg)))
                    out.append([kind, r[0], r[1] if r[0] == 'err' else ''])
    return out


def combine(E):
    out = []
    alts = [{'dims': ['x', 'y'], 'units': 'K'}, {'dims': ['y', 'x'], 'units': 'degC'}, {'dims': ['x', '*'], 'units': 'K'}, {'dims': ['*'], 'units': 'K'}, {'dims': ['x'], 'units': 'K'},
            {'dims': ['x', 'y'], 'units': 'm'}, {'dims': ['y', '*'], 'units': 'mK'}]
    for p in alts:
        for r in alts:
            for d in ('d', 'e'):
                parts = [C.make('diag', E.props({'a': p, 'b': r}), {}, E.props({'d': {'dims': ['x'], 'units': 'K'}})), C.make('diag', E.props({'a': r, 'c': p}), {}, E.props({d: {'dims': ['x'], 'units': 'K'}}))]

                def go():
                    comp = sympl.DiagnosticComponentComposite(*parts)
                    return [E.see_props(comp.input_properties), E.see_props(comp.diagnostic_properties)]
                out.append(E.attempt(go))
    tends = [one(E), two(E), one(E, 'impl')]
    for args in ([0, 1], [1, 0], [2, 1]):
        comp = sympl.ImplicitTendencyComponentComposite(*[tends[i] for i in args])
        out.append([E.see_props(comp.input_properties), E.see_props(comp.tendency_properties), E.see_props(comp.diagnostic_properties)])
        out.append(E.see(comp(E.state('abce'), DT)))
    out.append(E.attempt(lambda: sympl.ImplicitTendencyComponentComposite(tends[0], tends[2]) and 'accepted'))
    return out


STEPPERS = [('AdamsBashforth', {'order': i}) for i in (1, 2, 3, 4)] + [('Leapfrog', {}), ('Leapfrog', {'asselin_strength': 0.7, 'alpha': 0.3}), ('SSPRungeKutta', {'stages': 2}), ('SSPRungeKutta', {'stages': 3})]


def _steppers(E, which):
    out = []
    for reported in (True, False):
        name, kw = STEPPERS[which]
        st = getattr(sympl, name)(one(E), two(E, 'impl'), tendencies_in_diagnostics=reported, name=E.fm['N'], **kw)
        out.append([E.see_props(st.input_properties), E.see_props(st.output_properties), E.see_props(st.diagnostic_properties)])
        state = E.state('abce')
        for k in range(5):
            if k == 3:  # a refused or failed step between
                out.append(E.attempt(lambda: E.see(st(E.state('bce', k), E.step(DT)))))
            r = st(state, E.step(DT))
            out.append([E.see(r), E.see(state)])
            new = E.container(list(r[1].items()))
            new['time'] = new['time'] + DT
            state = new
    return out


def wrappers(E):
    out = []
    a, b, d = E.q('a'), E.q('b'), E.q('d')
    sc = sympl.ScalingWrapper(one(E), input_scale_factors={a: 2., b: 0.5}, tendency_scale_factors={a: 3.}, diagnostic_scale_factors={d: 0.25})
    uf = sympl.UpdateFrequencyWrapper(sc, 2 * DT)
    td = sympl.TimeDifferencingWrapper(two(E, 'step'))
    named = E.made(two(E, 'impl'), tendencies_in_diagnostics=True, name=E.fm['M'])
    comp = sympl.ImplicitTendencyComponentComposite(uf, td, two(E), named)
    ss = sympl.ScalingWrapper(one(E, 'step', tendencies_in_diagnostics=True, name=E.fm['St']), input_scale_factors={b: 4.}, output_scale_factors={a: 0.5})
    for k in range(4):
        st = E.state('abce', k)
        out.append(E.see(comp(st, E.step(DT))))
        out.append(E.see(ss(st, E.step(DT))))
        out.append(E.see(st))
    for n in 'abcde':
        for kw in ('input', 'tendency', 'diagnostic', 'output'):
            out.append([n, kw, E.attempt(lambda: sympl.ScalingWrapper(one(E), **{kw + '_scale_factors': {E.q(n): 2.}}) and 'accepted')])
    out.append([E.see_props(td.tendency_properties), E.see_props(uf.input_properties)])
    return out


def scratch(fn):
    def run(E):
        d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
        try:
            return fn(E, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    run.__name__ = fn.__name__
    return run


def _netcdf(E, d, options):
    import netCDF4
    out = []
    for i, kw in enumerate(options):
        f = os.path.join(d, 'f%d.nc' % i)
        m = sympl.NetCDFMonitor(f, **kw)
        for k in (1, 0, 2):
            m.store(E.state('abce', k))
            if k != 1:
                m.write()
        r = E.attempt(lambda: (m.store(E.state('ab', 3)), m.write()) and 'accepted')  # other quantities than before
        with netCDF4.Dataset(f) as ds:
            ds.set_auto_mask(False)
            obs = {}
            for n, v in ds.variables.items():
                dims = [{'time': 'time'}.get(x, E.dinv.get(x, 'unknown ' + x)) for x in v.dimensions]
                order = sorted(range(len(dims)), key=lambda j: dims[j])
                if n == 'time':
                    obs[n] = [dims, (v[:] - v[0]).tolist(), v.units.split()[0]]
                    continue
                obs[E.inv.get(n, n)] = [sorted(dims)] + E.in_file(np.transpose(v[:], order).astype(float), sorted(dims), 'units' in v.ncattrs() and v.units)
            out.append([obs, r])
    return out


@scratch
def netcdf(E, d):
    return _netcdf(E, d, [{}, {'store_names': [E.q('a'), E.q('e')]}, {'write_on_store': True}, {'time_units': 'minutes', 'store_names': [E.q('b')]}])


@scratch
def netcdf_alias(E, d):
    """Only where the name of the first is no part of the others."""
    return _netcdf(E, d, [{'aliases': {E.q('a'): 'ALIAS'}}])


@scratch
def restart(E, d):
    out = []
    m = sympl.RestartMonitor(os.path.join(d, 'r.nc'))
    for names in ('abce', 'a', 'eb'):
        for k in range(2):
            m.store(E.state(names, k))
            out.append(E.see(m.load()))
    return out


def tracers(E):
    reset_tracers()
    reset_packers()
    out = []
    try:
        for n, u in (('a', 'K'), ('d', 'm')):
            sympl.register_tracer(E.q(n), u)
        out.append(E.attempt(lambda: sympl.register_tracer(E.q('a'), 'm')))
        out.append([[E.inv.get(n) for n in sympl.get_tracer_names()], {E.inv.get(n): u for n, u in sympl.get_tracer_unit_dict().items()}])
        for tdims in (['tracer', '*'], ['*', 'tracer', 'z'], ['z', 'tracer', 'y']):
            for kind in ('tend', 'impl', 'step'):
                def fn(raw, dt):
                    return {'tracers': raw['tracers'] * 2. + 1., E.q('c'): raw[E.q('c')] * 3.}, {E.q('e'): raw[E.q('c')] * 5.}
                c = C.make(kind, E.props({'c': {'dims': ['z'], 'units': 'Pa'}}), E.props({'c': {'units': 'Pa' if kind == 'step' else 'Pa s^-1'}}), E.props({'e': {'dims': ['z'], 'units': 'Pa'}}), fn,
                           attrs={'uses_tracers': True, 'tracer_dims': tuple(E.dims(tdims)), 'prepend_tracers': [(E.q('b'), 'km')]})
                def st(k):
                    items = [(E.q(n), E.da(n, ['y', 'z'], np.arange(12.).reshape(3, 4) * (i + 1) + k, u)) for i, (n, u) in enumerate((('a', 'degC'), ('b', 'm'), ('d', 'km')))]
                    return E.container(items + [(E.q('c'), E.da('c', *quantity('c', k))), ('time', E.t0 + k * DT)])
                for k in range(2):
                    r = E.attempt(lambda: E.see(tuple(C.call(kind, c, st(k), DT))))
                    if r[0] == 'ok':
                        r.append(E.see_raw(c.seen[-1]))
                    out.append(r)
                out.append(E.attempt(lambda: sympl.register_tracer(E.q('c'), 'Pa')))
                if kind != 'step':
                    comp = sympl.ImplicitTendencyComponentComposite(c)
                    out.append(E.see_props(comp.input_properties))
                    ab = E.attempt(lambda: E.see(sympl.AdamsBashforth(c, order=2)(st(0), DT)))
                    out.append(ab)
                reset_packers()
        return out
    finally:
        reset_tracers()
        reset_packers()


def constants(E):
    out = []
    sympl.reset_constants()
    try:
        a, b = E.q('a'), E.q('b')
        out.append(E.attempt(lambda: sympl.get_constant(a, 'm')))
        sympl.set_constant(a, 3., 'm')
        out.append([float(sympl.get_constant(a, 'km')), E.attempt(lambda: sympl.get_constant(a, 'K')), E.attempt(lambda: sympl.set_constant(a, 1., 'no_unit'))])
        out.append('\t{}: 3.0 m\n'.format(a) in sympl.get_constants_string())
        sympl.set_constant(b, 4., 'K')
        sympl.set_constant(a, 5., 's')
        out.append([float(sympl.get_constant(a, 'minute')), float(sympl.get_constant(b, 'mK')), '\t{}: 5.0 s\n'.format(a) in sympl.get_constants_string(), '\t{}: 4.0 K\n'.format(b) in sympl.get_constants_string()])
        sympl.set_condensible_name(E.q('c'))
        sympl.set_constant('density_of_liquid_' + E.q('c'), 7., 'kg m^-3')
        out.append(float(sympl.get_constant('density_of_liquid_phase', 'kg m^-3')))
        sympl.set_constant('density_of_liquid_phase', 8., 'kg m^-3')
        out.append([float(sympl.get_constant('density_of_liquid_' + E.q('c'), 'kg m^-3')), float(sympl.get_constant('density_of_liquid_water', 'kg m^-3'))])
        sympl.set_condensible_name('water')
        out.append(float(sympl.get_constant('density_of_liquid_phase', 'kg m^-3')))
        sympl.reset_constants()
        out.append([E.attempt(lambda: sympl.get_constant(x, 'm')) for x in (a, b, 'density_of_liquid_' + E.q('c'))])
        return out
    finally:
        sympl.reset_constants()


def functions(E):
    out = []
    st = E.state('abce')
    pr = {'a': {'dims': ['x', '*'], 'units': 'K', 'alias': 'ala'}, 'b': {'dims': ['*'], 'units': 'km'}, 'c': {'dims': ['z'], 'units': 'Pa', 'alias': 'alb'}}
    raw = sympl.get_numpy_arrays_with_properties(st, E.props(pr))
    out.append(E.see_raw(raw))
    new = {E.q('a'): raw[E.al('ala')] * 2, E.q('b'): raw[E.q('b')] + 1, E.q('d'): raw[E.al('alb')] * 3}
    op = {'a': {'units': 'K'}, 'b': {'units': 'km', 'dims': ['*']}, 'd': {'dims': ['z'], 'units': 'Pa'}}
    out.append(E.see(sympl.restore_data_arrays_with_properties(new, E.props(op), st, E.props(pr))))
    out.append(E.see(sympl.restore_data_arrays_with_properties(new, E.props(op), st, E.props(pr), ignore_names=[E.q('a')])))
    new.pop(E.q('b'))
    out.append(E.attempt(lambda: E.see(sympl.restore_data_arrays_with_properties(new, E.props(op), st, E.props(pr)))))
    out.append(E.attempt(lambda: E.see(sympl.restore_data_arrays_with_properties(new, E.props(op), st, E.props(pr), ignore_missing=True))))
    ini = sympl.initialize_numpy_arrays_with_properties(E.props({'a': {'units': 'K'}, 'd': {'dims': ['z', 'x'], 'units': 'Pa', 'dtype': np.int32}}), raw, E.props(pr))
    out.append({E.inv[n]: [E.shape(v.shape, {'a': ['x', None], 'd': ['z', 'x']}[E.inv[n]]), str(v.dtype), float(np.abs(v).sum())] for n, v in ini.items()})
    for dims in (['y', 'x', 'z'], ['z', 'y', 'x'], ['*'], ['z', '*'], ['*', 'x'], ['x', 'y', 'z', '*']):
        arr = sympl.get_numpy_array(st[E.q('a')], E.dims(dims))
        out.append(E.arr(arr))
        out.append(E.see_q(DataArray(sympl.restore_dimensions(np.array(arr) * 2, E.dims(dims), st[E.q('a')], {'units': 'm'}))))
    out.append(E.attempt(lambda: sympl.get_numpy_array(st[E.q('a')], E.dims(['x', 'z']))))
    out.append({E.inv[n]: {v: k for k, v in E.am.items()}[al] for n, al in sympl.get_component_aliases(one(E), two(E, 'step')).items()})
    return out


def basic(E):
    out = []
    q = {n: E.da(n, *quantity(n, 0)) for n in 'abc'}
    for k in range(2):
        con = sympl.ConstantTendencyComponent({E.q('a'): q['a'], E.q('b'): q['b']}, {E.q('c'): q['c']})
        out.append(E.see(con(E.state('e', k))))
        out.append([E.see_props(con.tendency_properties), E.see_props(con.diagnostic_properties)])
        out.append(E.see(sympl.ConstantDiagnosticComponent({E.q('c'): q['c']})(E.state('e', k))))
        rel = sympl.RelaxationTendencyComponent(E.q('a'), E.unit('K'))
        st = E.state('a', k)
        st['equilibrium_' + E.q('a')] = E.da('b', ['z', 'y'], np.arange(12.).reshape(4, 3) + 280., 'K')
        st[E.q('a') + '_relaxation_timescale'] = E.da('c', ['x'], np.array([1., 2.]) + k, 'hour')
        out.append(E.see(rel(st)))
        out.append(E.see_props(rel.input_properties))
    return out


def plot(E):
    out = []

    def fn(fig, state):
        out.append(E.see(state))
    m = sympl.PlotFunctionMonitor(fn, interactive=False)
    import matplotlib.pyplot as plt
    try:
        for k in range(2):
            m.store(E.state('abce', k))
        return out
    finally:
        plt.close('all')


ALL = OrderedDict((f.__name__, f) for f in (kinds, checks, declare, combine, wrappers, netcdf, netcdf_alias, restart, tracers, constants, functions, basic, plot))
for _i, (_n, _kw) in enumerate(STEPPERS):
    ALL['stepper%d' % _i] = lambda E, i=_i: _steppers(E, i)
_BASE = {}


def base(name, neutral=Env):
    if (name, neutral) not in _BASE:
        _BASE[name, neutral] = ALL[name](neutral())
    return _BASE[name, neutral]


def compare(name, E, what, obs, neutral=Env):
    from mc.core import require
    want = base(name, neutral)
    st, got = C.outcome(ALL[name], E)
    if st == 'err':
        if isinstance(got, Violation):
            raise got
        require(False, '{} fails with {}: {!r}', name, what, got)
    obs.step()
    d = same(got, want, name, E.tol)
    require(d is None, 'with {}: {}', what, d)
    obs.outcome([name])
