"""C38: guarantees do not wear off with the number of calls, quantities, parts, dimensions or elements."""
import gc
import os
import shutil
import tempfile
from datetime import datetime, timedelta
import numpy as np
import netCDF4
import sympl
from sympl import DataArray
from sympl._core.tracers import reset_tracers, reset_packers
from mc import comp as C, scen, lab as L
from mc.core import require
from mc.checks import c37

LEVEL = 'model_checking'
RULE = ('Everything from one up to a bound, without gaps: 1 to 40 quantities in one component of each kind against as many components with one quantity each, in every stepper, in files, '
        'among tracers and constants; composites of 1 to 40 parts against the sum of the parts; 1 to 30 nested wrappers against the product; 1 to 8 dimensions with a wildcard in every place; '
        'dimensions of length zero in every combination, for every part; straight runs of 150 steps of every stepper, reduced frequency, stores with writes after each number of stores, 150 restarts, settings of constants, registrations, components made and '
        'discarded, each step compared with an independent model; and the scenarios of C36 with all arrays tiled to up to thousands of elements along each dimension, compared element by element '
        'with the small run.')
ASSUMPTIONS = ['Quantities in tiled arrays repeat those of the small ones.']
T0 = datetime(2000, 1, 1)
DT = timedelta(seconds=10)
SIZES = [{'x': 2}, {'x': 500}, {'y': 333}, {'z': 257}, {'w': 3000}, {'x': 17, 'y': 5, 'z': 13, 'w': 7}, {'x': 3, 'y': 2}, {'x': 64, 'y': 64}, {'x': 300, 'y': 260}]
TILED = [n for n in scen.ALL if n not in ('checks', 'declare', 'combine', 'tracers')]


def cases(tier):
    top = 40 if tier == 'quick' else 120
    for kind in C.KINDS:
        for lo in range(1, top + 1, 10):
            yield {'kind': 'quantities', 'comp': kind, 'from': lo, 'to': min(lo + 10, top + 1)}
    for i in range(len(scen.STEPPERS)):
        yield {'kind': 'stepper', 'i': i, 'top': 12 if tier == 'quick' else 40}
        yield {'kind': 'run', 'i': i, 'n': 150 if tier == 'quick' else 1500}
    for what in ('files', 'restart', 'tracers', 'constants'):
        for lo in range(1, top + 1, 20):
            yield {'kind': what, 'from': lo, 'to': min(lo + 20, top + 1)}
    for i in range(4):
        yield {'kind': 'parts', 'which': i, 'top': top}
    yield {'kind': 'nested', 'top': 30 if tier == 'quick' else 60}
    for k in range(1, 9):
        yield {'kind': 'dims', 'n': k}
    for kind in C.KINDS:
        yield {'kind': 'empty', 'comp': kind}
    for i in range(len(scen.STEPPERS)):
        yield {'kind': 'empty_stepper', 'i': i}
    yield {'kind': 'empty_rest'}
    for w in (1, 2, 3, 7, 50, 149, 150):
        yield {'kind': 'stores', 'every': w, 'n': 150 if tier == 'quick' else 600}
    yield {'kind': 'frequency', 'n': 400}
    yield {'kind': 'histories', 'n': 150}
    for name in TILED:
        for s in range(len(SIZES)):
            yield {'kind': 'sizes', 'scenario': name, 'size': s}


def few(*names):
    for name in names:
        if name in TILED:
            for s in (0, 1, 3, 6):
                yield {'kind': 'sizes', 'scenario': name, 'size': s}


def run(case, obs):
    if case['kind'] == 'sizes':
        return run_sizes(case, obs)
    reset_tracers()
    reset_packers()
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
    try:
        globals()['run_' + case['kind']](case, obs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        reset_tracers()
        reset_packers()
        sympl.reset_constants()


# sizes ---------------------------------------------------------------------

class Tiled(c37.Neutral):
    def __init__(self, factors):
        scen.Env.__init__(self)
        self.factors = factors

    def da(self, n, dims, data, units):
        data = np.array(data)
        return DataArray(np.tile(data, [self.factors.get(d, 1) for d in dims]), dims=self.dims(dims), attrs={'units': units})

    def see_q(self, v):
        if isinstance(v, DataArray):
            v = self.untile(v)
        return scen.Env.see_q(self, v)

    def untile(self, v):
        small = v
        for d in v.dims:
            f = self.factors.get(d, 1)
            require(v.sizes[d] % f == 0, 'length {} of {} is no multiple of {}', v.sizes[d], d, f)
            small = small.isel({d: slice(0, v.sizes[d] // f)})
        vals = np.asarray(v.values)
        back = np.tile(small.values, [self.factors.get(d, 1) for d in v.dims]) if v.dims else vals
        require(np.array_equal(back, vals) or L.close(back, vals), 'values of parts with equal inputs differ: {} of {}', int(np.sum(back != vals)), back.size)
        return small

    def arr(self, v):
        """The distinct values of an array, with the share each has in all."""
        v = np.asarray(v, dtype=float)
        vals, counts = np.unique(v, return_counts=True)
        return ['array', [[float(a), float(c) / v.size] for a, c in zip(vals, counts)]]

    def shape(self, shape, dims):
        return [n // self.factors.get(d, 1) if d else 0 for n, d in zip(shape, dims)]

    def stored(self, v, dims):
        return self.untile(DataArray(v, dims=dims)).values.tolist()


class Small(Tiled):
    def __init__(self):
        Tiled.__init__(self, {})


def run_sizes(case, obs):
    f = SIZES[case['size']]
    obs.state([case['scenario'], f])
    scen.compare(case['scenario'], Tiled(f), f, obs, Small)


# numbers of quantities -------------------------------------------------------

UNITS = [('m', 'km', 1e-3), ('K', 'mK', 1e3), ('s', 'minute', 1 / 60.), ('Pa', 'hPa', 1e-2), ('kg', 'g', 1e3), ('m s^-1', 'km s^-1', 1e-3), ('W m^-2', 'kW m^-2', 1e-3)]
DIMSETS = [['x'], ['x', 'y'], ['y', 'x'], ['y'], []]
SIZE = {'x': 2, 'y': 3}


def name(i):
    return 'q%d' % i


def values(i, k=0):
    return (np.arange(int(np.prod([SIZE[d] for d in DIMSETS[i % 5]]))) * 1.25 + i + 0.5 * k + 1).reshape([SIZE[d] for d in DIMSETS[i % 5]])


def state(idx, k=0):
    st = {name(i): DataArray(values(i, k), dims=DIMSETS[i % 5], attrs={'units': UNITS[i % 7][0]}) for i in idx}
    st['time'] = T0 + k * DT
    return st


def part(kind, idx, **kw):
    """Doubles in other units and adds its number."""
    idx = list(idx)
    s = ' s^-1' if kind in ('tend', 'impl') else ''
    inp = {name(i): {'dims': sorted(DIMSETS[i % 5]), 'units': UNITS[i % 7][1]} for i in idx}
    main = {} if kind == 'diag' else {name(i): {'units': UNITS[i % 7][1] + s} for i in idx}
    diag = {'d' + name(i): {'dims': sorted(DIMSETS[i % 5]), 'units': UNITS[i % 7][1]} for i in idx}

    def fn(raw, dt):
        return {} if kind == 'diag' else {name(i): raw[name(i)] * 2 + i for i in idx}, {'d' + name(i): raw[name(i)] * -1. for i in idx}
    return C.make(kind, inp, main, diag, fn, **kw)


def check(got, i, factor, plus, where, key=None, per=''):
    q = got[key or name(i)]
    want = DataArray(values(i, where[1]) * UNITS[i % 7][2] * factor + plus, dims=DIMSETS[i % 5]).transpose(*sorted(DIMSETS[i % 5]))
    require(sorted(q.dims) == sorted(DIMSETS[i % 5]), '{} has dims {} {}', key or name(i), q.dims, where)
    v = q.transpose(*sorted(q.dims)).values
    require(L.same_unit(q.attrs['units'], UNITS[i % 7][1] + per), '{} in {} {}', name(i), q.attrs, where)
    require(np.allclose(v, want.values, rtol=1e-9), '{} is {} instead of {} {}', key or name(i), v.tolist(), want.values.tolist(), where)


def run_quantities(case, obs, d):
    kind = case['comp']
    s = ' s^-1' if kind in ('tend', 'impl') else ''
    for n in range(case['from'], case['to']):
        for order in (range(n), range(n)[::-1]):
            c = part(kind, order)
            for k in range(2):
                where = ('with {} quantities'.format(n), k)
                st = state(range(n), k)
                before = L.fingerprint(st)
                main, diags = C.call(kind, c, st, DT)
                obs.step()
                obs.state([kind, n, k])
                require(L.fingerprint(st) == before, 'state altered {}', where)
                if kind != 'diag':
                    require(sorted(main) == sorted(name(i) for i in range(n)), 'returned {} {}', sorted(main), where)
                require(sorted(x for x in diags if x != 'time') == sorted('d' + name(i) for i in range(n)), 'diagnostics {} {}', sorted(diags), where)
                for i in range(n):
                    if kind != 'diag':
                        check(main, i, 2, i, where, per=s)
                    check(diags, i, -1, 0, where, 'd' + name(i))
                # one of many is missing or wrong
                for i in {0, n // 2, n - 1}:
                    bad = state(range(n), k)
                    del bad[name(i)]
                    require(C.outcome(C.call, kind, c, bad, DT)[0] == 'err', 'accepted without quantity {} {}', i, where)
                    bad = state(range(n), k)
                    bad[name(i)].attrs['units'] = 'mol'
                    require(C.outcome(C.call, kind, c, bad, DT)[0] == 'err', 'accepted with wrong units of quantity {} {}', i, where)
        obs.outcome(n)


# steppers --------------------------------------------------------------------

AB = {1: [1.], 2: [1.5, -.5], 3: [23 / 12., -16 / 12., 5 / 12.], 4: [55 / 24., -59 / 24., 37 / 24., -9 / 24.]}


class Scheme(object):
    """dq/dt = rate * q + plus, one float at a time."""

    def __init__(self, i, f):
        self.kind, self.kw = scen.STEPPERS[i]
        self.f = f
        self.past = []
        self.old = None

    def step(self, y, dt):
        """-> (current value after the step, next value)"""
        if self.kind == 'AdamsBashforth':
            self.past = [self.f(y)] + self.past[:self.kw['order'] - 1]
            return y, y + dt * sum(c * t for c, t in zip(AB[len(self.past)], self.past))
        if self.kind == 'Leapfrog':
            nu, alpha = self.kw.get('asselin_strength', 0.05), self.kw.get('alpha', 0.5)
            if self.old is None:
                new = y + dt * self.f(y)
            else:
                new = self.old + 2 * dt * self.f(y)
                infl = 0.5 * nu * (self.old - 2 * y + new)
                y = y + alpha * infl
                new = new + (alpha - 1) * infl
            self.old = y
            return y, new
        f = self.f
        if self.kw['stages'] == 2:
            one = y + dt * f(y)
            return y, 0.5 * y + 0.5 * (one + dt * f(one))
        one = y + dt * f(y)
        two = 0.75 * y + 0.25 * (one + dt * f(one))
        return y, y / 3. + 2. / 3 * (two + dt * f(two))


def tender(idx, rate):
    """A tendency component for the quantities, each in the unit of the state per hour."""
    idx = list(idx)
    inp = {name(i): {'dims': sorted(DIMSETS[i % 5]), 'units': UNITS[i % 7][1]} for i in idx}
    main = {name(i): {'units': UNITS[i % 7][1] + ' hour^-1'} for i in idx}
    return C.make('tend', inp, main, {}, lambda raw, dt: ({name(i): raw[name(i)] * rate * 3600. + i for i in idx}, {}))


def schemes(i, idx, rate):
    return {q: Scheme(i, lambda y, q=q: rate * y + q / 3600. / UNITS[q % 7][2]) for q in idx}


def stepping(i, comps, idx, rate, n, obs, what):
    kind, kw = scen.STEPPERS[i]
    stepper = getattr(sympl, kind)(*comps, **kw)
    ref = schemes(i, idx, rate)
    st = state(idx)
    y = {q: values(q) for q in idx}
    for k in range(n):
        diags, new = stepper(st, DT)
        obs.step()
        for q in idx:
            cur, y[q] = ref[q].step(y[q], DT.total_seconds())
            for s, v, which in ((st, cur, 'current'), (new, y[q], 'new')):
                got = s[name(q)]
                require(got.attrs.get('units') == UNITS[q % 7][0] and sorted(got.dims) == sorted(DIMSETS[q % 5]), '{}: {} value of {} is {} {} at step {}', what, which, name(q), got.dims, got.attrs, k)
                got = got.transpose(*DIMSETS[q % 5]).values
                require(np.allclose(got, v, rtol=1e-7, atol=1e-12), '{}: {} value of {} is {} instead of {} at step {}', what, which, name(q), got.tolist(), v.tolist(), k)
        require(set(new) - {'time'} == {name(q) for q in idx}, '{}: new state with {}', what, sorted(new))
        obs.state([what, k])
        st = dict(new, time=T0 + (k + 1) * DT)


def run_stepper(case, obs, d):
    for n in range(1, case['top'] + 1):
        stepping(case['i'], [tender(range(n), -0.003)], range(n), -0.003, 7, obs, '{} with {} quantities'.format(scen.STEPPERS[case['i']], n))
        stepping(case['i'], [tender([i], -0.003) for i in range(n)], range(n), -0.003, 6, obs, '{} of {} components'.format(scen.STEPPERS[case['i']], n))
        obs.outcome(n)


def run_run(case, obs, d):
    stepping(case['i'], [tender(range(3), -0.003)], range(3), -0.003, case['n'], obs, 'run of {}'.format(scen.STEPPERS[case['i']]))
    obs.outcome(case['i'])


# files -----------------------------------------------------------------------

def run_files(case, obs, d):
    import netCDF4
    for n in range(case['from'], case['to']):
        f = os.path.join(d, 'f%d.nc' % n)
        m = sympl.NetCDFMonitor(f)
        for k in range(3):
            m.store(state(range(n), k))
            obs.step()
            if k:
                m.write()
        with netCDF4.Dataset(f) as ds:
            require(set(ds.variables) == {name(i) for i in range(n)} | {'time'}, 'file of {} quantities has {}', n, sorted(ds.variables))
            for i in range(n):
                v = ds[name(i)]
                require(v.dimensions == ('time',) + tuple(DIMSETS[i % 5]) and v.units == UNITS[i % 7][0], '{} has {} {}', name(i), v.dimensions, v.units)
                require(np.array_equal(v[:], [values(i, k) for k in range(3)]), '{} of {} is {}', name(i), n, v[:].tolist())
        obs.state(['files', n])
        obs.outcome(n)
        os.unlink(f)


def run_restart(case, obs, d):
    m = sympl.RestartMonitor(os.path.join(d, 'r.nc'))
    for n in range(case['from'], case['to']):
        for k in range(2):
            m.store(state(range(n), k))
            got = m.load()
            obs.step()
            require(set(got) == {name(i) for i in range(n)} | {'time'} and got['time'] == T0 + k * DT, 'loaded {} of {}', sorted(got), n)
            for i in range(n):
                require(got[name(i)].dims == tuple(DIMSETS[i % 5]) and np.array_equal(got[name(i)].values, values(i, k)) and got[name(i)].attrs['units'] == UNITS[i % 7][0], '{} loaded as {}', name(i), got[name(i)])
        obs.state(['restart', n])
        obs.outcome(n)


def run_stores(case, obs, d):
    """A long output file, written each so many stores."""
    import netCDF4
    f = os.path.join(d, 'long.nc')
    m = sympl.NetCDFMonitor(f, write_on_store=case['every'] == 1)
    done = 0
    for k in range(case['n']):
        m.store(state([0, 1], k))
        obs.step()
        if (k + 1) % case['every'] == 0:
            if case['every'] > 1:
                m.write()
            done = k + 1
        if (k + 1) % 37 == 0 or k + 1 == case['n']:
            if done == 0:
                require(not os.path.exists(f), 'file before the first write')
                continue
            with netCDF4.Dataset(f) as ds:
                t = [netCDF4.num2date(x, ds['time'].units) for x in ds['time'][:]]
                require(len(t) == done, '{} of {} records in the file, written every {}', len(t), done, case['every'])
                require(all(abs((datetime(*x.timetuple()[:6]) - T0 - j * DT).total_seconds()) <= 1 for j, x in enumerate(t)), 'times {}', t)
                for i in (0, 1):
                    require(np.array_equal(ds[name(i)][:], [values(i, j) for j in range(done)]), 'records of {} differ after {} stores, written every {}', name(i), k + 1, case['every'])
            obs.state(['stores', case['every'], k])
    obs.outcome(case['every'])


# tracers and constants -------------------------------------------------------

def run_tracers(case, obs, d):
    for n in range(case['from'], case['to']):
        reset_tracers()
        reset_packers()
        for pre in (0, 2):
            reset_tracers()
            early = [tracer_part(kind, pre) for kind in ('tend', 'step')]
            for i in range(n):
                sympl.register_tracer(name(i), UNITS[i % 7][1])
            require(list(sympl.get_tracer_names()) == [name(i) for i in range(n)], 'tracers {}', sympl.get_tracer_names())
            late = [tracer_part(kind, pre) for kind in ('tend', 'step')]
            st = {name(i): DataArray(np.arange(6.).reshape(2, 3) + i, dims=['x', 'y'], attrs={'units': UNITS[i % 7][0]}) for i in list(range(n)) + [1000 + j for j in range(pre)]}
            st['time'] = T0
            for kind, c in early + late:
                main, diags = C.call(kind, c, st, DT)
                obs.step()
                names = [1000 + j for j in range(pre)] + list(range(n))
                seen = C.calls(c)[-1]['tracers']
                require(seen.shape == (len(names), 6), '{} tracers seen as {}', len(names), seen.shape)
                require(set(main) == {name(i) for i in names}, '{} tracers, {} returned', n, sorted(main))
                for j, i in enumerate(names):
                    want = st[name(i)].values * UNITS[i % 7][2] * 2 + j
                    got = main[name(i)]
                    require(np.allclose(got.transpose('x', 'y').values, want, rtol=1e-9), 'tracer {} of {} is {} instead of {}', i, n, got.values.tolist(), want.tolist())
                    require(L.same_unit(got.attrs['units'], UNITS[i % 7][1] + (' s^-1' if kind == 'tend' else '')), 'tracer {} in {}', i, got.attrs)
            obs.state(['tracers', n, pre])
        obs.outcome(n)


def tracer_part(kind, pre):
    def fn(raw, dt):
        t = raw['tracers']
        return {'tracers': t * 2 + np.arange(len(t))[:, None]}, {}
    attrs = {'uses_tracers': True, 'tracer_dims': ['tracer', '*']}
    if pre:
        attrs['prepend_tracers'] = [(name(1000 + j), UNITS[(1000 + j) % 7][1]) for j in range(pre)]
    return kind, C.make(kind, {}, {}, {}, fn, attrs)


def run_constants(case, obs, d):
    for n in range(case['from'], case['to']):
        sympl.reset_constants()
        for k in range(2):
            for i in range(n):
                sympl.set_constant(name(i), 3. * i + k, UNITS[i % 7][0])
            text = sympl.get_constants_string()
            for i in range(n):
                v = float(sympl.get_constant(name(i), UNITS[i % 7][1]))
                obs.step()
                require(abs(v - (3. * i + k) * UNITS[i % 7][2]) < 1e-9, 'constant {} of {} is {}', i, n, v)
                require('\t{}: {} {}\n'.format(name(i), 3. * i + k, UNITS[i % 7][0]) in text, 'constant {} of {} is not shown', i, n)
        obs.state(['constants', n])
        obs.outcome(n)


# parts -----------------------------------------------------------------------

def run_parts(case, obs, d):
    for n in range(1, case['top'] + 1):
        if case['which'] == 0:  # tendencies add up
            parts = [C.make('tend', {'a': {'dims': ['x'], 'units': 'm'}}, {'a': {'units': u + ' s^-1'}}, {'d%d' % i: {'dims': ['x'], 'units': u}},
                            lambda raw, dt, i=i: ({'a': raw['a'] * 2.0 ** -(i % 20)}, {'d%d' % i: raw['a'] * i})) for i, u in ((i, ['m', 'km', 'cm'][i % 3]) for i in range(n))]
            comp = sympl.TendencyComponentComposite(*parts)
            for k in range(2):
                a = np.array([1., 2. + k])
                t, dg = comp({'a': DataArray(a, dims=['x'], attrs={'units': 'm'}), 'time': T0})
                want = sum(a * 2.0 ** -(i % 20) * [1., 1e3, 1e-2][i % 3] for i in range(n))
                u = {'m': 1., 'km': 1e-3, 'cm': 100.}
                unit = [x for x in u if L.same_unit(t['a'].attrs['units'], x + ' s^-1')]
                require(unit, 'sum in {}', t['a'].attrs)
                require(np.allclose(t['a'].values, want * u[unit[0]], rtol=1e-9), 'sum of {} parts is {} instead of {}', n, t['a'].values, want)
                require(set(dg) - {'time'} == {'d%d' % i for i in range(n)} and all(np.array_equal(dg['d%d' % i].values, a * i) for i in range(n)), 'diagnostics of {} parts', n)
                obs.step()
        elif case['which'] == 1:  # diagnostics are joined
            parts = [part('diag', [i]) for i in range(n)]
            dg = sympl.DiagnosticComponentComposite(*parts)(state(range(n)))
            require(set(dg) - {'time'} == {'d' + name(i) for i in range(n)}, '{} diagnostics of {}', len(dg), n)
            for i in range(n):
                check(dg, i, -1, 0, ('{} parts'.format(n), 0), 'd' + name(i))
            obs.step()
        elif case['which'] == 2:  # implicit and other parts
            parts = [part('impl' if i % 3 else 'tend', [i]) for i in range(n)]
            t, dg = sympl.ImplicitTendencyComponentComposite(*parts)(state(range(n)), DT)
            require(set(t) - {'time'} == {name(i) for i in range(n)}, '{} tendencies of {}', len(t), n)
            for i in range(n):
                check(t, i, 2, i, ('{} parts'.format(n), 0), per=' s^-1')
            obs.step()
        else:  # monitors
            got = []

            class M(sympl.Monitor):
                def __init__(self, i):
                    self.i = i

                def store(self, st):
                    got.append((self.i, st))
            comp = sympl.MonitorComposite(*[M(i) for i in range(n)]) if hasattr(sympl, 'MonitorComposite') else None
            if comp is None:
                return
            st = state([0])
            comp.store(st)
            require([g[0] for g in got] == list(range(n)) and all(g[1] is st or set(g[1]) == set(st) for g in got), 'monitors called: {}', [g[0] for g in got])
            obs.step()
        obs.state([case['which'], n])
        obs.outcome(n)


def run_nested(case, obs, d):
    a = np.array([1., 3.])
    for n in range(1, case['top'] + 1):
        c = C.make('tend', {'a': {'dims': ['x'], 'units': 'm'}}, {'a': {'units': 'm s^-1'}}, {'d': {'dims': ['x'], 'units': 'm'}}, lambda raw, dt: ({'a': raw['a'] + 0.}, {'d': raw['a'] * 3.}))
        inner = c
        fi = ft = fd = 1.
        for i in range(n):
            kw = [{'input_scale_factors': {'a': 2.}}, {'tendency_scale_factors': {'a': 0.5}}, {'diagnostic_scale_factors': {'d': 3.}}][i % 3]
            fi *= 2. if i % 3 == 0 else 1.
            ft *= 0.5 if i % 3 == 1 else 1.
            fd *= 3. if i % 3 == 2 else 1.
            c = sympl.ScalingWrapper(c, **kw)
            if i % 5 == 4:
                c = sympl.UpdateFrequencyWrapper(c, DT)
            if i % 7 == 6:
                c = sympl.TendencyComponentComposite(c)
        for k in range(2):
            st = {'a': DataArray(a + k, dims=['x'], attrs={'units': 'm'}), 'time': T0 + k * DT}
            t, dg = c(st)
            obs.step()
            require(np.allclose(t['a'].values, (a + k) * fi * ft) and np.allclose(dg['d'].values, (a + k) * 3 * fi * fd), '{} wrappers give {} {}', n, t['a'].values, dg['d'].values)
            require(np.array_equal(C.calls(inner)[-1]['a'], (a + k) * fi), '{} wrappers show {}', n, C.calls(inner)[-1]['a'])
        r, text = C.outcome(lambda: str(c) and repr(c))
        require(r == 'ok', '{} wrappers cannot be shown: {!r}', n, text)
        obs.state(['nested', n])
        obs.outcome(n)


def run_dims(case, obs, d):
    """A wildcard for many dimensions."""
    n = case['n']
    dims = ['d%d' % i for i in range(n)]
    shape = [2 + (i == 1) for i in range(n)]
    v = np.arange(float(np.prod(shape))).reshape(shape)
    for kind in C.KINDS:
        s = ' s^-1' if kind in ('tend', 'impl') else ''
        for spec in (['*'], ['*', dims[0]], [dims[-1], '*'], dims, dims[::-1], [dims[0], '*', dims[-1]] if n > 1 else ['*']):
            def fn(raw, dt):
                out = raw['a'] * 2 + raw['b']
                return {} if kind == 'diag' else {'a': out}, {'e': out * 3}
            c = C.make(kind, {'a': {'dims': spec, 'units': 'm'}, 'b': {'dims': spec, 'units': 'm'}}, {} if kind == 'diag' else {'a': {'units': 'm' + s}}, {'e': {'dims': spec, 'units': 'm'}}, fn)
            for order in (dims, dims[::-1], dims[n // 2:] + dims[:n // 2], dims[::2] + dims[1::2]):
                for other in (order, dims[1:]) if '*' in spec or n > 1 else (order,):
                    st = {'a': DataArray(v, dims=dims, attrs={'units': 'm'}).transpose(*order), 'time': T0}
                    st['b'] = DataArray(v, dims=dims, attrs={'units': 'm'}).transpose(*other) if len(other) == n else DataArray(v[0], dims=other, attrs={'units': 'm'})
                    main, diags = C.call(kind, c, st, DT)
                    obs.step()
                    want = v * 2 + (v if len(other) == n else v[0])
                    if kind != 'diag':
                        require(set(main['a'].dims) == set(dims) and np.array_equal(main['a'].transpose(*dims).values, want), '{}: {} dims as {} give {}', kind, n, spec, main['a'].dims)
                    require(set(diags['e'].dims) == set(dims) and np.array_equal(diags['e'].transpose(*dims).values, want * 3), '{}: {} dims as {} give {}', kind, n, spec, diags['e'].dims)
            obs.state([kind, n, spec])
    obs.outcome(n)


# no elements at all ------------------------------------------------------------

EMPTY = [{'x': a, 'y': b, 'z': c} for a in (0, 1, 2) for b in (0, 2) for c in (0, 3) if 0 in (a, b, c)]


def zeros(dims, n, units='m'):
    return DataArray(np.arange(float(np.prod([n[d] for d in dims], dtype=int))).reshape([n[d] for d in dims]), dims=dims, attrs={'units': units})


def run_empty(case, obs, d):
    """Dimensions of length zero are dimensions like any others."""
    kind = case['comp']
    s = ' s^-1' if kind in ('tend', 'impl') else ''
    dims = ['x', 'y', 'z']
    for n in EMPTY:
        for spec in (['*'], ['*', 'x'], ['x', '*'], ['y', '*', 'x'], ['x', 'y', 'z'], ['z', 'x', 'y']):
            seen = []

            def fn(raw, dt):
                seen.append((raw['a'].shape, raw['b'].shape))
                out = raw['a'] * 2 + raw['b'] * 0
                return {} if kind == 'diag' else {'a': out}, {'e': out.T * 3}
            c = C.make(kind, {'a': {'dims': spec, 'units': 'm'}, 'b': {'dims': spec, 'units': 'km'}}, {} if kind == 'diag' else {'a': {'units': 'm' + s}}, {'e': {'dims': spec[::-1], 'units': 'm'}}, fn)
            for order in (dims, dims[::-1], ['y', 'z', 'x']):
                for other in (order, ['x'], ['z', 'x'], ['y', 'x']):
                    del seen[:]
                    main, diags = C.call(kind, c, {'time': T0, 'a': zeros(order, n), 'b': zeros(other, n)}, DT)
                    obs.step()
                    wild = int(np.prod([n[k] for k in dims if k not in spec], dtype=int))
                    want = tuple(wild if k == '*' else n[k] for k in spec)
                    require(seen == [(want, want)], '{} with lengths {}, dims {}: arrays of shape {} instead of {}', kind, n, spec, seen, want)
                    for out in [diags['e']] + ([main['a']] if kind != 'diag' else []):
                        require(set(out.dims) == set(dims) and all(out.sizes[k] == n[k] for k in dims), '{} with lengths {}, dims {}: output {} {}', kind, n, spec, out.dims, out.shape)
            obs.state([kind, n, spec])
    obs.outcome([kind, 'empty'])


def run_empty_stepper(case, obs, d):
    cls, kw = scen.STEPPERS[case['i']]
    for n in EMPTY:
        for tid in (False, True):
            t = C.make('tend', {'a': {'dims': ['x', '*'], 'units': 'm'}}, {'a': {'units': 'm s^-1'}}, {'e': {'dims': ['x', '*'], 'units': 'm'}}, lambda raw, dt: ({'a': raw['a'] * 1}, {'e': raw['a'] * 1}))
            one = C.make('tend', {'b': {'dims': [], 'units': 'm'}}, {'b': {'units': 'm s^-1'}}, {}, lambda raw, dt: ({'b': raw['b'] * 0 + 1.}, {}))
            stepper = getattr(sympl, cls)(t, one, tendencies_in_diagnostics=tid, name='st', **kw)
            st = {'time': T0, 'a': zeros(['z', 'x', 'y'], n), 'b': zeros([], n), 'c': zeros(['y', 'z'], n)}
            for k in range(5):
                diags, new = stepper(st, DT)
                obs.step()
                for out in (new['a'], diags['e']) + ((diags['a_tendency_from_st'],) if tid else ()):
                    require(set(out.dims) == set('xyz') and all(out.sizes[q] == n[q] for q in 'xyz'), '{} with lengths {}: {} {}', cls, n, out.dims, out.shape)
                require(L.close(np.asarray(new['b'].values), 10. * (k + 1)) and new['c'] is st['c'], '{} with lengths {}: b {}', cls, n, new['b'].values)
                st = dict(new, time=st['time'] + DT)
            obs.state([cls, kw, n, tid])
    obs.outcome([cls, kw, 'empty'])


def run_empty_rest(case, obs, d):
    for i, n in enumerate(EMPTY):
        st = {'time': T0, 'a': zeros(['z', 'x', 'y'], n), 'b': zeros([], n), 'c': zeros(['y', 'z'], n), 'd': zeros(['x'], n)}
        m = sympl.RestartMonitor(os.path.join(d, 'r%d.nc' % i))
        for k in range(2):
            m.store(dict(st, time=T0 + k * DT))
            got = m.load()
            require(set(got) == set(st) and got['time'] == T0 + k * DT, 'restart with lengths {}: {}', n, sorted(got))
            for q in 'abcd':
                require(got[q].dims == st[q].dims and got[q].shape == st[q].shape and np.array_equal(got[q].values, st[q].values) and got[q].attrs == st[q].attrs, 'restart with lengths {}: {} {} {}', n, q, got[q].dims, got[q].shape)
        f = os.path.join(d, 'm%d.nc' % i)
        m = sympl.NetCDFMonitor(f)
        for k in range(4):
            m.store(dict(st, time=T0 + k * DT))
            if k % 2:
                m.write()
        with netCDF4.Dataset(f) as ds:
            require(list(ds['time'][:]) == [0, 10, 20, 30], 'file with lengths {}: times {}', n, ds['time'][:])
            for q in 'abcd':
                v = np.asarray(ds[q][:])
                require(v.shape == (4,) + st[q].shape and all(np.array_equal(r, st[q].values) for r in v), 'file with lengths {}: {} {}', n, q, v.shape)
        for spec in (['x', 'y', 'z'], ['z', '*'], ['*'], ['*', 'y', 'x']):
            props = {'a': {'dims': spec, 'units': 'km'}, 'd': {'dims': spec, 'units': 'm'}}
            arrays = sympl.get_numpy_arrays_with_properties(st, props)
            want = tuple(int(np.prod([n[k] for k in 'xyz' if k not in spec], dtype=int)) if k == '*' else n[k] for k in spec)
            require(arrays['a'].shape == want and arrays['d'].shape == want, 'lengths {} as {}: {}', n, spec, arrays['a'].shape)
            back = sympl.restore_data_arrays_with_properties(arrays, props, st, props)
            for q in 'ad':
                require(set(back[q].dims) == set('xyz') and all(back[q].sizes[k] == n[k] for k in 'xyz'), 'lengths {} restored from {}: {} {}', n, spec, back[q].dims, back[q].shape)
            raw = sympl.initialize_numpy_arrays_with_properties({'o': {'dims': spec[::-1], 'units': 'm'}}, arrays, props)
            require(raw['o'].shape == want[::-1], 'lengths {} initialised as {}: {}', n, spec, raw['o'].shape)
            obs.step()
        # tracers
        reset_tracers()
        reset_packers()
        for count in range(3):
            class S(sympl.Stepper):
                input_properties = {'d': {'dims': ['x'], 'units': 'm'}}
                output_properties = {}
                diagnostic_properties = {}
                uses_tracers = True
                tracer_dims = ['x', 'tracer', '*']

                def array_call(self, raw, dt):
                    self.seen = raw['tracers'].shape
                    return {}, {'tracers': raw['tracers'] * 1}
            c = S()
            ts = {'q%d' % k: zeros(['z', 'x', 'y'], n, 'kg') for k in range(count)}
            _, new = c(dict(st, **ts), DT)
            if count:
                require(c.seen == (n['x'], count, n['y'] * n['z']), '{} tracers with lengths {}: {}', count, n, c.seen)
            require(set(new) - {'time'} == set(ts) and all(set(new[k].dims) == set('xyz') and all(new[k].sizes[q] == n[q] for q in 'xyz') for k in ts), '{} tracers with lengths {}: {}', count, n, {k: v.shape for k, v in new.items()})
            sympl.register_tracer('q%d' % count, 'kg')
            obs.step()
        obs.state(['rest', n])
    obs.outcome('rest')


# long histories --------------------------------------------------------------

def run_frequency(case, obs, d):
    for every in (1, 2, 3, 7, 100):
        calls = [0]

        def fn(raw, dt):
            calls[0] += 1
            return {'a': raw['a'] * 1.}, {}
        c = sympl.UpdateFrequencyWrapper(C.make('tend', {'a': {'dims': ['x'], 'units': 'm'}}, {'a': {'units': 'm s^-1'}}, {}, fn), every * DT)
        last = None
        for k in range(case['n']):
            if k % every == 0:
                last = k
            t, _ = c({'a': DataArray(np.array([k, 2. * k]), dims=['x'], attrs={'units': 'm'}), 'time': T0 + k * DT})
            obs.step()
            require(np.array_equal(t['a'].values, [last, 2. * last]) and calls[0] == k // every + 1, 'call {} updated every {}: {} after {} computations', k, every, t['a'].values, calls[0])
        obs.state(['frequency', every])
        obs.outcome(every)


def run_histories(case, obs, d):
    n = case['n']
    # constants: set and changed over and over
    for k in range(n):
        u, f = [('m', 1.), ('km', 1e-3), ('s', 1.)][k % 3]
        sympl.set_constant('con', float(k), u)
        require(float(sympl.get_constant('con', u)) == k, 'constant set {} times', k)
        if k % 3 == 1:
            require(abs(float(sympl.get_constant('con', 'm')) - 1e3 * k) < 1e-6, 'constant set {} times', k)
        sympl.set_condensible_name('c%d' % k)
        sympl.set_constant('density_of_liquid_phase', k + 2., 'kg m^-3')
        require(float(sympl.get_constant('density_of_liquid_c%d' % k, 'kg m^-3')) == k + 2., 'condensible {}', k)
        if k:
            require(float(sympl.get_constant('density_of_liquid_c%d' % (k - 1), 'kg m^-3')) == k + 1., 'condensible {} before', k)
        obs.step()
    sympl.reset_constants()
    # conversion between many units
    for k in range(n):
        st = DataArray(np.array([float(k)]), dims=['x'], attrs={'units': UNITS[k % 7][0]})
        v = st.to_units(UNITS[k % 7][1])
        require(abs(v.values[0] - k * UNITS[k % 7][2]) < 1e-9 and v.attrs['units'] == UNITS[k % 7][1] and st.attrs['units'] == UNITS[k % 7][0], 'conversion {}', k)
        obs.step()
    # restarts
    m = sympl.RestartMonitor(os.path.join(d, 'many.nc'))
    for k in range(n):
        m.store(state([k % 5, 5 + k % 3], k))
        got = m.load()
        require(set(got) == {'time', name(k % 5), name(5 + k % 3)} and np.array_equal(got[name(k % 5)].values, values(k % 5, k)) and got['time'] == T0 + k * DT, 'restart {}', k)
        obs.step()
    # components come and go while tracers are registered
    for k in range(n):
        kind, c = tracer_part(['tend', 'step'][k % 2], k % 3)
        if k % 10 == 0:
            sympl.register_tracer(name(k), UNITS[k % 7][1])
        names = [1000 + j for j in range(k % 3)] + list(range(0, k + 1, 10))
        st = {name(i): DataArray(np.arange(2.) + i, dims=['x'], attrs={'units': UNITS[i % 7][0]}) for i in names}
        main, diags = C.call(kind, c, dict(st, time=T0), DT)
        require(set(main) == set(st), 'component {}: {}', k, sorted(main))
        for j, i in enumerate(names):
            require(np.allclose(main[name(i)].values, st[name(i)].values * UNITS[i % 7][2] * 2 + j), 'component {}: tracer {} is {}', k, i, main[name(i)].values)
        obs.step()
        if k % 20 == 19:
            del c
            gc.collect()
        obs.state(['histories', k])
    # the same component called over and over with other dims, units and orders
    for kind in C.KINDS:
        c = scen.one(c37.Neutral(), kind)
        c2 = scen.one(c37.Neutral(), kind)
        first = None
        for k in range(n):
            E = c37.Form({'order': ['varies', 'reversed', 'varies2'][k % 3], 'layout': ['F', 'strided', 'part'][k % 3]})
            r = E.see(tuple(C.call(kind, c, E.state('abce', k % 4), DT)))
            E2 = c37.Neutral()
            if k < 4 or first is None:
                first = first or {}
                first[k % 4] = E2.see(tuple(C.call(kind, c2, E2.state('abce', k % 4), DT)))
            diff = scen.same(r, first[k % 4])
            require(diff is None, 'call {} of a component: {}', k, diff)
            obs.step()
    # plots
    import matplotlib.pyplot as plt
    seen = []
    p = sympl.PlotFunctionMonitor(lambda fig, st: seen.append((len(fig.axes), float(st[name(0)].values[0]))), interactive=False)
    for k in range(30):
        p.store(state([0], k))
        plt.close('all')
    require(seen == [(0, float(values(0, k)[0])) for k in range(30)], 'plots {}', seen)
    obs.outcome('histories')
