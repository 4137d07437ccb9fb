"""C30: a model run resumed from a restart file continues as the uninterrupted run does."""
import itertools
import os
import shutil
import tempfile
import warnings
from datetime import datetime, timedelta
import cftime
import netCDF4
import numpy as np
import sympl
from sympl import (AdamsBashforth, SSPRungeKutta, ScalingWrapper, TimeDifferencingWrapper, ConstantTendencyComponent, RelaxationTendencyComponent,
                   DiagnosticComponentComposite, TendencyComponentComposite, RestartMonitor, NetCDFMonitor, MonitorComposite, register_tracer)
from sympl._core.tracers import reset_tracers, reset_packers
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('Seven models (Euler and Runge-Kutta steppers over explicit, implicit, wrapped, constant, relaxing, tracer-using and time-differenced '
        'components, sequences of steppers, diagnostics fed to tendencies) x six initial states (types, units, dimension orders, kinds of time) '
        'are run for three (thorough: four) steps; for every subset of the points before and after each step the state is written there to a '
        'restart file, everything is discarded, and the run is resumed from what is loaded with new objects; every later state, '
        'the final one and the NetCDF output are compared exactly with those of the uninterrupted run.')
ASSUMPTIONS = ['Components and steppers with a memory of their own (Adams-Bashforth above first order, leapfrog, reduced update frequency) are not resumable from a '
               'state alone and are left out.']
warnings.filterwarnings('ignore')
DT = timedelta(seconds=600)


def parts():
    """New components, as a new process would make them."""
    inp = {'q': {'dims': ['y', 'x'], 'units': 'cm', 'alias': 'Q'}, 'p': {'dims': ['x'], 'units': 'degC'}}
    t = C.make('tend', inp, {'q': {'units': 'cm s^-1'}}, {'a': {'dims': ['y', 'x'], 'units': 'm'}},
               lambda raw, dt: ({'q': raw['Q'] * 1e-4 + np.sin(raw['p'])}, {'a': raw['Q'] * 3}), name='T')
    use = C.make('tend', {'e': {'dims': ['*'], 'units': 'K'}}, {'p': {'dims': ['*'], 'units': 'K day^-1'}}, {},
                 lambda raw, dt: ({'p': raw['e'] * 0.3}, {}), name='Use')
    i = C.make('impl', {'q': {'dims': ['x', 'y'], 'units': 'm'}, 'p': {'dims': ['x'], 'units': 'K'}}, {'p': {'units': 'K s^-1'}}, {'b': {'dims': ['x'], 'units': 'K'}},
               lambda raw, dt: ({'p': raw['q'].sum(axis=1) / dt.total_seconds()}, {'b': raw['p'] / 7}), name='I')
    d = C.make('diag', {'p': {'dims': ['*'], 'units': 'K'}}, None, {'e': {'dims': ['*'], 'units': 'K'}}, lambda raw, dt: ({}, {'e': np.sqrt(raw['p'])}), name='D')
    d2 = C.make('diag', {'q': {'dims': ['*', 'x'], 'units': 'm'}}, None, {'f': {'dims': ['*', 'x'], 'units': 'mm'}}, lambda raw, dt: ({}, {'f': raw['q'] / 3}), name='D2')
    s = C.make('step', inp, {'q': {'units': 'cm'}, 'p': {'units': 'K', 'dims': ['x']}}, {'c': {'dims': ['x'], 'units': 'degC'}},
               lambda raw, dt: ({'q': raw['Q'] / 1.1 + dt.total_seconds() / 7, 'p': raw['p'] * 0.9 + 273.15}, {'c': raw['p'] / 3}), name='S')
    return t, use, i, d, d2, s


def tracer_part():
    return C.make('tend', {'q': {'dims': ['x', 'y'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}}, {},
                  lambda raw, dt: ({'q': raw['q'] * 1e-5, 'tracers': raw['tracers'] * -1e-5 / 3}, {}), attrs={'uses_tracers': True, 'tracer_dims': ['x', 'tracer', 'y']}, name='Tr')


def models():
    t, use, i, d, d2, s = parts()
    k = ConstantTendencyComponent({'p': C.da(['x'], np.array([1., 2.]) / 3, 'K/hour')})
    r = RelaxationTendencyComponent('p', 'K')
    return {
        'euler': lambda: ([], [AdamsBashforth(t, i, order=1)]),
        'rk3': lambda: ([], [SSPRungeKutta(t, r, k)]),
        'seq': lambda: ([], [SSPRungeKutta(t, stages=2), s]),
        'diag': lambda: ([DiagnosticComponentComposite(d, d2)], [AdamsBashforth(ScalingWrapper(use, tendency_scale_factors={'p': .7}), t, order=1)]),
        'tracers': lambda: ([d], [SSPRungeKutta(tracer_part(), use, stages=2)]),
        'tdiff': lambda: ([d2], [AdamsBashforth(TimeDifferencingWrapper(s), k, order=1, tendencies_in_diagnostics=True, name='total')]),
        'split': lambda: ([d], [AdamsBashforth(TendencyComponentComposite(t, use), order=1), SSPRungeKutta(i), s]),
    }


MODELS = ['diag', 'euler', 'rk3', 'seq', 'split', 'tdiff', 'tracers']
INITS = 6


def init(n, model):
    times = [datetime(2000, 2, 28, 23, 30), cftime.DatetimeNoLeap(2000, 2, 28, 23, 45), timedelta(days=3, microseconds=7), datetime(1999, 12, 31, 23, 59, 59, 999999),
             cftime.Datetime360Day(2000, 2, 30, 12), timedelta(0)]
    q = np.array([[1., 2., -3.], [4., -5., 6.5]]) / 3
    p = np.array([280., 290.1])
    uq, up = [('m', 'K'), ('km', 'degC'), ('cm', 'mK'), ('m', 'degF'), ('mm', 'K'), ('m', 'degC')][n]
    dims = ['x', 'y'] if n % 2 == 0 else ['y', 'x']
    dt = 'f8'
    if model in ('seq', 'split'):
        # a stepper gives its outputs the units and dimension order it declares, which an output file has to keep
        uq, up = 'cm', 'K'
    qq = L.convert(q, 'm', uq)
    st = {'q': C.da(dims, (qq if n % 2 == 0 else qq.T).astype(dt).copy(), uq), 'p': C.da(['x'], L.convert(p, 'K', up).astype(dt), up),
          'equilibrium_p': C.da([], np.array(250.5), 'K'), 'p_relaxation_timescale': C.da(['x'], np.array([3600., 7.]), 's'),
          'k': C.da(['z'], np.arange(3, dtype=['i4', 'f4', 'i8', 'u2', 'f8', 'i1'][n]), ''), 'tr': C.da(dims, np.arange(6.).reshape(2, 3).T.copy() if n % 2 else np.arange(6.).reshape(2, 3), 'g/kg'),
          'time': times[n]}
    if model in ('seq', 'split'):
        st['q'] = C.da(['y', 'x'], st['q'].transpose('y', 'x').values.copy(), uq)
    return st


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for m in MODELS:
        for i in range(INITS):
            for part in range(1 if tier == 'quick' else 4):
                yield {'model': m, 'init': i, 'steps': n, 'part': part, 'parts': 1 if tier == 'quick' else 4}


def restart(state, path):
    """Write the state, forget everything, and start from the file."""
    RestartMonitor(path).store(state)
    state.clear()
    return RestartMonitor(path).load()


def play(case, stops, d):
    """The states seen at the points of a run which is interrupted at the given points."""
    path, out = os.path.join(d, 'r.nc'), os.path.join(d, 'out.nc')
    for f in (path, out):
        if os.path.exists(f):
            os.unlink(f)
    state = init(case['init'], case['model'])
    seen = []
    diags, steppers = models()[case['model']]()
    mon = NetCDFMonitor(out, time_units='microseconds', write_on_store=True)
    for k in range(case['steps']):
        for half in (0, 1):
            seen.append(L.fingerprint(state))
            if 2 * k + half in stops:
                state = restart(state, path)
                diags, steppers = models()[case['model']]()
                mon = NetCDFMonitor(out, time_units='microseconds', write_on_store=True)
            if half == 0:
                for c in diags:
                    state.update(c(state))
                todo = None
            else:
                for s in steppers:
                    dg, new = s(state, DT)
                    state.update(dg)
                    if s is steppers[-1]:
                        mon.store(state)
                    state.update(new)
                state['time'] = state['time'] + DT
    seen.append(L.fingerprint(state))
    with netCDF4.Dataset(out) as ds:
        rec = {n: (v.dimensions, str(v.dtype), np.ma.getdata(v[:]).tolist(), v.getncattr('units')) for n, v in ds.variables.items()}
    return seen, rec


def strip(f):
    """Restarting keeps values, dims, type and units; a time loaded may be an equal object of another type."""
    out = []
    for k, v in f[1]:
        if v[0] == 'da':
            out.append((k, v[1:5], tuple(a for a in v[5] if a[0] == 'units')))
        else:
            t = v[2]
            for a, b in (('real_datetime', 'datetime.datetime'), ('DatetimeGregorian', 'datetime.datetime')):
                t = t.replace(a, b)
            out.append((k, t))
    return out


def run(case, obs):
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
    reset_tracers()
    reset_packers()
    try:
        if case['model'] == 'tracers':
            register_tracer('tr', 'kg/kg')
        want, rec = play(case, (), d)
        obs.step(case['steps'])
        points = 2 * case['steps']
        subsets = [c for r in range(1, points + 1) for c in itertools.combinations(range(points), r)]
        for stops in subsets[case['part']::case['parts']]:
            got, rec2 = play(case, stops, d)
            obs.step(case['steps'] + len(stops))
            obs.state([case['model'], case['init'], stops])
            for k, (g, w) in enumerate(zip(got, want)):
                if strip(g) != strip(w):
                    for a, b in zip(strip(g), strip(w)):
                        require(a == b, 'model {} from state {} restarted at {}: at point {} the resumed run has {}, the uninterrupted one {} ({})', case['model'], case['init'],
                                stops, k, a, b, L.diff_fingerprints(w, g))
                    require(False, 'model {} from state {} restarted at {}: at point {} the resumed run has {}', case['model'], case['init'], stops, k, [x[0] for x in strip(g)])
            require(set(rec) == set(rec2), 'output of {}: {} instead of {}', case, sorted(rec2), sorted(rec))
            for n in rec:
                require(rec[n] == rec2[n], 'model {} restarted at {}: output of {} is {}, uninterrupted {}', case['model'], stops, n, rec2[n], rec[n])
            obs.outcome([len(stops), repr(want[-1])[:200]])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        reset_tracers()
        reset_packers()
