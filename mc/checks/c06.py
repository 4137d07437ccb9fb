"""C06: nothing but the documented leapfrog filter alters the caller's data."""
import copy
import itertools
import os
import shutil
import tempfile
from datetime import datetime, timedelta
import numpy as np
import sympl
from mc.core import require
from mc import lab as L, comp as C
from sympl._core.tracers import reset_packers

LEVEL = 'model_checking'
RULE = ('All sequences up to the bound of calls (object, target state) over a pool of components of every kind (returning '
        'their input arrays, views of them or one array twice), composites, wrappers, time steppers and monitors; after '
        'each call deep fingerprints of all states passed and all results returned so far are compared with those taken '
        'before, and results of stateless objects with their results on an equal state. Also components '
        'of every kind whose computation returns dictionaries which it keeps or shares, with and without tracers and reported tendencies.')
ASSUMPTIONS = [
    'Bounds: sequences of length 2 over the whole pool and 3 over a sub-pool (thorough: 3 over the whole pool).',
    'The components themselves do not write to the arrays they receive.',
    'The leapfrog stepper is given a deep copy of the state; only its stepped quantities may change in it.',
]
CASE_TIMEOUT = 300
T0 = datetime(2000, 1, 1)
DT = timedelta(seconds=10)
SCALED = {'a': 2.0, 'b': 3.0}


def pool():
    """name -> (factory, how, stateless)"""
    pin = {'a': {'dims': ['x', 'y'], 'units': 'm'}, 'b': {'dims': ['y'], 'units': 'K'}}
    wild = {'a': {'dims': ['*', 'y'], 'units': 'm'}, 'b': {'dims': ['*', 'y'], 'units': 'K'}}

    def tend(inp=pin, name='Tend', diag='d1'):
        return C.make('tend', inp, {'a': {'units': 'm s^-1'}, 'b': {'units': 'K s^-1'}},
                      {diag: {'dims': inp['a']['dims'], 'units': 'm'}},
                      lambda r, dt: ({'a': r['a'], 'b': r['b']}, {diag: r['a']}), name=name)

    def tendw():
        return C.make('tend', wild, {'a': {'units': 'm s^-1'}}, {}, lambda r, dt: ({'a': r['a']}, {}), name='TendW')

    def impl():
        return C.make('impl', pin, {'a': {'units': 'm s^-1'}}, {'d2': {'dims': ['y', 'x'], 'units': 'm'}},
                      lambda r, dt: ({'a': r['a']}, {'d2': r['a'].T}), name='Impl')

    def step():
        return C.make('step', pin, {'a': {'units': 'm'}, 'b': {'units': 'K'}}, {'d3': {'dims': ['y'], 'units': 'K'}},
                      lambda r, dt: ({'a': r['a'], 'b': r['b']}, {'d3': r['b'][:]}), name='Step')

    def diag():
        return C.make('diag', pin, {'d4': {'dims': ['x', 'y'], 'units': 'm'}, 'd5': {'dims': ['y'], 'units': 'K'}}, {},
                      lambda r, dt: ({'d4': r['a'], 'd5': r['b']}, {}), name='Diag')

    def diag2():
        return C.make('diag', wild, {'d6': {'dims': ['*', 'y'], 'units': 'm'}}, {},
                      lambda r, dt: ({'d6': r['a']}, {}), name='Diag2')
    const = sympl.DataArray(np.arange(6.).reshape(2, 3), dims=['x', 'y'], attrs={'units': 'km hour^-1'})

    def consts():
        return sympl.ConstantTendencyComponent({'a': const}, {'d7': sympl.DataArray([1., 2., 3.], dims=['y'], attrs={'units': 's'})})
    C2 = sympl.TendencyComponentComposite
    CI = sympl.ImplicitTendencyComponentComposite
    fac = {'a': 2.0}
    p = {
        'tend': (tend, 'plain', True), 'tendw': (lambda: tend(wild), 'plain', True),
        'impl': (impl, 'dt', True), 'step': (step, 'step', True), 'diag': (diag, 'diag', True), 'diagw': (diag2, 'diag', True),
        'tid': (lambda: C.make('step', pin, {'a': {'units': 'm', 'dims': ['x', 'y']}}, {}, lambda r, dt: ({'a': r['a']}, {}), name='Tid',
                               tendencies_in_diagnostics=True), 'step', True),
        'const': (consts, 'plain', True),
        'constd': (lambda: sympl.ConstantDiagnosticComponent({'d8': const.copy()}), 'diag', True),
        'comp': (lambda: C2(tend(), tend(pin, 'T2', 'd9'), consts()), 'plain', True),
        'compi': (lambda: CI(impl(), tend(wild), consts()), 'dt', True),
        'compd': (lambda: sympl.DiagnosticComponentComposite(diag(), diag2()), 'diag', True),
        'relax': (lambda: sympl.RelaxationTendencyComponent('a', 'm'), 'plain', True),
        'freq': (lambda: sympl.UpdateFrequencyWrapper(tend(), timedelta(seconds=15)), 'plain', False),
        'freqs': (lambda: sympl.UpdateFrequencyWrapper(step(), timedelta(seconds=15)), 'step', False),
        'scale': (lambda: sympl.ScalingWrapper(tend(), input_scale_factors=SCALED, tendency_scale_factors=SCALED,
                                               diagnostic_scale_factors={'d1': 5.0}), 'plain', True),
        'scalei': (lambda: sympl.ScalingWrapper(impl(), input_scale_factors=fac, tendency_scale_factors=fac, diagnostic_scale_factors={'d2': 5.0}), 'dt', True),
        'scales': (lambda: sympl.ScalingWrapper(step(), input_scale_factors=SCALED, output_scale_factors=SCALED, diagnostic_scale_factors={'d3': 5.0}), 'step', True),
        'scaled': (lambda: sympl.ScalingWrapper(diag(), input_scale_factors=SCALED, diagnostic_scale_factors={'d4': 5.0, 'd5': 7.0}), 'diag', True),
        'scalef': (lambda: sympl.ScalingWrapper(tend(), tendency_scale_factors={'b': 2.0}), 'plain', True),
        'diff': (lambda: sympl.TimeDifferencingWrapper(step()), 'dt', True),
        'AB1': (lambda: sympl.AdamsBashforth(tend(), consts(), order=1), 'tstep', True),
        'AB2': (lambda: sympl.AdamsBashforth(tend(), order=2, tendencies_in_diagnostics=True), 'tstep', False),
        'AB4': (lambda: sympl.AdamsBashforth(impl(), tendw(), order=4), 'tstep', False),
        'SSP2': (lambda: sympl.SSPRungeKutta(tend(), stages=2), 'tstep', True),
        'SSP3': (lambda: sympl.SSPRungeKutta(tend(), consts(), stages=3, tendencies_in_diagnostics=True), 'tstep', True),
        'LF': (lambda: sympl.Leapfrog(tend()), 'leap', False),
        'ABF': (lambda: sympl.AdamsBashforth(sympl.UpdateFrequencyWrapper(tend(), timedelta(seconds=15)), consts(), order=3), 'tstep', False),
        'compf': (lambda: C2(sympl.UpdateFrequencyWrapper(tend(), timedelta(seconds=15)), tend(pin, 'T2', 'd9'), consts()), 'plain', False),
        'compfi': (lambda: CI(sympl.UpdateFrequencyWrapper(impl(), timedelta(seconds=15)), tendw(),
                              sympl.UpdateFrequencyWrapper(tend(pin, 'T2', 'd9'), timedelta(seconds=25))), 'dt', False),
        'compfd': (lambda: sympl.DiagnosticComponentComposite(sympl.UpdateFrequencyWrapper(diag(), timedelta(seconds=15)), diag2()), 'diag', False),
        'SSPF': (lambda: sympl.SSPRungeKutta(sympl.UpdateFrequencyWrapper(tend(), timedelta(seconds=15)), consts(), stages=3), 'tstep', False),
        'difff': (lambda: sympl.TimeDifferencingWrapper(sympl.UpdateFrequencyWrapper(step(), timedelta(seconds=15))), 'dt', False),
        'scaleF': (lambda: sympl.ScalingWrapper(sympl.UpdateFrequencyWrapper(tend(), timedelta(seconds=15)), tendency_scale_factors=SCALED,
                                                diagnostic_scale_factors={'d1': 5.0}), 'plain', False),
        'nc': (lambda: sympl.NetCDFMonitor('nc.nc', store_names=['a', 'b'], aliases={'b': 'bee'}), 'store', False),
        'ncw': (lambda: sympl.NetCDFMonitor('ncw.nc', store_names=['a', 'b', 'e'], write_on_store=True), 'store', False),
        'rst': (lambda: sympl.RestartMonitor('rst.nc'), 'store', False),
        'plot': (lambda: sympl.PlotFunctionMonitor(vandal, interactive=True), 'store', False),
        'moncomp': (lambda: sympl.MonitorComposite(sympl.NetCDFMonitor('m1.nc', store_names=['a'], write_on_store=True), sympl.RestartMonitor('m2.nc')), 'store', False),
    }
    return p


def vandal(fig, state):
    """A plot function may do anything with the state it is given."""
    for n in list(state):
        if n != 'time':
            state[n].values[...] = 0
            state[n].attrs['units'] = 'changed'
    state['more'] = 1
    state.pop('a')


NAMES = list(pool())
SUB = ['tend', 'impl', 'step', 'diag', 'comp', 'freq', 'scale', 'scales', 'AB2', 'SSP3', 'LF', 'ncw', 'const']
VARIANTS = ['aligned', 'converted']


def cases(tier):
    for comp, tracers, tid, shared in itertools.product(C.KINDS, (False, True), (False, True), (False, True)):
        if comp != 'diag' or not (tracers or tid):
            yield {'kind': 'kept', 'comp': comp, 'tracers': tracers, 'tid': tid, 'shared': shared}
    ops = [(n, t) for n in NAMES for t in ('init', 'latest')]
    cheap = [n for n in NAMES if n not in ('plot',)]
    for var in VARIANTS:
        for n in NAMES:
            yield {'var': var, 'seqs': [[[n, 'init']], [[n, 'init'], [n, 'init']], [[n, 'init'], [n, 'latest'], [n, 'init']],
                                        [[n, 'init'], [n, 'latest'], [n, 'latest'], [n, 'latest'], [n, 'latest'], [n, 'init']]]}
        for a in cheap:
            yield {'var': var, 'seqs': [[[a, 'init'], [b, t]] for b in cheap for t in ('init', 'latest')]}
        for a, b in itertools.product(SUB if tier == 'quick' else cheap, repeat=2):
            if tier == 'quick':
                yield {'var': var, 'seqs': [[[a, 'init'], [b, 'latest'], [c, 'latest']] for c in SUB]}
            else:
                yield {'var': var, 'seqs': [[[a, 'init'], [b, t], [c, u]] for c in cheap for t in ('init', 'latest') for u in ('init', 'latest')]}


def initial(var):
    if var == 'aligned':
        a = np.arange(6.).reshape(2, 3) + 1
        st = {'a': C.da(['x', 'y'], a, 'm', title='t'), 'b': C.da(['y'], np.arange(3.) + 280, 'K'),
              'equilibrium_a': C.da(['x', 'y'], np.ones((2, 3)), 'm'), 'a_relaxation_timescale': C.da([], np.array(5.), 's')}
    else:
        a = np.asfortranarray(np.arange(6, dtype='float32').reshape(3, 2) + 1)
        st = {'a': C.da(['y', 'x'], a, 'km', title='t'), 'b': C.da(['y'], np.arange(3.)[::-1], 'degC'),
              'equilibrium_a': C.da(['y'], np.ones(3), 'cm'), 'a_relaxation_timescale': C.da(['x'], np.array([5., 6.]), 'hour')}
    st['e'] = C.da(['y'], np.array([1, 2, 3], dtype='int32'), '', nested='n')
    st['time'] = T0
    return st


def deep(state):
    return {k: (v.copy(deep=True) if hasattr(v, 'dims') else v) for k, v in state.items()}


def kept(comp, tracers, tid, shared, obs):
    """Components whose computation returns the very dictionaries it keeps, which may be those of another component."""
    pin = {'a': {'dims': ['x'], 'units': 'm'}}
    main = {'d0': {'dims': ['x'], 'units': 'm'}} if comp == 'diag' else {'a': {'units': 'm' if comp == 'step' else 'm s^-1'}}
    attrs = {'uses_tracers': True, 'tracer_dims': ['tracer', 'x'], 'prepend_tracers': [('t', 'kg')]} if tracers else {}
    kw = {'tendencies_in_diagnostics': True} if tid else {}
    diags = {} if shared else {'d1': {'dims': ['x'], 'units': 'm'}}
    raw = {n: np.arange(2.) + i for i, n in enumerate(main)}
    if tracers:
        raw['tracers'] = np.array([[7., 8.]])
    raw = {'main': raw, 'diags': {n: np.array([3., 4.]) for n in diags}}
    first = copy.deepcopy(raw)

    def fn(r, dt):
        return raw['main'], raw['diags']

    def build(name):
        if comp == 'diag':
            cls = C.make_class(comp, pin, main, diags, name=name)
            raw['all'] = dict(raw['main'], **raw['diags'])
            cls.array_call = lambda self, state: raw['all']
            return cls()
        return C.make(comp, pin, main, diags, fn, attrs=attrs, name=name, **kw)
    reset_packers()
    try:
        objs = [build('One')] + ([build('Two')] if shared else [])
        state = {'a': C.da(['x'], np.array([1., 2.]), 'm'), 't': C.da(['x'], np.array([5., 6.]), 'kg'), 'time': T0}
        fp = L.fingerprint(state)
        results = {}
        for k, i in enumerate((0, -1, 0, 0, -1)):
            where = 'in call {} of a {} component which keeps its dictionaries of results (tracers {}, tendencies in diagnostics {}, shared {})'.format(
                k + 1, comp, tracers, tid, shared)
            st, res = C.outcome(C.call, comp, objs[i], state)
            obs.step()
            require(st == 'ok', 'failed with {!r} {}', res, where)
            require(L.fingerprint(state) == fp, 'the state changed {}', where)
            require(L.fingerprint(list(res)) == results.setdefault(i % len(objs), L.fingerprint(list(res))), 'another result on an equal state {}', where)
            require({n: sorted(raw[n]) for n in first} == {n: sorted(first[n]) for n in first} and
                    all(np.array_equal(raw[n][q], first[n][q]) for n in first for q in first[n]), 'dictionaries of the component changed {}', where)
            obs.state([comp, tracers, tid, shared, k])
            obs.outcome([comp, sorted(res[0]), sorted(res[1])])
    finally:
        reset_packers()


def run(case, obs):
    if case.get('kind') == 'kept':
        return kept(case['comp'], case['tracers'], case['tid'], case['shared'], obs)
    here = os.getcwd()
    for seq in case['seqs']:
        work = tempfile.mkdtemp(dir=os.environ['MC_SCRATCH'])
        os.chdir(work)
        try:
            one(case['var'], seq, obs)
        finally:
            os.chdir(here)
            shutil.rmtree(work)
            if any(n == 'plot' for n, _ in seq):
                import matplotlib.pyplot as plt
                plt.close('all')


def one(var, seq, obs):
    p = pool()
    objs = {}
    init = initial(var)
    latest = init
    held = []          # (label, object, fingerprint)
    answers = {}       # (name, fingerprint of state) -> fingerprint of result

    def hold(label, o):
        held.append((label, o, L.fingerprint(o)))
    hold('the initial state', init)
    for k, (name, target) in enumerate(seq):
        fac, how, stateless = p[name]
        if name not in objs:
            objs[name] = fac()
        obj = objs[name]
        state = init if target == 'init' else latest
        sfp = L.fingerprint(state)
        if how == 'leap':
            state = deep(state)
            before = L.fingerprint({n: v for n, v in state.items() if n not in ('a', 'b')})
            keys = set(state)
        if how in ('plain', 'diag'):
            res = obj(state)
        elif how in ('dt', 'step', 'tstep', 'leap'):
            res = obj(state, DT)
        else:
            st, res = C.outcome(obj.store, state)
            if st == 'err':
                obs.count('refused_stores')
        obs.step()
        where = 'after call {} of {} ({})'.format(k + 1, seq, var)
        if how == 'leap':
            require(set(state) == keys, 'leapfrog changed the set of quantities of the state {}', where)
            require(L.fingerprint({n: v for n, v in state.items() if n not in ('a', 'b')}) == before,
                    'leapfrog altered quantities it does not step {}', where)
        for label, o, fp in held:
            d = L.diff_fingerprints(fp, L.fingerprint(o))
            require(d is None, '{} altered {}: {}', label, where, d)
        if how == 'store':
            obs.outcome([name, st])
            obs.state([var, seq[:k + 1]])
            continue
        rfp = L.fingerprint(list(res) if isinstance(res, tuple) else [res])
        if stateless:
            key = (name, sfp)
            if key in answers:
                require(answers[key] == rfp, '{} gave another result on an equal state {}', name, where)
            answers[key] = rfp
        obs.outcome([name, rfp[0]])
        obs.state([var, seq[:k + 1]])
        hold('the result of call {} ({})'.format(k + 1, name), list(res) if isinstance(res, tuple) else [res])
        new = dict(latest)
        if how == 'diag':
            new.update(res)
        elif how in ('plain', 'dt'):
            new.update(res[1])
            # a forward step made by the user from the tendencies as they are
            for q in res[0]:
                new['tend_' + q] = res[0][q]
        else:
            new.update(res[0])
            new.update(res[1])
        new['time'] = latest['time'] + DT
        latest = new
        if how == 'leap':
            latest = deep(latest)
        hold('the state made after call {}'.format(k + 1), latest)
