"""C14: ScalingWrapper against scaling by hand."""
import itertools
from datetime import datetime, timedelta
import numpy as np
import sympl
from sympl import ScalingWrapper, UpdateFrequencyWrapper
from sympl._core import tracers as TR
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('Every component kind x every subset of inputs, main results and diagnostics that are scaled x factors of different '
        'sign, size and type x what the computation returns (new arrays, the same internal array each time, its own input '
        'array) x state dtypes and units, over repeated calls, nested wrappers, tracers and wrappers around cached results; '
        'results compared with the unwrapped computation evaluated by the model on hand-scaled inputs. All misplaced factors.')
SCENARIOS = ['wrappers']
ASSUMPTIONS = ['Bounds: 2 inputs, 2 main results, 1 diagnostic, 3 calls.',
               'An input is scaled in the units it has in the state.']
T0 = datetime(2000, 1, 1)
DT = timedelta(seconds=30)
FACTORS = [2., -0.5, 0., 1., 3, np.float32(1.5)]
MODES = ('fresh', 'const', 'alias')
A, B = np.array([[1., -2., 3.], [4., 5., -6.]]), np.array([10., 20.])
CONST = np.array([[1., 2., 3.], [4., 5., 6.]])


def subsets(names):
    return [list(c) for k in range(len(names) + 1) for c in itertools.combinations(names, k)]


def cases(tier):
    for kind in C.KINDS:
        mains = ['a', 'm'] if kind != 'diag' else ['m']
        for mode in MODES:
            for i in subsets(['a', 'b']):
                for m in subsets(mains):
                    for d in subsets(['d']):
                        yield {'kind': kind, 'mode': mode, 'inputs': i, 'main': m, 'diags': d}
        for f in ('refuse', 'nested', 'tracers', 'timestep'):
            yield {'kind': kind, 'test': f}
    yield {'kind': None, 'test': 'objects'}


def build(kind, mode, units=('cm', 'degC')):
    inp = {'a': {'dims': ['x', 'y'], 'units': units[0]}, 'b': {'dims': ['x'], 'units': units[1], 'alias': 'bee'}}
    s = ' s^-1' if kind in ('tend', 'impl') else ''
    main = {'m': {'dims': ['x', 'y'], 'units': 'K' + s, 'alias': 'em'}}
    if kind != 'diag':
        main['a'] = {'units': units[0] + s}
    diags = {'d': {'dims': ['x'], 'units': 'W m^-2', 'alias': 'dee'}}
    if kind == 'diag':
        main_, diags_ = None, dict(main, **diags)
    else:
        main_, diags_ = main, diags
    const = {'m': CONST.copy(), 'a': CONST.copy(), 'd': np.array([7., 8.])}

    def fn(raw, t):
        a, b = raw['a'], raw['bee']
        if mode == 'fresh':
            r = {'m': a * b[:, None] + 1, 'a': a ** 2}
            d = {'d': b - 3}
        elif mode == 'const':
            r = {'m': const['m'], 'a': const['a']}
            d = {'d': const['d']}
        else:
            r = {'m': a, 'a': a}
            d = {'d': b}
        if kind == 'diag':
            r.pop('a')
        return r, d
    return C.make(kind, inp, main_, diags_, fn)


def model(mode, a, b):
    if mode == 'fresh':
        return {'m': a * b[:, None] + 1, 'a': a ** 2}, {'d': b - 3}
    if mode == 'const':
        return {'m': CONST, 'a': CONST}, {'d': np.array([7., 8.])}
    return {'m': a, 'a': a}, {'d': b}


def state(var):
    if var == 0:
        return {'a': C.da(['x', 'y'], A.copy(), 'cm', note=1), 'b': C.da(['x'], B.copy(), 'degC'), 'time': T0, 'idle': C.da(['x'], np.array([1, 2]), 'm')}
    if var == 1:  # other units, order and dtype
        return {'a': C.da(['y', 'x'], A.T.astype(int), 'm'), 'b': C.da(['x'], B.astype('f4'), 'K'), 'time': T0, 'idle': 'x'}
    return {'a': C.da(['y'], A[0].copy(), 'mm'), 'b': C.da([], np.array(4.), 'degF'), 'time': timedelta(1), 'idle': None}


def raw_inputs(st, fi):
    """What the computation is promised to see."""
    out = []
    for n, u, dims in (('a', 'cm', ['x', 'y']), ('b', 'degC', ['x'])):
        lab = L.Lab(st[n].dims, np.asarray(st[n].values, dtype=float) * float(fi.get(n, 1.)), st[n].attrs['units'])
        out.append(lab.to(u).order(dims, {'x': 1 if st['b'].ndim == 0 else 2, 'y': 3}))
    return out


def compare(got, want, factors, units, where):
    require(set(got) == set(want), 'results {} instead of {} {}', sorted(got), sorted(want), where)
    for n, w in want.items():
        w = w * float(factors.get(n, 1.))
        require(got[n].attrs.get('units') == units[n], '{} has units {!r} instead of {!r} {}', n, got[n].attrs.get('units'), units[n], where)
        require(set(got[n].dims) == (set('xy') if w.ndim == 2 else set('x')), '{} has dims {} {}', n, got[n].dims, where)
        g = L.lab_of(got[n]).order(['x', 'y'] if w.ndim == 2 else ['x'])
        require(np.allclose(g, w, rtol=1e-6, atol=1e-9), '{} is {} instead of {} {}', n, g.tolist(), w.tolist(), where)


def units_of(kind):
    s = ' s^-1' if kind in ('tend', 'impl') else ''
    return {'m': 'K' + s, 'a': 'cm' + s, 'd': 'W m^-2'}


def kwargs(kind, fi, fm, fd):
    kw = {}
    if fi:
        kw['input_scale_factors'] = fi
    if kind == 'diag':
        fd = dict(fd, **fm)
    elif fm:
        kw['output_scale_factors' if kind == 'step' else 'tendency_scale_factors'] = fm
    if fd:
        kw['diagnostic_scale_factors'] = fd
    return kw


def run(case, obs):
    kind = case['kind']
    if 'test' in case:
        return globals()['run_' + case['test']](kind, obs)
    for k, f in enumerate(FACTORS):
        fi = {n: FACTORS[(k + j) % len(FACTORS)] for j, n in enumerate(case['inputs'])}
        fm = {n: FACTORS[(k + 2 + j) % len(FACTORS)] for j, n in enumerate(case['main'])}
        fd = {n: FACTORS[(k + 4 + j) % len(FACTORS)] for j, n in enumerate(case['diags'])}
        base = build(kind, case['mode'])
        w = ScalingWrapper(base, **kwargs(kind, fi, fm, fd))
        kept = []
        for call, var in enumerate((0, 1, 0, 2)):
            if case['mode'] == 'const' and var == 2:
                continue
            st = state(var)
            before = L.fingerprint(st)
            where = '({} {} call {} scaled inputs {} main {} diagnostics {})'.format(kind, case['mode'], call + 1, fi, fm, fd)
            m, d = C.call(kind, w, st, DT)
            obs.step()
            obs.state([case, k, call])
            require(L.fingerprint(st) == before, 'state altered {}', where)
            a, b = raw_inputs(st, fi)
            seen = C.calls(base)
            require(len(seen) == call + 1, 'computation ran {} times {}', len(seen), where)
            # the wrapped computation may write into what it is given; compare what it saw
            require(np.allclose(seen[-1]['a'], a, rtol=1e-6) and np.allclose(seen[-1]['bee'], b, rtol=1e-6),
                    'computation saw a={} b={} instead of {} {} {}', seen[-1]['a'].tolist(), seen[-1]['bee'].tolist(), a.tolist(), b.tolist(), where)
            wm, wd = model(case['mode'], a, b)
            if kind == 'diag':
                wm.pop('a')
                compare(d, dict(wm, **wd), dict(fm, **fd), units_of(kind), where)
            else:
                compare(m, wm, fm, units_of(kind), where)
                compare(d, wd, fd, units_of(kind), where)
            for old, fp in kept:
                require(L.fingerprint(old) == fp, 'results of an earlier call changed {}', where)
            if case['mode'] == 'fresh':
                kept.append(((m, d), L.fingerprint((m, d))))
            obs.outcome([round(float(np.sum(np.asarray(x.values, dtype=float))), 4) for x in m.values()])


def run_nested(kind, obs):
    """Wrapping twice multiplies twice; wrapping cached results never accumulates."""
    for f1, f2 in itertools.product([2., -0.5, 3], repeat=2):
        base = build(kind, 'fresh')
        kw1 = kwargs(kind, {'a': f1}, {'m': f2}, {'d': f1})
        kw2 = kwargs(kind, {'a': f2, 'b': f1}, {'m': f1}, {})
        w = ScalingWrapper(ScalingWrapper(base, **kw1), **kw2)
        for call in range(2):
            st = state(0)
            m, d = C.call(kind, w, st, DT)
            obs.step()
            obs.state(['nested', kind, f1, f2, call])
            a, b = raw_inputs(st, {'a': f1 * f2, 'b': f1})
            wm, wd = model('fresh', a, b)
            where = '(nested {} {} {})'.format(kind, f1, f2)
            if kind == 'diag':
                wm.pop('a')
                compare(d, dict(wm, **wd), {'m': f1 * f2, 'd': f1}, units_of(kind), where)
            else:
                compare(m, wm, {'m': f1 * f2}, units_of(kind), where)
                compare(d, wd, {'d': f1}, units_of(kind), where)
        for on1, on2 in itertools.product(itertools.product((0, 1), repeat=3), repeat=2):
            base = build(kind, 'fresh')
            (i1, m1, d1), (i2, m2, d2) = [[{n: f} if o else {} for n, o in zip('amd', on)] for on, f in ((on1, f1), (on2, f2))]
            inner = ScalingWrapper(base, **kwargs(kind, i1, m1, d1))
            w = ScalingWrapper(inner, **kwargs(kind, i2, m2, d2))
            for call, o in enumerate((w, inner, base, w)):
                fs = [(f1 if on1[k] and o is not base else 1.) * (f2 if on2[k] and o is w else 1.) for k in range(3)]
                m, d = C.call(kind, o, state(0), DT)
                obs.step()
                obs.state(['nested', kind, f1, f2, on1, on2, call])
                wm, wd = model('fresh', *raw_inputs(state(0), {'a': fs[0]}))
                where = '(nested {} scaling {} by {}, then {} by {}, call {} of outer, inner, component, outer)'.format(kind, on1, f1, on2, f2, call)
                if kind == 'diag':
                    wm.pop('a')
                    compare(d, dict(wm, **wd), {'m': fs[1], 'd': fs[2]}, units_of(kind), where)
                else:
                    compare(m, wm, {'m': fs[1]}, units_of(kind), where)
                    compare(d, wd, {'d': fs[2]}, units_of(kind), where)
        cached = ScalingWrapper(UpdateFrequencyWrapper(build(kind, 'fresh'), timedelta(hours=1)), **kw1)
        for call in range(3):
            st = state(0)
            m, d = C.call(kind, cached, st, DT)
            obs.step()
            a, b = raw_inputs(st, {'a': f1})
            wm, wd = model('fresh', a, b)
            where = '(scaling cached results, call {}, {} {} {})'.format(call + 1, kind, f1, f2)
            if kind == 'diag':
                wm.pop('a')
                compare(d, dict(wm, **wd), {'m': f2, 'd': f1}, units_of(kind), where)
            else:
                compare(m, wm, {'m': f2}, units_of(kind), where)
                compare(d, wd, {'d': f1}, units_of(kind), where)


def run_timestep(kind, obs):
    for dt in (DT, timedelta(microseconds=1), timedelta(days=40), timedelta(0), timedelta(seconds=-5)):
        base = build(kind, 'fresh')
        w = ScalingWrapper(base, input_scale_factors={'a': 2.})
        st1, v1 = C.outcome(w, state(0), dt)
        require(st1 == 'ok', '{} called with timestep {}: {!r}', kind, dt, v1)
        st2, v2 = C.outcome(w, state(0))
        obs.step(2)
        obs.state(['timestep', kind, str(dt)])
        if kind in ('impl', 'step'):
            require(base.dts == [dt], 'timestep {} instead of {}', base.dts, dt)
            require(st2 == 'err' and isinstance(v2, TypeError), 'called without timestep: {!r}', v2)
            require(len(C.calls(base)) == 1, 'computed without timestep')
        else:
            require(len(C.calls(base)) == 2 and st2 == 'ok', 'a timestep must be discarded, none is needed: {!r}', v2)
    require(isinstance(w, C.BASES[kind]), 'scaled {} is no {}', kind, kind)
    for a in ('input_properties', 'diagnostic_properties') + ((C.MAIN[kind],) if kind != 'diag' else ()):
        require(getattr(w, a) == getattr(base, a), '{} differs through the wrapper', a)


def run_refuse(kind, obs):
    keys = {'input_scale_factors': {'a', 'b'}, 'output_scale_factors': {'a', 'm'} if kind == 'step' else None,
            'tendency_scale_factors': {'a', 'm'} if kind in ('tend', 'impl') else None,
            'diagnostic_scale_factors': {'d'} if kind != 'diag' else {'d', 'm'}}
    for key, ok in keys.items():
        for names in subsets(['a', 'b', 'm', 'd', 'bee', 'em', 'dee', 'nonsense']):
            st, val = C.outcome(lambda: ScalingWrapper(build(kind, 'fresh'), **{key: {n: 2. for n in names}}))
            obs.step()
            obs.state(['refuse', kind, key, names])
            if ok is None:
                if names:
                    require(st == 'err', '{} accepted {} for {}', kind, key, names)
            elif set(names) <= ok:
                require(st == 'ok', '{} refused {} for {}: {!r}', kind, key, names, val)
            else:
                require(st == 'err' and isinstance(val, ValueError), '{} with {} for {}: {!r}', kind, key, names, val)
            obs.outcome([st, key])


def run_objects(kind, obs):
    class Mon(sympl.Monitor):
        def store(self, state):
            pass
    for o in (None, 1, 'x', {}, [], object(), Mon(), lambda s: s, np.zeros(2), C.da(['x'], [1.], 'm')):
        st, val = C.outcome(lambda: ScalingWrapper(o))
        obs.step()
        obs.state(['objects', repr(o)[:30]])
        require(st == 'err' and isinstance(val, TypeError), 'ScalingWrapper of {!r}: {!r}', o, val)


def run_tracers(kind, obs):
    """Tracers pass through with other quantities scaled."""
    if kind == 'diag':
        return
    s = ' s^-1' if kind in ('tend', 'impl') else ''
    for scaled in subsets(['i', 'o', 'd']):
        TR.reset_tracers()
        TR.reset_packers()
        sympl.register_tracer('t1', 'g/kg')
        sympl.register_tracer('t2', '')
        try:
            def fn(raw, t):
                return {'m': raw['a'] * 2, 'tracers': np.array(raw['tracers']) * 3}, {'d': raw['a'] + 1}
            comp = C.make(kind, {'a': {'dims': ['x'], 'units': 'm'}}, {'m': {'dims': ['x'], 'units': 'K' + s}}, {'d': {'dims': ['x'], 'units': 'm'}}, fn,
                          {'uses_tracers': True, 'tracer_dims': ['tracer', 'x']})
            kw = kwargs(kind, {'a': 2.} if 'i' in scaled else {}, {'m': 5.} if 'o' in scaled else {}, {'d': 7.} if 'd' in scaled else {})
            w = ScalingWrapper(comp, **kw)
            for call in range(2):
                st = {'a': C.da(['x'], np.array([1., 2.]), 'm'), 't1': C.da(['x'], np.array([3., 4.]), 'kg/kg'), 't2': C.da(['x'], np.array([50., 60.]), '%'), 'time': T0}
                m, d = C.call(kind, w, st, DT)
                obs.step()
                obs.state(['tracers', kind, scaled, call])
                a = np.array([1., 2.]) * (2. if 'i' in scaled else 1.)
                want = {'m': a * 2 * (5. if 'o' in scaled else 1.), 't1': np.array([9000., 12000.]), 't2': np.array([1.5, 1.8])}
                require(set(m) == set(want), 'results {}', sorted(m))
                for n in want:
                    require(L.close(m[n].values, want[n]), '{} is {} instead of {} (scaled {}, call {})', n, m[n].values.tolist(), want[n].tolist(), scaled, call + 1)
                require(L.close(d['d'].values, (a + 1) * (7. if 'd' in scaled else 1.)), 'd is {}', d['d'].values)
        finally:
            TR.reset_tracers()
            TR.reset_packers()
