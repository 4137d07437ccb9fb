"""C25: an installed backend is used for everything that is extracted or created."""
import itertools
import numpy as np
import sympl
from sympl import (DataArray, DataArrayBackend, StateBackend, get_backend, set_backend, register_tracer,
                   TendencyComponentComposite, ImplicitTendencyComponentComposite, DiagnosticComponentComposite, ScalingWrapper, UpdateFrequencyWrapper,
                   TimeDifferencingWrapper, AdamsBashforth, Leapfrog, SSPRungeKutta, RelaxationTendencyComponent, ConstantTendencyComponent,
                   ConstantDiagnosticComponent, timedelta)
from sympl._core.tracers import reset_tracers, reset_packers
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('Two backends, one with a foreign container that has none of the attributes of the default one but arithmetic, attrs, copy and '
        'to_units, and returns its own array type, and one with a subclass of the default container; both record every call. All '
        'component kinds x declarations (dims orders, wildcard at every place, aliases, 0-d, inherited dims, tendencies in '
        'diagnostics) x state dimension orders, tracers, built-ins, composites, wrappers nested to depth two, and all time steppers '
        'over histories of steps: every input array comes from the backend as declared, every result is a container which the '
        'backend created with the declared name, units and dims, of the type of the backend, and equals the result under the '
        'default backend. All histories of installing the backends, refused objects and the default, and calls, up to depth four '
        '(thorough: five).')
ASSUMPTIONS = ['Containers offer arithmetic, attrs, copy() and to_units(), which time steppers and composites use on them.',
               'Quantities given to constant components are of the default container.', 'Monitors are not driven with foreign containers.']


class Raw(np.ndarray):
    """The array type of the foreign backend."""


class Box(object):
    """A foreign container: axes names, payload, attrs."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, payload, axes=(), attrs=None):
        self._lab = L.Lab(axes, payload)
        self.attrs = dict(attrs or {})

    def copy(self):
        return Box(self._lab.data.copy(), self._lab.dims, self.attrs)

    def to_units(self, units):
        if not L.compatible(self.attrs['units'], units):
            raise ValueError('inconvertible')
        return Box(L.convert(self._lab.data, self.attrs['units'], units), self._lab.dims, dict(self.attrs, units=units))

    def _op(self, other, fn, keep, swap=False):
        if isinstance(other, Box):
            dims = list(self._lab.dims) + [d for d in other._lab.dims if d not in self._lab.dims]
            lens = L.lengths_of({1: other._lab, 2: self._lab})
            a, b = self._lab.order(dims, lens), other._lab.order(dims, lens)
        elif np.ndim(other) == 0 and not hasattr(other, 'dims'):
            dims, a, b = self._lab.dims, self._lab.data, other
        else:
            return NotImplemented
        return Box(fn(b, a) if swap else fn(a, b), dims, self.attrs if keep else {})

    def __add__(self, o): return self._op(o, np.add, True)
    def __sub__(self, o): return self._op(o, np.subtract, True)
    def __mul__(self, o): return self._op(o, np.multiply, False)
    def __truediv__(self, o): return self._op(o, np.true_divide, False)
    def __radd__(self, o): return self._op(o, np.add, True, True)
    def __rsub__(self, o): return self._op(o, np.subtract, True, True)
    def __rmul__(self, o): return self._op(o, np.multiply, False, True)
    def __rtruediv__(self, o): return self._op(o, np.true_divide, False, True)
    def __neg__(self): return self * -1.


class Log(object):
    def __init__(self):
        self.clear()

    def clear(self):
        self.got, self.created, self.dims, self.shapes = [], [], [], []


class BoxBackend(StateBackend):
    def __init__(self):
        self.log = Log()

    def get_array(self, state_value, name, target_units, target_dims, dim_lengths):
        self.log.got.append((name, target_units, tuple(target_dims), state_value))
        lab = L.Lab(state_value._lab.dims, state_value._lab.data, state_value.attrs['units'])
        return np.array(lab.to(target_units).order(target_dims, dim_lengths)).view(Raw)

    def create_quantity(self, data, name, units, dims, reference_state=None):
        box = Box(np.asarray(data), tuple(dims), {'units': units})
        self.log.created.append((name, units, tuple(dims), box))
        return box

    def get_dims(self, state_value):
        self.log.dims.append(state_value)
        return tuple(state_value._lab.dims)

    def get_shape(self, state_value):
        self.log.shapes.append(state_value)
        return tuple(state_value._lab.data.shape)

    def get_container_type(self):
        return Box

    container = Box

    @staticmethod
    def make(lab):
        return Box(lab.data.copy(), lab.dims, {'units': lab.units})

    @staticmethod
    def lab(v):
        return L.Lab(v._lab.dims, v._lab.data, v.attrs.get('units'))


class MyArray(DataArray):
    __slots__ = ()


class SubBackend(DataArrayBackend):
    def __init__(self):
        self.log = Log()

    def get_array(self, state_value, name, target_units, target_dims, dim_lengths):
        self.log.got.append((name, target_units, tuple(target_dims), state_value))
        return np.array(DataArrayBackend.get_array(self, state_value, name, target_units, target_dims, dim_lengths)).view(Raw)

    def create_quantity(self, data, name, units, dims, reference_state=None):
        v = MyArray(np.asarray(data), dims=tuple(dims), attrs={'units': units})
        self.log.created.append((name, units, tuple(dims), v))
        return v

    def get_dims(self, state_value):
        self.log.dims.append(state_value)
        return tuple(state_value.dims)

    def get_shape(self, state_value):
        self.log.shapes.append(state_value)
        return tuple(state_value.shape)

    def get_container_type(self):
        return MyArray

    container = MyArray

    @staticmethod
    def make(lab):
        return MyArray(lab.data.copy(), dims=lab.dims, attrs={'units': lab.units})

    @staticmethod
    def lab(v):
        return L.lab_of(v)


class Default(object):
    container = DataArray
    log = None
    make = staticmethod(lambda lab: C.da(lab.dims, lab.data.copy(), lab.units))
    lab = staticmethod(L.lab_of)


BACKENDS = {'box': BoxBackend, 'sub': SubBackend}
T0 = sympl.datetime(2000, 1, 1)
SH = {'x': 2, 'y': 3, 'z': 4}


# declarations: inputs, dims of the output ('inherit': those of the input)
def decls():
    out = []
    for spec in L.specs(['x', 'y']):
        out.append((spec, 'inherit'))
    for spec in (['x', '*'], ['*'], ['y', '*', 'x'], ['x', 'y'], []):
        for o in (['*', 'x'], ['x', '*'], ['x'], ['y', 'x'], []):
            if set(o) <= set(spec) and o != spec:
                out.append((spec, o))
    return out


def cases(tier):
    deep = tier != 'quick'
    for b in BACKENDS:
        for i in range(len(decls())):
            for kind in C.KINDS:
                yield {'kind': 'plain', 'backend': b, 'decl': i, 'comp': kind}
        for kind in ('tend', 'impl', 'step'):
            for t in range(6):
                yield {'kind': 'tracers', 'backend': b, 'comp': kind, 'tdims': t}
        for n in SCENES:
            yield {'kind': 'scene', 'backend': b, 'scene': n}
        for n in STEPPERS:
            for c in range(6):
                for tid in (0, 1):
                    yield {'kind': 'stepper', 'backend': b, 'stepper': n, 'comps': c, 'tid': tid, 'steps': 8 if deep else 5}
    for h in itertools.product(OPS, repeat=2):
        yield {'kind': 'history', 'prefix': list(h), 'depth': 5 if deep else 4}
    yield {'kind': 'refused'}


def run(case, obs):
    default = get_backend()
    require(type(default) is DataArrayBackend, 'the backend at the start is {}', default)
    reset_tracers()
    reset_packers()
    try:
        globals()['run_' + case['kind']](case, obs)
    finally:
        set_backend(default)
        reset_tracers()
        reset_packers()


def state_of(b, labs):
    s = {n: b.make(lab) for n, lab in labs.items()}
    s['time'] = T0
    return s


def under(backend, fn):
    """fn() with the backend installed (None: the default one)."""
    old = get_backend()
    if backend is not None:
        set_backend(backend)
        require(get_backend() is backend, 'get_backend() is not what was installed')
    try:
        return fn()
    finally:
        set_backend(old)


def compare(b, got, want, what, log=None, decl=None, obs=None):
    """Results (a dict) under backend b against those under the default one."""
    require(set(got) == set(want), '{}: {} instead of {}', what, sorted(got), sorted(want))
    for n, w in want.items():
        v = got[n]
        if n == 'time':
            require(v == w, '{}: time {}', what, v)
            continue
        require(type(v) is b.container, '{}: {} is a {}, not a {}', what, n, type(v), b.container)
        vl, wl = b.lab(v), L.lab_of(w)
        require(set(vl.dims) == set(wl.dims), '{}: {} has dims {} instead of {}', what, n, vl.dims, wl.dims)
        require(vl.units == wl.units or L.same_unit(vl.units, wl.units), '{}: {} has units {!r} instead of {!r}', what, n, vl.units, wl.units)
        require(L.close(vl.order(wl.dims), wl.data), '{}: {} is {} instead of {}', what, n, vl.data.ravel()[:4], wl.data.ravel()[:4])
        if decl is not None:
            made = [c for c in log.created if c[3] is v]
            require(len(made) == 1, '{}: {} was not created by the backend', what, n)
            name, units, dims, _ = made[0]
            # a reported tendency may be the tendency itself
            require((name == n or n.startswith(name + '_tendency_from_')) and L.same_unit(units, decl[n]['units']) and vl.dims == tuple(dims) == wl.dims, '{}: {} was created as {} {} {}', what, n, name, units, dims)
    if obs is not None:
        obs.step()
        obs.outcome([what.split(':')[0], sorted(want)])


def check_extracted(b, log, inputs, state, what):
    for n, p in inputs.items():
        hits = [g for g in log.got if g[0] == n and g[3] is state[n]]
        require(hits, '{}: the input {} was not extracted by the backend', what, n)
        for g in hits:
            named = [d for d in p['dims'] if d != '*']
            require(g[1] == p['units'] and [d for d in g[2] if d in named] == named and ('*' in p['dims'] or list(g[2]) == named),
                    '{}: {} was extracted as {} {}', what, n, g[1], g[2])
        require(any(v is state[n] for v in log.dims), '{}: the dims of {} were not asked of the backend', what, n)
        require(any(v is state[n] for v in log.shapes), '{}: the shape of {} was not asked of the backend', what, n)
    for g in log.got:
        require(g[0] in inputs, '{}: {} was extracted', what, g[0])


def run_plain(case, obs):
    spec, ospec = decls()[case['decl']]
    kind = case['comp']
    unit = ' s^-1' if kind in ('tend', 'impl') else ''
    pool = ['x', 'y', 'z'] if '*' in spec else [d for d in spec]
    for alias in (None, 'A'):
        for tid in ((False, True) if kind != 'diag' else (False,)):
            inputs = {'a': {'dims': spec, 'units': 'K'}, 'c': {'dims': [], 'units': 'm'}}
            if alias:
                inputs['a']['alias'] = alias
            name = 'a' if kind != 'diag' else 'o'
            dims = spec if ospec == 'inherit' else ospec
            main = {name: {'units': 'K' + unit}}
            if ospec != 'inherit' or name == 'o':
                main[name]['dims'] = dims
            if name == 'a' and ospec != 'inherit':
                # the old value is needed along the dims of the output
                if tid:
                    continue
            diags = {'d': {'dims': spec, 'units': 'degC'}}
            names = {'a': alias or 'a'}
            # results are returned under aliases of their own, that of the input, or their names
            oname, dname = name, 'd'
            if alias:
                diags['d']['alias'] = dname = 'D'
                if ospec == 'inherit' and name == 'a':
                    oname = alias
                else:
                    main[name]['alias'] = oname = 'O'

            def fn(raw, dt):
                a = raw[names['a']]
                for n in (names['a'], 'c'):
                    if get_backend().__class__ is not DataArrayBackend:
                        require(isinstance(raw[n], Raw), '{}: the array of {} did not come from the backend: {}', kind, n, type(raw[n]))
                o = np.zeros([a.shape[spec.index(d)] for d in dims])
                o = o + np.asarray(a).sum() * (1 + np.arange(o.size).reshape(o.shape)) + float(raw['c'])
                if dims == spec:
                    o = np.asarray(a) * 2.
                return {oname: o}, {dname: np.asarray(a) + 1.}

            kw = {'tendencies_in_diagnostics': True} if tid else {}
            comp = C.make(kind, inputs, main, diags, fn, **kw)
            for sd in L.arrangements(pool):
                for u in ('K', 'degC'):
                    labs = {'a': L.Lab(sd, L.values_for([SH[d] for d in sd], 250.), u), 'c': L.Lab((), np.array(3.), 'km'), 'other': L.Lab(('q',), np.ones(2), 'Pa')}
                    want = C.call(kind, comp, state_of(Default, labs))
                    b = BACKENDS[case['backend']]()
                    state = state_of(b, labs)
                    got = under(b, lambda: C.call(kind, comp, state))
                    what = '{} {} {}->{} on {}'.format(kind, alias, spec, dims, sd)
                    check_extracted(b, b.log, inputs, state, what)
                    decl = {n: dict(p) for n, p in list(main.items()) + list(comp.diagnostic_properties.items())}
                    for g, w in zip(got, want):
                        compare(b, g, w, what, b.log, decl, obs)
                    # and the default behaviour is back
                    again = C.call(kind, comp, state_of(Default, labs))
                    for g, w in zip(again, want):
                        compare(Default, g, w, what + ' (default again)')
                    obs.state([case, alias, tid, sd, u])


TD = [('tracer', 'x'), ('x', 'tracer'), ('tracer', '*'), ('*', 'tracer', 'x'), ('x', 'y', 'tracer'), ('tracer',)]


def run_tracers(case, obs):
    kind, td = case['comp'], TD[case['tdims']]
    unit = ' s^-1' if kind in ('tend', 'impl') else ''
    td_ = [d for d in td if d != 'tracer']
    register_tracer('t1', 'g/kg')
    register_tracer('t2', 'kg')
    main = {'a': {'dims': ['x', 'y', '*'], 'units': 'K' + unit}}
    inputs = {'a': {'dims': ['x', 'y', '*'], 'units': 'K'}}
    for pre in ([], [('p', 'm')], [('t1', 'g/kg'), ('p', 'm')]):
        reset_packers()

        def fn(raw, dt):
            t = raw['tracers']
            return {'a': np.asarray(raw['a']) * 3., 'tracers': t * 2. + 1.}, {}
        comp = C.make(kind, inputs, main, {}, fn, attrs={'uses_tracers': True, 'tracer_dims': list(td), 'prepend_tracers': pre})
        units = {'t1': 'kg/kg', 't2': 'g', 'p': 'km'}
        decl = {'a': {'units': 'K' + unit}, 't1': {'units': 'g/kg' + unit}, 't2': {'units': 'kg' + unit}}
        if pre:
            decl['p'] = {'units': 'm' + unit}
        names = [n for n in decl if n != 'a']
        tin = {'t1': 'g/kg', 't2': 'kg', 'p': 'm'}
        for sd in itertools.permutations([{'*': 'z'}.get(d, d) for d in td_]):
            labs = {'a': L.Lab(('z', 'y', 'x'), L.values_for((4, 3, 2)), 'K')}
            for i, n in enumerate(names):
                labs[n] = L.Lab(sd, L.values_for([SH[d] for d in sd], 10. * i + 1), units[n])
            want = C.call(kind, comp, state_of(Default, labs))
            b = BACKENDS[case['backend']]()
            state = state_of(b, labs)
            got = under(b, lambda: C.call(kind, comp, state))
            what = '{} with tracers along {}, prepended {}'.format(kind, td, pre)
            ins = dict(inputs, **{n: {'dims': td_, 'units': tin[n]} for n in names})
            check_extracted(b, b.log, ins, state, what)
            for g, w in zip(got, want):
                compare(b, g, w, what, b.log, decl, obs)
            obs.state([case, pre, sd])


# ------------------------------------------------------- composites, wrappers
def tend(name='a', dims=('x', '*'), units='K s^-1', inunits='K', f=2., kind='tend', diags=True, extra=None, label='T'):
    inp = {name: {'dims': list(dims), 'units': inunits, 'alias': 'Z' + name}}
    dg = {'d_' + label: {'dims': list(dims), 'units': 'degC'}} if diags else {}

    def fn(raw, dt):
        v = np.asarray(raw['Z' + name])
        return {name: v * f + (dt.total_seconds() if dt else 0.)}, ({'d_' + label: v + f} if diags else {})
    return C.make(kind, inp, {name: {'units': units}}, dg, fn, name='Comp' + label)


def diag(label='D', dims=('*',), f=3.):
    return C.make('diag', {'a': {'dims': list(dims), 'units': 'K'}}, {'e_' + label: {'dims': list(dims), 'units': 'Pa'}}, {},
                  lambda raw, dt: ({'e_' + label: np.asarray(raw['a']) * f}, {}), name='Diag' + label)


def step(label='S', dims=('y', '*'), units='degC', **kw):
    return C.make('step', {'a': {'dims': list(dims), 'units': units}}, {'a': {'units': units}}, {'f_' + label: {'dims': list(dims), 'units': 'm'}},
                  lambda raw, dt: ({'a': np.asarray(raw['a']) * 1.5 + dt.total_seconds()}, {'f_' + label: np.asarray(raw['a']) - 1.}), name='Step' + label, **kw)


def const_t():
    return ConstantTendencyComponent({'a': C.da(('x',), [1., 2.], 'K day^-1')}, {'g': C.da((), 5., 'm')})


SCENES = {
    'relax': (lambda: RelaxationTendencyComponent('a', 'degC'), 'tend'),
    'const_t': (const_t, 'tend'),
    'const_d': (lambda: ConstantDiagnosticComponent({'g': C.da(('y', 'x'), np.ones((3, 2)), 'degC')}), 'diag'),
    'comp2': (lambda: TendencyComponentComposite(tend(), tend(label='U', units='mK s^-1', dims=('y', '*'))), 'tend'),
    'comp3': (lambda: TendencyComponentComposite(tend(diags=False, dims=('*',)), const_t(), tend('b', ('z',), 'm/s', 'km', label='V')), 'tend'),
    'icomp': (lambda: ImplicitTendencyComponentComposite(tend(kind='impl'), tend(label='U', units='degF s^-1')), 'impl'),
    'dcomp': (lambda: DiagnosticComponentComposite(diag(), diag('E', ('x', '*'))), 'diag'),
    'scale_t': (lambda: ScalingWrapper(tend(), input_scale_factors={'a': 2.}, tendency_scale_factors={'a': 3.}, diagnostic_scale_factors={'d_T': .5}), 'tend'),
    'scale_i': (lambda: ScalingWrapper(tend(kind='impl'), input_scale_factors={'a': 2.}, tendency_scale_factors={'a': 3.}, diagnostic_scale_factors={'d_T': .5}), 'impl'),
    'scale_s': (lambda: ScalingWrapper(step(), input_scale_factors={'a': 2.}, output_scale_factors={'a': 3.}, diagnostic_scale_factors={'f_S': .5}), 'step'),
    'scale_d': (lambda: ScalingWrapper(diag(), input_scale_factors={'a': 2.}, diagnostic_scale_factors={'e_D': .5}), 'diag'),
    'scale_none': (lambda: ScalingWrapper(tend()), 'tend'),
    'freq_t': (lambda: UpdateFrequencyWrapper(tend(), timedelta(hours=1)), 'tend'),
    'freq_s': (lambda: UpdateFrequencyWrapper(step(), timedelta(hours=1)), 'step'),
    'freq_scale': (lambda: UpdateFrequencyWrapper(ScalingWrapper(diag(), input_scale_factors={'a': 4.}), timedelta(0)), 'diag'),
    'scale_freq': (lambda: ScalingWrapper(UpdateFrequencyWrapper(tend(), timedelta(0)), tendency_scale_factors={'a': 4.}), 'tend'),
    'tdiff': (lambda: TimeDifferencingWrapper(step()), 'impl'),
    'tdiff_K': (lambda: TimeDifferencingWrapper(step(units='K', dims=('*',))), 'impl'),
    'tdiff_tid': (lambda: TimeDifferencingWrapper(step(units='K', tendencies_in_diagnostics=True)), 'impl'),
    'scale_tdiff': (lambda: ScalingWrapper(TimeDifferencingWrapper(step()), tendency_scale_factors={'a': 4.}), 'impl'),
    'comp_scale': (lambda: TendencyComponentComposite(ScalingWrapper(tend(), tendency_scale_factors={'a': 4.}), tend(label='U')), 'tend'),
    'icomp_tdiff': (lambda: ImplicitTendencyComponentComposite(TimeDifferencingWrapper(step(units='K')), tend()), 'impl'),
    'comp_freq': (lambda: TendencyComponentComposite(tend(label='U'), UpdateFrequencyWrapper(tend(), timedelta(hours=1))), 'tend'),
    'nested': (lambda: TendencyComponentComposite(TendencyComponentComposite(tend(), tend(label='U')), tend(label='V')), 'tend'),
}


def scene_labs(order, u):
    labs = {'a': L.Lab(order, L.values_for([SH[d] for d in order], 250.), u), 'b': L.Lab(('z',), L.values_for((4,)), 'm'),
            'equilibrium_a': L.Lab(('y',), L.values_for((3,), 270.), 'K'), 'a_relaxation_timescale': L.Lab((), np.array(2.), 'hour'),
            'unused': L.Lab(('w',), np.ones(2), 'Pa')}
    return labs


def run_scene(case, obs):
    mk, kind = SCENES[case['scene']]
    for order in itertools.permutations(('x', 'y', 'z')):
        for u in ('K', 'degC', 'mK'):
            labs = scene_labs(order, u)
            ref, comp = mk(), mk()
            b = BACKENDS[case['backend']]()
            state = state_of(b, labs)
            for i in range(2):
                want = C.call(kind, ref, state_of(Default, labs))
                got = under(b, lambda: C.call(kind, comp, state))
                for g, w in zip(got, want):
                    compare(b, g, w, '{}: call {} on {} {}'.format(case['scene'], i, order, u), obs=obs)
            obs.state([case, order, u])


STEPPERS = {'ab1': lambda *a, **k: AdamsBashforth(*a, order=1, **k), 'ab2': lambda *a, **k: AdamsBashforth(*a, order=2, **k),
            'ab3': lambda *a, **k: AdamsBashforth(*a, order=3, **k), 'ab4': lambda *a, **k: AdamsBashforth(*a, order=4, **k),
            'lf': lambda *a, **k: Leapfrog(*a, asselin_strength=0.1, alpha=0.7, **k), 'lf1': lambda *a, **k: Leapfrog(*a, asselin_strength=0.2, alpha=1., **k),
            'rk2': lambda *a, **k: SSPRungeKutta(*a, stages=2, **k), 'rk3': lambda *a, **k: SSPRungeKutta(*a, stages=3, **k)}
COMPS = [lambda: [tend(f=-.01)], lambda: [tend(f=-.01), tend(f=.02, label='U', units='degF s^-1', dims=('y', '*'))], lambda: [const_t()],
         lambda: [tend(f=.01, diags=False), tend('b', ('*',), 'm/s', 'km', f=.001, label='V')], lambda: [tend(f=.01, kind='impl')],
         lambda: [ScalingWrapper(tend(f=.01), tendency_scale_factors={'a': 2.}), RelaxationTendencyComponent('a', 'K')]]


def run_stepper(case, obs):
    mk = STEPPERS[case['stepper']]
    for order in (('x', 'y', 'z'), ('z', 'x', 'y'), ('y', 'z', 'x')):
        for u in ('K', 'degC'):
            kw = {'tendencies_in_diagnostics': True} if case['tid'] else {}
            comps = COMPS[case['comps']]
            if case['comps'] == 2 and case['tid']:
                # nothing declares the stepped quantity as an input
                kw = {}
            ref, st = mk(*comps(), **kw), mk(*comps(), **kw)
            b = BACKENDS[case['backend']]()
            labs = scene_labs(order, u)
            s0, s1 = state_of(Default, labs), state_of(b, labs)
            for i in range(case['steps']):
                what = '{} of {}: step {} on {} {}'.format(case['stepper'], case['comps'], i, order, u)
                wd, wn = ref(s0, C.DT)
                b.log.clear()
                gd, gn = under(b, lambda: st(s1, C.DT))
                compare(b, gd, wd, what + ' diagnostics', obs=obs)
                compare(b, gn, wn, what, obs=obs)
                compare(b, s1, s0, what + ' old state')
                for v in b.log.got:
                    require(type(v[3]) is b.container, '{}: a {} was given to the backend', what, type(v[3]))
                for n in ('unused',):
                    require(gn[n] is s1[n], '{}: {} was replaced', what, n)
                require(b.log.got or case['comps'] == 2, '{}: nothing was extracted by the backend', what)
                s0, s1 = dict(wn), dict(gn)
            obs.state([case, order, u])


# ---------------------------------------------------------------- histories
OPS = ['box', 'box2', 'sub', 'default', 'bad_none', 'bad_class', 'bad_duck', 'call_tend', 'call_comp', 'step']


class Duck(object):
    def get_array(self, *a): return None
    def create_quantity(self, *a, **k): return None
    def get_dims(self, v): return ()
    def get_shape(self, v): return ()
    def get_container_type(self): return object


def bads():
    return {'bad_none': None, 'bad_class': BoxBackend, 'bad_duck': Duck()}


def run_history(case, obs):
    labs = scene_labs(('z', 'x', 'y'), 'K')
    refs = {'call_tend': tend()(state_of(Default, labs)), 'call_comp': SCENES['comp2'][0]()(state_of(Default, labs))}
    refs['step'] = AdamsBashforth(tend(f=-.01), order=1)(state_of(Default, labs), C.DT)
    default = get_backend()
    instances = {'box': BoxBackend(), 'box2': BoxBackend(), 'sub': SubBackend(), 'default': default}
    comps = {'call_tend': tend(), 'call_comp': SCENES['comp2'][0](), 'step': AdamsBashforth(tend(f=-.01), order=1)}
    for n in range(0, case['depth'] - 1):
        for rest in itertools.product(OPS, repeat=n):
            h = case['prefix'] + list(rest)
            if not h[-1].startswith(('call', 'step', 'bad')):
                continue
            set_backend(default)
            cur = 'default'
            for op in h:
                if op in instances:
                    require(set_backend(instances[op]) is None or True, '')
                    cur = op
                elif op.startswith('bad'):
                    kind, err = C.outcome(set_backend, bads()[op])
                    require(kind == 'err' and isinstance(err, TypeError), '{}: {} was accepted as a backend', h, op)
                else:
                    b = instances[cur] if cur != 'default' else Default
                    s = state_of(b, labs)
                    for k, i in instances.items():
                        if k != 'default':
                            i.log.clear()
                    args = (s, C.DT) if op == 'step' else (s,)
                    got = comps[op](*args)
                    for g, w in zip(got, refs[op]):
                        compare(b, g, w, '{} {}'.format(h, op))
                    for k, i in instances.items():
                        if k not in ('default', cur):
                            require(not i.log.got and not i.log.created and not i.log.dims and not i.log.shapes, '{}: the backend {} was used', h, k)
                require(get_backend() is instances[cur], '{}: the installed backend is {}', h, get_backend())
                obs.step()
            obs.state(h)
            obs.outcome([cur, h[-1]])
    set_backend(default)


def run_refused(case, obs):
    default = get_backend()
    box = BoxBackend()
    for cur in (default, box):
        set_backend(cur)
        for bad in (None, 0, 'dataarray', object(), StateBackend, DataArrayBackend, BoxBackend, Duck(), Duck, {}, [], box.get_array, Box(1.), DataArray(1.), (box,)):
            kind, err = C.outcome(set_backend, bad)
            require(kind == 'err' and isinstance(err, TypeError), '{!r} was accepted as a backend', bad)
            require(get_backend() is cur, 'refusing {!r} changed the backend to {}', bad, get_backend())
            obs.state([repr(type(bad)), cur is box])
            obs.step()
            obs.outcome(type(err).__name__)
    set_backend(default)
