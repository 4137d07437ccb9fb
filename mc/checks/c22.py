"""C22: instances are independent: all interleavings of the lives of two (three) instances."""
import itertools
import os
import shutil
import tempfile
from datetime import datetime, timedelta
import netCDF4
import numpy as np
import sympl
from sympl import (
    AdamsBashforth, Leapfrog, SSPRungeKutta, ScalingWrapper, UpdateFrequencyWrapper, TimeDifferencingWrapper, ConstantTendencyComponent, ConstantDiagnosticComponent,
    RelaxationTendencyComponent, TendencyComponentComposite, ImplicitTendencyComponentComposite, DiagnosticComponentComposite, NetCDFMonitor, RestartMonitor, DataArray)
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('For every pair (thorough: and every triple) of recipes out of components of every kind with and without tendency diagnostics, '
        'wrappers, steppers, composites, built-ins, monitors, components that break their declarations and failing constructions, all of the same classes: every interleaving of '
        'their operations (construct, use, use), each observation compared with the one the instance makes when it lives alone; '
        'class-level declarations compared before and after.')
ASSUMPTIONS = ['Components using tracers share the tracer registry by design and are left to C16.', 'Instances may share a wrapped stateless component.']
BUILTIN = (AdamsBashforth, Leapfrog, SSPRungeKutta, ScalingWrapper, UpdateFrequencyWrapper, TimeDifferencingWrapper, ConstantTendencyComponent, ConstantDiagnosticComponent, RelaxationTendencyComponent,
           TendencyComponentComposite, ImplicitTendencyComponentComposite, DiagnosticComponentComposite, NetCDFMonitor, RestartMonitor) + tuple(C.BASES.values())
PROPS = ('input_properties', 'tendency_properties', 'diagnostic_properties', 'output_properties')
SEC = timedelta(seconds=1)


def state(i):
    return {'time': datetime(2000, 1, 1) + i * 10 * SEC, 'p': C.da(['x'], np.array([1., 2.]) + 10 * i, 'K'), 'q': C.da(['x'], np.array([3., 5.]) - i, 'm'),
            'equilibrium_p': C.da(['x'], np.array([9., 8.]), 'K'), 'p_relaxation_timescale': C.da([], np.array(2.), 's'), 'r': C.da([], np.array(1.), 's')}


def freeze(v):
    return L.fingerprint(v)


class World(object):
    """Fresh classes, so that nothing is left from earlier runs."""

    def __init__(self, d):
        self.dir = d
        inp = {'p': {'dims': ['x'], 'units': 'degC', 'alias': 'pp'}, 'q': {'dims': ['x'], 'units': 'm'}}
        dg = {'d': {'dims': ['x'], 'units': 'K'}}

        def fn(raw, dt):
            s = 1. if dt is None else dt.total_seconds()
            return {'p': np.asarray(raw['pp']) * 2 + s, 'q': np.asarray(raw['q']) * 3}, {'d': np.asarray(raw['pp']) * np.asarray(raw['q'])}
        tp = {'p': {'units': 'K/s', 'dims': ['x']}, 'q': {'units': 'm s^-1', 'dims': ['x']}}
        op = {'p': {'units': 'degC', 'dims': ['x']}, 'q': {'units': 'm', 'dims': ['x']}}
        self.cls = {}
        for k in C.KINDS:
            main = {'tend': tp, 'impl': tp, 'step': op, 'diag': {}}[k]
            f = fn if k != 'diag' else (lambda raw, dt: ({}, fn(raw, None)[1]))
            self.cls[k] = C.make_class(k, inp, main, dg, f, name=k.capitalize())
        # a subclass that inherits every declaration, and one that extends them
        base = self.cls['tend']
        self.cls['tend_sub'] = type('TendSub', (base,), {})
        self.cls['step_sub'] = type('StepSub', (self.cls['step'],), {})
        bad = dict(inp, q={'dims': ['x']})
        self.cls['bad'] = C.make_class('tend', bad, tp, dg, fn, name='Bad')
        self.cls['bad_out'] = C.make_class('step', inp, dict(op, q={'units': 's', 'dims': ['x']}), dg, fn, name='BadOut')
        # components that do not keep their promises: what is refused must not depend on other instances
        td = {n: {'dims': ['x'], 'units': 'K s^-1' if n[0] == 'p' else 'm s^-1'} for n in ('p_tendency_from_Tend', 'q_tendency_from_other', 'p_tendency_from_Step')}
        for k in C.KINDS:
            main = {'tend': tp, 'impl': tp, 'step': op, 'diag': {}}[k]
            f = fn if k != 'diag' else (lambda raw, dt: ({}, fn(raw, None)[1]))
            extra = lambda raw, dt, f=f: (f(raw, dt)[0], dict(f(raw, dt)[1], p_tendency_from_Tend=np.ones(2), p_tendency_from_Step=np.ones(2)))
            self.cls['forget_' + k] = C.make_class(k, inp, main, dict(dg, **td), f, name='Forget' + k)
            self.cls['extra_' + k] = C.make_class(k, inp, main, dg, extra, name='Extra' + k)
            self.cls['noinit_' + k] = type('NoInit' + k, (self.cls[k],), {'__init__': lambda self: None})
        self.shared = {k: self.cls[k]() for k in C.KINDS}
        self.factors = {'input_scale_factors': {'p': 2.}, 'tendency_scale_factors': {'q': .5}}
        self.aliases = {'p': 'P'}
        self.snapshot = self.declarations()

    def declarations(self):
        out = {}
        for c in list(self.cls.values()) + list(BUILTIN):
            for p in PROPS:
                v = vars(c).get(p)
                if isinstance(v, dict):
                    out[c.__name__ + '.' + p] = freeze(v)
        out['factors'] = freeze(self.factors)
        out['aliases'] = freeze(self.aliases)
        return out


def props(obj):
    return {p: freeze(getattr(obj, p)) for p in PROPS if hasattr(obj, p)}


def component(make, kind):
    def construct(w):
        return make(w)

    def use(w, obj, i):
        st = state(i)
        out = C.call(kind, obj, st, (i + 1) * SEC)
        return [freeze(o) for o in out], freeze(st), props(obj)
    return construct, use


def misbehaving(which, kind):
    def use(w, obj, i):
        st = state(i)
        try:
            C.call(kind, obj, st, SEC)
        except Exception as err:
            return type(err).__name__
        return 'accepted'
    return (lambda w: w.cls[which + '_' + kind]()), use


def stepper(make):
    def use(w, obj, i):
        st = state(i)
        d, n = obj(st, SEC)
        return freeze(d), freeze(n), freeze(st), props(obj)
    return make, use


def failing(make):
    def construct(w):
        try:
            make(w)
        except Exception as err:
            return 'refused'
        return 'accepted'
    return construct, lambda w, obj, i: None


def monitor(make, i0):
    def construct(w):
        w.n = getattr(w, 'n', 0) + 1
        path = os.path.join(w.dir, 'f%d.nc' % w.n)
        if os.path.exists(path):
            os.unlink(path)
        return make(w, path), path

    def use(w, obj, i):
        mon, path = obj
        mon.store(state(i + i0))
        if hasattr(mon, 'write'):
            mon.write()
            with netCDF4.Dataset(path) as ds:
                return {k: (v.dimensions, np.asarray(v[:]).tolist(), {a: v.getncattr(a) for a in v.ncattrs()}) for k, v in ds.variables.items()}
        return freeze(mon.load())
    return construct, use


def cd(v):
    return {'c': C.da(['x'], np.array([v, 2.]), 'm')}


R = {
    'tend': component(lambda w: w.cls['tend'](), 'tend'),
    'tend_d': component(lambda w: w.cls['tend'](tendencies_in_diagnostics=True), 'tend'),
    'tend_dn': component(lambda w: w.cls['tend'](tendencies_in_diagnostics=True, name='other'), 'tend'),
    'tend_sub_d': component(lambda w: w.cls['tend_sub'](tendencies_in_diagnostics=True), 'tend'),
    'impl': component(lambda w: w.cls['impl'](), 'impl'),
    'impl_d': component(lambda w: w.cls['impl'](tendencies_in_diagnostics=True), 'impl'),
    'step': component(lambda w: w.cls['step'](), 'step'),
    'step_d': component(lambda w: w.cls['step'](tendencies_in_diagnostics=True), 'step'),
    'step_sub_d': component(lambda w: w.cls['step_sub'](tendencies_in_diagnostics=True, name='sub'), 'step'),
    'diag': component(lambda w: w.cls['diag'](), 'diag'),
    'scale': component(lambda w: ScalingWrapper(w.shared['tend'], **w.factors), 'tend'),
    'scale2': component(lambda w: ScalingWrapper(w.shared['tend'], tendency_scale_factors={'p': 3.}, diagnostic_scale_factors={'d': 7.}), 'tend'),
    'scale_s': component(lambda w: ScalingWrapper(w.shared['step'], output_scale_factors={'p': 3.}), 'step'),
    'upd': component(lambda w: UpdateFrequencyWrapper(w.shared['tend'], 15 * SEC), 'tend'),
    'upd2': component(lambda w: UpdateFrequencyWrapper(w.shared['tend'], 5 * SEC), 'tend'),
    'upd_d': component(lambda w: UpdateFrequencyWrapper(w.cls['tend'](tendencies_in_diagnostics=True), 15 * SEC), 'tend'),
    'tdiff': component(lambda w: TimeDifferencingWrapper(w.shared['step']), 'impl'),
    'tdiff_d': component(lambda w: TimeDifferencingWrapper(w.cls['step'](tendencies_in_diagnostics=True)), 'impl'),
    'ab2': stepper(lambda w: AdamsBashforth(w.shared['tend'], order=2)),
    'ab3d': stepper(lambda w: AdamsBashforth(w.shared['tend'], order=3, tendencies_in_diagnostics=True)),
    'lf': stepper(lambda w: Leapfrog(w.shared['tend'])),
    'lf2d': stepper(lambda w: Leapfrog(w.cls['tend'](), asselin_strength=.2, alpha=.5, tendencies_in_diagnostics=True, name='lf')),
    'rk3': stepper(lambda w: SSPRungeKutta(w.shared['tend'])),
    'rk2d': stepper(lambda w: SSPRungeKutta(w.shared['tend'], stages=2, tendencies_in_diagnostics=True)),
    'comp': component(lambda w: TendencyComponentComposite(w.shared['tend'], ConstantTendencyComponent({'p': C.da(['x'], np.array([1., 2.]), 'K/hour')})), 'tend'),
    'icomp': component(lambda w: ImplicitTendencyComponentComposite(w.shared['impl'], ConstantTendencyComponent({'p': C.da(['x'], np.array([4., 1.]), 'K/hour')})), 'impl'),
    'dcomp': component(lambda w: DiagnosticComponentComposite(w.shared['diag'], ConstantDiagnosticComponent(cd(3.))), 'diag'),
    'ctend': component(lambda w: ConstantTendencyComponent({'p': C.da(['x'], np.array([1., 2.]), 'K/s')}), 'tend'),
    'cdiag': component(lambda w: ConstantDiagnosticComponent(cd(1.)), 'diag'),
    'cdiag2': component(lambda w: ConstantDiagnosticComponent(cd(7.)), 'diag'),
    'relax': component(lambda w: RelaxationTendencyComponent('p', 'K'), 'tend'),
    'relax_q': component(lambda w: RelaxationTendencyComponent('p', 'degC', tendencies_in_diagnostics=True), 'tend'),
    'bad': failing(lambda w: w.cls['bad']()),
    'bad_out': failing(lambda w: w.cls['bad_out'](tendencies_in_diagnostics=True)),
    'bad_scale': failing(lambda w: ScalingWrapper(w.shared['tend'], input_scale_factors={'nope': 2.})),
    'bad_ab': failing(lambda w: AdamsBashforth(w.shared['tend'], order=7)),
    'bad_comp': failing(lambda w: TendencyComponentComposite(w.shared['tend'], w.shared['tend'])),
    'bad_call': failing(lambda w: w.shared['tend']({'time': datetime(2000, 1, 1)})),
    'nc': monitor(lambda w, p: NetCDFMonitor(p, aliases=w.aliases), 0),
    'nc2': monitor(lambda w, p: NetCDFMonitor(p, store_names=['q', 'r'], time_units='minutes'), 3),
    'restart': monitor(lambda w, p: RestartMonitor(p), 1),
}
for _k in C.KINDS:
    for _w in ('forget', 'extra', 'noinit'):
        R[_w + '_' + _k] = misbehaving(_w, _k)
NAMES = sorted(R)
SLOW = {'nc', 'nc2', 'restart'}


def cases(tier):
    # alone first, in every worker: the reference
    for i, a in enumerate(NAMES):
        for b in NAMES[i:]:
            yield {'names': [a, b], 'uses': 2}
            if tier == 'thorough':
                yield {'names': [a, b], 'uses': 3}
    if tier == 'thorough':
        for t in itertools.combinations(NAMES, 3):
            if not SLOW & set(t):
                yield {'names': list(t), 'uses': 1}


def interleavings(counts):
    if sum(counts) == 0:
        yield []
        return
    for i, n in enumerate(counts):
        if n:
            rest = list(counts)
            rest[i] -= 1
            for tail in interleavings(rest):
                yield [i] + tail


REF = {}


def live(w, names, order):
    objs = [None] * len(names)
    pos = [0] * len(names)
    seen = [[] for _ in names]
    for k in order:
        construct, use = R[names[k]]
        if pos[k] == 0:
            objs[k] = construct(w)
            o = objs[k]
            seen[k].append(o if isinstance(o, str) else ('made', props(o) if not isinstance(o, tuple) else None))
        else:
            seen[k].append(use(w, objs[k], pos[k] - 1))
        pos[k] += 1
    return seen


def run(case, obs):
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
    try:
        names, n = case['names'], case['uses'] + 1
        for a in names:
            if (a, n) not in REF:
                REF[a, n] = live(World(d), [a], [0] * n)[0]
                if a.split('_')[0] in ('forget', 'extra', 'noinit'):
                    require('accepted' not in REF[a, n], 'a component that breaks its declaration ({}) is accepted', a)
        # an instance that lives alone now still behaves as it did at first
        for order in interleavings([n] * len(names)):
            if len(names) == 2 and names[0] == names[1] and order[0] == 1:
                continue
            w = World(d)
            seen = live(w, names, order)
            obs.step(len(order))
            obs.state([names, order])
            for k, a in enumerate(names):
                for j, (got, want) in enumerate(zip(seen[k], REF[a, n])):
                    if got != want:
                        require(False, '{} together with {} (order {}): observation {} of {} differs from the instance on its own:\n{}\n{}', a, names, order, j, a,
                                str(got)[:1500], str(want)[:1500])
            after = w.declarations()
            for k in set(w.snapshot) | set(after):
                require(after.get(k) == w.snapshot.get(k), '{} (order {}) altered the class-level {}', names, order, k)
            obs.outcome([names, len(str(seen))])
    finally:
        shutil.rmtree(d, ignore_errors=True)
