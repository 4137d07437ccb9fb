"""C15: tendencies reported as diagnostics and by time differencing."""
import itertools
from datetime import datetime, timedelta
import numpy as np
import sympl
from sympl import TimeDifferencingWrapper, AdamsBashforth, Leapfrog, SSPRungeKutta
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('Every kind of component that has tendencies or outputs, and every time stepper, x unit spellings (plain, '
        'dimensionless, percent, offset temperature scales, angles) x units of the state x aliases x where dims come from x '
        'names x timesteps x time units x styles of declaration, over repeated calls with changing timesteps and contents of the state; each reported tendency is compared in '
        'SI units with the change per time computed by the model. The same for TimeDifferencingWrapper.')
SCENARIOS = ['wrappers']
ASSUMPTIONS = ['Bounds: 13 unit spellings, 4 timesteps, 4 time units, 2 calls.',
               'A Stepper must declare the same units for input and output of a quantity (others are refused at construction).',
               'For Leapfrog only the first step is checked (later steps filter the old value).']
T0 = datetime(2000, 1, 1)
DTS = [timedelta(seconds=10), timedelta(hours=1, microseconds=500), timedelta(milliseconds=20), timedelta(days=3)]
# spelling -> another unit in which the state may be given
SPELL = {'m': 'km', '': '%', 'dimensionless': 'g/kg', '%': '', 'percent': 'kg/kg', 'degC': 'K', u'\u00b0C': 'degF', 'degF': 'degC', 'K': 'degC',
         'g/kg': '', 'W m^-2': 'kW m^-2', 'degrees_north': 'radian', 'kg m^-3': 'g/cm^3'}
TIMEUNITS = [None, ('s', timedelta(seconds=1)), ('hour', timedelta(hours=1)), ('day', timedelta(days=1)), ('ms', timedelta(milliseconds=1))]
OLD = np.array([[1., 2., 3.], [4., 5., 6.5]])
NEW = np.array([[2., -1., 3.], [7., 5.25, 60.]])


def cases(tier):
    for u in SPELL:
        for k in ('tend', 'impl'):
            yield {'kind': k, 'units': u}
        for ti in range(len(TIMEUNITS)):
            for di in range(len(DTS)):
                yield {'kind': 'step', 'units': u, 'tu': ti, 'dt': di}
        for di in range(len(DTS)):
            yield {'kind': 'stepper', 'units': u, 'dt': di}
            yield {'kind': 'diff', 'units': u, 'dt': di}
    yield {'kind': 'errors'}


def rate(u, t='s'):
    return (u + ' ' if u else '') + t + '^-1'


def si(val, u):
    """Value of a difference or rate in SI."""
    require(u in L.UNITS, 'unknown units {!r} reported', u)
    return np.asarray(val, dtype=float) * L.UNITS[u][1]


def check_rate(da, family_of, si_want, dims, where):
    """da is a rate of a quantity in units family_of with SI value si_want."""
    u = da.attrs.get('units')
    require(u in L.UNITS, 'reported with units {!r} {}', u, where)
    require(L.compatible(u, rate(family_of)), 'units {!r} are no rate of {!r} {}', u, family_of, where)
    require(set(da.dims) == set(dims), 'dims {} instead of {} {}', da.dims, dims, where)
    g = si(L.lab_of(da).order(dims), u)
    tol = 1e-9 * (float(np.abs(si_want).max()) + 1e-30)
    require(np.allclose(g, si_want, rtol=1e-7, atol=max(tol, 1e-300)), 'reported {} {} = {} in SI instead of {} {}',
            np.asarray(da.values).tolist(), u, g.tolist(), si_want.tolist(), where)


def run(case, obs):
    globals()['run_' + (case['kind'] if case['kind'] not in ('tend', 'impl') else 'tend')](case, obs)


def run_tend(case, obs):
    kind, u = case['kind'], case['units']
    for name in (None, 'mine', 'with space'):
        for alias in (None, 'tendency', 'input', 'both'):
            for dims in (None, ['y', 'x'], ['*']):
                for style in ('class', 'instance'):
                    inp = {'q': {'dims': ['x', 'y'] if dims != ['*'] else ['*'], 'units': u}}
                    tend = {'q': {'units': rate(u)}, 'extra': {'dims': ['x'], 'units': 'm s^-1'}}
                    if dims:
                        tend['q']['dims'] = dims
                    key = 'q'
                    if alias in ('input', 'both'):
                        inp['q']['alias'] = key = 'Q'
                    if alias in ('tendency', 'both'):
                        tend['q']['alias'] = key = 'Q'

                    def fn(raw, t):
                        v = raw[inp['q'].get('alias', 'q')]
                        v = v * 0.5 if dims != ['y', 'x'] else v.T * 0.5
                        return {key: v, 'extra': np.array([1., 2.])}, {'d': np.array([1., 2.])}
                    cls = C.make_class(kind, inp, tend, {'d': {'dims': ['x'], 'units': 'm'}}, fn, name='MyClass')
                    if style == 'instance':
                        def init(self, **kw):
                            self.diagnostic_properties = {'d': {'dims': ['x'], 'units': 'm'}}
                            C.BASES[kind].__init__(self, **kw)
                        cls = type('MyClass', (cls,), {'__init__': init})
                    comp = cls(tendencies_in_diagnostics=True, **({'name': name} if name else {}))
                    st = {'q': C.da(['x', 'y'], OLD.copy(), SPELL[u]), 'time': T0}
                    for call in range(2):
                        if call == 1:  # the same objects with other contents
                            st['q'].values[...] = OLD + 100.
                        where = '({} in {!r}, alias {}, dims {}, name {}, {}, call {})'.format(kind, u, alias, dims, name, style, call + 1)
                        t, d = C.call(kind, comp, st)
                        obs.step()
                        obs.state([kind, u, name, alias, dims, style, call])
                        names = {n: '{}_tendency_from_{}'.format(n, name or 'MyClass') for n in ('q', 'extra')}
                        require(set(d) == set(names.values()) | {'d'}, 'diagnostics {} {}', sorted(d), where)
                        require(set(d) == set(comp.diagnostic_properties), 'declared diagnostics {} {}', sorted(comp.diagnostic_properties), where)
                        for n, dn in names.items():
                            require(set(d[dn].dims) == set(t[n].dims) and L.same_unit(d[dn].attrs['units'], t[n].attrs['units']), '{}: {} {!r} instead of {} {!r} {}',
                                    dn, d[dn].dims, d[dn].attrs, t[n].dims, t[n].attrs, where)
                            require(L.close(L.lab_of(d[dn]).order(t[n].dims), t[n].values), '{} differs from the tendency {}', dn, where)
                            require(L.same_unit(comp.diagnostic_properties[dn]['units'], t[n].attrs['units']), '{} declared in {!r} {}', dn, comp.diagnostic_properties[dn]['units'], where)
                        want = L.convert(OLD + 100. * call, SPELL[u], u) * 0.5
                        require(np.allclose(L.lab_of(d[names['q']]).order(['x', 'y']), want, rtol=1e-7, atol=1e-9), 'tendency of q is {} instead of {} {}',
                                d[names['q']].values.tolist(), want.tolist(), where)
                        obs.outcome([u, names['q']])


def run_step(case, obs):
    u, tu, dt = case['units'], TIMEUNITS[case['tu']], DTS[case['dt']]
    for alias in (None, 'output', 'input', 'both', 'different'):
        for dims in (None, ['x', 'y'], ['*']):
            for has_input in (True, False):
                for style in ('class', 'property'):
                    if not has_input and (dims is None or alias in ('input', 'both', 'different')):
                        continue
                    if style == 'property' and not has_input:
                        continue  # a read-only input declaration cannot gain the missing input
                    spec = dims or ['x', 'y']
                    inp = {'q': {'dims': spec, 'units': u}} if has_input else {}
                    inp['o'] = {'dims': ['x'], 'units': 'm'}
                    out = {'q': {'units': u}}
                    if dims:
                        out['q']['dims'] = dims
                    ikey = okey = 'q'
                    if alias in ('input', 'both', 'different'):
                        inp['q']['alias'] = ikey = 'Q'
                        okey = 'Q'
                    if alias in ('output', 'both'):
                        out['q']['alias'] = okey = 'Q'
                    if alias == 'different':
                        out['q']['alias'] = okey = 'QQ'
                    newv = NEW if spec != ['*'] else NEW.reshape(-1)
                    attrs = {}
                    if tu:
                        attrs = {'time_unit_name': tu[0], 'time_unit_timedelta': tu[1]}
                    diag = {'d': {'dims': ['x'], 'units': 'm'}}
                    if style == 'property':
                        attrs['diagnostic_properties'] = property(lambda self: {'d': {'dims': ['x'], 'units': 'm'}})
                    comp = C.make('step', inp, out, diag, lambda raw, t: ({okey: newv.copy()}, {'d': np.array([1., 2.])}), attrs, name='Cls',
                                  tendencies_in_diagnostics=True)
                    tname, td = tu or ('s', timedelta(seconds=1))
                    dt = DTS[case['dt']]
                    for su in (u, SPELL[u]):
                        if su != u:
                            dt = DTS[(case['dt'] + 1) % len(DTS)]
                        st = {'q': C.da(['x', 'y'], OLD.copy(), su), 'o': C.da(['x'], np.array([1., 2.]), 'm'), 'time': T0}
                        where = '(stepper in {!r}, state in {!r}, alias {}, dims {}, input {}, {}, time unit {}, dt {})'.format(u, su, alias, dims, has_input, style, tname, dt)
                        n, d = C.call('step', comp, st, dt)
                        obs.step()
                        obs.state([u, su, alias, dims, has_input, style, tname, case['dt']])
                        require(set(d) == {'d', 'q_tendency_from_Cls'}, 'diagnostics {} {}', sorted(d), where)
                        require(set(n) == {'q'}, 'new state {} {}', sorted(n), where)
                        delta = NEW - L.convert(OLD, su, u)
                        want = si(delta, u) / dt.total_seconds()
                        r = d['q_tendency_from_Cls']
                        check_rate(r, u, want, ['x', 'y'], where)
                        require(L.same_unit(r.attrs['units'], rate(u, tname)), 'reported in {!r}, not per {} {}', r.attrs['units'], tname, where)
                        obs.outcome([u, tname])


def run_stepper(case, obs):
    u, dt = case['units'], DTS[case['dt']]
    for mk, label in ((lambda c, **k: AdamsBashforth(*c, order=2, **k), 'AB'), (lambda c, **k: Leapfrog(*c, **k), 'LF'),
                      (lambda c, **k: SSPRungeKutta(*c, stages=2, **k), 'RK2'), (lambda c, **k: SSPRungeKutta(*c, **k), 'RK3')):
        for su in (u, SPELL[u]):
            for name in (None, 'stp'):
                for tendunits, tu in itertools.product((rate(u), rate(SPELL[u], 'hour')), TIMEUNITS if name else TIMEUNITS[:1]):
                    c1 = C.make('tend', {'q': {'dims': ['x', 'y'], 'units': u}}, {'q': {'units': tendunits}}, {'d': {'dims': ['x'], 'units': 'm'}},
                                lambda raw, t: ({'q': NEW * 1e-3}, {'d': np.array([1., 2.])}))
                    stepper = mk([c1], tendencies_in_diagnostics=True, **({'name': name} if name else {}))
                    if tu:
                        base = type(stepper)
                        cls = type('Sub', (base,), {'time_unit_name': tu[0], 'time_unit_timedelta': tu[1]})
                        kw = {'order': 2} if label == 'AB' else {'stages': 2} if label == 'RK2' else {}
                        stepper = cls(c1, tendencies_in_diagnostics=True, name=name, **kw)
                    st = {'q': C.da(['y', 'x'], OLD.T.copy(), su), 'time': T0}
                    for i in range(1 if label == 'LF' else 2):
                        old = L.lab_of(st['q'])
                        oldv = L.convert(old.order(['x', 'y']), old.units, u)
                        d, n = stepper(st, dt)
                        obs.step()
                        where = '({} step {}, q in {!r}, state in {!r}, tendency in {!r}, dt {}, time unit {})'.format(label, i + 1, u, su, tendunits, dt, tu)
                        obs.state([label, i, u, su, name, tendunits, case['dt'], tu and tu[0]])
                        key = 'q_tendency_from_' + (name or type(stepper).__name__)
                        require(set(d) == {'d', key} == set(stepper.diagnostic_properties), 'diagnostics {}, declared {} {}', sorted(d), sorted(stepper.diagnostic_properties), where)
                        # constant tendency: every scheme gives exactly it
                        want = si(NEW * 1e-3, tendunits)
                        scale = float(np.abs(si(oldv, u)).max()) + L.UNITS[u][2]
                        u2 = d[key].attrs.get('units')
                        require(u2 in L.UNITS and L.compatible(u2, rate(u)), 'reported in {!r} {}', u2, where)
                        require(L.compatible(stepper.diagnostic_properties[key]['units'], u2), 'declared in {!r} {}', stepper.diagnostic_properties[key]['units'], where)
                        require(set(d[key].dims) == {'x', 'y'}, 'dims {} {}', d[key].dims, where)
                        g = si(L.lab_of(d[key]).order(['x', 'y']), u2)
                        require(np.allclose(g, want, rtol=1e-6, atol=1e-13 * scale * 10 / dt.total_seconds() + 1e-12 * np.abs(want).max()),
                                'reported {} (SI) instead of {} {}', g.tolist(), want.tolist(), where)
                        st = n


def run_diff(case, obs):
    u = case['units']
    for su in (u, SPELL[u]):
        for ou in (u, SPELL[u]):
            for alias in (False, True):
                inp = {'q': {'dims': ['x', 'y'], 'units': u}}
                out = {'q': {'units': ou}, 'r': {'dims': ['n'], 'units': 'm'}}
                if alias:
                    out['q']['alias'] = 'Q'
                base = C.make('step', inp, out, {'d': {'dims': ['x', 'y'], 'units': u}},
                              lambda raw, t: ({'Q' if alias else 'q': NEW.copy(), 'r': np.array([5., 6.])}, {'d': raw['q'] * 2}), name='Base')
                w = TimeDifferencingWrapper(base)
                require(isinstance(w, sympl.ImplicitTendencyComponent), 'wrapper is no ImplicitTendencyComponent')
                require(not isinstance(w, sympl.Stepper), 'wrapper is still a Stepper')
                st = {'q': C.da(['y', 'x'], OLD.T.copy(), su), 'r': C.da(['n'], np.array([1., 2.]), 'km'), 'time': T0, 'idle': C.da(['x'], [1., 2.], 'kg')}
                for call in range(3):
                    dt = DTS[(case['dt'] + call) % len(DTS)]
                    if call == 2:  # the same objects with other contents
                        st['q'].values[...] = OLD.T[:, ::-1]
                        st['q'].attrs['units'] = u
                    old = L.convert(OLD, su, ou) if call < 2 else L.convert(OLD[::-1], u, ou)
                    before = L.fingerprint(st)
                    t, d = w(st, dt)
                    obs.step()
                    where = '(differenced stepper, input {!r} output {!r} state {!r} dt {} call {})'.format(u, ou, su, dt, call + 1)
                    obs.state([u, su, ou, alias, case['dt'], call])
                    require(L.fingerprint(st) == before, 'state altered {}', where)
                    require(set(t) == {'q', 'r'} == set(w.tendency_properties), 'tendencies {} {}', sorted(t), where)
                    require(set(d) == {'d'}, 'diagnostics {} {}', sorted(d), where)
                    want = si(NEW - old, ou) / dt.total_seconds()
                    check_rate(t['q'], u, want, ['x', 'y'], where)
                    require(L.same_unit(t['q'].attrs['units'], rate(ou)), 'tendency in {!r} instead of per second {}', t['q'].attrs['units'], where)
                    require(w.tendency_properties['q']['units'] in L.UNITS and L.same_unit(w.tendency_properties['q']['units'], rate(ou)), 'declared in {!r} {}',
                            w.tendency_properties['q']['units'], where)
                    check_rate(t['r'], 'm', np.array([5. - 1000, 6. - 2000]) / dt.total_seconds(), ['n'], where)
                    require(L.close(L.lab_of(d['d']).order(['x', 'y']), (L.convert(OLD, su, u) if call < 2 else OLD[::-1]) * 2), 'diagnostic {}', where)
    # a whole time stepper
    dt = DTS[case['dt']]
    for su in (u, SPELL[u]):
        for tu in (rate(u), rate(SPELL[u], 'hour')):
            c1 = C.make('tend', {'q': {'dims': ['x', 'y'], 'units': u}}, {'q': {'units': tu}}, {}, lambda raw, t: ({'q': NEW * 1e-3}, {}))
            w = TimeDifferencingWrapper(AdamsBashforth(c1, order=1))
            st = {'q': C.da(['x', 'y'], OLD.copy(), su), 'time': T0, 'idle': C.da(['x'], [1., 2.], 'kg')}
            t, d = w(st, dt)
            obs.step()
            obs.state(['ab', u, su, tu, case['dt']])
            require(set(t) == {'q'}, 'tendencies {}', sorted(t))
            want = si(NEW * 1e-3, tu)
            u2 = t['q'].attrs.get('units')
            require(u2 in L.UNITS and L.compatible(u2, rate(u)), 'reported in {!r} {}', u2, case)
            require(L.same_unit(u2, w.tendency_properties['q']['units']), 'tendency in {!r}, declared {!r}', u2, w.tendency_properties['q']['units'])
            g = si(L.lab_of(t['q']).order(['x', 'y']), u2)
            scale = float(np.abs(si(L.convert(OLD, su, u), u)).max()) + L.UNITS[u][2]
            require(np.allclose(g, want, rtol=1e-6, atol=1e-12 * scale / dt.total_seconds() + 1e-12 * np.abs(want).max()),
                    'differenced {} (SI) instead of {} (q in {!r}, state {!r}, tendency {!r}, dt {})', g.tolist(), want.tolist(), u, su, tu, dt)


def run_errors(case, obs):
    base = C.make('step', {'q': {'dims': ['x'], 'units': 'm'}}, {'r': {'dims': ['x'], 'units': 'm'}}, {}, lambda raw, t: ({'r': raw['q']}, {}))
    w = TimeDifferencingWrapper(base)
    st, val = C.outcome(w, {'q': C.da(['x'], [1., 2.], 'm'), 'time': T0}, DTS[0])
    obs.step()
    obs.state('missing')
    require(st == 'err', 'tendency of an output that is not in the state: {!r}', val)
    for inu, outu in (('m', 'km'), ('degC', 'K')):
        st, val = C.outcome(lambda: C.make('step', {'q': {'dims': ['x'], 'units': inu}}, {'q': {'units': outu}}, {}, None, tendencies_in_diagnostics=True))
        obs.step()
        require(st == 'err', 'tendencies of q from {} to {} accepted', inu, outu)
    # a name clash with a diagnostic of a wrapped component must not overwrite it silently
    c1 = C.make('tend', {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}}, {'q_tendency_from_me': {'dims': ['x'], 'units': 'm s^-1'}},
                lambda raw, t: ({'q': raw['q']}, {'q_tendency_from_me': raw['q'] * 7}))
    s = AdamsBashforth(c1, tendencies_in_diagnostics=True, name='me')
    st, val = C.outcome(s, {'q': C.da(['x'], [1., 2.], 'm'), 'time': T0}, DTS[0])
    obs.step()
    require(st == 'err', 'name clash of tendency diagnostics: {!r}', val)
