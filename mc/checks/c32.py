"""C32: components, composites, wrappers, steppers and monitors can be displayed at any time, which changes nothing."""
import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np
import sympl
from mc.core import require
from mc import lab as L, comp as C
from mc.checks import c29

LEVEL = 'model_checking'
RULE = ('All expressions of one operator and chains of two of C29 (thorough: all of two and chains of three) (components of all kinds, scaling, reduced frequency, time differencing, steppers, composites): '
        'str, repr and format before the first call and after each call of a history of four states, the results of which are compared with the '
        'interpreter of C29; all monitors along a history of stores; all ways for up to three objects to hold one another as attributes, '
        'including cycles; components with zero to two quantities of distinct names in each declaration; nine steppers displayed at every subset of the moments of a run of 6 (thorough 8) steps. Displays are text, the same when nothing happened in between, call no object recursive that is not, and name the quantities of a component and the '
        'parts of a composite.')
ASSUMPTIONS = ['Attributes given to objects can be displayed themselves.']
warnings.filterwarnings('ignore')
SHOW = {'str': str, 'repr': repr, 'format': '{}'.format}


def cases(tier):
    chunk = 12
    for n in range(0, 3 if tier == 'quick' else 4):
        es = c29.exprs(n) if n < 2 or (n == 2 and tier == 'thorough') else c29.chains(n)
        for i in range(0, len(es), chunk):
            yield {'kind': 'exprs', 'exprs': es[i:i + chunk]}
    for a, b, c in itertools.product(C.KINDS + ('comp', 'stepper'), repeat=3):
        yield {'kind': 'cycle', 'kinds': [a, b, c]}
    yield {'kind': 'monitors'}
    for i in range(9):
        yield {'kind': 'steppers', 'which': i, 'len': 6 if tier == 'quick' else 8}
    for kind in C.KINDS:
        yield {'kind': 'declared', 'of': kind}


def show(obj, where):
    out = {}
    for n, f in SHOW.items():
        res, v = C.outcome(f, obj)
        require(res == 'ok', '{} of {} failed: {!r}', n, where, v)
        require(isinstance(v, str) and v, '{} of {} is {!r}', n, where, v)
        out[n] = v
    again = {n: f(obj) for n, f in SHOW.items()}
    require(again == out, '{}: displayed as {} and then as {}', where, out, again)
    return out


def base(obj):
    """Whether the object is a component displayed by what it declares."""
    return isinstance(getattr(type(obj), 'input_properties', None), dict)


def names(b):
    return [b] if isinstance(b.e, str) else [x for s in b.sub for x in names(s)]


def run(case, obs):
    globals()['run_' + case['kind']](case, obs)


def run_exprs(case, obs):
    for e in case['exprs']:
        b = c29.Built(e, [0])
        show(b.obj, e)
        for k, (st, si) in enumerate(c29.states()):
            where = '{} displayed before call {}'.format(e, k)
            before = L.fingerprint(st)
            want_m, want_d = b.run(si, k * c29.DT)
            r = b.obj(st) if b.kind in ('tend', 'diag') else b.obj(st, c29.DT)
            obs.step()
            obs.state([e, k])
            c29.check_call(b, e, st, before, r, want_m, want_d, where)
            f = L.fingerprint(list(r) if isinstance(r, tuple) else r)
            text = show(b.obj, '{} after call {}'.format(e, k))
            require(L.fingerprint(st) == before and L.fingerprint(list(r) if isinstance(r, tuple) else r) == f, '{}: data altered by displaying', where)
            require('recursive' not in text['repr'], '{}: nothing refers to itself in {}', where, text['repr'])
            if isinstance(e, str):
                for n in list(b.obj.input_properties) + list(b.obj.diagnostic_properties):
                    require(n in text['str'], '{}: {} is not in {}', where, n, text['str'])
            if not isinstance(e, str) and e[0] == 'comp':
                for x in b.sub:
                    require(str(x.obj) in text['str'] or type(x.obj).__name__ in text['str'], '{}: {} lacks {}', where, text['str'], type(x.obj))
            obs.outcome([e[0] if not isinstance(e, str) else e, len(text['str'].splitlines())])


def thing(kind):
    if kind == 'comp':
        return sympl.DiagnosticComponentComposite(thing('diag'))
    if kind == 'stepper':
        return sympl.AdamsBashforth(thing('tend'), order=1)
    inp = {'q': {'dims': ['x'], 'units': 'm'}}
    main = {} if kind == 'diag' else {'q': {'units': 'm' if kind == 'step' else 'm s^-1'}}
    diag = {'d': {'dims': ['x'], 'units': 'm'}}
    return C.make(kind, inp, main, diag, lambda raw, dt: ({} if kind == 'diag' else {'q': raw['q']}, {'d': raw['q'] * 2}))


def closure(n, edges):
    reach = set(edges)
    while True:
        more = {(i, l) for i, j in reach for k, l in reach if j == k} - reach
        if not more:
            return reach
        reach |= more


def run_cycle(case, obs):
    n = len(case['kinds'])
    edges = [(i, j) for i in range(n) for j in range(n)]
    for bits in range(2 ** len(edges)):
        objs = [thing(k) for k in case['kinds']]
        for k, (i, j) in enumerate(edges):
            if bits >> k & 1:
                setattr(objs[i], 'other%d' % j, objs[j])
        for i, o in enumerate(objs):
            # a recursive attribute is displayed as such
            t = show(o, '{} with references {:b}'.format(case['kinds'], bits))
            obs.step()
            reach = closure(n, [ij for k, ij in enumerate(edges) if bits >> k & 1])
            if not any((j, j) in reach and ((i, j) in reach or i == j) for j in range(n)):
                require('recursive' not in t['repr'], 'nothing refers to itself in {} with references {:b}: {}', case['kinds'], bits, t['repr'])
            obs.outcome([min(len(t['repr']) // 200, 50)])
        obs.state([case['kinds'], bits])
        q = C.da(['x'], np.array([1., 2.]), 'm')
        for k, o in zip(case['kinds'], objs):
            _, d = C.call({'comp': 'diag', 'stepper': 'step'}.get(k, k), o, {'q': q, 'time': c29.T0})
            require(np.array_equal(d['d'].values, [2., 4.]), '{} gives {} after being displayed', k, d)


LABELS = {'inputs': 'input_properties', 'tendencies': 'tendency_properties', 'outputs': 'output_properties', 'diagnostics': 'diagnostic_properties'}


def run_declared(case, obs):
    """Distinct names in each declaration, with and without aliases, instance and class declarations."""
    kind = case['of']
    main = {'tend': 'tendencies', 'impl': 'tendencies', 'step': 'outputs'}.get(kind)
    cats = ['inputs', 'diagnostics'] + ([main] if main else [])
    for counts in itertools.product(range(3), repeat=len(cats)):
        for alias in (False, True):
            decl = {}
            for cat, n in zip(cats, counts):
                decl[cat] = {}
                for i in range(n):
                    pr = decl[cat]['quantity_%s_%d' % (cat[:2], i)] = {'dims': ['x'], 'units': 'm'}
                    if alias:
                        pr['alias'] = '%s%d' % (cat[0].upper(), i)
            c = C.make(kind, decl['inputs'], decl.get(main, {}), decl['diagnostics'],
                       lambda raw, dt: tuple({p.get('alias', n): np.ones(2) for n, p in decl.get(k, {}).items()} for k in (main, 'diagnostics')))
            for when in ('before', 'after'):
                text = show(c, '{} {}'.format(kind, decl))['str']
                every = {n: cat for cat in cats for n in decl[cat]}
                for n in every:
                    require(n in text, '{}: {} is not named in {}', kind, n, text)
                for line in text.splitlines():
                    label = line.strip().split(':')[0]
                    if label in LABELS:
                        got = {n for n in every if n in line}
                        require(got == set(decl.get(label, {})), '{}: {} are shown as {} in {}', kind, sorted(got), label, text)
                obs.step()
                obs.state([kind, counts, alias, when])
                if when == 'before':
                    st = {n: C.da(['x'], np.ones(2), 'm') for n in decl['inputs']}
                    st.update(other=C.da(['x'], np.ones(2), 'm'), time=c29.T0)
                    if decl['inputs']:
                        C.call(kind, c, st)
            obs.outcome([kind, counts])


def run_steppers(case, obs):
    """Displays at every subset of the moments of a run of a time stepper against the run without displays."""
    n = case['len']

    def build():
        def fn(k):
            def f(raw, t):
                f.n += 1
                return {'q': -raw['q'] * 0.01 * k + f.n}, {'d%d' % k: raw['q'] * 1.}
            f.n = 0
            return f
        parts = [C.make('tend', {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}}, {'d%d' % k: {'dims': ['x'], 'units': 'm'}}, fn(k)) for k in (1, 2)]
        w = case['which']
        if w < 4:
            return sympl.AdamsBashforth(*parts, order=w + 1)
        if w < 7:
            return [lambda: sympl.Leapfrog(*parts), lambda: sympl.SSPRungeKutta(*parts, stages=2), lambda: sympl.SSPRungeKutta(*parts, stages=3)][w - 4]()
        if w == 7:
            return sympl.AdamsBashforth(sympl.UpdateFrequencyWrapper(parts[0], c29.DT * 2), sympl.TimeDifferencingWrapper(
                C.make('step', {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm'}}, {}, lambda raw, t: ({'q': raw['q'] * 2.}, {}))), order=4)
        return sympl.AdamsBashforth(*parts, order=3, tendencies_in_diagnostics=True, name='n')

    def go(shown):
        s = build()
        out = []
        st = {'q': C.da(['x'], np.array([1., 2.]), 'm'), 'time': c29.T0}
        for k in range(n):
            if shown >> k & 1:
                show(s, 'stepper {} before step {}'.format(case['which'], k))
            diag, new = s(st, c29.DT)
            new['time'] = st['time'] + c29.DT
            out.append([L.fingerprint(diag), L.fingerprint(new)])
            obs.step()
            st = new
        return out
    want = go(0)
    for shown in range(1, 2 ** n):
        got = go(shown)
        obs.state([case, shown])
        for k in range(n):
            require(got[k] == want[k], 'stepper {} displayed before the steps {}: step {} gives {} instead of {}', case['which'], [i for i in range(n) if shown >> i & 1], k,
                    got[k], want[k])
    obs.outcome([case['which'], len(want)])


def run_monitors(case, obs):
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
    try:
        mons = [sympl.NetCDFMonitor(os.path.join(d, 'a.nc')), sympl.NetCDFMonitor(os.path.join(d, 'b.nc'), write_on_store=True, aliases={'q': 'Q'}, store_names=['q']),
                sympl.RestartMonitor(os.path.join(d, 'r.nc')), sympl.PlotFunctionMonitor(lambda fig, state: None, interactive=False)]
        mons.append(sympl.MonitorComposite(*mons))
        for m in mons:
            show(m, type(m).__name__)
        for k, (st, si) in enumerate(c29.states()):
            st = {n: st[n] for n in ('p', 'time')} if k == 2 else {n: st[n] for n in ('extra', 'time')}
            for m in mons[:-1] if k != 2 else ():
                m.store(st) if not (isinstance(m, sympl.NetCDFMonitor) and m is mons[1]) else None
                obs.step()
            for m in mons:
                before = L.fingerprint(st)
                show(m, '{} after {} stores'.format(type(m).__name__, k))
                require(L.fingerprint(st) == before, 'state altered by displaying')
                obs.state([type(m).__name__, k])
        mons[0].write()
        import netCDF4
        with netCDF4.Dataset(os.path.join(d, 'a.nc')) as ds:
            require(len(ds.dimensions['time']) == 3, 'the file has {} records', len(ds.dimensions['time']))
        obs.outcome('monitors')
    finally:
        shutil.rmtree(d, ignore_errors=True)
