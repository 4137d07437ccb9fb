"""C29: wrappers, composites and steppers compose: all expressions over them against an interpreter."""
import itertools
import warnings
from datetime import datetime, timedelta
import numpy as np
import sympl
from sympl import (AdamsBashforth, SSPRungeKutta, ScalingWrapper, UpdateFrequencyWrapper, TimeDifferencingWrapper, ConstantTendencyComponent,
                   RelaxationTendencyComponent, TendencyComponentComposite, ImplicitTendencyComponentComposite, DiagnosticComponentComposite)
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All expressions of up to two (thorough: three) operators, and all chains of three (four) unary ones, out of scaling, reduced update frequency, time differencing, Adams-Bashforth '
        'of order 1, 2 and 3, Runge-Kutta with 2 and 3 stages, composites and steppers of two, over nine components of all kinds (with aliases, '
        'wildcards, mixed units and dimension orders, implicit, constant, relaxing); each is built from the real classes, called along a '
        'history of four states with changing values, units and dimension orders, and every result (also in the same objects throughout) compared with an interpreter of the '
        'expression on plain arrays that keeps its own memory of updates and tendencies; no call may alter its state or an earlier result.')
SCENARIOS = ['wrappers']
ASSUMPTIONS = ['All states of a history are one timestep apart.', 'Leapfrog, which writes to the state it is given, is left to C08.',
               'Quantities which a wrapped stepper merely carries over are compared only where nothing in the expression scales inputs.']
warnings.filterwarnings('ignore')
T0 = datetime(2000, 1, 1)
H = 10.0
DT = timedelta(seconds=H)
INTERVAL = timedelta(seconds=15)
DIMS = {'q': ['x', 'y'], 'p': ['x'], 'equilibrium_p': ['x'], 'p_relaxation_timescale': []}
SI = {'q': 'm', 'p': 'K', 'equilibrium_p': 'K', 'p_relaxation_timescale': 's'}

# name: (kind, tendencies/outputs, diagnostic or None, function on SI arrays of the canonical dims)
ATOMS = {
    't': ('tend', ('q',), True, lambda s, dt: ({'q': s['q'] * 0.25 + 0.125 * s['p'][:, None]}, s['q'] * 2)),
    'w': ('tend', ('q',), True, lambda s, dt: ({'q': -0.5 * s['q']}, s['q'] + 1)),
    'n': ('tend', ('p', 'q'), False, lambda s, dt: ({'q': s['q'] * 0.03125, 'p': -s['p'] * 0.0625}, None)),
    'i': ('impl', ('p', 'q'), True, lambda s, dt: ({'q': s['q'] * dt * 0.01, 'p': s['p'] / dt}, s['q'] * dt)),
    's': ('step', ('q',), True, lambda s, dt: ({'q': s['q'] * 0.5 + dt * 0.125 * s['p'][:, None]}, s['q'] * 3)),
    'u': ('step', ('p', 'q'), True, lambda s, dt: ({'q': -s['q'], 'p': s['p'] * 0.75 + 0.5}, s['q'] - 2)),
    'k': ('tend', ('p',), False, lambda s, dt: ({'p': np.array([36., -72.]) / 3600}, None)),
    'r': ('tend', ('p',), False, lambda s, dt: ({'p': (s['equilibrium_p'] - s['p']) / s['p_relaxation_timescale']}, None)),
    'd': ('diag', (), True, lambda s, dt: ({}, s['q'] * 4 - s['p'][:, None])),
}
INPUTS = {'k': (), 'r': ('p', 'equilibrium_p', 'p_relaxation_timescale'), 'w': ('q',)}
DECL = {'t': ({'q': {'dims': ['y', 'x'], 'units': 'cm', 'alias': 'Q'}, 'p': {'dims': ['x'], 'units': 'K'}}, {'q': {'units': 'cm s^-1'}}),
        'w': ({'q': {'dims': ['*'], 'units': 'km'}}, {'q': {'units': 'km hour^-1', 'dims': ['*']}}),
        'n': ({'q': {'dims': ['x', 'y'], 'units': 'm'}, 'p': {'dims': ['*'], 'units': 'mK', 'alias': 'P'}}, {'q': {'units': 'm s^-1'}, 'p': {'units': 'mK s^-1', 'dims': ['x']}}),
        'i': ({'q': {'dims': ['x', 'y'], 'units': 'm'}, 'p': {'dims': ['x'], 'units': 'K'}}, {'q': {'units': 'cm s^-1', 'dims': ['y', 'x']}, 'p': {'units': 'K day^-1'}}),
        's': ({'q': {'dims': ['x', 'y'], 'units': 'cm'}, 'p': {'dims': ['x'], 'units': 'K'}}, {'q': {'units': 'm', 'dims': ['y', 'x'], 'alias': 'qq'}}),
        'u': ({'q': {'dims': ['*', 'x'], 'units': 'm'}, 'p': {'dims': ['x'], 'units': 'mK'}}, {'q': {'units': 'm'}, 'p': {'units': 'K'}}),
        'd': ({'q': {'dims': ['y', 'x'], 'units': 'm'}, 'p': {'dims': ['x'], 'units': 'K'}}, {})}
DIAG_DECL = {'t': (['x', 'y'], 'm'), 'w': (['*'], 'cm'), 'i': (['y', 'x'], 'km'), 's': (['x', 'y'], 'm'), 'u': (['*', 'x'], 'cm'), 'd': (['x', 'y'], 'm')}
UN_TEND = ['scale', 'freq', 'ab1', 'ab2', 'ab3', 'rk2', 'rk3']
UN_STEP = ['scale', 'freq', 'td']
STEPPERS = {'ab1': (AdamsBashforth, {'order': 1}), 'ab2': (AdamsBashforth, {'order': 2}), 'ab3': (AdamsBashforth, {'order': 3}),
            'rk2': (SSPRungeKutta, {'stages': 2}), 'rk3': (SSPRungeKutta, {'stages': 3})}
BIN_STEP = ['ab2', 'rk3']
HOOK = None      # called at every computation of an atom, of the real object and in the interpreter


def kind(e):
    if isinstance(e, str):
        return ATOMS[e][0]
    if e[0] in STEPPERS:
        return 'step'
    if e[0] == 'td':
        return 'impl'
    if e[0] == 'comp':
        ks = [kind(x) for x in e[1:]]
        return ks[0] if ks[0] == ks[1] else 'impl'
    return kind(e[1])


_exprs = {0: sorted(ATOMS)}


def exprs(n):
    """All expressions with n operators."""
    if n not in _exprs:
        out = []
        for e in exprs(n - 1):
            k = kind(e)
            for op in UN_TEND if k in ('tend', 'impl') else UN_STEP if k == 'step' else ['scale', 'freq']:
                out.append([op, e])
        for a in range(n):
            for x, y in itertools.product(exprs(a), exprs(n - 1 - a)):
                ks = {kind(x), kind(y)}
                if ks <= {'tend', 'impl'}:
                    out.append(['comp', x, y])
                    if a <= n - 1 - a:
                        for op in BIN_STEP:
                            out.append([op, x, y])
                elif ks == {'diag'}:
                    out.append(['comp', x, y])
        _exprs[n] = out
    return _exprs[n]


def chain(e):
    return isinstance(e, str) or (len(e) == 2 and chain(e[1]))


def chains(n):
    """All expressions of n operators of one argument."""
    if n == 0:
        return sorted(ATOMS)
    return [[op, e] for e in chains(n - 1) for op in (UN_TEND if kind(e) in ('tend', 'impl') else UN_STEP if kind(e) == 'step' else ['scale', 'freq'])]


def cases(tier):
    chunk = 12
    for n in range(0, 3 if tier == 'quick' else 4):
        es = exprs(n)
        for i in range(0, len(es), chunk):
            yield {'exprs': es[i:i + chunk]}
    es = chains(3 if tier == 'quick' else 4)
    for i in range(0, len(es), chunk):
        yield {'exprs': es[i:i + chunk]}


def raw_fn(a, name):
    fn = ATOMS[a][3]
    inp, main = DECL[a]

    def canon(arr, dims, q, units):
        d = []
        for x in dims:
            d += (([y for y in DIMS[q] if y not in dims]) if x == '*' else [x])
        arr = np.asarray(arr, dtype=float)
        return arr, d

    def call(raw, dt):
        if HOOK is not None:
            HOOK('real')
        s = {}
        shape = {'x': 2, 'y': 3}
        for q, p in inp.items():
            arr, d = canon(raw[p.get('alias', q)], p['dims'], q, p['units'])
            if '*' in p['dims'] and q == 'q' and p['dims'] == ['*']:
                arr = np.asarray(arr)        # elementwise only
            else:
                arr = L.Lab(d, arr.reshape([shape[x] for x in d])).order(DIMS[q])
            s[q] = L.convert(arr, p['units'], SI[q])
        m, dg = fn(s, None if dt is None else dt.total_seconds())
        out = {}
        for q, p in main.items():
            v = np.asarray(m[q])
            dims = p.get('dims', inp[q]['dims'])
            base = SI[q] + (' s^-1' if ATOMS[a][0] in ('tend', 'impl') else '')
            v = L.convert(v, base, p['units'])
            out[p.get('alias', inp[q].get('alias', q))] = put(v, dims, q, inp)
        dd = {}
        if dg is not None:
            dims, u = DIAG_DECL[a]
            dd[name] = put(L.convert(np.asarray(dg), 'm', u), dims, 'q', inp)
        return out, dd

    def put(v, dims, q, inp):
        if dims == ['*']:
            return v.reshape(-1)
        if dims == ['*', 'x']:
            return v.T
        return v.T if dims == ['y', 'x'] else v
    return call


class Built(object):
    """The real object and the interpreter of one expression."""

    def __init__(self, e, count):
        self.e = e
        self.kind = kind(e)
        if isinstance(e, str):
            k, main, has, self.fn = ATOMS[e]
            self.name = 'd%d' % count[0]
            count[0] += 1
            self.main, self.diags = main, ((self.name,) if has else ())
            self.inputs = INPUTS.get(e, ('q', 'p'))
            if e == 'k':
                self.obj = ConstantTendencyComponent({'p': C.da(['x'], np.array([36., -72.]), 'K/hour')})
            elif e == 'r':
                self.obj = RelaxationTendencyComponent('p', 'mK')
            else:
                dg = {self.name: {'dims': DIAG_DECL[e][0], 'units': DIAG_DECL[e][1]}} if has else {}
                self.obj = C.make(k, DECL[e][0], None if k == 'diag' else DECL[e][1], dg, raw_fn(e, self.name), name='Atom' + e)
            return
        op = e[0]
        self.sub = [Built(x, count) for x in e[1:]]
        self.main = tuple(sorted(set(n for b in self.sub for n in b.main)))
        self.diags = tuple(n for b in self.sub for n in b.diags)
        self.inputs = tuple(sorted(set(n for b in self.sub for n in b.inputs)))
        objs = [b.obj for b in self.sub]
        if op == 'scale':
            self.fi = {n: 2. for n in self.inputs if n == 'q'}
            self.fm = {self.main[-1]: 3.} if self.main else {}
            self.fd = {self.diags[0]: 5.} if self.diags else {}
            kw = {'output_scale_factors' if self.kind == 'step' else 'tendency_scale_factors': dict(self.fm)} if self.kind != 'diag' else {}
            self.obj = ScalingWrapper(objs[0], input_scale_factors=dict(self.fi), diagnostic_scale_factors=dict(self.fd), **kw)
        elif op == 'freq':
            self.last = None
            self.obj = UpdateFrequencyWrapper(objs[0], INTERVAL)
        elif op == 'td':
            self.obj = TimeDifferencingWrapper(objs[0])
        elif op == 'comp':
            cls = {'tend': TendencyComponentComposite, 'impl': ImplicitTendencyComponentComposite, 'diag': DiagnosticComponentComposite}[self.kind]
            self.obj = cls(*objs)
        else:
            cls, kw = STEPPERS[op]
            self.hist = []
            # every quantity that is stepped is an input too
            self.inputs = tuple(sorted(set(self.inputs) | set(self.main)))
            self.obj = cls(*objs, **kw)

    def run(self, s, t):
        """(tendencies or new values, diagnostics) on SI arrays."""
        e = self.e
        if isinstance(e, str):
            if HOOK is not None and e not in ('k', 'r'):
                HOOK('model')
            m, d = self.fn(s, H)
            return m, ({self.name: d} if d is not None else {})
        op = e[0]
        if op == 'scale':
            m, d = self.sub[0].run({n: v * self.fi.get(n, 1.) for n, v in s.items()}, t)
            return {n: v * self.fm.get(n, 1.) for n, v in m.items()}, {n: v * self.fd.get(n, 1.) for n, v in d.items()}
        if op == 'freq':
            if self.last is None or t >= self.last + INTERVAL:
                self.value = self.sub[0].run(s, t)
                self.last = t
            return self.value
        if op == 'td':
            m, d = self.sub[0].run(s, t)
            return {n: (v - s[n]) / H for n, v in m.items()}, d
        if op == 'comp':
            return self.total(s, t)
        if op in ('ab1', 'ab2', 'ab3'):
            f, d = self.total(s, t)
            self.hist.append(f)
            order = min(int(op[2]), len(self.hist))
            w = {1: [1.], 2: [1.5, -.5], 3: [23 / 12., -4 / 3., 5 / 12.]}[order]
            return {n: s[n] + H * sum(c * self.hist[-1 - j][n] for j, c in enumerate(w)) for n in self.main}, d

        def euler(x):
            f, dg = self.total(x, t)
            return dict(x, **{n: x[n] + H * f[n] for n in self.main}), dg
        s1, d = euler(s)
        s2, _ = euler(s1)
        if op == 'rk2':
            return {n: .5 * (s[n] + s2[n]) for n in self.main}, d
        mid = dict(s, **{n: .75 * s[n] + .25 * s2[n] for n in self.main})
        s3, _ = euler(mid)
        return {n: s[n] / 3 + s3[n] * 2 / 3 for n in self.main}, d

    def total(self, s, t):
        m, d = {}, {}
        for b in self.sub:
            m2, d2 = b.run(s, t)
            for n, v in m2.items():
                m[n] = m[n] + v if n in m else v
            d.update(d2)
        return m, d


def states():
    units = [('m', 'K', ['x', 'y']), ('km', 'mK', ['y', 'x']), ('cm', 'K', ['y', 'x']), ('m', 'mK', ['x', 'y'])]
    for k, (uq, up, dims) in enumerate(units):
        si = {'q': np.array([[1., 2., -3.], [4., -5., 6.5]]) * (k + 1) - 2 * k, 'p': np.array([280., 290.]) + 5 * k * k,
              'equilibrium_p': np.array([300., 260.]) - k, 'p_relaxation_timescale': np.array(50. + 10 * k)}
        q = L.convert(si['q'], 'm', uq)
        st = {'q': C.da(dims, q.T.copy() if dims[0] == 'y' else q.copy(), uq), 'p': C.da(['x'], L.convert(si['p'], 'K', up), up),
              'equilibrium_p': C.da(['x'], si['equilibrium_p'].copy(), 'K'), 'p_relaxation_timescale': C.da([], si['p_relaxation_timescale'] / 60., 'minute'),
              'extra': C.da(['z'], np.arange(4.) + k, 'kg m^-3'), 'time': T0 + k * DT}
        yield st, si


def has_scale(e):
    return not isinstance(e, str) and (e[0] == 'scale' or any(has_scale(x) for x in e[1:]))


def compare(got, want, base, where, what):
    require(set(got) >= set(want), '{}: {} {} instead of {}', where, what, sorted(got), sorted(want))
    for n, v in want.items():
        u = got[n].attrs.get('units')
        require(u in L.UNITS and L.compatible(u, base(n)), '{}: {} {} has units {!r}', where, what, n, u)
        dims = ['x'] if n == 'p' else ['x', 'y']
        require(set(got[n].dims) == set(dims), '{}: {} {} has dims {}', where, what, n, got[n].dims)
        g = L.convert(L.lab_of(got[n]).order(dims).astype(float), u, base(n))
        scale = np.abs(v).max() + 1e-3
        require(np.allclose(g, v, rtol=1e-8, atol=1e-8 * scale), '{}: {} {} is {}, expected {}', where, what, n, g.tolist(), np.asarray(v).tolist())


def run(case, obs):
    for e in case['exprs']:
        one(e, obs)
        if chain(e) or isinstance(e[1], str):
            one(e, obs, True)


def one(e, obs, reuse=False):
    b = Built(e, [0])
    later = []
    used = None
    for k, (st, si) in enumerate(states()):
        if reuse:
            # all in the same objects: contents of the second and fourth states alternate
            st, si = list(states())[k % 2 * 3]
            st['time'] = T0 + k * DT
            si = {n: v + k for n, v in si.items()}
            for n in ('q', 'p', 'equilibrium_p'):
                st[n].values[...] += L.convert(np.array(k * 1.), SI[n], st[n].attrs['units'])
            st['p_relaxation_timescale'].values[...] += k / 60.
            used = st = C.refill(used, st) if used else st
        where = '{} call {}'.format(e, k)
        before = L.fingerprint(st)
        want_m, want_d = b.run(si, k * DT)
        r = b.obj(st) if b.kind in ('tend', 'diag') else b.obj(st, DT)
        obs.step()
        obs.state([e, k])
        check_call(b, e, st, before, r, want_m, want_d, where)
        for f, old, j in later if not reuse else ():
            require(f == L.fingerprint(old), '{}: the results of call {} were altered', where, j)
        later.append((L.fingerprint(list(r) if isinstance(r, tuple) else r), list(r) if isinstance(r, tuple) else r, k))
        obs.outcome([b.kind, sorted((n, np.round(v, 6).ravel()[:2].tolist()) for n, v in want_m.items())])


def check_call(b, e, st, before, r, want_m, want_d, where):
    d = L.diff_fingerprints(before, L.fingerprint(st))
    require(not d, '{}: state altered: {}', where, d)
    if b.kind == 'step':
        diags, main = r
        compare(main, {n: want_m[n] for n in b.main}, lambda n: SI[n], where, 'output')
        if e[0] in STEPPERS:
            require(set(main) == set(st), '{}: new state has {}', where, sorted(main))
            for n in st:
                if n not in b.main:
                    require(L.fingerprint(main[n]) == L.fingerprint(st[n]), '{}: {} was not carried over', where, n)
        elif has_scale(e):
            require(set(main) >= set(b.main), '{}: outputs {}', where, sorted(main))
    elif b.kind == 'diag':
        diags, main = r, {}
    else:
        main, diags = r
        compare(main, {n: want_m[n] for n in b.main}, lambda n: SI[n] + ' s^-1', where, 'tendency')
        require(set(main) == set(b.main) == set(b.obj.tendency_properties), '{}: tendencies {}', where, sorted(main))
    require(set(diags) == set(want_d) == set(b.diags) == set(b.obj.diagnostic_properties), '{}: diagnostics {}', where, sorted(diags))
    compare(diags, want_d, lambda n: 'm', where, 'diagnostic')
