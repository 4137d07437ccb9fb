"""C27: built-in constant and relaxation components, alias lookup."""
import itertools
import numpy as np
import sympl
from sympl import (ConstantTendencyComponent, ConstantDiagnosticComponent, RelaxationTendencyComponent, TendencyComponentComposite,
                   AdamsBashforth, get_component_aliases, DataArray)
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('Constant components: all dims orders of up to three names, lengths 0..4, six dtypes, units with and without offset, one and '
        'two quantities, all histories of up to three (thorough: four) of {call on five states, alter the last result in place, '
        'through a stepper, through a composite, change the dictionary given}. Relaxation: all unit triples x all dimension '
        'subsets and orders of its three inputs x dtypes, and all combinations of signs and magnitudes, point by point. Aliases: all assignments of aliases to the four kinds of '
        'declarations of up to three components of every kind and to two quantities.')
SCENARIOS = ['basic']
ASSUMPTIONS = ['Altering the arrays that were given to a constant component is documented to alter its results and not explored.']
SH = {'x': 2, 'y': 3, 'z': 4}
DTYPES = ['float64', 'float32', 'int64', 'int32', 'bool', 'complex128']
UNITS = ['m', 'K', 'degC', '', '%', 'm s^-1', 'K day^-1', 'W m^-2']


def cases(tier):
    deep = tier != 'quick'
    for dims in L.arrangements(['x', 'y', 'z']):
        for dt in DTYPES:
            yield {'kind': 'const', 'dims': dims, 'dtype': dt, 'deep': deep}
    us = [('K', 'K', 'K'), ('degC', 'K', 'degC'), ('K', 'degC', 'degF'), ('degC', 'degC', 'degC'), ('degF', 'degF', 'K'), ('K', 'mK', 'degC')]
    us = list(itertools.product(['K', 'degC', 'degF', 'mK'], repeat=3)) + list(itertools.product(['m s^-1', 'km/hour', 'cm s^-1'], repeat=3)) + \
        list(itertools.product(['', '%', 'kg/kg', 'g/kg'], repeat=3)) + list(itertools.product(['Pa', 'hPa', 'mbar'], repeat=3))
    for u in us:
        yield {'kind': 'relax_units', 'u': list(u)}
    for u in ('s', 'minute', 'hour', 'days', 'ms', 'year'):
        if u in L.UNITS:
            yield {'kind': 'relax_values', 'units': u}
    pool = list(L.arrangements(['x', 'y', 'z'], 3 if deep else 2)) + ([] if deep else [['x', 'y', 'z'], ['z', 'x', 'y']])
    for a in pool:
        for b in pool:
            yield {'kind': 'relax_dims', 'dims': [a, b], 'pool': pool if deep else pool}
    for i in range(16):
        for j in range(16):
            yield {'kind': 'alias', 'sel': [i, j], 'deep': deep}


def run(case, obs):
    globals()['run_' + case['kind']](case, obs)


# ---------------------------------------------------------------- constants
def states():
    t = sympl.datetime(2000, 1, 1)
    yield {'time': t}
    yield {'time': t, 'q': C.da(('x',), [1., 2., 3.], 'kg'), 'd': C.da((), 4., 's')}
    yield {'time': sympl.datetime(2001, 2, 3, calendar='360_day'), 'other': C.da(('y', 'x'), np.zeros((5, 1)), 'Pa')}
    yield {'time': None}
    yield {'q': 3, 'd': 'text', 'time': sympl.datetime(1, 1, 1)}


def run_const(case, obs):
    dims, dt = case['dims'], case['dtype']
    vals = L.values_for([SH[d] for d in dims], start=1.0, dtype=float)
    vals = (np.arange(vals.size).reshape(vals.shape) % 2 == 0) if dt == 'bool' else vals.astype(dt)
    ops = ['call%d' % i for i in range(5)] + ['alter', 'stepper', 'composite', 'dict']
    hist = []
    for n in range(1, 5 if case['deep'] else 4):
        for h in itertools.product(ops, repeat=n):
            if h[-1].startswith(('alter', 'dict')) or (n >= 3 and h[0].startswith('call') and h[0] > 'call1'):
                continue
            hist.append(h)
    unit = UNITS[(len(dims) * 3 + DTYPES.index(dt)) % len(UNITS)]
    for kind in ('tend', 'diag'):
        for extra in (0, 1):
            # every history on the first configuration, short ones on all units
            for u in UNITS:
                for h in hist:
                    if u != unit and len(h) > 1:
                        continue
                    if dt != 'float64' and len(h) > 2:
                        continue
                    history(kind, dims, vals, u, extra, h, obs)
    if not dims:
        for k, n in (('zero', 0), ('one', 1), ('four', 4)):
            for kind in ('tend', 'diag'):
                history(kind, ['x', 'y'], np.ones((n, 2)) * 3, 'm', 1, ('call0', 'alter', 'call1'), obs)


def history(kind, dims, vals, unit, extra, h, obs):
    given = {'q': C.da(dims, vals.copy(), unit)}
    diag = {'d': C.da(('w',), np.array([5., 6.]), 'degC')} if extra else {}
    want = {k: L.lab_of(v) for k, v in list(given.items()) + list(diag.items())}
    g, dg = dict(given), dict(diag)
    if kind == 'tend':
        comp = ConstantTendencyComponent(g, dg) if extra else ConstantTendencyComponent(g)
    else:
        both = dict(g, **dg)
        g = dg = both
        comp = ConstantDiagnosticComponent(both)
    last = None
    sts = list(states())
    for op in h:
        got = None
        if op.startswith('call'):
            s = dict(sts[int(op[4:])])
            before = L.fingerprint(s)
            got = comp(s)
            require(L.fingerprint(s) == before, 'a constant component altered the state')
        elif op == 'alter':
            if last is not None:
                for part in last if isinstance(last, tuple) else (last,):
                    for v in part.values():
                        v.values[...] = 0
                        v.attrs['units'] = 'spam'
                        v.attrs['more'] = 1
                    part.clear()
            continue
        elif op == 'dict':
            g['q2'] = C.da((), 1., 'm')
            g.pop('q', None)
            dg['d'] = C.da((), 1., 'm')
            continue
        elif op == 'composite':
            cls = TendencyComponentComposite if kind == 'tend' else sympl.DiagnosticComponentComposite
            got = cls(comp)({'time': sympl.datetime(2000, 1, 1)})
        elif op == 'stepper':
            if kind != 'tend' or vals.dtype.kind not in 'f' or unit in ('degC', 'degF'):
                continue
            tu = (unit + ' s').strip()
            s = {'time': sympl.datetime(2000, 1, 1), 'q': C.da(dims, np.zeros(vals.shape), tu if unit != 'm' else 'm s')}
            if not L.UNITS.__contains__(s['q'].attrs['units']):
                continue
            diags, new = AdamsBashforth(comp, order=1)(s, C.DT)
            require(L.close(new['q'].values, vals.astype(float) * 10., rtol=1e-6), 'a step from 0 with a constant tendency {} gave {}', vals.ravel()[:4], new['q'].values.ravel()[:4])
            require(set(diags) == set(diag), 'diagnostics of the stepper {}', set(diags))
            continue
        tends, diags = got if kind == 'tend' else ({}, got)
        for d, names in ((tends, ['q'] if kind == 'tend' else []), (diags, (['q'] if kind == 'diag' else []) + sorted(diag))):
            require(set(d) == set(names), '{} after {}: returned {}', kind, h, sorted(d))
            for n in names:
                w, v = want[n], d[n]
                require(isinstance(v, DataArray), '{} is {}', n, type(v))
                require(v.dims == w.dims and v.dtype == w.data.dtype and L.close(v.values, w.data, exact=True) and v.attrs == {'units': w.units},
                        '{} component after {}: {} is {} {} {} instead of {} {} {}', kind, h, n, v.dims, v.values.ravel()[:4], v.attrs, w.dims, w.data.ravel()[:4], w.units)
        last = got
        obs.step()
        obs.outcome([kind, sorted(diags), v.dims])
    obs.state([kind, dims, str(vals.dtype), unit, extra, h])


# --------------------------------------------------------------- relaxation
def relax(labs, decl, dts, name, obs):
    """labs: value, equilibrium, timescale as model arrays."""
    comp = RelaxationTendencyComponent(name, decl)
    keys = [name, 'equilibrium_' + name, name + '_relaxation_timescale']
    state = {'time': sympl.datetime(2000, 1, 1)}
    for k, lab, dt in zip(keys, labs, dts):
        state[k] = C.da(lab.dims, lab.data.astype(dt), lab.units)
    before = L.fingerprint(state)
    for i in range(2):
        tends, diags = comp(state)
        require(set(tends) == {name} and diags == {}, 'relaxation returned {} and {}', sorted(tends), sorted(diags))
        got = tends[name]
        alldims = [d for lab in labs for d in lab.dims]
        alldims = [d for k, d in enumerate(alldims) if d not in alldims[:k]]
        require(sorted(got.dims) == sorted(alldims), 'the tendency has dims {} for inputs {}', got.dims, [l.dims for l in labs])
        u = got.attrs['units']
        wantu = {'T': 'K s^-1', 'L/t': 'm s^-1 s^-1', '1': 's^-1', 'P': 'Pa s^-1'}[L.UNITS[decl][0]]
        require(u in L.UNITS and L.compatible(u, wantu), 'the tendency of a relaxation in {} has units {}', decl, u)
        lens = L.lengths_of(dict(enumerate(labs)))
        v, e, tau = (lab.order(got.dims, lens) for lab in labs)
        si = (L.UNITS[labs[1].units][1] * e + L.UNITS[labs[1].units][2]) - (L.UNITS[labs[0].units][1] * v + L.UNITS[labs[0].units][2])
        si = si / (tau * L.UNITS[labs[2].units][1])
        scale = np.abs(si).max() if si.size else 1.0
        have = got.values * L.UNITS[u][1]
        tol = 1e-9 if set(dts) <= {'float64', 'int64'} else 1e-4
        require(have.shape == si.shape and np.all(np.abs(have - si) <= tol * max(scale, 1e-30)), 'relaxation of {} {} (declared in {}): {} {} instead of {} per second in SI',
                [l.units for l in labs], [l.dims for l in labs], decl, have.ravel()[:4], u, si.ravel()[:4])
        require(L.fingerprint(state) == before, 'relaxation altered the state')
        obs.step()
    obs.outcome([u, got.dims])


def run_relax_units(case, obs):
    decl, uq, ue = case['u']
    base = {'T': (280., 40.), 'L/t': (3., 2.), '1': (0.5, .25), 'P': (9e4, 1e3)}[L.UNITS[decl][0]]
    for ut, f in (('s', 1.), ('minute', 60.), ('hour', 3600.), ('days', 86400.)):
        for k, dts in enumerate([('float64',) * 3, ('float32', 'float64', 'float64'), ('float32', 'float32', 'float32')]):
            for name in ('air_temperature', 'q', 'equilibrium_q'):
                si = L.values_for((2, 3), *base)
                labs = [L.Lab(('x', 'y'), (si - L.UNITS[uq][2]) / L.UNITS[uq][1], uq),
                        L.Lab(('y', 'x'), ((si[::-1, ::-1].T * 1.25) - L.UNITS[ue][2]) / L.UNITS[ue][1], ue),
                        L.Lab(('y',), L.values_for((3,), 1.0, 2.0), ut)]
                relax(labs, decl, dts, name, obs)
                obs.state([case['u'], ut, dts, name])


def run_relax_values(case, obs):
    """Every combination of signs and magnitudes, alone and beside others in one array."""
    vals = [-2e5, -1.5, -1e-3, 0., 1e-3, 1., 250.25, 3e4]
    taus = [1e-6, 1e-3, 0.5, 1., 1.5, 60., 1e5, 1e9]
    for t in taus:
        for v in vals:
            labs = [L.Lab((), np.array(v), 'K'), L.Lab((), np.array(0.), 'K'), L.Lab((), np.array(t), case['units'])]
            for e in vals:
                labs[1] = L.Lab((), np.array(e), 'K')
                relax(labs, 'K', ('float64',) * 3, 'q', obs)
                obs.state([case, t, v, e])
            labs = [L.Lab(('x',), np.array(vals), 'mK'), L.Lab((), np.array(v), 'K'), L.Lab(('y',), np.array([t] + taus), case['units'])]
            relax(labs, 'K', ('float64',) * 3, 'q', obs)
    for n, m in ((0, 2), (2, 0), (0, 0)):
        relax([L.Lab(('x', 'y'), np.ones((n, m)), 'K'), L.Lab(('y',), np.ones(m) * 2, 'K'), L.Lab(('x',), np.ones(n) * 2, case['units'])], 'K', ('float64',) * 3, 'q', obs)


def run_relax_dims(case, obs):
    a, b = case['dims']
    for c in case['pool']:
        for sh in (SH, {'x': 2, 'y': 2, 'z': 2}, {'x': 1, 'y': 3, 'z': 2}):
            labs = [L.Lab(a, L.values_for([sh[d] for d in a], 1.0, 3.0), 'degC'), L.Lab(b, L.values_for([sh[d] for d in b], 270.0, 1.5), 'K'),
                    L.Lab(c, L.values_for([sh[d] for d in c], 2.0, 1.0), 'hour')]
            relax(labs, 'K', ('float64',) * 3, 'q', obs)
            obs.state([a, b, c, sh])
        labs = [L.Lab(a, L.values_for([SH[d] for d in a], 1, dtype=int), 'm s^-1'), L.Lab(b, L.values_for([SH[d] for d in b], 7, dtype=int), 'm s^-1'),
                L.Lab(c, L.values_for([SH[d] for d in c], 2, dtype=int), 's')]
        relax(labs, 'm s^-1', ('int64',) * 3, 'q', obs)


# ------------------------------------------------------------------ aliases
KINDSP = {'tend': ['input', 'tendency', 'diagnostic'], 'impl': ['input', 'tendency', 'diagnostic'], 'diag': ['input', 'diagnostic'],
          'step': ['input', 'output', 'diagnostic'], 'duck': ['input', 'output', 'diagnostic', 'tendency'], 'one': ['tendency']}
PRIO = ['input', 'output', 'diagnostic', 'tendency']


class Duck(object):
    pass


def alias_comp(kind, sel):
    """sel: alias of q for each property kind (None: not declared, '': no alias)."""
    decl = {}
    for t in PRIO:
        decl[t] = {}
        for n, s in sel.items():
            if s.get(t) is not None:
                decl[t][n] = {'dims': ['x'], 'units': 'm s^-1' if t == 'tendency' else 'm'}
                if s[t]:
                    decl[t][n]['alias'] = s[t]
    if kind in ('duck', 'one'):
        c = Duck()
        for t in KINDSP[kind]:
            setattr(c, t + '_properties', decl[t])
        return c
    if kind == 'diag':
        return C.make('diag', decl['input'], {}, decl['diagnostic'])
    return C.make(kind, decl['input'], decl['output' if kind == 'step' else 'tendency'], decl['diagnostic'])


def run_alias(case, obs):
    i, j = case['sel']
    opts = [None, '', 'A', 'B']
    for k1 in KINDSP:
        if k1 == 'one' and i > 3:
            continue
        for k2 in KINDSP:
            # four property kinds with four options each: sel picks two of them
            for rest in itertools.product(range(4), repeat=2):
                sel1 = {'q': {}, 'r': {}}
                sel2 = {'q': {}, 'r': {}}
                o1 = [opts[i % 4], opts[i // 4], opts[rest[0]], opts[(i + rest[1]) % 4]]
                o2 = [opts[j % 4], opts[j // 4], opts[rest[1]], opts[(j + rest[0]) % 4]]
                for t, a, b in zip(PRIO, o1, o2):
                    if t in KINDSP[k1]:
                        sel1['q'][t] = a
                    if t in KINDSP[k2]:
                        sel2['q'][t] = b
                        if b:
                            sel2['r'][t] = 'R' + t
                comps, sels = [], []
                for k, s in ((k1, sel1), (k2, sel2)):
                    kind, c = C.outcome(alias_comp, k, s)
                    require(kind == 'ok', 'component {} {} refused: {}', k, s, c)
                    comps.append(c)
                    sels.append(s)
                for order in ((0,), (1,), (0, 1), (1, 0), (0, 1, 0), ()):
                    got = get_component_aliases(*[comps[o] for o in order])
                    want = {}
                    for n in ('q', 'r'):
                        for t in PRIO:
                            c = {sels[o][n].get(t) for o in order if sels[o][n].get(t)}
                            if c:
                                want[n] = c
                                break
                    require(type(got) is dict and set(got) == set(want) and all(got[n] in want[n] for n in want),
                            'aliases of {} {} are {}, not {}', [(k1, k2)[o] for o in order], [sels[o] for o in order], got, want)
                    obs.step()
                    obs.outcome(sorted(got.items()))
                obs.state([k1, k2, o1, o2])
