"""C02: labels of what a component returns, against labelled-array algebra."""
import itertools
from datetime import datetime
import numpy as np
from mc.core import require, Violation
from mc import lab as L, comp as C
from mc.checks.c01 import build, LAYOUTS

LEVEL = 'model_checking'
RULE = ('A case is an input declaration (tuple) with all output declarations over the same dimensions (permuted, '
        'reduced, with a new dimension, inherited), executed for all admissible state dimension orders through '
        'components of each kind computing elementwise results; results are compared coordinate by coordinate with '
        'the model. Wrong-shape cases enumerate all shapes one edit away from the right one.')
SCENARIOS = ['kinds']
ASSUMPTIONS = [
    'Bounds: names x, y, z, w (and n for a new dimension), lengths 1-5 (7 for n), at most two inputs.',
    'Any order of the wildcard dimensions in a result is accepted; the other dimensions must be in declared order.',
    'Ambiguous wildcard states (see C01) are left out.',
]
T0 = datetime(2000, 1, 1)
LEN_N = 7


def cases(tier):
    thorough = tier == 'thorough'
    base = [list(s) for k in range(4) for s in itertools.combinations('xyz', k)]
    for s in base:
        for sa in ([s, ['*'] + s, s + ['*']] if s else [s, ['*']]):
            yield {'kind': 'single', 'sa': sa, 'cap': 4 if thorough else 3,
                   'profiles': ['distinct', 'equal', 'ones'] if thorough else ['distinct', 'equal']}
    for s in base:
        for sa in ([s, ['*'] + s, s + ['*']] if s else [s, ['*']]):
            yield {'kind': 'newdim', 'sa': sa}
    for sa, sb, extra in [(['*'], ['*'], 'xyw'), (['*', 'z'], ['z', '*'], 'xzw'), (['z', '*'], ['*', 'z'], 'zxy'),
                          (['*'], [], 'xyw'), (['x', 'y'], ['y', 'x'], 'xy'), (['x', 'y', 'z'], ['z', 'x'], 'xyz'),
                          (['*', 'z'], ['z'], 'xyz'), (['*'], ['*', 'z'], 'xy'), (['x', '*'], ['*', 'x'], 'xyw'),
                          (['x', '*', 'y'], ['*', 'y', 'x'], 'xyw')]:
        for kind in C.KINDS:
            yield {'kind': 'double', 'sa': sa, 'sb': sb, 'dims': extra, 'comp': kind,
                   'profiles': ['distinct', 'equal', 'ones'] if thorough else ['distinct', 'equal']}
    for kind in C.KINDS:
        for so in L.specs('xy' if not thorough else 'xyz'):
            yield {'kind': 'shape', 'comp': kind, 'so': so}
    for kind in C.KINDS:
        for own, inp in itertools.product((None, 'O'), (None, 'I')):
            for ret in ('alpha', 'O', 'I'):
                if ret == 'O' and own is None or ret == 'I' and inp is None:
                    continue
                yield {'kind': 'alias', 'comp': kind, 'own': own, 'inp': inp, 'ret': ret}


def axes_to(raw, frm, to, new=None):
    """Move the axes of a raw array from declaration frm to declaration to:
    dropped axes are summed, the new axis n is an outer product with 1..7."""
    frm = list(frm)
    for d in list(frm):
        if d not in to:
            raw = raw.sum(axis=frm.index(d))
            frm.remove(d)
    if 'n' in to and 'n' not in frm:
        raw = np.multiply.outer(np.arange(1, LEN_N + 1), raw)
        frm = ['n'] + frm
    return np.transpose(raw, [frm.index(d) for d in to]) if len(to) else raw


def model_out(lab, frm, to, wild, lengths):
    """The same computation on labelled arrays."""
    full = []
    for d in frm:
        full.extend(wild if d == '*' else [d])
    data = lab.order(full, lengths)
    keep = list(full)
    for d in list(full):
        gone = d not in to if d not in wild else ('*' not in to)
        if gone:
            data = data.sum(axis=keep.index(d))
            keep.remove(d)
    if 'n' in to and 'n' not in keep:
        data = np.multiply.outer(np.arange(1, LEN_N + 1), data)
        keep = ['n'] + keep
    return L.Lab(keep, data)


def check_labels(name, got, spec, wild, units, want):
    dims = list(got.dims)
    require(L.UNITS.get(got.attrs.get('units')) == L.UNITS[units] and 'units' in got.attrs,
            '{}: units {!r} instead of {!r}', name, got.attrs.get('units'), units)
    rest = [d for d in dims if d not in wild or d in spec]
    named = [d for d in spec if d != '*']
    require(rest == named, '{}: dims {} do not follow the declaration {}', name, dims, spec)
    if '*' in spec:
        i = spec.index('*')
        block = dims[i:i + len(wild)]
        require(sorted(block) == sorted(wild), '{}: dims {} do not expand the wildcard of {} to {}',
                name, dims, spec, wild)
    require(sorted(dims) == sorted(want.dims), '{}: dims {} instead of {}', name, dims, want.dims)
    vals = np.asarray(got.values)
    w = want.order(dims)
    require(L.close(vals, w), '{}: values at some coordinates differ: {} instead of {} (dims {}, declared {})',
            name, vals.ravel()[:6].tolist(), w.ravel()[:6].tolist(), dims, spec)


UN = {'tend': 'm s^-1', 'impl': 'm s^-1', 'step': 'm', 'diag': 'm'}


def run(case, obs):
    globals()['run_' + case['kind']](case, obs)


def run_single(case, obs):
    sa = case['sa']
    named = [d for d in sa if d != '*']
    outs = [so for so in L.specs(named, wildcard=(True, False) if '*' in sa else (False,))]
    for i, so in enumerate(outs):
        so2 = outs[(i * 7 + 3) % len(outs)]
        for kind in C.KINDS:
            main = {'res': {'dims': so, 'units': 'hPa'}}
            if kind != 'diag':
                main['alpha'] = {'units': UN[kind]}      # inherits the dims of the input
            diags = {'dia': {'dims': so2, 'units': 'km'}}

            def fn(raw, dt):
                a = raw['alpha']
                m = {'res': axes_to(a, sa, so)}
                if kind != 'diag':
                    m['alpha'] = a * 2
                return m, {'dia': axes_to(a, sa, so2) + 0.5}
            comp = C.make(kind, {'alpha': {'dims': sa, 'units': 'm'}}, main, diags, fn)
            states = [d for d in L.states_for(sa, 'xyzw') if len(d) <= case['cap']]
            if len(outs) > 20 and kind != C.KINDS[i % 4]:
                continue    # many declarations: the kind rotates with the declaration
            for j, dims in enumerate(states):
                for profile in case['profiles']:
                    state = {'alpha': build(dims, profile, 'm', 'float64', LAYOUTS[j % 4], j % 3 == 0), 'time': T0}
                    lab = L.lab_of(state['alpha'])
                    labs = {'alpha': lab}
                    wild = L.wildcard_names({'alpha': sa}, labs)
                    lengths = L.lengths_of(labs)
                    m, d = C.call(kind, comp, state)
                    obs.step()
                    exp = {'res': (so, 'hPa', 1, 0), 'dia': (so2, 'km', 1, 0.5)}
                    if kind != 'diag':
                        exp['alpha'] = (sa, UN[kind], 2, 0)
                    got = dict(d)
                    got.update(m)
                    require(set(got) == set(exp), 'returned {} instead of {}', sorted(got), sorted(exp))
                    for n, (sp, u, f, off) in exp.items():
                        w = model_out(lab, sa, sp, wild, lengths)
                        w = L.Lab(w.dims, w.data * f + off)
                        check_labels(n, got[n], sp, wild, u, w)
                    obs.state([sa, so, so2, dims, profile, kind])
                    obs.outcome([list(got['res'].dims), list(got['res'].shape)])


def run_newdim(case, obs):
    sa = case['sa']
    outs = []
    for i in range(len(sa) + 1):
        outs.append(sa[:i] + ['n'] + sa[i:])
    if '*' in sa:
        outs.append(['n', '*'])
        outs.append(['*', 'n'])
    outs.append(['n'])
    for so in outs:
        for kind in C.KINDS:
            comp = C.make(kind, {'alpha': {'dims': sa, 'units': 'm'}}, {'res': {'dims': so, 'units': 'hPa'}},
                          {}, lambda raw, dt: ({'res': axes_to(raw['alpha'], sa, so)}, {}))
            for dims in [d for d in L.states_for(sa, 'xyzw') if len(d) <= 3]:
                state = {'alpha': build(dims, 'distinct', 'm'), 'time': T0}
                lab = L.lab_of(state['alpha'])
                wild = L.wildcard_names({'alpha': sa}, {'alpha': lab})
                m, _ = C.call(kind, comp, state)
                obs.step()
                check_labels('res', m['res'], so, wild, 'hPa',
                             model_out(lab, sa, so, wild, L.lengths_of({'alpha': lab})))
                obs.state(['new', sa, so, dims, kind])


def run_double(case, obs):
    sa, sb, kind = case['sa'], case['sb'], case['comp']
    star = '*' in sa or '*' in sb
    names = sorted(set(sa + sb) - {'*'})
    outs = [s for s in L.specs(names, wildcard=(True,) if star else (False,)) if set(s) == set(names) | ({'*'} if star else set())]
    decls = {'alpha': sa, 'beta': sb}

    def align(raw, spec, so):
        axes = [d for d in so if d in spec]
        a = np.transpose(raw, [spec.index(d) for d in axes]) if axes else raw
        idx = tuple(slice(None) if d in spec else np.newaxis for d in so)
        return a[idx]
    for so in outs:
        comp = C.make(kind, {'alpha': {'dims': sa, 'units': 'm'}, 'beta': {'dims': sb, 'units': 'Pa'}},
                      {'res': {'dims': so, 'units': 'hPa'}}, {},
                      lambda raw, dt: ({'res': align(raw['alpha'], sa, so) * 1000 + align(raw['beta'], sb, so)}, {}))
        for da_ in L.states_for(sa, case['dims']):
            for db in L.states_for(sb, case['dims']):
                for profile in case['profiles']:
                    state = {'beta': build(db, profile, 'Pa', start=500.0), 'alpha': build(da_, profile, 'm'), 'time': T0}
                    labs = {n: L.lab_of(state[n]) for n in decls}
                    if L.ambiguous(decls, labs):
                        obs.count('skipped_ambiguous')
                        continue
                    wild = L.wildcard_names(decls, labs)
                    lengths = L.lengths_of(labs)
                    m, _ = C.call(kind, comp, state)
                    obs.step()
                    full = wild + [d for d in names if d not in wild] if star else names
                    # the wildcard and a named dimension may be one: then the result has no
                    # consistent labels and nothing is promised
                    if set(wild) & set(d for d in so if d != '*'):
                        obs.count('skipped_ambiguous')
                        continue
                    want = L.Lab(full, labs['alpha'].order(full, lengths) * 1000 + labs['beta'].order(full, lengths))
                    check_labels('res', m['res'], so, wild, 'hPa', want)
                    obs.state([sa, sb, so, da_, db, profile, kind])
                    obs.outcome([list(m['res'].dims), list(m['res'].shape)])


def edits(shape):
    """All shapes one edit away."""
    shape = list(shape)
    out = set()
    for i, n in enumerate(shape):
        for m in (n - 1, n + 1, 2 * n, 1):
            if m >= 0 and m != n:
                out.add(tuple(shape[:i] + [m] + shape[i + 1:]))
        out.add(tuple(shape[:i] + shape[i + 1:]))
    for i in range(len(shape) + 1):
        out.add(tuple(shape[:i] + [1] + shape[i:]))
        out.add(tuple(shape[:i] + [2] + shape[i:]))
    for p in itertools.permutations(shape):
        out.add(tuple(p))
    out.add((int(np.prod(shape)),) if shape else (1,))
    if len(shape) >= 2:
        out.add((shape[0] * shape[1],) + tuple(shape[2:]))
        for a, b in itertools.product(range(1, 25), repeat=2):
            if a * b == int(np.prod(shape)) and len(shape) == 2:
                out.add((a, b))
    out.discard(tuple(shape))
    return sorted(out)


def run_shape(case, obs):
    so, kind = case['so'], case['comp']
    sa = ['*', 'z'] if 'z' not in so else ['z', '*']
    right = None
    box = {}
    named = [d for d in so if d != '*']
    inputs = {'alpha': {'dims': named + ['*'] if '*' in so else named, 'units': 'm'}}
    sa = inputs['alpha']['dims']
    state_dims = named + ['w', 'v'] if '*' in so else named
    lens = {'x': 2, 'y': 3, 'z': 4, 'w': 5, 'v': 2}
    where_opts = ['main', 'diags'] if kind != 'diag' else ['main']
    for where in where_opts:
        decl = {'res': {'dims': so, 'units': 'hPa'}}
        comp = C.make(kind, inputs, decl if where == 'main' else {}, decl if where == 'diags' else {},
                      lambda raw, dt: ({'res': box['a']}, {}) if where == 'main' else ({}, {'res': box['a']}))
        state = {'alpha': C.da(state_dims, L.values_for([lens[d] for d in state_dims]), 'm'), 'time': T0}
        right = tuple(10 if d == '*' else lens[d] for d in so)
        box['a'] = L.values_for(right)
        m, d = C.call(kind, comp, state)
        obs.step()
        got = m if where == 'main' else d
        require(got['res'].shape == tuple(n for dd in so for n in ([5, 2] if dd == '*' else [lens[dd]])) or
                got['res'].shape == tuple(n for dd in so for n in ([2, 5] if dd == '*' else [lens[dd]])),
                'right shape restored as {}', got['res'].shape)
        for wrong in edits(right):
            box['a'] = L.values_for(wrong)
            st, val = C.outcome(C.call, kind, comp, state)
            obs.step()
            obs.state(['shape', so, kind, where, wrong])
            require(st == 'err', 'result of shape {} accepted for dims {} where {} was right', wrong, so, right)
            obs.outcome(type(val).__name__)
        # and the right one still works
        box['a'] = L.values_for(right)
        C.call(kind, comp, state)


def run_alias(case, obs):
    kind = case['comp']
    inputs = {'alpha': {'dims': ['x', '*'], 'units': 'm'}, 'beta': {'dims': ['*'], 'units': 'K'}}
    if case['inp']:
        inputs['alpha']['alias'] = case['inp']
    out = {'alpha': {'units': UN[kind]}}
    if case['own']:
        out['alpha']['alias'] = case['own']
    for withdims in (False, True):
        if withdims:
            out['alpha']['dims'] = ['*', 'x']
        in_diags = (False, True) if kind != 'diag' else (False,)
        for ind in in_diags:
            decl = {k: dict(v) for k, v in out.items()}
            if ind:
                decl['alpha']['units'] = 'm'

            def fn(raw, dt):
                a = raw[case['inp'] or 'alpha'] * 3
                r = {case['ret']: a.T if withdims else a}
                return ({}, r) if ind else (r, {})
            comp = C.make(kind, inputs, {} if ind else decl, decl if ind else {}, fn)
            for dims in L.states_for(['*'], 'xyw'):
                state = {'alpha': build(dims, 'distinct', 'm'), 'beta': build([d for d in dims if d != 'x'][::-1], 'distinct', 'K'), 'time': T0}
                m, d = C.call(kind, comp, state)
                obs.step()
                got = d if ind else m
                require(set(got) == {'alpha'}, 'returned {} instead of alpha', sorted(got))
                lab = L.lab_of(state['alpha'])
                labs = {'alpha': lab, 'beta': L.lab_of(state['beta'])}
                wild = [d_ for d_ in dims if d_ != 'x']
                lengths = L.lengths_of(labs)
                want = L.Lab(['x'] + wild, lab.order(['x'] + wild, lengths) * 3)
                sp = ['*', 'x'] if withdims else ['x', '*']
                check_labels('alpha', got['alpha'], sp, wild, decl['alpha']['units'], want)
                obs.state(['alias', case['own'], case['inp'], case['ret'], dims, kind, withdims, ind])
