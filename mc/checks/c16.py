"""C16: the tracer registry and packing, over all registration histories."""
import itertools
from datetime import datetime, timedelta
import numpy as np
import sympl
from sympl import register_tracer, get_tracer_names, get_tracer_unit_dict
from sympl._core import tracers as TR
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All histories up to the bound over {register one of three tracers in one of several units, construct a '
        'tracer-using component of one of several kinds (with prepended tracers, with outputs that clash with a tracer), '
        'call every live component}; after each operation the reported registry, and at each call the array along the '
        'tracer axis and the unpacked results of every component, are compared with the model. Every position of the '
        'tracer axis x dims of the tracers in the state x wildcard, with other inputs alongside. All ordered pairs (thorough: triples) of thirteen parts '
        '(tracer-using, wrapped, ordinary) in every composite and stepper, tracers registered before or after: declared inputs, refusal, sums. Arrays of tracers kept or returned as they are, along all histories of three calls of four components. The declarations reported for all registration '
        'orders x prepended tracers x dims.')
SCENARIOS = ['tracers']
ASSUMPTIONS = ['Where other inputs share a wildcard with the tracers, they have all dimensions that the tracers have.',
               'Bounds: histories of length 4 (thorough 5) over 12 operations; up to 3 registered and 2 prepended tracers.',
               'A prepended tracer is used in its own units; registering it as well is explored with the same units.',
               'Components stay alive until the registry of the explorer is reset between histories.',
               'Composites whose tracers along a wildcard have different dims in the state are called, but not stepped.',
               ]
T0 = datetime(2000, 1, 1)
DT = timedelta(seconds=20)
# registering the second unit of a tracer after the first: same unit spelled otherwise, the third: another unit
OPS = [('reg', 't1', 'g/kg'), ('reg', 't1', 'g kg^-1'), ('reg', 't1', 'kg/kg'), ('reg', 't2', 'm'), ('reg', 't2', 'mm'), ('reg', 'p1', 'degC'), ('reg', 't3', '%'),
       ('make', 'tend'), ('make', 'step'), ('make', 'impl_pre'), ('make', 'out_t2'), ('make', 'tend_t3'), ('call',)]
KIND = {'tend': 'tend', 'step': 'step', 'impl_pre': 'impl', 'out_t2': 'step', 'tend_t3': 'tend', 'two_pre': 'tend'}
OWN = {'out_t2': 't2', 'tend_t3': 't3'}
PRE = {'impl_pre': [('p1', 'degC')], 'two_pre': [('p2', 'g/kg'), ('p1', 'K')]}
STATE_UNITS = {'t1': '%', 't2': 'km', 't3': '', 'p1': 'K', 'p2': 'kg/kg'}
VALS = {'t1': np.array([1., 2., 3.]), 't2': np.array([4., 5., 6.]), 't3': np.array([7., 8., 9.]), 'p1': np.array([280., 281., 282.]), 'p2': np.array([.1, .2, .3])}


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            yield {'kind': 'history', 'prefix': [a, b], 'len': n}
    for kind in ('tend', 'impl', 'step'):
        for td in (['tracer'], ['tracer', 'x'], ['x', 'tracer'], ['tracer', '*'], ['*', 'tracer'], ['y', 'tracer', 'x'], ['tracer', 'x', 'y'], ['x', 'y', 'tracer'],
                   ['x', 'tracer', '*'], ['*', 'x', 'tracer'], ['tracer', '*', 'x']):
            for pre in (0, 1, 2):
                for nreg in (0, 1, 3):
                    yield {'kind': 'pack', 'comp': kind, 'dims': td, 'pre': pre, 'reg': nreg}
    for s in ('AB', 'LF', 'RK'):
        for nreg in (0, 1, 2, 3):
            for pre in (0, 1):
                yield {'kind': 'stepper', 'stepper': s, 'reg': nreg, 'pre': pre}
    for i in range(len(PARTS)):
        for nreg in (0, 1, 3):
            yield {'kind': 'composite', 'first': i, 'reg': nreg, 'n': 2}
            if tier == 'thorough':
                yield {'kind': 'composite', 'first': i, 'reg': nreg, 'n': 3}
    for td in (['tracer'], ['tracer', 'x'], ['x', 'tracer'], ['tracer', '*'], ['*', 'tracer'], ['y', 'tracer', 'x']):
        for nreg in (1, 2):
            yield {'kind': 'kept', 'dims': td, 'reg': nreg}
    yield {'kind': 'errors'}
    yield {'kind': 'declare'}


def reset():
    TR.reset_tracers()
    TR.reset_packers()


def run(case, obs):
    reset()
    try:
        globals()['run_' + case['kind']](case, obs)
    finally:
        reset()


def make(which, tracer_dims=('tracer', 'x')):
    kind = KIND[which]
    s = ' s^-1' if kind in ('tend', 'impl') else ''
    main = {'m': {'dims': ['x'], 'units': 'K' + s}}
    if which in OWN:
        main[OWN[which]] = {'dims': ['x'], 'units': {'t2': 'm', 't3': '%'}[OWN[which]] + s}

    def fn(raw, t):
        out = {n: np.array([1., 2., 3.]) for n in main}
        tr = raw['tracers']
        out['tracers'] = np.array(tr) * 3 + np.arange(tr.shape[0]).reshape([-1] + [1] * (tr.ndim - 1))
        return out, {}
    attrs = {'uses_tracers': True, 'tracer_dims': list(tracer_dims)}
    if which in PRE:
        attrs['prepend_tracers'] = PRE[which]
    return C.make(kind, {'a': {'dims': ['x'], 'units': 'm'}}, main, {}, fn, attrs, name=which)


def run_history(case, obs):
    # duplicates of a prefix are explored by its own case only
    rest = itertools.product(range(len(OPS)), repeat=case['len'] - len(case['prefix']))
    for r in rest:
        h = case['prefix'] + list(r)
        # all histories end by calling every component
        history([OPS[i] for i in h] + [('call',)], obs)


def history(ops, obs):
    reset()
    reg = {}
    live = []
    for i, op in enumerate(ops):
        where = 'after {}'.format([' '.join(o) for o in ops[:i + 1]])
        if op[0] == 'reg':
            name, units = op[1], op[2]
            st, val = C.outcome(register_tracer, name, units)
            obs.step()
            if name in reg and not L.same_unit(reg[name], units):
                require(st == 'err' and isinstance(val, ValueError), 'registration with other units: {!r}, {}', val, where)
            elif any(OWN.get(w) == name for w, c in live):
                require(st == 'err', 'registered though a live component outputs it, {}', where)
            else:
                require(st == 'ok', 'registration refused: {!r}, {}', val, where)
                reg.setdefault(name, units)
            obs.outcome([op[0], st, len(reg)])
        elif op[0] == 'make':
            st, c = C.outcome(make, op[1])
            obs.step()
            if OWN.get(op[1]) in reg:
                require(st == 'err', 'a component which outputs a registered tracer was constructed, {}', where)
            else:
                require(st == 'ok', 'construction failed with {!r}, {}', c, where)
                live.append((op[1], c))
        else:
            for w, c in live:
                check_call(w, c, reg, obs, where)
        obs.state([op_ for op_ in ops[:i + 1]])
        names = get_tracer_names()
        require(list(names) == list(reg), 'registered names {} instead of {}, {}', names, list(reg), where)
        units = get_tracer_unit_dict()
        require(set(units) == set(reg) and all(L.same_unit(units[n], reg[n]) for n in reg), 'registered units {} instead of {}, {}', units, reg, where)
        # the reports are copies
        units['zzz'] = 'm'
        units.pop('t1', None)


def order_of(which, reg):
    pre = [n for n, u in PRE.get(which, [])]
    units = dict(reg)
    units.update(dict(PRE.get(which, [])))
    return pre + [n for n in reg if n not in pre], units


def check_call(which, c, reg, obs, where):
    kind = KIND[which]
    st = {'a': C.da(['x'], np.array([1., 2., 3.]), 'm'), 'time': T0}
    for n in STATE_UNITS:
        st[n] = C.da(['x'], VALS[n].copy(), STATE_UNITS[n])
    before = L.fingerprint(st)
    n0 = len(C.calls(c))
    main, diags = C.call(kind, c, st, DT)
    obs.step()
    require(L.fingerprint(st) == before, 'state altered, {}', where)
    seen = C.calls(c)[n0]['tracers']
    names, units = order_of(which, reg)
    want = np.array([L.convert(VALS[n], STATE_UNITS[n], units[n]) for n in names])
    require(seen.shape[0] == len(names), '{} saw {} tracers instead of {}, {}', which, seen.shape[0], names, where)
    if names:
        require(L.close(seen, want, rtol=1e-9), '{} saw tracers {} instead of {} for {}, {}', which, seen.tolist(), want.tolist(), names, where)
    own = {'m'} | ({OWN[which]} if which in OWN else set())
    require(set(main) == own | set(names), '{} returned {} instead of {}, {}', which, sorted(main), sorted(own | set(names)), where)
    s = ' s^-1' if kind in ('tend', 'impl') else ''
    for i, n in enumerate(names):
        u = main[n].attrs.get('units')
        require(u in L.UNITS and L.same_unit(u, units[n] + s), '{}: {} in {!r} instead of {!r}, {}', which, n, u, units[n] + s, where)
        require(main[n].dims == ('x',) and L.close(main[n].values, want[i] * 3 + i), '{}: {} is {} instead of {}, {}', which, n, main[n].values.tolist(),
                (want[i] * 3 + i).tolist(), where)
    obs.outcome([which, names])


LEN = {'x': 2, 'y': 3, 'z': 4}


def run_pack(case, obs):
    kind, td = case['comp'], case['dims']
    pre = [('p2', 'g/kg'), ('p1', 'K')][:case['pre']]
    regs = [('t1', 'g/kg'), ('t2', 'm'), ('t3', '%')][:case['reg']]
    names = [n for n, u in pre] + [n for n, u in regs]
    units = dict(pre + regs)
    spec = [d for d in td if d != 'tracer']
    for n, u in regs:
        register_tracer(n, u)
    if case['reg'] and case['pre']:
        register_tracer(*pre[0])  # counted once, in its prepended place
    s = ' s^-1' if kind in ('tend', 'impl') else ''
    pos = td.index('tracer')
    others = [['*'], ['x', 'y']] if '*' in spec else [spec]
    for other in others:
        if '*' in other and len(spec) > 1:
            other = spec  # the same named dims beside the wildcard

        def fn(raw, t):
            tr = raw['tracers']
            w = np.moveaxis(np.array(tr), pos, 0)
            if tr.shape[pos]:
                w = w * 3 + (raw['a'] if other == spec else 0)
            return {'m': raw['a'], 'tracers': np.moveaxis(w, 0, pos)}, {}
        attrs = {'uses_tracers': True, 'tracer_dims': td}
        if pre:
            attrs['prepend_tracers'] = pre
        c = C.make(kind, {'a': {'dims': other, 'units': 'm'}}, {'m': {'dims': other, 'units': 'K' + s}}, {}, fn, attrs)
        pool = sorted(set(spec) - {'*'}) if '*' not in spec else ['x', 'y', 'z']
        for dims in L.arrangements(pool, 2 if len(pool) == 3 else None):
            for adims in ([dims[::-1]] if '*' not in spec else [dims[::-1], [d for d in pool if d not in dims] + dims]):
                if '*' not in other:
                    adims = [d for d in adims if d in other]
                for special, dt in [(None, 'f8')] + [(n, dt) for n in names for dt in ('i4', 'f4')]:
                    pack_one(case, obs, kind, td, spec, pos, pre, regs, names, units, other, dims, adims, special, dt, c, s)


def pack_one(case, obs, kind, td, spec, pos, pre, regs, names, units, other, dims, adims, special, dt, c, s):
    st = {'a': C.da(adims, L.values_for([LEN[d] for d in adims], 100.), 'm'), 'time': T0}
    labs = {'a': L.lab_of(st['a'])}
    for i, n in enumerate(names):
        # tracers in different dim orders, one of another type in the units it is used in
        nd = dims if i % 2 == 0 else dims[::-1]
        v = L.values_for([LEN[d] for d in nd], 10. * (i + 1), dtype=dt if n == special else 'f8')
        st[n] = C.da(nd, v + (0.1 if n != special else 0), units[n] if n == special else STATE_UNITS[n])
        labs[n] = L.lab_of(st[n])
    decls = {'a': other}
    decls.update({n: spec for n in names})
    if '*' in other and not set(adims) >= set(dims):
        return
    if L.ambiguous(decls, labs):
        obs.count('skipped_ambiguous')
        return
    where = '({} tracer dims {}, a{} declared {}, tracers{}, {} as {}, prepended {}, registered {})'.format(kind, td, adims, other, dims, special, dt, pre, regs)
    n0 = len(C.calls(c))
    res, out = C.outcome(C.call, kind, c, st, DT)
    obs.step()
    obs.state([case, other, dims, adims, special, dt])
    require(res == 'ok', 'call failed: {!r} {}', out, where)
    main, d = out
    seen = C.calls(c)[n0]
    arr = np.moveaxis(seen['tracers'], pos, 0)
    require(arr.shape[0] == len(names), 'saw {} tracers instead of {} {}', arr.shape[0], names, where)
    require(set(main) == {'m'} | set(names), 'returned {} {}', sorted(main), where)
    if not names:
        return
    raws = {'a': seen['a']}
    raws.update({n: arr[i] for i, n in enumerate(names)})
    un = {'a': 'm'}
    un.update({n: units[n] for n in names})
    wild = L.find_wildcard_order(decls, un, labs, raws, {n: False for n in decls})
    full = []
    for x in spec:
        full.extend(wild if x == '*' else [x])
    lengths = L.lengths_of(labs)
    for i, n in enumerate(names):
        u = main[n].attrs.get('units')
        require(u in L.UNITS and L.same_unit(u, units[n] + s), '{} in {!r} {}', n, u, where)
        want = labs[n].to(units[n]).order(full, lengths) * 3
        if other == spec:
            want = want + labs['a'].order(full, lengths)
        require(set(main[n].dims) == set(full), '{} has dims {} instead of {} {}', n, main[n].dims, full, where)
        require(L.close(L.lab_of(main[n]).order(full), want, rtol=1e-9), '{} is {} instead of {} {}', n, main[n].values.tolist(), want.tolist(), where)
    obs.outcome([td, names, wild])


def run_kept(case, obs):
    """Arrays which a component was given, keeps or returns as they are, are its own."""
    td = case['dims']
    spec = [d for d in td if d != 'tracer']
    named = [d for d in spec if d != '*'] or ['x', 'y'][:len(spec)]
    for n in ('t1', 't2')[:case['reg']]:
        register_tracer(n, 'm')
    for how in ('same', 'view', 'write', 'keep'):
        comps, kept = [], []
        for kind in ('tend', 'impl', 'step', 'tend'):
            def fn(raw, t, kept=kept):
                tr = raw['tracers']
                kept.append((tr, None if how == 'write' else np.array(tr)))
                if how == 'write':
                    tr[...] = tr * 2
                return {'tracers': np.array(tr) * 1. if how == 'keep' else tr[...] if how == 'view' else tr, 'm': raw['a']}, {}
            s = ' s^-1' if kind in ('tend', 'impl') else ''
            comps.append((kind, C.make(kind, {'a': {'dims': spec, 'units': 'm'}}, {'m': {'dims': spec, 'units': 'K' + s}}, {}, fn, {'uses_tracers': True, 'tracer_dims': td})))
        old = []
        for order in itertools.product(range(len(comps)), repeat=3):
            for k, i in enumerate(order):
                kind, c = comps[i]
                st = {'time': T0}
                for j, n in enumerate(('a', 't1', 't2')[:case['reg'] + 1]):
                    st[n] = C.da(named, L.values_for([LEN[d] for d in named], 100. * j + 1000 * k + 7), 'm')
                before = L.fingerprint(st)
                main, diags = C.call(kind, c, st, DT)
                obs.step()
                where = '({}, component {} of {}, tracers returned {})'.format(td, k, order, how)
                require(how == 'write' or L.fingerprint(st) == before, 'state altered {}', where)
                for n in ('t1', 't2')[:case['reg']]:
                    if how != 'write':
                        require(L.close(L.lab_of(main[n]).order(named), st[n].values), '{} is {} instead of {} {}', n, main[n].values.tolist(), st[n].values.tolist(), where)
                for m, b in old:
                    require(L.fingerprint(m) == b, 'an earlier result changed {}', where)
                for a, b in kept:
                    require(b is None or np.array_equal(a, b), 'an array kept by a component changed {}', where)
                old.append((main, L.fingerprint(main)))
            obs.state([case, how, order])
            obs.outcome(how)
            old, kept[:] = [], []


def run_stepper(case, obs):
    """Tracer tendencies of a component inside a time stepper."""
    regs = [('t1', 'g/kg'), ('t2', 'm'), ('t3', '%')][:case['reg']]
    pre = [('p1', 'degC')][:case['pre']]
    for when in ('before', 'after'):
        reset()
        if when == 'before':
            for r in regs:
                register_tracer(*r)
        attrs = {'uses_tracers': True, 'tracer_dims': ['tracer', 'x']}
        if pre:
            attrs['prepend_tracers'] = pre
        c = C.make('tend', {'a': {'dims': ['x'], 'units': 'm'}}, {'m': {'dims': ['x'], 'units': 'K s^-1'}}, {},
                   lambda raw, t: ({'m': raw['a'] * 0.5, 'tracers': np.ones_like(raw['tracers']) * (1. + np.arange(raw['tracers'].shape[0]))[:, None]}, {}), attrs)
        stepper = {'AB': lambda: sympl.AdamsBashforth(c, order=2), 'LF': lambda: sympl.Leapfrog(c), 'RK': lambda: sympl.SSPRungeKutta(c)}[case['stepper']]()
        if when == 'after':
            for r in regs:
                register_tracer(*r)
        names = [n for n, u in pre + regs]
        units = dict(pre + regs)
        st = {'a': C.da(['x'], np.array([1., 2., 3.]), 'm'), 'm': C.da(['x'], np.array([1., 2., 3.]), 'degC'), 'time': T0}
        for n in STATE_UNITS:
            st[n] = C.da(['x'], VALS[n].copy(), STATE_UNITS[n])
        si = {n: L.convert(VALS[n], STATE_UNITS[n], units[n]) for n in names}
        for k in (1, 2):
            d, new = stepper(st, DT)
            obs.step()
            obs.state([case, when, k])
            for i, n in enumerate(names):
                want = L.convert(si[n] + k * 20. * (i + 1), units[n], STATE_UNITS[n])
                require(L.same_unit(new[n].attrs['units'], STATE_UNITS[n]) and np.allclose(new[n].values, want, rtol=1e-9), 'tracer {} is {} instead of {} at step {} of {} (registered {})',
                        n, new[n].values.tolist(), want.tolist(), k, case['stepper'], when)
            for n in STATE_UNITS:
                if n not in names:
                    require(L.close(new[n].values, VALS[n], exact=True), '{} changed though it is no tracer', n)
            require(set(new) == set(st), 'new state {}', sorted(new))
            st = new


# parts of composites: kind, tracer dims (or dims of an ordinary input), prepended tracers (or name and units of the input), wrapper
PARTS = [('tend', ['tracer', 'x'], (), None), ('tend', ['x', 'tracer'], (('p1', 'degC'),), None), ('impl', ['tracer', 'x'], (('p1', 'K'), ('p2', 'g/kg')), None),
         ('tend', ['*', 'tracer'], (('t2', 'm'),), None), ('tend', ['tracer', 'y'], (('p2', 'kg/kg'),), None), ('tend', ['tracer', 'x'], (('p1', 'm'),), None),
         ('tend', ['tracer', 'x'], (('p2', '%'),), 'scale'), ('tend', ['tracer', 'x'], (('p1', 'degC'),), 'freq'), ('tend', ['tracer', 'x'], (('p2', '%'),), 'composite'),
         ('plain', ['x'], ('t1', '%'), None), ('plain', ['y'], ('t1', '%'), None), ('plain', ['x'], ('t3', 'm'), None), ('plain', ['*'], ('p1', 'K'), None)]


def part(i, j):
    kind, dims, what, wrap = PARTS[i]
    main = {'m': {'dims': ['x'], 'units': 'K s^-1'}}
    if kind == 'plain':
        return C.make('tend', {'a': {'dims': ['x'], 'units': 'm'}, what[0]: {'dims': dims, 'units': what[1]}}, main, {}, lambda raw, t: ({'m': raw['a'] * 1.}, {}))

    def fn(raw, t):
        w = np.moveaxis(np.array(raw['tracers']), dims.index('tracer'), 0)
        w = w * (2. + j) + np.arange(w.shape[0]).reshape([-1] + [1] * (w.ndim - 1))
        return {'m': raw['a'] * (j + 2.), 'tracers': np.moveaxis(w, 0, dims.index('tracer'))}, {}
    attrs = {'uses_tracers': True, 'tracer_dims': list(dims)}
    if what:
        attrs['prepend_tracers'] = list(what)
    c = C.make(kind, {'a': {'dims': ['x'], 'units': 'm'}}, main, {}, fn, attrs)
    if wrap == 'scale':
        c = sympl.ScalingWrapper(c, input_scale_factors={'a': 2.})
    elif wrap == 'freq':
        c = sympl.UpdateFrequencyWrapper(c, timedelta(seconds=1))
    elif wrap == 'composite':
        c = sympl.TendencyComponentComposite(c)
    return c


def run_composite(case, obs):
    """What combinations of tracer-using and other components declare and return."""
    from mc.checks import c12
    for rest in itertools.product(range(len(PARTS)), repeat=case['n'] - 1):
        idx = (case['first'],) + rest
        for how in ('tend', 'impl', 'AB', 'LF', 'RK'):
            if how == 'tend' and any(PARTS[i][0] == 'impl' for i in idx):
                continue
            for when in ('before', 'after'):
                if when == 'after' and not case['reg']:
                    continue
                composite_one(case, obs, c12.meet, idx, how, when)


def composite_one(case, obs, meet, idx, how, when):
    reset()
    regs = [('t1', 'g/kg'), ('t2', 'm'), ('t3', '%')][:case['reg']]
    where = '({} of {}, {} registered {})'.format(how, [PARTS[i] for i in idx], [n for n, u in regs], when)

    def model(reg):
        """name -> [(dims, units)], or None where the combination must be refused"""
        req = {'a': [(['x'], 'm')]}
        for i in idx:
            kind, dims, what, wrap = PARTS[i]
            if kind == 'plain':
                req.setdefault(what[0], []).append((dims, what[1]))
            else:
                for n, u in dict(list(reg) + list(what)).items():
                    req.setdefault(n, []).append(([d for d in dims if d != 'tracer'], u))
        out = {}
        for n, l in req.items():
            m = meet([d for d, u in l])
            if m is None or any(not L.compatible(u, l[0][1]) for d, u in l):
                return None
            out[n] = (m, l[0][1])
        return out
    parts = [part(i, j) for j, i in enumerate(idx)]
    build = {'tend': sympl.TendencyComponentComposite, 'impl': sympl.ImplicitTendencyComponentComposite, 'AB': sympl.AdamsBashforth, 'LF': sympl.Leapfrog,
             'RK': sympl.SSPRungeKutta}[how]
    if when == 'before':
        for r in regs:
            register_tracer(*r)
    want = model(regs if when == 'before' else [])
    res, c = C.outcome(build, *parts)
    obs.step()
    obs.state([case, idx, how, when])
    if want is None:
        require(res == 'err' and isinstance(c, sympl.InvalidPropertyDictError), 'accepted {!r} {}', c, where)
        obs.outcome('refused')
        return
    require(res == 'ok', 'refused {!r} {}', c, where)
    if when == 'after':
        for r in regs:
            register_tracer(*r)
        want = model(regs)
        if want is None:
            res, got = C.outcome(lambda: c.input_properties)
            require(res == 'err', 'declared {!r} {}', got, where)
            obs.outcome('refused later')
            return
    got = c.input_properties
    if how in ('AB', 'LF', 'RK'):
        want.setdefault('m', (({'x'}, False), 'K'))
    require(set(got) == set(want), 'declares {} instead of {} {}', sorted(got), sorted(want), where)
    for n in want:
        (names, wild), u = want[n]
        require(set(got[n]['dims']) - {'*'} == names and ('*' in got[n]['dims']) == wild and len(set(got[n]['dims'])) == len(got[n]['dims']),
                '{} declared with dims {} instead of {} {}', n, got[n]['dims'], want[n], where)
        require(L.compatible(got[n]['units'], u), '{} declared in {!r} instead of {!r} {}', n, got[n]['units'], u, where)
    # every declared quantity is needed, and no other
    st = {n: C.da(sorted(want[n][0][0]) or ['x'], L.values_for([LEN[d] for d in sorted(want[n][0][0]) or ['x']], 3. + k), want[n][1]) for k, n in enumerate(sorted(want))}
    st['time'] = T0
    alone = [C.outcome(C.call, 'impl' if isinstance(p, sympl.ImplicitTendencyComponent) else 'tend', p, st, DT) for p in [part(i, j) for j, i in enumerate(idx)]]
    require(all(r == 'ok' for r, _ in alone), 'a part fails on the declared inputs: {!r} {}', alone, where)
    if how not in ('tend', 'impl') and any(set(m[n].dims) != set(st[n].dims) for _, (m, _) in alone for n in m):
        obs.count('tendency_with_more_dims')  # those of other tracers along the wildcard; what is stepped then is not what was declared
        return
    before = L.fingerprint(st)
    if how in ('tend', 'impl'):
        main, d = C.call(how, c, st, DT)
        obs.step()
        for n in {n for _, (m, _) in alone for n in m}:
            total = sum(L.lab_of(m[n]).to(main[n].attrs['units']).order(list(main[n].dims)) for _, (m, _) in alone if n in m)
            require(n in main and L.close(main[n].values, total, rtol=1e-9), 'tendency of {} is {} instead of {} {}', n, main[n].values.tolist(), total.tolist(), where)
        require(set(main) == {n for _, (m, _) in alone for n in m}, 'tendencies of {} {}', sorted(main), where)
    else:
        d, new = c(st, DT)
        obs.step()
        require(set(new) == set(st), 'new state {} {}', sorted(new), where)
        if how != 'RK':
            for n in want:
                if any(n in m for _, (m, _) in alone):
                    si = '{} s^-1'.format(want[n][1])
                    total = sum(L.lab_of(m[n]).to(si).order(list(st[n].dims)) for _, (m, _) in alone if n in m)
                    val = L.lab_of(new[n]).to(want[n][1]).order(list(st[n].dims))
                    require(L.close(val, st[n].values + total * DT.total_seconds(), rtol=1e-9), '{} steps to {} instead of {} {}', n, val.tolist(),
                            (st[n].values + total * DT.total_seconds()).tolist(), where)
                else:
                    require(L.close(new[n].values, st[n].values, exact=True), '{} changed {}', n, where)
    require(L.fingerprint(st) == before, 'state altered {}', where)
    obs.outcome(sorted(want))
    for n in want if how in ('tend', 'impl', 'AB') else ():
        less = {k: v for k, v in st.items() if k != n}
        res, got = C.outcome(lambda: build(*[part(i, j) for j, i in enumerate(idx)])(less, DT) if how != 'tend' else build(*[part(i, j) for j, i in enumerate(idx)])(less))
        require(res == 'err', 'called without {} {}', n, where)


def run_errors(case, obs):
    """What a component needs to declare."""
    for kind in ('tend', 'impl', 'step'):
        for attrs in ({'uses_tracers': True}, {'uses_tracers': True, 'tracer_dims': ['x']}, {'uses_tracers': True, 'tracer_dims': []}):
            st, val = C.outcome(lambda: C.make(kind, {'a': {'dims': ['x'], 'units': 'm'}}, {}, {}, None, attrs))
            obs.step()
            obs.state([kind, attrs])
            require(st == 'err', '{} with {} accepted', kind, attrs)
    require(get_tracer_names() == () and get_tracer_unit_dict() == {}, 'registry changed')
    # a component cannot output one of its own tracers besides returning it on the tracer axis
    pre = [('p1', 'K'), ('p2', 'm'), ('p3', 'kg')]
    for kind in ('tend', 'impl', 'step'):
        s = ' s^-1' if kind != 'step' else ''
        for npre, nreg in itertools.product(range(4), range(3)):
            reset()
            for t in (('t1', 'g/kg'), ('p1', 'K'))[:nreg]:
                register_tracer(*t)
            names = get_tracer_names()
            mine = dict(pre[:npre])
            for own, u in (('p1', 'K'), ('p2', 'm'), ('p3', 'kg'), ('t1', 'g/kg'), ('a', 'm')):
                for alias in ({}, {'alias': 'other'}):
                    st, val = C.outcome(lambda: C.make(kind, {'a': {'dims': ['x'], 'units': 'm'}}, {own: dict(alias, dims=['x'], units=u + s)}, {}, None,
                                                       {'uses_tracers': True, 'tracer_dims': ['tracer', 'x'], 'prepend_tracers': pre[:npre]}))
                    obs.step()
                    obs.state([kind, npre, nreg, own, alias])
                    where = '{} which outputs {} with {} prepended and {} registered'.format(kind, own, sorted(mine), names)
                    require(get_tracer_names() == names, 'registry changed by a {}', where)
                    if own in mine or own in names:
                        require(st == 'err', 'accepted a {}', where)
                    else:
                        require(st == 'ok', 'refused a {}: {!r}', where, val)
            TR.reset_packers()
            # those refused are not in the way of later registrations
            for t, u in pre + [('t1', 'g/kg')]:
                require(C.outcome(register_tracer, t, u)[0] == 'ok', '{} cannot be registered later', t)


def run_declare(case, obs):
    units = {'t1': 'g/kg', 't2': 'm', 't3': '%'}
    for n in range(4):
        for order in itertools.permutations(sorted(units), n):
            reset()
            for t in order:
                register_tracer(t, units[t])
            for pre in ([], [('p1', 'degC')], [('p1', 'K'), ('p2', 'kg/kg')], [('t2', 'm'), ('p1', 'K')]):
                for td in (['tracer'], [], ['x'], ['x', 'tracer'], ['tracer', 'x', '*'], ['y', 'tracer', 'x'], ['*', 'x']):
                    for form in (list, tuple):
                        a, b = form(pre), form(td)
                        for again in range(2):
                            got = sympl.get_tracer_input_properties(a, b)
                            obs.step()
                            obs.state([order, pre, td, form.__name__])
                            where = 'tracers {} prepending {} with dims {}'.format(order, pre, td)
                            require(a == form(pre) and b == form(td), '{}: arguments altered', where)
                            want = dict({t: units[t] for t in order}, **dict(pre))
                            require(set(got) == set(want), '{}: declared {}', where, sorted(got))
                            for t in want:
                                require(L.same_unit(got[t]['units'], want[t]), '{}: {} in {}', where, t, got[t]['units'])
                                require(list(got[t]['dims']) == [d for d in td if d != 'tracer'], '{}: {} with dims {}', where, t, got[t]['dims'])
                            obs.outcome(sorted(want))
                            # the result belongs to the caller
                            for t in list(got):
                                got[t]['units'] = 'changed'
                                if isinstance(got[t]['dims'], list):
                                    got[t]['dims'].append('changed')
                            got.clear()
            require(list(get_tracer_names()) == list(order), 'registered names {} instead of {}', get_tracer_names(), order)
            require(get_tracer_unit_dict() == {t: units[t] for t in order}, 'registered units {}', get_tracer_unit_dict())
