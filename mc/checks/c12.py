"""C12: combining the declarations of several components."""
import itertools
from datetime import datetime, timedelta
import numpy as np
import sympl
from sympl import (InvalidPropertyDictError, TendencyComponentComposite, ImplicitTendencyComponentComposite,
                   DiagnosticComponentComposite, AdamsBashforth, Leapfrog, SSPRungeKutta)
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All ordered pairs of dims declarations over three dimension names with the wildcard at any place, and all ordered '
        'triples over two, in every composite class and in time steppers: acceptance, the combined declaration and its '
        'independence of order are compared with a set model; every state over the named dimensions and one more that '
        'satisfies the combined declaration is passed to the combination. All ordered pairs of units, and tendency '
        'declarations likewise. Repeated under several hash seeds.')
SCENARIOS = ['combine']
ASSUMPTIONS = ['Bounds: three dimension names for pairs, two for triples (thorough: quadruples over a reduced set).',
               'Hash seeds 0, 1 and 2 (set iteration order is not part of the promise).']
HASHSEEDS = [0, 1, 2]
T0 = datetime(2000, 1, 1)
DT = timedelta(seconds=30)
LEN = {'x': 2, 'y': 3, 'z': 4, 'w': 2}


def cases(tier):
    S3 = list(L.specs(['x', 'y', 'z']))
    S2 = list(L.specs(['x', 'y']))
    for s in S3:
        yield {'kind': 'pairs', 'first': s}
    for s in S2:
        yield {'kind': 'states', 'first': s}
        yield {'kind': 'triples', 'first': s}
        yield {'kind': 'steppers', 'first': s}
        yield {'kind': 'tend', 'first': s}
    if tier == 'thorough':
        for s in S3:
            yield {'kind': 'states3', 'first': s}
            yield {'kind': 'triples3', 'first': s}
    for u in sorted(L.UNITS):
        yield {'kind': 'units', 'first': u}


def meet(specs):
    """Model: (named dims, wildcard?) of the combination, or None."""
    fixed = [set(s) for s in specs if '*' not in s]
    wild = [set(s) - {'*'} for s in specs if '*' in s]
    names = set().union(*wild) if wild else set()
    if not fixed:
        return names, True
    if any(f != fixed[0] for f in fixed) or not names <= fixed[0]:
        return None
    return fixed[0], False


_cache = {}


def comp(kind, spec, units='m', i=0):
    key = (kind, tuple(spec), units, i)
    if key not in _cache:
        fn = (lambda raw, t: ({}, {'d%d' % i: raw['q'] * 2}))
        if kind == 'dtend':
            _cache[key] = C.make('tend', {'q': {'dims': list(spec), 'units': units}}, {'q': {'units': units + ' s^-1'}}, {},
                                 lambda raw, t: ({'q': raw['q'] * 0.1}, {}))
        else:
            _cache[key] = C.make(kind, {'q': {'dims': list(spec), 'units': units}}, {} if kind != 'diag' else None,
                                 {'d%d' % i: {'dims': list(spec), 'units': units}}, fn)
    return _cache[key]


CLASSES = {'diag': DiagnosticComponentComposite, 'tend': TendencyComponentComposite, 'impl': ImplicitTendencyComponentComposite}


def check_combo(specs, kind, obs, cls=None):
    cls = cls or CLASSES[kind]
    comps = [comp(kind, s, 'm', i) for i, s in enumerate(specs)]
    st, val = C.outcome(lambda: cls(*comps))
    obs.step()
    want = meet(specs)
    where = '{} of inputs with dims {}'.format(cls.__name__, specs)
    if want is None:
        require(st == 'err', 'accepted {}: combined {}', where, val.input_properties['q'] if st == 'ok' else None)
        require(isinstance(val, InvalidPropertyDictError), '{} refused with {!r}', where, val)
        obs.outcome('refused')
        return None
    require(st == 'ok', 'refused {}: {!r}', where, val)
    got = list(val.input_properties['q']['dims'])
    require(set(got) - {'*'} == want[0] and ('*' in got) == want[1] and len(got) == len(set(got)),
            '{} declares combined dims {} instead of {}{}', where, got, sorted(want[0]), ' and *' if want[1] else '')
    require(L.same_unit(val.input_properties['q']['units'], 'm'), '{} declares units {!r}', where, val.input_properties['q']['units'])
    obs.outcome([sorted(want[0]), want[1]])
    return val


def check_states(specs, kind, comp_, obs):
    named, wild = meet(specs)
    for dims in L.arrangements(sorted(named | {'w', 'x'}) if wild else sorted(named)):
        if not wild and not set(dims) <= named:
            continue
        st = {'q': C.da(dims, L.values_for([LEN[d] for d in dims]), 'km'), 'time': T0}
        res, val = C.outcome(comp_, st) if kind != 'impl' else C.outcome(comp_, st, DT)
        obs.step()
        obs.state(['state', specs, kind, dims])
        require(res == 'ok', 'state with q{} satisfies the combination {} of {} but was refused: {!r}', dims,
                list(comp_.input_properties['q']['dims']), specs, val)


def run(case, obs):
    kind, first = case['kind'], case['first']
    S3 = list(L.specs(['x', 'y', 'z']))
    S2 = list(L.specs(['x', 'y']))
    if kind == 'pairs':
        for s in S3:
            for k in CLASSES:
                obs.state([k, first, s])
                check_combo([first, s], k, obs)
    elif kind in ('states', 'states3'):
        for s in (S2 if kind == 'states' else S3):
            for k in CLASSES:
                c = check_combo([first, s], k, obs)
                if c is not None:
                    check_states([first, s], k, c, obs)
    elif kind in ('triples', 'triples3'):
        for s in (S2 if kind == 'triples' else S3[::3]):
            for t in (S2 if kind == 'triples' else S3[::2]):
                obs.state(['triple', first, s, t])
                check_combo([first, s, t], 'diag' if len(s) % 2 else 'tend', obs)
    elif kind == 'steppers':
        for s in S2:
            for cls in (AdamsBashforth, Leapfrog, SSPRungeKutta):
                obs.state([cls.__name__, first, s])
                c = check_combo([first, s], 'tend', obs, cls)
                # components that also have a tendency for the quantity
                comps = [comp('dtend', first), comp('dtend', s)]
                st, val = C.outcome(lambda: cls(*comps))
                obs.step()
                want = meet([first, s])
                require((st == 'ok') == (want is not None), '{} of tendencies for q with dims {} and {}: {!r}', cls.__name__, first, s, val)
                if want is None:
                    require(isinstance(val, InvalidPropertyDictError), 'refused with {!r}', val)
                    continue
                for prop in ('input_properties', 'output_properties'):
                    got = list(getattr(val, prop)['q']['dims'])
                    require(set(got) - {'*'} == want[0] and ('*' in got) == want[1], '{} of {} and {} has {} dims {}', cls.__name__, first, s, prop, got)
                require(L.same_unit(val.output_properties['q']['units'], 'm'), 'output units {!r}', val.output_properties['q']['units'])
                if cls is AdamsBashforth:
                    for dims in ([], sorted(want[0])):
                        st = {'q': C.da(dims, L.values_for([LEN[d] for d in dims]), 'km'), 'time': T0}
                        res, out = C.outcome(cls(*comps), st, DT)
                        obs.step()
                        require(res == 'ok', '{} of {} and {} refused q{}: {!r}', cls.__name__, first, s, dims, out)
    elif kind == 'tend':
        # tendencies declared with dims of their own
        for s in S2:
            cs = []
            for i, sp in enumerate((first, s)):
                cs.append(C.make('tend', {'o': {'dims': ['x', 'y'], 'units': 'm'}}, {'q': {'dims': sp, 'units': 'm s^-1' if i else 'km hour^-1'}}, {}))
            want = meet([first, s])
            for cls in (TendencyComponentComposite, ImplicitTendencyComponentComposite):
                st, val = C.outcome(lambda: cls(*cs))
                obs.step()
                obs.state(['tend', first, s])
                require((st == 'ok') == (want is not None), 'tendencies with dims {} and {}: {!r}', first, s, val)
                if st == 'err':
                    require(isinstance(val, InvalidPropertyDictError), 'refused with {!r}', val)
                else:
                    got = list(val.tendency_properties['q']['dims'])
                    require(set(got) - {'*'} == want[0] and ('*' in got) == want[1], 'tendency dims {} from {} and {}', got, first, s)
    elif kind == 'units':
        for v in sorted(L.UNITS):
            ok = L.compatible(first, v)
            for k in CLASSES:
                st, val = C.outcome(lambda: CLASSES[k](comp(k, ['x'], first, 0), comp(k, ['x'], v, 1)))
                obs.step()
                obs.state(['units', first, v, k])
                require((st == 'ok') == ok, '{} of inputs in {!r} and {!r}: {!r}', CLASSES[k].__name__, first, v, val)
                if st == 'err':
                    require(isinstance(val, InvalidPropertyDictError), 'refused with {!r}', val)
                    continue
                got = val.input_properties['q']['units']
                require(got in L.UNITS and L.compatible(got, first), 'combined units {!r} of {!r} and {!r}', got, first, v)
            # a third component in between cannot hide a conflict
            if not ok:
                for order in ([first, first, v], [first, v, first]):
                    st, val = C.outcome(lambda: DiagnosticComponentComposite(*[comp('diag', ['x'], u, i) for i, u in enumerate(order)]))
                    obs.step()
                    require(st == 'err' and isinstance(val, InvalidPropertyDictError), 'units {} combined: {!r}', order, val)
