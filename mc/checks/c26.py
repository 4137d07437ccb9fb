"""C26: arrays initialised from output declarations."""
import itertools
import numpy as np
import sympl
from sympl import (TendencyComponent, Stepper, initialize_numpy_arrays_with_properties as init, get_numpy_arrays_with_properties,
                   InvalidStateError, register_tracer)
from sympl._core.tracers import reset_tracers, reset_packers
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All pairs of input declarations and all outputs over them (own dims or inherited, alias, six dtypes), with dims all ordered '
        'subsets of two names and the wildcard, lengths from four profiles including 0 and 1: shapes, dtype, values, keys compared '
        'with the declarations; all single conflicting lengths refused; all histories of up to three registered tracers x all '
        'prepended lists over registered and own names x all tracer dims orders x outputs naming tracers; the same through real '
        'components whose array_call initialises its results.')
SCENARIOS = ['functions']
ASSUMPTIONS = ['Outputs along a dimension no input has are not explored.', 'Outputs are keyed by quantity name.']
DT = [None, 'float64', 'float32', 'int32', 'bool', 'complex128']
PROFILES = [{'x': 2, 'y': 3, '*': 4}, {'x': 2, 'y': 2, '*': 2}, {'x': 1, 'y': 3, '*': 1}, {'x': 0, 'y': 2, '*': 3}]
SPECS = [list(p) for k in range(4) for p in itertools.permutations(['x', 'y', '*'], k)]


def cases(tier):
    for i in range(len(SPECS)):
        for j in range(len(SPECS)):
            yield {'kind': 'plain', 'in': [i, j], 'deep': tier != 'quick'}
    for i in range(len(SPECS)):
        yield {'kind': 'conflict', 'in': i}
    for nreg in range(4):
        for order in itertools.permutations(range(3), nreg):
            for pre in range(len(PRE)):
                yield {'kind': 'tracers', 'reg': list(order), 'pre': pre}
    for kind in ('tend', 'impl', 'step'):
        for order in ([], [0], [1, 0], [2, 0, 1]):
            for pre in range(len(PRE)):
                yield {'kind': 'component', 'comp': kind, 'reg': list(order), 'pre': pre}


TR = ['t0', 't1', 't2']
PRE = [[], ['p'], ['p', 'q'], ['t1'], ['t1', 'p'], ['p', 't0', 't1']]


def run(case, obs):
    reset_tracers()
    reset_packers()
    try:
        globals()['run_' + case['kind']](case, obs)
    finally:
        reset_tracers()
        reset_packers()


def check(got, want, what):
    require(set(got) == set(want), '{}: arrays for {} instead of {}', what, sorted(got), sorted(want))
    for k, (shape, dtype) in want.items():
        a = got[k]
        require(isinstance(a, np.ndarray), '{}: {} is {}', what, k, type(a))
        require(a.shape == tuple(shape) and a.dtype == np.dtype(dtype), '{}: {} has shape {} and dtype {} instead of {} {}', what, k, a.shape, a.dtype, shape, dtype)
        require(not a.any(), '{}: {} is not zero', what, k)
        require(a.flags.writeable, '{}: {} cannot be written', what, k)
    ids = [id(a) for a in got.values()]
    require(len(set(ids)) == len(ids) and not any(np.shares_memory(a, b) for a, b in itertools.combinations(got.values(), 2)), '{}: arrays share memory', what)


def props(dims, alias=None, **kw):
    p = dict(kw, units='m')
    if dims is not None:
        p['dims'] = list(dims)
    if alias:
        p['alias'] = alias
    return p


def run_plain(case, obs):
    si, sj = (SPECS[k] for k in case['in'])
    for prof in PROFILES if case['deep'] else PROFILES[:3]:
        for alias in (None, 'A'):
            inputs = {'a': props(si, alias), 'b': props(sj)}
            raw = {alias or 'a': np.ones([prof[d] for d in si]), 'b': np.ones([prof[d] for d in sj]) * 2, 'time': C.DT}
            before = L.fingerprint(raw)
            known = [d for d in ('x', 'y', '*') if d in si + sj]
            outs = [s for s in SPECS if set(s) <= set(known)]
            for n, so in enumerate(outs):
                for inh in ('a', 'b'):
                    dt = DT[(n + case['in'][0] + (inh == 'b')) % len(DT)]
                    outputs = {'o': props(so, 'A' if inh == 'a' else None), inh: props(None if n % 2 else so)}
                    if dt:
                        outputs['o' if n % 3 else inh]['dtype'] = np.dtype(dt) if n % 4 else getattr(np, dt if dt != 'bool' else 'bool_')
                    isnap = repr((inputs, outputs))
                    got = init(outputs, raw, inputs)
                    want = {'o': ([prof[d] for d in so], dt if dt and n % 3 else float),
                            inh: ([prof[d] for d in ((si if inh == 'a' else sj) if n % 2 else so)], dt if dt and not n % 3 else float)}
                    check(got, want, 'outputs {} inputs {}'.format(outputs, inputs))
                    require(repr((inputs, outputs)) == isnap and L.fingerprint(raw) == before, 'declarations or inputs were altered: {}', inputs)
                    got['o'][...] = 1
                    check(init(outputs, raw, inputs), want, 'second call, outputs {}'.format(outputs))
                    obs.state([prof, inputs, repr(outputs)])
                    obs.outcome([want['o'][0], str(want['o'][1])])
                    obs.step(2)
            check(init({}, raw, inputs), {}, 'no outputs')


def run_conflict(case, obs):
    si = SPECS[case['in']]
    for sj in SPECS:
        for prof in PROFILES:
            for wrong in set(si) & set(sj):
                for delta in (1, 2, -1):
                    if prof[wrong] + delta < 0:
                        continue
                    for third in ('a', 'c'):
                        inputs = {'a': props(si, 'A'), 'b': props(sj), 'c': props(sj)}
                        p2 = dict(prof)
                        p2[wrong] += delta
                        raw = {'A': np.ones([prof[d] for d in si]), 'b': np.ones([p2[d] for d in sj]), 'c': np.ones([(prof if third == 'a' else p2)[d] for d in sj])}
                        for o in ({'o': props([])}, {'o': props(list(set(si) & set(sj)))}, {}):
                            kind, got = C.outcome(init, o, raw, inputs)
                            require(kind == 'err' and isinstance(got, InvalidStateError), 'inputs {} with shapes {} gave {!r}', inputs, {k: v.shape for k, v in raw.items()}, got)
                            obs.step()
                        obs.state([si, sj, prof, wrong, delta, third])
    obs.outcome('refused')


TDIMS = [p for k in range(1, 4) for p in itertools.permutations(['tracer', 'x', '*'], k) if 'tracer' in p] + [('y', 'tracer', 'x', '*')]


def run_tracers(case, obs):
    for i in case['reg']:
        register_tracer(TR[i], 'g/kg')
    pre = [(n, 'g/kg') for n in PRE[case['pre']]]
    names = [n for n, _ in pre] + [TR[i] for i in case['reg'] if TR[i] not in PRE[case['pre']]]
    for tdims in TDIMS:
        for prof in PROFILES:
            for variant in range(7):
                inputs = {'a': props(['x', 'y', '*'])}
                raw = {'a': np.ones([prof[d] for d in ('x', 'y', '*')])}
                n = len(names)
                tshape = [n if d == 'tracer' else (prof[d] if n else 0) for d in tdims]
                outputs = {'o': props(['y'])}
                want = {'o': ([prof['y']], float)}
                if variant in (1, 3):
                    raw['tracers'] = np.ones(tshape)
                if variant in (2, 3):
                    for t in names:      # the individual tracers declared as inputs and as outputs
                        inputs[t] = props([d for d in tdims if d != 'tracer'], tracer=True)
                        outputs[t] = props([d for d in tdims if d != 'tracer'])
                if variant == 4:         # not using tracers: the same names are ordinary quantities
                    for t in names:
                        outputs[t] = props(['x'])
                        want[t] = ([prof['x']], float)
                    check(init(outputs, raw, inputs), want, 'no tracer dims')
                    obs.step()
                    continue
                if variant == 5:         # dims which only the tracers have
                    if 'y' in tdims or not n:
                        continue
                    inputs = {'a': props(['y'])}
                    raw = {'a': np.ones([prof['y']]), 'tracers': np.ones(tshape)}
                if variant == 6:         # an input with a dimension of that name, which is not the tracers'
                    inputs['k'] = props(['tracer', 'x'])
                    raw['k'] = np.ones([n + 2, prof['x']])
                want['tracers'] = ([n if d == 'tracer' else prof[d] for d in tdims], float)
                for p in ([pre, tuple(pre)] if pre else [(), []]):
                    got = init(outputs, raw, inputs, tracer_dims=tdims if variant else list(tdims), prepend_tracers=p)
                    check(got, want, 'tracers {} prepended {} dims {} variant {}'.format(case['reg'], pre, tdims, variant))
                    obs.step()
                obs.state([case['reg'], case['pre'], tdims, prof, variant])
                obs.outcome(want['tracers'][0])


def run_component(case, obs):
    kind = case['comp']
    for i in case['reg']:
        register_tracer(TR[i], 'g/kg')
    pre = [(n, 'g/kg') for n in PRE[case['pre']]]
    names = [n for n, _ in pre] + [TR[i] for i in case['reg'] if TR[i] not in PRE[case['pre']]]
    unit = '' if kind == 'step' else ' s^-1'
    for tdims in TDIMS:
        if 'y' in tdims:
            continue
        for with_input in (True, False):
            if not with_input and not names:
                continue
            reset_packers()
            main = {'o': {'dims': [d for d in tdims if d not in ('tracer', '*')] if not with_input else ['y', 'x'], 'units': 'm' + unit}}
            if with_input:
                main['a'] = {'units': 'K' + unit}
            seen = {}

            def fn(raw, dt):
                self = seen['comp']
                out = init(main, raw, self.input_properties, self.tracer_dims, self.prepend_tracers)
                want = {'o': ([L_[d] for d in main['o']['dims']], float)}
                L2 = dict(L_, tracer=len(names))
                want['tracers'] = ([L2[d] for d in tdims], float)
                if with_input:
                    want['a'] = ([L_['x'], L_['y'], L_['*']], float)
                check(out, want, '{} with tracers {} prepended {} dims {}'.format(kind, case['reg'], pre, tdims))
                for v in out.values():
                    v += 7.
                return out, {}
            dims = {'x': 2, 'y': 3, 'z': 4}
            L_ = {'x': 2, 'y': 3, '*': 4}
            attrs = {'uses_tracers': True, 'tracer_dims': list(tdims), 'prepend_tracers': pre}
            comp = seen['comp'] = C.make(kind, {'a': {'dims': ['x', 'y', '*'], 'units': 'K'}} if with_input else {}, main, {}, fn, attrs=attrs)
            tq = [{'*': 'z'}.get(d, d) for d in tdims if d != 'tracer']
            state = {'time': sympl.datetime(2000, 1, 1), 'a': C.da(('x', 'y', 'z'), L.values_for((2, 3, 4)), 'K')}
            for n in names:
                state[n] = C.da(tq, L.values_for([dims[d] for d in tq]), 'g/kg')
            m, d = C.call(kind, comp, state)
            require(set(m) == set(names) | set(main), '{}: results {}', kind, sorted(m))
            for n in names:
                require(m[n].shape == state[n].shape and (m[n].values == 7).all(), '{}: tracer {} has shape {}', kind, n, m[n].shape)
            obs.state([kind, case['reg'], case['pre'], tdims, with_input])
            obs.step()
            obs.outcome([sorted(m), [m[n].shape for n in names]])
