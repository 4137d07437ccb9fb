"""C23: instance checks over all attribute subsets and call signatures."""
import functools
import itertools
from datetime import timedelta
import sympl
from sympl import (TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent, Stepper, Monitor, ScalingWrapper, UpdateFrequencyWrapper, TimeDifferencingWrapper,
                   TendencyComponentComposite, ImplicitTendencyComponentComposite, DiagnosticComponentComposite, ConstantTendencyComponent, ConstantDiagnosticComponent, RelaxationTendencyComponent)
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All 128 subsets of the seven attributes component kinds have x 22 call signatures x where the attributes live (class, '
        'instance, property, parent class): each instance check against the four base classes compared with the table of what a '
        'kind has and lacks; subclasses, subclasses of subclasses, composites, built-ins and all wrappers nested to depth two of '
        'all of these; objects that are not components at all.')
ASSUMPTIONS = ['A timestep taken through *args or keyword-only is not explored; one that only **kwargs would take is none, as it is passed by position.', 'Objects whose class is not callable have no call signature.']
ATT = ['input_properties', 'tendency_properties', 'diagnostic_properties', 'output_properties', 'array_call', 'tendencies_in_diagnostics', 'name']
HAS = {'tend': {'input_properties', 'tendency_properties', 'diagnostic_properties', 'array_call', 'tendencies_in_diagnostics', 'name'},
       'diag': {'input_properties', 'diagnostic_properties', 'array_call'},
       'step': {'input_properties', 'diagnostic_properties', 'output_properties', 'array_call', 'tendencies_in_diagnostics'}}
HAS['impl'] = HAS['tend']
TIMESTEP = {'tend': False, 'impl': True, 'diag': False, 'step': True}


def _sigs():
    def s0(self, state): pass
    def s1(self, state, timestep): pass
    def s2(self, state, timestep=None): pass
    def s3(self, state, timestep=5): pass
    def s4(self, state, timestep, extra=None): pass
    def s5(self, state, extra=None, timestep=None): pass
    def s6(self, state, timestep=None, extra=3): pass
    def s7(self, state, timestep=3, extra=None): pass
    def s8(self, state, extra=None): pass
    def s9(self, st, dt): pass
    def s10(self, timestep, state): pass
    def s11(self, a=None, timestep=None): pass
    def s12(self, state, dt=None): pass
    def s13(self, a=None, b=1, timestep=0, c=None): pass
    def s14(self, a=1, b=2, timestep=None, c=4): pass
    def s15(self, state, **kw): pass
    def s16(self, state, timestep, **kw): pass
    def s17(self, state, timestep=None, **kw): pass
    def s18(self, state, *, extra=None): pass
    def s19(self, state, timestep, *, extra=None): pass
    def s20(self, state, extra=1, **kw): pass
    # (call, takes a timestep, timestep optional defaulting to None)
    return [(None, None, None), (s0, False, False), (s1, True, False), (s2, True, True), (s3, True, False), (s4, True, False), (s5, True, True), (s6, True, True), (s7, True, False),
            (s8, False, False), (s9, False, False), (s10, True, False), (s11, True, True), (s12, False, False), (s13, True, False), (s14, True, True),
            (s15, False, False), (s16, True, False), (s17, True, True), (s18, False, False), (s19, True, False), (s20, False, False)]


SIGS = _sigs()
PLACES = ['class', 'instance', 'property', 'parent']


def expected(kind, atts, sig):
    call, takes, optional = sig
    if call is None:
        return False
    atts = set(atts)
    have = HAS[kind]
    if not have <= atts or (atts - have) - {'name'}:
        return False
    return takes == TIMESTEP[kind] or bool(optional)


def cases(tier):
    for i in range(len(SIGS)):
        for p in PLACES:
            yield {'kind': 'duck', 'sig': i, 'place': p}
    yield {'kind': 'real'}
    yield {'kind': 'others'}


def run(case, obs):
    globals()['run_' + case['kind']](case, obs)


def value(att):
    return (lambda self, *a: None) if att == 'array_call' else {'name': 'n', 'tendencies_in_diagnostics': False}.get(att, {})


def build(atts, sig, place):
    ns = {}
    if sig[0] is not None:
        ns['__call__'] = sig[0]
    if place == 'property':
        ns.update({a: property(lambda self, a=a: value(a)) for a in atts})
    elif place in ('class', 'parent'):
        ns.update({a: value(a) for a in atts})
    cls = type('Duck', (object,), ns)
    if place == 'parent':
        cls = type('Child', (cls,), {})
    obj = cls()
    if place == 'instance':
        for a in atts:
            setattr(obj, a, value(a))
    return obj


def run_duck(case, obs):
    sig = SIGS[case['sig']]
    for r in range(len(ATT) + 1):
        for atts in itertools.combinations(ATT, r):
            obj = build(atts, sig, case['place'])
            got = {}
            for kind, base in C.BASES.items():
                obs.step()
                want = expected(kind, atts, sig)
                got[kind] = isinstance(obj, base)
                require(got[kind] is want or bool(got[kind]) == want, 'an object with {} called as signature {} ({}) is {}a {}', atts, case['sig'], case['place'], '' if got[kind] else 'not ', base.__name__)
            kinds = [k for k in got if got[k]]
            require(len(kinds) <= 1 or set(kinds) == {'tend', 'impl'} and sig[2], 'classified as {}', kinds)
            obs.state([case, atts])
            obs.outcome(sorted(kinds))
            require(not isinstance(obj, SUB['tend']) and not isinstance(obj, SUB['step']), 'an unrelated object is an instance of a subclass')


INP = {'p': {'dims': ['x'], 'units': 'K'}}
MAINP = {'tend': {'p': {'units': 'K/s', 'dims': ['x']}}, 'impl': {'p': {'units': 'K/s', 'dims': ['x']}}, 'step': {'p': {'units': 'K', 'dims': ['x']}}, 'diag': {'d': {'units': 'K', 'dims': ['x']}}}
SUB = {k: C.make_class(k, INP, MAINP[k], {}, name='Sub' + k) for k in C.KINDS}


def classify(obj, kind, what, obs):
    for k, base in C.BASES.items():
        obs.step()
        require(isinstance(obj, base) == (k == kind), '{} of kind {} is {}a {}', what, kind, 'not ' if k == kind else '', base.__name__)
    obs.state([what, kind])
    obs.outcome(kind)


class Opt(object):
    """A duck type with an optional timestep: both a tendency and an implicit tendency component."""
    input_properties, tendency_properties, diagnostic_properties = INP, MAINP['tend'], {}
    tendencies_in_diagnostics, name = False, 'opt'

    def array_call(self, state, timestep=None):
        return {}, {}

    def __call__(self, state, timestep=None):
        return {}, {}


def run_real(case, obs):
    import numpy as np
    val = lambda u: {'p': C.da(['x'], np.ones(2), u)}
    objs = []
    for k in C.KINDS:
        objs.append(('subclass', k, SUB[k]()))
        objs.append(('subsubclass', k, type('SubSub', (SUB[k],), {})()))
        objs.append(('subclass with an odd call', k, type('Odd', (SUB[k],), {'__call__': lambda self, *a, **kw: None})()))
        objs.append(('subclass with an optional timestep', k, type('OptT', (SUB[k],), {'__call__': lambda self, state, timestep=None: None})()))
        objs.append(('subclass with other properties', k, type('More', (SUB[k],), {'output_properties': dict(MAINP['step']), 'tendency_properties': dict(MAINP['tend']), 'name': 'x'} if k == 'diag' else {})()))
        objs.append(('mixin subclass', k, type('Mix', (type('Plain', (object,), {'extra': 1}), SUB[k]), {})()))
    objs += [('ConstantTendencyComponent', 'tend', ConstantTendencyComponent(val('K/s'))), ('ConstantDiagnosticComponent', 'diag', ConstantDiagnosticComponent(val('K'))),
             ('RelaxationTendencyComponent', 'tend', RelaxationTendencyComponent('p', 'K')), ('TendencyComponentComposite', 'tend', TendencyComponentComposite(SUB['tend']())),
             ('ImplicitTendencyComponentComposite', 'impl', ImplicitTendencyComponentComposite(SUB['impl']())), ('DiagnosticComponentComposite', 'diag', DiagnosticComponentComposite(SUB['diag']())),
             ('TimeDifferencingWrapper', 'impl', TimeDifferencingWrapper(SUB['step']())),
             ('AdamsBashforth', 'step', sympl.AdamsBashforth(SUB['tend']())), ('Leapfrog', 'step', sympl.Leapfrog(SUB['tend']())), ('SSPRungeKutta', 'step', sympl.SSPRungeKutta(SUB['tend']()))]
    for what, kind, o in objs:
        classify(o, kind, what, obs)
        wraps = [('UpdateFrequencyWrapper', lambda o: UpdateFrequencyWrapper(o, timedelta(1))), ('ScalingWrapper', lambda o: ScalingWrapper(o))]
        if kind == 'step':
            wraps.append(('TimeDifferencingWrapper', None))
        if what in ('subclass with other properties', 'subclass with an odd call') and kind == 'diag' or 'odd call' in what or 'optional' in what:
            continue
        for wn, wf in wraps:
            if wf is None:
                classify(TimeDifferencingWrapper(o), 'impl', wn + ' of ' + what, obs)
                continue
            w = wf(o)
            if kindless(w, o):
                continue
            classify_wrapper(w, kind, wn + ' of ' + what, obs)
            for wn2, wf2 in wraps:
                if wf2 is None:
                    continue
                try:
                    w2 = wf2(w)
                except TypeError as err:
                    require(False, '{} refuses a {} of a {}: {}', wn2, wn, what, err)
                classify_wrapper(w2, kind, wn2 + ' of ' + wn + ' of ' + what, obs)
    o = Opt()
    require(isinstance(o, TendencyComponent) and isinstance(o, ImplicitTendencyComponent), 'an optional timestep does not fit both kinds')
    require(not isinstance(o, Stepper) and not isinstance(o, DiagnosticComponent), 'wrong kind')


def kindless(w, o):
    return False


def classify_wrapper(w, kind, what, obs):
    require(isinstance(w, C.BASES[kind]), '{} is not a {}', what, C.BASES[kind].__name__)
    for k, base in C.BASES.items():
        obs.step()
        if k == kind:
            continue
        same = HAS[k] == HAS[kind]
        require(same or not isinstance(w, base), '{} of kind {} is also a {}', what, kind, base.__name__)
    obs.state([what, kind])
    obs.outcome('wrapped ' + kind)


def run_others(case, obs):
    def f(state):
        pass
    things = [None, 1, 2.5, 'text', b'x', [], {}, (), set(), f, lambda state, timestep: None, object(), timedelta(1), functools.partial(f), Exception(), type('E', (object,), {})(), type, range(3), NotImplemented, 1j]
    for t in things:
        for base in list(C.BASES.values()) + list(SUB.values()) + [Monitor]:
            obs.step()
            obs.state([repr(t)[:20], base.__name__])
            r = isinstance(t, base)
            require(not r, '{!r} is classified as a {}', t, base.__name__)
            obs.outcome(bool(r))
    for k, cls in SUB.items():
        for k2, b2 in C.BASES.items():
            require(issubclass(cls, b2) == (k == k2), 'issubclass({}, {})', cls, b2)
        for k2, c2 in SUB.items():
            require(isinstance(cls(), c2) == (k == k2), 'an instance of {} is {} instance of {}', k, 'not an' if k == k2 else 'an', k2)
        other = C.make_class(k, INP, MAINP[k], {}, name='Other')
        require(not isinstance(other(), cls) and not isinstance(cls(), other), 'two unrelated subclasses are instances of each other')
