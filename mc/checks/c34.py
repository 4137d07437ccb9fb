"""C34: a failing part leaves nothing behind: expressions of C29 with a failure at every computation."""
import warnings
from datetime import timedelta
import numpy as np
from mc.core import require
from mc import lab as L
from mc.checks import c29

LEVEL = 'fault_enumeration'
RULE = ('All expressions of one operator and chains of two of C29 (thorough: all of two and chains of three), called along a history of four states, with an exception at each single computation '
        'of the components in turn (thorough: also at each pair of computations), and an exception of each of eight built-in kinds at the first two; the failed call is repeated. '
        'The exception must come out unchanged, the state and all earlier results must be unaltered, and the results of the repeated call and '
        'of all later ones equal those of an interpreter in which failing at the same computation leaves the memory of '
        'every part as it was before that part was called.')
ASSUMPTIONS = ['StopIteration, which generators turn into another exception, is not among the kinds of exceptions.', 'Parts which had completed when another part failed have made their step (there is no transaction over several parts).',
               'The parts of a composite are evaluated in the order given.']
warnings.filterwarnings('ignore')


def fault_class(base):
    return type('Fault' + base.__name__, (base,), {'fault': True})


FAULTS = {b.__name__: fault_class(b) for b in (Exception, TypeError, ValueError, KeyError, AttributeError, RuntimeError, NotImplementedError, KeyboardInterrupt)}
OTHERS = [n for n in FAULTS if n != 'Exception']


def cases(tier):
    chunk = 4
    for n in range(0, 3):
        es = c29.exprs(n) if n < 2 or tier == 'thorough' else c29.chains(n)
        for i in range(0, len(es), chunk):
            yield {'exprs': es[i:i + chunk], 'pairs': tier == 'thorough' and n < 2, 'all': n < 2}
    if tier == 'thorough':
        es = c29.chains(3)
        for i in range(0, len(es), chunk):
            yield {'exprs': es[i:i + chunk], 'pairs': False, 'all': False}


def run(case, obs):
    for e in case['exprs']:
        n = play(e, (), obs)
        # nothing had been done when the first computation failed: the run may start anew with another timestep
        play(e, (0,), obs, redo=timedelta(seconds=7))
        for i in range(n):
            play(e, (i,), obs)
            if i < 2:
                for name in OTHERS if case['all'] else ('TypeError',):
                    play(e, (i,), obs, name)
        if case['pairs']:
            for i in range(min(n, 8)):
                for j in range(i + 1, min(n, 8) + 1):
                    play(e, (i, j), obs)


def attempt(side, fn):
    """'ok' and the result, or 'fault' and the number of the computation that failed."""
    try:
        return 'ok', fn()
    except BaseException as err:
        if not hasattr(err, 'fault'):
            raise
        return 'fault', err.args[0]


def play(e, faults, obs, name='Exception', redo=None):
    b = c29.Built(e, [0])
    n = {'real': 0, 'model': 0}

    def hook(side):
        n[side] += 1
        if n[side] - 1 in faults:
            raise FAULTS[name](n[side] - 1)

    c29.HOOK = hook
    later = []
    first_dt = c29.DT, c29.H
    try:
        for k, (st, si) in enumerate(c29.states()):
            for again in range(len(faults) + 1):
                where = '{} failing with {} at computation {}, call {}{}'.format(e, name, faults, k, ' again' * again)
                before = L.fingerprint(st)
                res_m, want = attempt('model', lambda: b.run(si, k * c29.DT))
                res, r = attempt('real', lambda: b.obj(st) if b.kind in ('tend', 'diag') else b.obj(st, c29.DT))
                obs.step()
                require(n['real'] == n['model'], '{}: {} computations instead of {}', where, n['real'], n['model'])
                require(res == res_m, '{}: {} instead of {}', where, (res, r) if res == 'fault' else res, res_m)
                for f, old, j in later:
                    require(f == L.fingerprint(old), '{}: the results of call {} were altered', where, j)
                if res == 'ok':
                    c29.check_call(b, e, st, before, r, want[0], want[1], where)
                    later.append((L.fingerprint(list(r) if isinstance(r, tuple) else r), list(r) if isinstance(r, tuple) else r, k))
                    break
                require(r == want, '{}: failure {} instead of {}', where, r, want)
                require(L.fingerprint(st) == before, '{}: state altered by the failed call', where)
                if redo is not None:
                    c29.DT, c29.H = redo, redo.total_seconds()
            obs.state([e, faults, k, name])
        obs.outcome([b.kind, n['real'], len(faults)])
    finally:
        c29.HOOK = None
        c29.DT, c29.H = first_dt
    return n['real']
