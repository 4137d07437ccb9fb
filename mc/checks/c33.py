"""C33: copies of components and steppers continue as the originals would, independently of them."""
import copy
import io
import itertools
import pickle
import sys
import types
import warnings
import numpy as np
import sympl
from mc.core import require
from mc import lab as L, comp as C
from mc.checks import c29

LEVEL = 'model_checking'
RULE = ('All expressions of one operator and chains of two of C29 (thorough: all of two and chains of three) x the number of steps taken before copying (0 to 2) x deep copy or pickle: original and copy '
        'are continued on different states in every interleaving of their remaining steps, and every result is compared with that of '
        'a fresh object which made the same steps uninterruptedly; attributes, declarations and kind of a copy are those of the original, '
        'and copying changes nothing.')
ASSUMPTIONS = ['Classes and functions are pickled by reference.', 'Interleavings: all orders of up to two more calls of each of the two objects.']
warnings.filterwarnings('ignore')
BASES = (sympl.TendencyComponent, sympl.ImplicitTendencyComponent, sympl.DiagnosticComponent, sympl.Stepper)


def cases(tier):
    chunk = 6
    for n in range(0, 4 if tier == 'thorough' else 3):
        es = c29.exprs(n) if n < 2 or (n == 2 and tier == 'thorough') else c29.chains(n)
        for i in range(0, len(es), chunk):
            yield {'exprs': es[i:i + chunk], 'after': [0, 1, 2] if n == 0 or (n < 3 and tier == 'thorough') else [1]}


def importable(obj):
    m = sys.modules.get(getattr(obj, '__module__', None))
    return getattr(m, obj.__qualname__, None) is obj


class Pickler(pickle.Pickler):
    kept = {}

    def persistent_id(self, obj):
        if isinstance(obj, (type, types.FunctionType)) and not importable(obj):
            self.kept[id(obj)] = obj
            return id(obj)
        return None


class Unpickler(pickle.Unpickler):
    def persistent_load(self, pid):
        return Pickler.kept[pid]


def pickled(obj):
    f = io.BytesIO()
    Pickler(f, protocol=pickle.HIGHEST_PROTOCOL).dump(obj)
    f.seek(0)
    return Unpickler(f).load()


WAYS = {'deepcopy': copy.deepcopy, 'pickle': pickled}


def states(perturbed):
    """States of a history; two runs differ from the moment of the copy on."""
    out = [s for s, _ in c29.states()]
    if perturbed:
        for s in out:
            for n in ('q', 'p'):
                s[n] = s[n].copy(deep=True)
                s[n].values[...] = s[n].values * 1.5 + 2
    return out


def call(b, st):
    r = b(st) if isinstance(b, (sympl.TendencyComponent, sympl.DiagnosticComponent)) and not isinstance(b, sympl.ImplicitTendencyComponent) else b(st, c29.DT)
    return list(r) if isinstance(r, tuple) else r


def build(e):
    return c29.Built(e, [0]).obj


def declarations(o):
    return [type(o).__name__, [isinstance(o, b) for b in BASES]] + [
        repr(getattr(o, a, None)) for a in ('input_properties', 'tendency_properties', 'diagnostic_properties', 'output_properties', 'name', 'tendencies_in_diagnostics')]


def run(case, obs):
    for e in case['exprs']:
        for after in case['after']:
            one(e, after, obs)


def one(e, after, obs):
    A, B = states(False), states(True)
    more = 2
    # what objects do that are never copied
    fresh = build(e)
    want_a = [L.fingerprint(call(fresh, A[k])) for k in range(after + more)]
    fresh = build(e)
    want_b = [L.fingerprint(call(fresh, (A if k < after else B)[k])) for k in range(after + more)]
    for way, fn in WAYS.items():
        for order in sorted(set(itertools.permutations('oc' * more))):
            o = build(e)
            for k in range(after):
                call(o, A[k])
            decl = declarations(o)
            res, c = C.outcome(fn, o)
            where = '{} of {} after {} calls'.format(way, e, after)
            require(res == 'ok', '{} failed: {!r}', where, c)
            require(c is not o, '{} is the same object', where)
            require(declarations(o) == decl, '{} altered the original: {}', where, declarations(o))
            require(declarations(c) == decl, '{} has {} instead of {}', where, declarations(c), decl)
            ko = kc = after
            results = []
            for x in order:
                if x == 'o':
                    r = call(o, A[ko])
                    w = want_a[ko]
                    ko += 1
                else:
                    r = call(c, B[kc])
                    w = want_b[kc]
                    kc += 1
                f = L.fingerprint(r)
                require(f == w, '{}: with the order {} the {} gives {} in its call {}', where, ''.join(order), {'o': 'original', 'c': 'copy'}[x], L.diff_fingerprints(w, f) if isinstance(r, dict) else f,
                        (ko if x == 'o' else kc) - 1)
                for old, g in results:
                    require(L.fingerprint(old) == g, '{}: an earlier result was altered', where)
                results.append((r, f))
                obs.step()
            obs.state([e, after, way, order])
        obs.outcome(want_b[-1] if len(repr(want_b[-1])) < 300 else repr(want_b[-1])[:300])
