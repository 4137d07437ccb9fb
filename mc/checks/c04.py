"""C04: the quantities a computation may return."""
import itertools
from datetime import datetime
import numpy as np
import sympl
from sympl import ComponentMissingOutputError, ComponentExtraOutputError
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('For each component kind and each declaration over the alphabet (1-2 quantities in each result dictionary, with '
        'own alias / alias of the same-named input / none; one name also in both dictionaries), every subset of {names, aliases, undeclared names} is '
        'returned by the computation, and the verdict (accepted with exactly the declared quantities / missing / extra) '
        'compared with the model verdict.')
SCENARIOS = ['checks']
ASSUMPTIONS = [
    'When a subset is both incomplete and contains an undeclared name, either of the two errors is accepted.',
    'When a quantity is returned under several of its names at once nothing is promised about which is used; '
    'acceptance with exactly the declared quantities is still required.',
    'Bounds: two quantities per dictionary, both dictionaries.',
]
T0 = datetime(2000, 1, 1)
UN = {'tend': 'm s^-1', 'impl': 'm s^-1', 'step': 'm', 'diag': 'm'}


def cases(tier):
    thorough = tier == 'thorough'
    for kind in C.KINDS:
        for where in (('main', 'diags') if kind != 'diag' else ('main',)):
            for tid in ((False, True) if kind != 'diag' else (False,)):
                for al in itertools.product((None, 'own', 'inp', 'both'), (None, 'own') if not thorough else (None, 'own', 'inp', 'both')):
                    yield {'comp': kind, 'where': where, 'tid': tid, 'alias': list(al)}
                    if kind != 'diag' and (al[1] is None or thorough):
                        yield {'comp': kind, 'where': where, 'tid': tid, 'alias': list(al), 'both': True}


def run(case, obs):
    kind, where, tid = case['comp'], case['where'], case['tid']
    inputs = {'p': {'dims': ['x'], 'units': 'm'}, 'q': {'dims': ['x'], 'units': 'm'},
              'u': {'dims': ['x'], 'units': 'm', 'alias': 'in_u'}}
    unit = UN[kind] if where == 'main' else 'm'
    decl = {'p': {'dims': ['x'], 'units': unit}, 'q': {'dims': ['x'], 'units': unit}}
    names = {'p': ['p'], 'q': ['q']}
    for n, al in zip('pq', case['alias']):
        if al in ('own', 'both'):
            decl[n]['alias'] = 'out_' + n
            names[n].append('out_' + n)
        if al in ('inp', 'both'):
            inputs[n]['alias'] = 'in_' + n
            names[n].append('in_' + n)
    # other dictionary: one declared quantity r, returned or not (for 'diag' there is one dictionary)
    two = kind != 'diag'
    onames = ['r']
    other = {'r': {'dims': ['x'], 'units': 'K'}} if two else {}
    if two and case.get('both'):
        # a quantity declared in both dictionaries
        other['p'] = {'dims': ['x'], 'units': 'm' if where == 'main' else UN[kind]}
        onames = ['r', 'p']
    box = {}

    def fn(raw, dt):
        return {k: np.array(v) for k, v in box['main'].items()}, {k: np.array(v) for k, v in box['diags'].items()}
    main, diags = (decl, other) if where == 'main' else (other, decl)
    comp = C.make(kind, inputs, main, diags, fn, **({'tendencies_in_diagnostics': True} if tid else {}))
    name = comp.name if hasattr(comp, 'name') else ''
    universe = names['p'] + names['q'] + ['stranger', 'r', 'time', 'u'] + (['p_tendency'] if not tid else [])
    state = {'p': C.da(['x'], [1., 2.], 'm'), 'q': C.da(['x'], [3., 4.], 'm'), 'r': C.da(['x'], [0., 0.], 'K'), 'u': C.da(['x'], [8., 9.], 'm'), 'time': T0}
    allowed = set(names['p'] + names['q'])
    others = [('r',), (), ('r', 'stranger'), ('stranger',), ('p',), ('r', 'u'), ('r', 'in_u')] + ([('r', 'p'), ('r', 'p', 'stranger')] if case.get('both') else [])
    for k in range(len(universe) + 1):
        for sub in itertools.combinations(universe, k):
            for oth in (others if two else [()]):
                ret = {n: np.array([5. + i, 6.]) for i, n in enumerate(sub)}
                o = {n: np.array([7., 8.]) for n in oth}
                box['main'], box['diags'] = (ret, o) if where == 'main' else (o, ret)
                missing = any(not any(a in sub for a in names[n]) for n in 'pq') or (two and any(n not in oth for n in onames))
                extra = any(n not in allowed for n in sub) or any(n not in onames for n in oth)
                st, val = C.outcome(C.call, kind, comp, state)
                obs.step()
                obs.state([kind, where, tid, case['alias'], case.get('both'), sub, oth])
                what = '{} {} returned as {} and {} in the other dictionary'.format(kind, sub, where, oth)
                if not missing and not extra:
                    require(st == 'ok', 'complete results refused ({}): {!r}', what, val)
                    m, d = val
                    if where == 'main':
                        got, rest = m, d
                    else:
                        got, rest = d, m
                    tend = set()
                    if tid:
                        base = main
                        tend = set('{}_tendency_from_{}'.format(n, comp.name) for n in base)
                    if two:
                        gm = set(m)
                        gd = set(d) - tend
                        require(gm == set(main) and gd == set(diags), 'returned {} and {} ({})', sorted(gm), sorted(gd), what)
                    else:
                        require(set(got) == {'p', 'q'}, 'returned {} ({})', sorted(got), what)
                    for n in 'pq':
                        given = [ret[a].tolist() for a in names[n] if a in ret]
                        require(got[n].values.tolist() in given, '{} has values {} not given for it ({})', n, got[n].values, what)
                    obs.outcome('ok')
                else:
                    require(st == 'err', 'results accepted though {} ({})',
                            'incomplete' if missing else 'there is an undeclared quantity', what)
                    want = ((ComponentMissingOutputError,) if missing else ()) + ((ComponentExtraOutputError,) if extra else ())
                    require(isinstance(val, want), 'refused with {!r} instead of {} ({})', val, want, what)
                    obs.outcome(type(val).__name__)
