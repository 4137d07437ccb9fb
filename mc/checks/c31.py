"""C31: extracting sets of quantities as arrays and restoring them, for code that does without components."""
import itertools
from datetime import datetime
import numpy as np
import sympl
from sympl import get_numpy_arrays_with_properties as get, restore_data_arrays_with_properties as restore, combine_component_properties, DataArray
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All pairs of declarations of two quantities over two names and the wildcard x every dimension order of both in the state x length '
        'profiles x units x aliases: the arrays compared with the labelled-array model, then a function of each restored with its dims given '
        'or inherited and compared. All choices of given, ignored (by name, or by an alias, which ignores nothing) and missing results out of three with and without aliases, as arrays, '
        'lists or numbers, with missing ones tolerated or not. All triples of components: the combined declaration of inputs, tendencies, '
        'diagnostics compared with a set model. Shared keys of all pairs of sets of names.')
SCENARIOS = ['functions']
ASSUMPTIONS = ['Ambiguous wildcard states (see C01) are left out.', 'A quantity is returned under one key only.']
T0 = datetime(2000, 1, 1)


def cases(tier):
    names = 'xy' if tier == 'quick' else 'xyz'
    S = list(L.specs('xy'))
    for sa in S:
        for sb in S if tier == 'thorough' else S[::2]:
            yield {'kind': 'round', 'sa': sa, 'sb': sb, 'names': names}
    for own in itertools.product((None, 'own'), repeat=3):
        for inp in (None, 'inp'):
            yield {'kind': 'options', 'own': own, 'inp': inp}
    for u in ('m', 'cm', 'km'):
        yield {'kind': 'combine', 'units': u}
    yield {'kind': 'keys'}


def run(case, obs):
    globals()['run_' + case['kind']](case, obs)


def run_round(case, obs):
    sa, sb = case['sa'], case['sb']
    decls = {'alpha': sa, 'beta': sb}
    for profile in ('distinct', 'equal', 'ones', 'zero'):
        lens = dict(L.PROFILES[profile], z=2)
        for da_ in L.states_for(sa, case['names']):
            for db in L.states_for(sb, case['names']):
                for alias in (None, 'A'):
                    props = {'alpha': dict({'dims': sa, 'units': 'degC'}, **({'alias': alias} if alias else {})), 'beta': {'dims': tuple(sb) if alias else sb, 'units': 'm'}}
                    st = {'time': T0, 'beta': C.da(db, L.values_for([lens[d] for d in db], 5., dtype='f4' if alias else 'i4'), 'm'),
                          'alpha': C.da(da_, L.values_for([lens[d] for d in da_], 300.), 'K'), 'other': C.da(['n'], np.ones(4), 's')}
                    labs = {n: L.lab_of(st[n]) for n in decls}
                    if L.ambiguous(decls, labs):
                        obs.count('skipped_ambiguous')
                        continue
                    before = L.fingerprint(st)
                    where = 'alpha{} as {}, beta{} as {}'.format(da_, sa, db, sb)
                    raw = get(st, props)
                    obs.step()
                    obs.state([sa, sb, profile, da_, db, alias])
                    require(set(raw) == {alias or 'alpha', 'beta'}, '{}: arrays {}', where, sorted(raw))
                    require(all(isinstance(v, np.ndarray) for v in raw.values()), '{}: not arrays', where)
                    raws = {'alpha': raw[alias or 'alpha'], 'beta': raw['beta']}
                    # a dimension of length zero leaves nothing to tell the orders apart
                    wild = L.find_wildcard_order(decls, {'alpha': 'degC', 'beta': 'm'}, labs, raws, {'alpha': False, 'beta': True})
                    lengths = L.lengths_of(labs)
                    for style in ('inherit', 'explicit', 'reversed'):
                        out = {}
                        res = {}
                        f = {'alpha': lambda v: v * 2 + 1, 'beta': lambda v: v * 3}
                        for n in decls:
                            spec = list(decls[n])
                            v = f[n](np.array(raws[n]))
                            p = {'units': {'alpha': 'K', 'beta': 'km'}[n]}
                            if style == 'explicit':
                                p['dims'] = spec
                            elif style == 'reversed':
                                p['dims'] = spec[::-1]
                                v = v.T
                            out[n] = p
                            res[alias if n == 'alpha' and alias and style != 'explicit' else n] = v
                        kept = {k: v.copy() for k, v in res.items()}
                        got = restore(res, out, st, props)
                        obs.step()
                        require(all(np.array_equal(res[k], kept[k]) for k in kept) and set(res) == set(kept), '{}: the arrays were altered', where)
                        require(set(got) == set(decls), '{}: restored {}', where, sorted(got))
                        for n in decls:
                            full = []
                            for d in decls[n]:
                                full += wild if d == '*' else [d]
                            want = f[n](labs[n].to({'alpha': 'degC', 'beta': 'm'}[n]).order(full, lengths))
                            require(isinstance(got[n], DataArray) and dict(got[n].attrs) == {'units': out[n]['units']}, '{}: {} has attributes {}', where, n, dict(got[n].attrs))
                            order = out[n].get('dims', decls[n])
                            exp = []
                            for d in order:
                                exp += wild if d == '*' else [d]
                            require(sorted(got[n].dims) == sorted(exp) and [d for d in got[n].dims if d not in wild] == [d for d in exp if d not in wild], '{}: {} restored with dims {} instead of {}', where, n, got[n].dims, exp)
                            require(L.close(L.lab_of(got[n]).order(full), want, rtol=1e-6 if n == 'beta' else 1e-9), '{}: {} restored as {} instead of {} ({})', where, n, got[n].values.tolist(), want.tolist(), style)
                    require(L.fingerprint(st) == before, '{}: state altered', where)
                    obs.outcome([wild, [list(v.shape) for v in raws.values()]])


def run_options(case, obs):
    st = {'time': T0, 'a': C.da(['x', 'y'], L.values_for([2, 3]), 'm'), 'b': C.da(['y'], L.values_for([3]), 'K')}
    inp = {'a': {'dims': ['y', 'x'], 'units': 'm'}, 'b': {'dims': ['*'], 'units': 'K'}}
    if case['inp']:
        inp['a']['alias'] = case['inp']
    shape = {'a': (3, 2), 'b': (6,) if False else (3,), 'c': (2,)}
    names = ['a', 'b', 'c']
    out = {'a': {'units': 'm'}, 'b': {'units': 'K', 'dims': ['y']}, 'c': {'units': 's', 'dims': ['x']}}
    for n, o in zip(names, case['own']):
        if o:
            out[n]['alias'] = o + n
    keys = {n: [n] + ([out[n]['alias']] if 'alias' in out[n] else []) + ([inp[n]['alias']] if n in inp and 'alias' in inp[n] else []) for n in names}
    for given in itertools.product(*[[None] + keys[n] for n in names]):
        for form in ('array', 'list', 'number'):
            # names are ignored, aliases are none
            al = sorted(set(sum(keys.values(), [])) - set(names)) if form == 'array' else []
            for ig in itertools.chain(itertools.chain.from_iterable(itertools.combinations(names + ['zzz'], k) for k in range(4)), [(a,) for a in al], itertools.product(names, al)):
                for missing in (False, True):
                    for igform in ((list, tuple, set, None) if not ig else (list, set)):
                        raw, out2 = {}, {n: dict(p) for n, p in out.items()}
                        for n, g in zip(names, given):
                            if g is None:
                                continue
                            v = L.values_for(shape[n], 7.)
                            if form == 'number' and n == 'c':
                                out2['c']['dims'] = []
                                v = 7.0
                            raw[g] = v.tolist() if form == 'list' else v
                        kw = {} if igform is None else {'ignore_names': igform(ig)}
                        if missing:
                            kw['ignore_missing'] = True
                        before = (L.fingerprint(st), repr(raw), repr(out2), repr(inp), repr(sorted(kw.get('ignore_names') or [])))
                        res, got = C.outcome(restore, raw, out2, st, inp, **kw)
                        obs.step()
                        where = 'given {} ignoring {} missing {} ({})'.format(given, ig, missing, form)
                        obs.state([case, given, form, ig, missing])
                        require((L.fingerprint(st), repr(raw), repr(out2), repr(inp), repr(sorted(kw.get('ignore_names') or []))) == before, 'arguments altered, {}', where)
                        want = [n for n, g in zip(names, given) if n not in ig and not (missing and g is None)]
                        lost = [n for n, g in zip(names, given) if n not in ig and g is None]
                        if lost and not missing:
                            require(res == 'err', 'restored {} although {} are missing, {}', got, lost, where)
                            obs.outcome('refused')
                            continue
                        require(res == 'ok', 'refused: {!r}, {}', got, where)
                        require(set(got) == set(want), 'restored {} instead of {}, {}', sorted(got), want, where)
                        for n in want:
                            d = {'a': ('y', 'x'), 'b': ('y',), 'c': ('x',) if form != 'number' else ()}[n]
                            w = L.values_for(shape[n], 7.) if d else np.array(7.)
                            require(tuple(got[n].dims) == d and np.array_equal(got[n].values, w) and got[n].attrs.get('units') == out[n]['units'], '{} is {!r}, {}', n, got[n], where)
                        obs.outcome(want)


def run_combine(case, obs):
    u0 = case['units']
    D = [['x', 'y'], ['y', 'x'], ['*'], ['x', '*'], ['x']]
    from mc.checks.c12 import meet
    for specs in itertools.product(D, repeat=3):
        for units in itertools.product(['m', 'km', 'K'], repeat=2):
            us = [u0] + list(units)
            comps = [C.make('tend', {'q': {'dims': s, 'units': u}}, {'q': {'units': u + ' s^-1'}}, {'d': {'dims': s, 'units': u}}, name='K') for s, u in zip(specs, us)]
            want = meet(specs)
            ok = want is not None and all(L.compatible(u, u0) for u in us)
            for prop in ('input_properties', 'tendency_properties', 'diagnostic_properties'):
                kw = {}
                if prop == 'tendency_properties':
                    kw = {'input_properties': {'q': {'dims': ['x', 'y'], 'units': 'm'}}}
                before = [repr(getattr(c, prop)) for c in comps]
                res, got = C.outcome(combine_component_properties, comps, prop, **kw)
                obs.step()
                obs.state([specs, us, prop])
                where = '{} of {} in {}'.format(prop, specs, us)
                require([repr(getattr(c, prop)) for c in comps] == before, 'declarations altered, {}', where)
                o = all(L.compatible(u, u0) for u in us) if kw else ok
                require((res == 'ok') == o, '{}: {!r}', where, got)
                if not o:
                    require(isinstance(got, sympl.InvalidPropertyDictError), '{}: {!r}', where, got)
                    obs.outcome('refused')
                    continue
                n = 'd' if prop[0] == 'd' else 'q'
                require(set(got) == {n}, '{}: {}', where, got)
                dims = list(got[n]['dims'])
                w = ({'x', 'y'}, False) if kw else want
                require(set(dims) - {'*'} == w[0] and ('*' in dims) == w[1] and len(dims) == len(set(dims)), '{}: dims {} instead of {}', where, dims, w)
                base = u0 + ' s^-1' if kw else u0
                require(L.compatible(got[n]['units'], base), '{}: units {}', where, got[n]['units'])
                # the result belongs to the caller
                got[n]['units'] = 'changed'
                require([repr(getattr(c, prop)) for c in comps] == before, 'declarations altered through the result, {}', where)
                obs.outcome(sorted(dims))


def run_keys(case, obs):
    """ensure_no_shared_keys refuses exactly the pairs that share a name."""
    names = ['a', 'b', 'c', 'time']
    sets = [s for k in range(5) for s in itertools.combinations(names, k)]
    for s1, s2 in itertools.product(sets, repeat=2):
        for v1, v2 in ((1, 1), (None, 2), (0, '')):
            d1, d2 = {n: v1 for n in s1}, {n: v2 for n in s2}
            res, got = C.outcome(sympl.ensure_no_shared_keys, d1, d2)
            obs.step()
            obs.state([s1, s2, repr(v1)])
            require(d1 == {n: v1 for n in s1} and d2 == {n: v2 for n in s2}, 'arguments altered')
            if set(s1) & set(s2):
                require(res == 'err' and isinstance(got, sympl.SharedKeyError), '{} and {}: {!r}', s1, s2, got)
            else:
                require(res == 'ok', '{} and {} refused: {!r}', s1, s2, got)
            obs.outcome(res)
