"""C24: get_numpy_array and restore_dimensions are inverse, over all dims, lists and lengths."""
import itertools
import numpy as np
import sympl
from sympl import get_numpy_array, restore_dimensions, DataArray
from mc.core import require
from mc import lab as L

LEVEL = 'model_checking'
HASHSEEDS = [0, 1, 2]
RULE = ('All dimension orders of up to 3 (thorough 4) dims out of {x, y, z, h, w} x all dims lists of up to 3 names with or '
        'without a wildcard anywhere x length profiles (distinct, equal, ones, zero) x memory layout, dtype and coordinates: the '
        'extracted array compared with the labelled-array model or refused, then (an elementwise function of) it restored and '
        'compared; all wrong sizes refused; all orders of required wildcard matches; all orders of four to six dims with wildcards.')
SCENARIOS = ['functions']
ASSUMPTIONS = ['A missing direction gives an axis of length one for x, y and z and a wildcard; a missing other name is refused.',
               'Only dimension coordinates are restored; a dimension without coordinates may gain the default ones.']
DIMS = ['x', 'y', 'z', 'h', 'w']


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for dims in L.arrangements(DIMS, n):
        yield {'dims': dims, 'n': n}
    for k in (4, 5, 6):
        for i in range(k):
            yield {'many': k, 'first': i}


def expected(dims, shape, spec):
    """(shape of the result, permutation source order) or None if refused."""
    named = [d for d in spec if d != '*']
    rest = [d for d in dims if d not in named]
    if rest and '*' not in spec:
        return None
    if any(d not in dims and d not in ('x', 'y', 'z') for d in named):
        return None
    order, out = [], []
    size = dict(zip(dims, shape))
    for d in spec:
        if d == '*':
            order += rest
            out.append(int(np.prod([size[r] for r in rest])) if rest else 1)
        elif d in dims:
            order.append(d)
            out.append(size[d])
        else:
            out.append(1)
    return order, out, rest


def run_many(case, obs):
    """Many dims in the wildcard: every order of the dims in the array."""
    names = ['x', 'aa', 'z', 'h', 'b1', 'q'][:case['many']]
    first = names[case['first']]
    for rest in itertools.permutations([n for n in names if n != first]):
        dims = [first] + list(rest)
        if case['many'] == 6 and dims.index('aa') % 2:
            continue
        shape = [{'x': 2, 'aa': 3, 'z': 2, 'h': 1, 'b1': 2, 'q': 2}[d] for d in dims]
        arr = DataArray(L.values_for(shape), dims=dims, attrs={'units': 'm'})
        for spec in (['*'], ['*', 'x'], ['z', '*'], ['h', '*', 'x'], ['y', '*']):
            one(arr, dims, shape, spec, obs, full=False)


def run(case, obs):
    if 'many' in case:
        return run_many(case, obs)
    dims = case['dims']
    profiles = [L.PROFILES[p] for p in ('distinct', 'equal', 'ones', 'zero')]
    for prof in profiles:
        lens = dict(prof, h=3 if prof['x'] == 2 else 1)
        if prof is L.PROFILES['equal']:
            lens['h'] = 2
        shape = [lens[d] for d in dims]
        for li, lay in enumerate(('C', 'F', 'strided', 'neg')):
            dt = ['f8', 'i4', 'f4', 'f8'][li]
            base = L.layout(L.values_for(shape, dtype=dt), lay)
            coords = {}
            if li % 2 == 0:
                coords = {d: np.arange(n) * 1.5 + k for k, (d, n) in enumerate(zip(dims, shape))}
                if li == 2 and len(dims) > 1:
                    coords.pop(dims[0])
            arr = DataArray(base, dims=dims, coords=coords, attrs={'units': 'm', 'k': 1})
            for spec in L.specs(DIMS[:4] if case['n'] == 3 else DIMS, maxlen=3):
                if li and prof is not L.PROFILES['distinct']:
                    continue
                one(arr, dims, shape, spec, obs, full=li == 0)


def one(arr, dims, shape, spec, obs, full):
    before = L.fingerprint(arr)
    what = 'dims {} lengths {} as {}'.format(dims, shape, spec)
    exp = expected(dims, shape, spec)
    obs.step()
    obs.state([dims, shape, spec, str(arr.dtype), len(arr.coords)])
    if exp is None:
        for fn in (lambda: get_numpy_array(arr, spec), lambda: restore_dimensions(np.zeros(arr.size), spec, arr)):
            try:
                r = fn()
            except Exception as err:
                obs.outcome(type(err).__name__)
                continue
            require(False, '{}: not refused, gives shape {}', what, r.shape)
        return
    order, out, rest = exp
    got = get_numpy_array(arr, spec)
    require(isinstance(got, np.ndarray), '{}: a {}', what, type(got))
    want = np.asarray(arr.values).transpose([dims.index(d) for d in order]).reshape(out) if dims else np.asarray(arr.values).reshape(out)
    require(got.shape == tuple(out) and np.array_equal(got, want) and got.dtype == arr.dtype, '{}: extracted {} {}, expected {} {}', what, got.shape, got.tolist(), tuple(out), want.tolist())
    got2, matches = get_numpy_array(arr, list(spec), return_wildcard_matches=True)
    require(np.array_equal(got2, got), '{}: differs with return_wildcard_matches', what)
    require(matches.get('*', []) == (rest if '*' in spec else []) and set(matches) <= {'*'}, '{}: wildcard matches {}, expected {}', what, matches, rest)
    if full and '*' in spec and len(rest) > 1:
        for perm in itertools.permutations(rest):
            o2 = []
            for d in spec:
                o2 += list(perm) if d == '*' else ([d] if d in dims else [])
            w2 = np.asarray(arr.values).transpose([dims.index(d) for d in o2]).reshape(out)
            g2 = get_numpy_array(arr, spec, require_wildcard_matches={'*': list(perm)})
            require(np.array_equal(g2, w2), '{}: required matches {} give {}, expected {}', what, perm, g2.tolist(), w2.tolist())
            obs.step()
    for fn, f in (('same', lambda v: v), ('function', lambda v: v * 2 + 1)):
        attrs = {'units': 'kg', 'note': fn} if fn == 'function' else None
        r = restore_dimensions(np.array(f(got)), spec, arr, result_attrs=attrs)
        require(isinstance(r, DataArray) and tuple(r.dims) == tuple(dims) and r.shape == tuple(shape), '{}: restored with dims {} {}', what, r.dims, r.shape)
        require(np.array_equal(r.values, f(np.asarray(arr.values))), '{}: restored values {}, expected {}', what, r.values.tolist(), f(arr.values).tolist())
        require(dict(r.attrs) == (attrs or {}), '{}: restored attributes {}, requested {}', what, dict(r.attrs), attrs)
        for d in dims:
            if d in arr.coords:
                require(d in r.coords and np.array_equal(r.coords[d].values, arr.coords[d].values), '{}: coordinates of {} not restored', what, d)
            elif d in r.coords:
                require(np.array_equal(r.coords[d].values, np.arange(r.sizes[d])), '{}: coordinates of {} invented', what, d)
    if full:
        n = int(np.prod(out)) if out else 1
        for m in {n + 1, 2 * n, 0, n - 1, n * 3} - {n}:
            if m < 0:
                continue
            obs.step()
            try:
                r = restore_dimensions(np.zeros(m), spec, arr)
            except Exception as err:
                obs.outcome('size ' + type(err).__name__)
                continue
            require(False, '{}: an array of {} values instead of {} was accepted', what, m, n)
    require(L.fingerprint(arr) == before, '{}: the array was altered', what)
    obs.outcome([out])
