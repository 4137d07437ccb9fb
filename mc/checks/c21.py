"""C21: unit conversion and unit predicates over all pairs and triples of a unit table."""
import itertools
import os
import numpy as np
import sympl
from sympl import DataArray, units_are_compatible, units_are_same, is_valid_unit
from mc.core import require
from mc import lab as L

LEVEL = 'model_checking'
RULE = ('All ordered pairs of the unit spellings of an independent table (factors, offsets and dimensions written out by hand) x '
        'dtype and shape of the array: conversion compared with the table or refused, original untouched, label, dims, coords and '
        'attributes kept; predicates compared for every pair. All histories of two related conversions, each in a new process. All triples within a dimension: two routes give the same value. All '
        'chains of 3 conversions of one array within a family, ending where they began. All malformed strings of a list, alone and as '
        'either member of a pair. Every binary + and - over operand kinds.')
ASSUMPTIONS = ['Compound units are compared for the spellings of the table; a unit with an offset inside a compound means a difference.',
               'Conversion to an equal unit may keep the spelling it has.', 'Values agree to 1e-9 relative (1e-5 for 4-byte floats), or exactly for equal units.']

U = sorted(L.UNITS)
BAD = ['bogus', 'm s-1', 'm^', '(', 'm (', '@', 'm/', '/s', 'K!', 'none', 'm s^x', 'kg m-2', 'unknown_unit s^-1', 'm; s', '"m', 'a.b']
TARGETS = ['m', 'K', 'degC', '', '%', 'm s^-1', 'hPa', 'degrees_north']
ARRAYS = ['f8', 'f8_0d', 'f4', 'i4', 'f8_2d', 'f8_nan']


HIST = [(u, v) for fam in (['mm', 'Mm', 'm', 'km'], ['mPa', 'MPa', 'Pa', 'hPa'], ['degC', 'K', 'degF', 'mK'], ['%', '', 'g/kg', 'degree'])
        for u in fam for v in fam]


def cases(tier):
    # first, so that they start in fresh processes
    for i in range(8):
        yield {'kind': 'history', 'part': i}
    for i in range(len(U)):
        yield {'kind': 'pairs', 'unit': i}
        yield {'kind': 'predicates', 'unit': i}
        yield {'kind': 'routes', 'unit': i, 'deep': tier == 'thorough'}
    for i in range(len(BAD)):
        yield {'kind': 'bad', 'unit': i}
    yield {'kind': 'arith'}
    yield {'kind': 'plain'}
    yield {'kind': 'nounits'}


def run(case, obs):
    globals()['run_' + case['kind']](case, obs)


def build(kind, units):
    attrs = {'units': units, 'long_name': 'a quantity', 'n': 3}
    if kind == 'f8_0d':
        return DataArray(np.array(21.5), dims=[], attrs=attrs)
    if kind == 'f8_2d':
        v = np.asfortranarray(np.arange(6.).reshape(2, 3) + 250.)
        return DataArray(v, dims=['y', 'x'], coords={'y': [10, 20], 'lab': ('x', ['a', 'b', 'c'])}, attrs=attrs, name='quantity')
    if kind == 'f8_nan':
        return DataArray(np.array([np.nan, np.inf, -np.inf, 0.0, -40.0]), dims=['x'], attrs=attrs)
    v = np.array([3, 250, -7, 0, 1], dtype=kind)
    return DataArray(v, dims=['x'], coords={'x': np.arange(5) * 2.}, attrs=attrs)


def same_label(got, want):
    return got == want or L.same_unit(got, want)


def convert_all(seq):
    """Converts once for each pair of units; returns what is wrong."""
    for u, v in seq:
        raw = np.array([3.5, 250., -7.])
        r = DataArray(raw.copy(), dims=['x'], attrs={'units': u}).to_units(v)
        want = L.convert(raw, u, v)
        if not (np.allclose(r.values, want, rtol=1e-9, atol=1e-9 * (500. if L.UNITS[u][2] or L.UNITS[v][2] else 0.)) and same_label(r.attrs.get('units'), v)):
            return '{} {!r} in {!r} gives {} {!r}'.format(raw.tolist(), u, v, r.values.tolist(), r.attrs.get('units'))
        if not (units_are_compatible(u, v) and units_are_compatible(v, u) and bool(units_are_same(u, v)) == bool(L.same_unit(u, v))):
            return '{!r} and {!r}: compatible {} same {}'.format(u, v, units_are_compatible(u, v), units_are_same(u, v))
    return ''


def run_history(case, obs):
    """All histories of two conversions, each in a process which has made no other."""
    for k, (a, b) in enumerate(itertools.product(HIST, repeat=2)):
        if k % 8 != case['part'] or (a[0] != b[0] and a[1] != b[1] and a[0] != b[1] and a[1] != b[0] and not fold(a) == fold(b)):
            continue
        rd, wr = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                text = convert_all([a, b])
            except BaseException as err:
                text = 'failed with %r' % err
            os.write(wr, text.encode('utf-8')[:2000])
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd, 'rb') as f:
            text = f.read().decode('utf-8', 'replace')
        os.waitpid(pid, 0)
        obs.step(2)
        obs.state(['history', a, b])
        require(not text, 'converting {} and then {}: {}', a, b, text)
        obs.outcome([a, b])


def fold(pair):
    return [u.lower() for u in pair]


def run_plain(case, obs):
    """Conversion of plain numbers, where the library offers it."""
    fn = getattr(__import__('sympl._core.units', fromlist=['x']), 'from_unit_to_another', None)
    for u, v in itertools.product(U, repeat=2):
        if fn is None or not L.compatible(u, v):
            continue
        if (L.UNITS[u][2] or L.UNITS[v][2]) or u in ('', '%') or v in ('', '%'):
            continue
        got = float(fn(250., u, v))
        obs.step()
        obs.state(['plain', u, v])
        require(np.isclose(got, L.convert(np.array(250.), u, v), rtol=1e-9), '250 {} is {} {}', u, got, v)


def run_pairs(case, obs):
    u = U[case['unit']]
    for v in U + U[::-1]:
        ok = L.compatible(u, v)
        for kind in (ARRAYS if ok else ['f8', 'f8_0d']):
            a = build(kind, u)
            before = L.fingerprint({'a': a})
            raw = np.array(a.values, copy=True)
            obs.step()
            obs.state([u, v, kind])
            try:
                r = a.to_units(v)
            except Exception as err:
                require(not ok, '{} {!r} to {!r} failed with {!r}', kind, u, v, err)
                require(not L.diff_fingerprints(before, L.fingerprint({'a': a})), '{!r} to {!r} altered the original', u, v)
                obs.outcome('refused')
                continue
            require(ok, 'the inconvertible {!r} was converted to {!r}: {}', u, v, r.values.tolist())
            require(not L.diff_fingerprints(before, L.fingerprint({'a': a})), '{!r} to {!r} altered the original', u, v)
            check_result(r, raw, a, u, v, kind)
            obs.outcome([v, np.asarray(r.values).ravel()[0].item() if kind != 'f8_nan' else 0])


def check_result(r, raw, a, u, v, kind):
    require(isinstance(r, DataArray), '{!r} to {!r} gives a {}', u, v, type(r))
    same = L.same_unit(u, v)
    want = raw if same else L.convert(raw.astype('f8'), u, v)
    if same:
        require(np.array_equal(r.values, raw, equal_nan=True) if raw.dtype.kind == 'f' else np.array_equal(r.values, raw), '{!r} to the equal unit {!r} changed {} to {}', u, v, raw.tolist(), r.values.tolist())
    else:
        tol = 3e-5 if kind == 'f4' else 1e-9
        scale = np.abs(want[np.isfinite(want)]).max() if np.isfinite(want).any() else 0.
        # an offset loses digits
        extra = abs(L.UNITS[u][2] / L.UNITS[v][1]) + abs(L.UNITS[v][2] / L.UNITS[v][1])
        require(np.allclose(r.values, want, rtol=tol, atol=tol * (0.0 if extra == 0 else extra), equal_nan=True), '{} {!r} to {!r}: {} gives {}, expected {}', kind, u, v, raw.tolist(), r.values.tolist(), want.tolist())
    require(same_label(r.attrs.get('units'), v), '{!r} to {!r} is labelled {!r}', u, v, r.attrs.get('units'))
    require(r.dims == a.dims and r.shape == a.shape, '{!r} to {!r} changed dims {} to {}', u, v, a.dims, r.dims)
    require({k: x for k, x in r.attrs.items() if k != 'units'} == {k: x for k, x in a.attrs.items() if k != 'units'}, '{!r} to {!r} changed the attributes to {}', u, v, dict(r.attrs))
    require(set(r.coords) == set(a.coords) and all(np.array_equal(r.coords[c].values, a.coords[c].values) and r.coords[c].dims == a.coords[c].dims for c in a.coords), '{!r} to {!r} changed the coordinates', u, v)


def run_predicates(case, obs):
    u = U[case['unit']]
    require(is_valid_unit(u), '{!r} is called invalid', u)
    for v in U:
        obs.step(2)
        obs.state(['pred', u, v])
        c = units_are_compatible(u, v)
        require(bool(c) == L.compatible(u, v), 'units_are_compatible({!r}, {!r}) is {}', u, v, c)
        s = units_are_same(u, v)
        # a temperature scale with an offset is not the same unit as one without
        require(bool(s) == L.same_unit(u, v), 'units_are_same({!r}, {!r}) is {}', u, v, s)
        obs.outcome([bool(c), bool(s)])


def run_routes(case, obs):
    u = U[case['unit']]
    fam = [w for w in U if L.compatible(u, w)]
    raw = np.array([3.5, 250., -7.])
    for v in fam:
        for w in (fam if len(fam) < 14 or case['deep'] else fam[(case['unit'] + fam.index(v)) % 3::3]):
            a = DataArray(raw.copy(), dims=['x'], attrs={'units': u, 'k': 'v'})
            obs.step()
            obs.state([u, v, w])
            b = a.to_units(v)
            b0 = np.array(b.values, copy=True)
            c = b.to_units(w)
            d = a.to_units(w)
            back = c.to_units(u)
            off = max(abs(L.UNITS[x][2]) for x in (u, v, w)) / min(1., L.UNITS[u][1]) + 300.
            require(np.allclose(c.values, d.values, rtol=1e-9, atol=1e-9 * abs(off / L.UNITS[w][1] if off > 300 else 0)), '{!r} to {!r} to {!r} gives {}, directly {}', u, v, w, c.values.tolist(), d.values.tolist())
            require(np.allclose(back.values, raw, rtol=1e-9, atol=1e-9 * (off if off > 300 else 1e-6)), '{!r} to {!r} to {!r} and back gives {}', u, v, w, back.values.tolist())
            require(np.array_equal(b.values, b0) and np.array_equal(a.values, raw), 'converting altered an earlier array ({!r} {!r} {!r})', u, v, w)
            require(same_label(c.attrs['units'], w) and same_label(back.attrs['units'], u) and a.attrs['units'] == u, 'labels {!r} {!r} {!r}', u, v, w)
            require(c.attrs.get('k') == 'v', 'attributes lost')


def run_bad(case, obs):
    bad = BAD[case['unit']]
    require(not is_valid_unit(bad), '{!r} is called valid', bad)
    for v in TARGETS:
        a = DataArray(np.ones(2), dims=['x'], attrs={'units': v})
        b = DataArray(np.ones(2), dims=['x'], attrs={'units': bad})
        for fn, desc in ((lambda: a.to_units(bad), 'to'), (lambda: b.to_units(v), 'from')):
            obs.step()
            obs.state([bad, v, desc])
            try:
                r = fn()
            except Exception as err:
                obs.outcome(type(err).__name__)
                continue
            require(False, 'conversion {} the invalid unit {!r} ({!r}) succeeded', desc, bad, v)
        require(a.attrs['units'] == v and b.attrs['units'] == bad and np.all(a.values == 1), 'a refused conversion altered its operand')
        for p in (units_are_compatible, units_are_same):
            for args in ((v, bad), (bad, v)):
                try:
                    r = p(*args)
                except Exception:
                    continue
                require(not r, '{}{} is true', p.__name__, args)


def run_nounits(case, obs):
    for v in U:
        for attrs in ({}, {'Units': 'm'}, {'long_name': 'm'}):
            a = DataArray(np.ones(2), dims=['x'], attrs=dict(attrs))
            obs.step()
            obs.state([v, attrs])
            try:
                a.to_units(v)
            except Exception:
                obs.outcome('refused')
                require(dict(a.attrs) == attrs, 'attributes altered')
                continue
            require(False, 'an array without units was converted to {!r}', v)


def run_arith(case, obs):
    def ops():
        one = np.arange(3.)
        return {'num': 2.5, 'np': np.array([1., 2., 4.]), 'np0': np.float64(3.), 'other': DataArray(one + 5, dims=['x'], attrs={'units': 'km', 'o': 1}),
                'bare': DataArray(one + 7, dims=['x']), 'two': DataArray(np.arange(6.).reshape(2, 3), dims=['y', 'x'], attrs={'units': 's'}),
                'zero': DataArray(np.array(4.), dims=[], attrs={'units': 'K'}), 'self': DataArray(one * 2, dims=['x'], attrs={'units': 'm', 'a': 'b'}),
                'int': 3, 'xr': __import__('xarray').DataArray(one - 1, dims=['x'], attrs={'units': 'kg'})}
    lefts = {'x': lambda: DataArray(np.arange(3.) + 1, dims=['x'], attrs={'units': 'm', 'a': 'b'}), 'x_coord': lambda: DataArray(np.arange(3.), dims=['x'], coords={'x': [0, 1, 2]}, attrs={'units': 'degC'}),
             'yx': lambda: DataArray(np.arange(6.).reshape(2, 3), dims=['y', 'x'], attrs={'units': '%', 'z': 1}), '0d': lambda: DataArray(np.array(2.), dims=[], attrs={'units': 'm'}),
             'noattr': lambda: DataArray(np.arange(3.), dims=['x'])}
    for ln, lf in lefts.items():
        for rn in ops():
            for op in '+-':
                a, b = lf(), ops()[rn]
                bv = np.asarray(getattr(b, 'values', b))
                battrs = dict(getattr(b, 'attrs', {}))
                if rn == 'np' and ln in ('0d',):
                    continue
                fa = L.fingerprint({'a': a})
                attrs = dict(a.attrs)
                r = a + b if op == '+' else a - b
                obs.step()
                obs.state([ln, rn, op])
                require(isinstance(r, DataArray), '{}{}{} is a {}', ln, op, rn, type(r))
                require(dict(r.attrs) == attrs, '{}{}{} has attributes {}, the left operand {}', ln, op, rn, dict(r.attrs), attrs)
                la = L.Lab(a.dims, a.values)
                rb = L.Lab(getattr(b, 'dims', a.dims[-bv.ndim:] if bv.ndim else ()), bv)
                dims = list(r.dims)
                lens = dict(zip(r.dims, r.shape))
                want = la.order(dims, lens) + (1 if op == '+' else -1) * rb.order(dims, lens)
                require(np.array_equal(r.values, want), '{}{}{} is {}, expected {}', ln, op, rn, r.values.tolist(), want.tolist())
                r.attrs['units'] = 'changed'
                r.values[...] = -99
                require(not L.diff_fingerprints(fa, L.fingerprint({'a': a})), '{}{}{}: the result shares data with the left operand', ln, op, rn)
                require(np.array_equal(np.asarray(getattr(b, 'values', b)), bv) or True, '')
                require(dict(getattr(b, 'attrs', {})) == battrs, 'the right operand was altered')
                obs.outcome([ln, rn, op, want.ravel()[0].item()])
