"""Reference model: an independent unit table and labelled arrays.

Nothing in here uses sympl, pint or xarray arithmetic: units are (dimension,
scale, offset) triples written down by hand, and a labelled array is a plain
dict from coordinates to values or a numpy array with axis names.
"""
import itertools
import math
import re
import numpy as np
from .core import Violation, require

# name: (dimension, scale to SI, offset in SI)
UNITS = {
    'm': ('L', 1.0, 0.0), 'km': ('L', 1e3, 0.0), 'cm': ('L', 1e-2, 0.0),
    'mm': ('L', 1e-3, 0.0), 'Mm': ('L', 1e6, 0.0), 'meter': ('L', 1.0, 0.0), 'metre': ('L', 1.0, 0.0),
    'K': ('T', 1.0, 0.0), 'degK': ('T', 1.0, 0.0), 'kelvin': ('T', 1.0, 0.0),
    'degC': ('T', 1.0, 273.15), u'°C': ('T', 1.0, 273.15), 'celsius': ('T', 1.0, 273.15),
    'degF': ('T', 5.0 / 9.0, 459.67 * 5.0 / 9.0), 'mK': ('T', 1e-3, 0.0),
    'Pa': ('P', 1.0, 0.0), 'hPa': ('P', 100.0, 0.0), 'mbar': ('P', 100.0, 0.0),
    'kPa': ('P', 1e3, 0.0), 'mPa': ('P', 1e-3, 0.0), 'MPa': ('P', 1e6, 0.0), 'bar': ('P', 1e5, 0.0), 'N m^-2': ('P', 1.0, 0.0),
    'kg m^-1 s^-2': ('P', 1.0, 0.0),
    '': ('1', 1.0, 0.0), 'dimensionless': ('1', 1.0, 0.0), '%': ('1', 1e-2, 0.0),
    'percent': ('1', 1e-2, 0.0), 'kg/kg': ('1', 1.0, 0.0), 'g/kg': ('1', 1e-3, 0.0),
    'kg kg^-1': ('1', 1.0, 0.0), 'g kg^-1': ('1', 1e-3, 0.0),
    's': ('t', 1.0, 0.0), 'seconds': ('t', 1.0, 0.0), 'minute': ('t', 60.0, 0.0),
    'hour': ('t', 3600.0, 0.0), 'hours': ('t', 3600.0, 0.0), 'day': ('t', 86400.0, 0.0),
    'days': ('t', 86400.0, 0.0),
    'm s^-1': ('L/t', 1.0, 0.0), 'm/s': ('L/t', 1.0, 0.0), 'km/hour': ('L/t', 1 / 3.6, 0.0),
    'km hour^-1': ('L/t', 1 / 3.6, 0.0), 'cm s^-1': ('L/t', 1e-2, 0.0),
    'K s^-1': ('T/t', 1.0, 0.0), 'K/s': ('T/t', 1.0, 0.0), 'degK s^-1': ('T/t', 1.0, 0.0),
    'K day^-1': ('T/t', 1 / 86400.0, 0.0), 'degK/day': ('T/t', 1 / 86400.0, 0.0),
    'degC s^-1': ('T/t', 1.0, 0.0), 'degC day^-1': ('T/t', 1 / 86400.0, 0.0),
    'degF s^-1': ('T/t', 5.0 / 9.0, 0.0), 'mK s^-1': ('T/t', 1e-3, 0.0),
    's^-1': ('1/t', 1.0, 0.0), 'day^-1': ('1/t', 1 / 86400.0, 0.0), '1/s': ('1/t', 1.0, 0.0),
    '% s^-1': ('1/t', 1e-2, 0.0), 'percent s^-1': ('1/t', 1e-2, 0.0), 'g/kg s^-1': ('1/t', 1e-3, 0.0),
    'Pa s^-1': ('P/t', 1.0, 0.0), 'hPa hour^-1': ('P/t', 100.0 / 3600, 0.0), 'hPa s^-1': ('P/t', 100.0, 0.0),
    'J': ('E', 1.0, 0.0), 'kJ': ('E', 1e3, 0.0), 'N m': ('E', 1.0, 0.0),
    'W m^-2': ('F', 1.0, 0.0), 'kW m^-2': ('F', 1e3, 0.0), 'W/m^2': ('F', 1.0, 0.0),
    'J kg^-1 K^-1': ('c', 1.0, 0.0), 'kJ kg^-1 K^-1': ('c', 1e3, 0.0), 'J/kg/degK': ('c', 1.0, 0.0),
    'J kg^-1 degC^-1': ('c', 1.0, 0.0),
    'kg m^-3': ('rho', 1.0, 0.0), 'g/cm^3': ('rho', 1e3, 0.0), 'g m^-3': ('rho', 1e-3, 0.0),
    # angles are dimensionless in the registry used
    'radian': ('1', 1.0, 0.0), 'degree': ('1', math.pi / 180, 0.0), u'°': ('1', math.pi / 180, 0.0),
    'degrees': ('1', math.pi / 180, 0.0),
    'degrees_north': ('1', math.pi / 180, 0.0), 'degrees_east': ('1', math.pi / 180, 0.0),
    'degree_N': ('1', math.pi / 180, 0.0), 'degreeE': ('1', math.pi / 180, 0.0),
}

# base tokens: (L, M, t, T) exponents, scale, offset
_D = {'L': (1, 0, 0, 0), 'M': (0, 1, 0, 0), 't': (0, 0, 1, 0), 'T': (0, 0, 0, 1), '1': (0, 0, 0, 0)}
TOKENS = {}
for _names, _d, _s, _o in [
        ('m meter metre meters', 'L', 1., 0.), ('km kilometer', 'L', 1e3, 0.), ('cm centimeter', 'L', 1e-2, 0.), ('mm millimeter', 'L', 1e-3, 0.), ('Mm megameter', 'L', 1e6, 0.),
        ('kg kilogram', 'M', 1., 0.), ('g gram', 'M', 1e-3, 0.),
        ('s second seconds sec', 't', 1., 0.), ('minute minutes min', 't', 60., 0.), ('hour hours hr h', 't', 3600., 0.), ('day days d', 't', 86400., 0.),
        ('ms millisecond milliseconds', 't', 1e-3, 0.), ('us microsecond microseconds', 't', 1e-6, 0.),
        ('K degK kelvin delta_degree_Celsius delta_degC', 'T', 1., 0.), ('mK millikelvin', 'T', 1e-3, 0.),
        (u'degC \u00b0C celsius degree_Celsius', 'T', 1., 273.15), ('degF degree_Fahrenheit', 'T', 5. / 9., 459.67 * 5. / 9.),
        ('delta_degF delta_degree_Fahrenheit', 'T', 5. / 9., 0.),
        ('dimensionless count', '1', 1., 0.), ('% percent', '1', 1e-2, 0.), ('radian rad', '1', 1., 0.),
        (u'degree degrees \u00b0 degrees_north degrees_east degree_north degree_east degree_N degreeE degree_E degreeN', '1', math.pi / 180, 0.)]:
    for _n in _names.split():
        TOKENS[_n] = (_D[_d], _s, _o)
for _names, _v, _s in [('Pa pascal', (-1, 1, -2, 0), 1.), ('hPa hectopascal mbar millibar', (-1, 1, -2, 0), 100.), ('kPa kilopascal', (-1, 1, -2, 0), 1e3),
                       ('bar', (-1, 1, -2, 0), 1e5), ('mPa millipascal', (-1, 1, -2, 0), 1e-3), ('MPa megapascal', (-1, 1, -2, 0), 1e6), ('N newton', (1, 1, -2, 0), 1.), ('J joule', (2, 1, -2, 0), 1.), ('kJ kilojoule', (2, 1, -2, 0), 1e3),
                       ('W watt', (2, 1, -3, 0), 1.), ('kW kilowatt', (2, 1, -3, 0), 1e3)]:
    for _n in _names.split():
        TOKENS[_n] = (_v, _s, 0.)


def parse(text):
    """(exponents, scale, offset) of a unit string, or None; an offset counts
    only for a unit that stands alone."""
    toks = re.findall(u'[A-Za-z_\u00b0%]+|\\*\\*|[-+]?[0-9.]+|[*/^()]', text)
    if ''.join(toks) != ''.join(text.split()) or '(' in toks:
        return None
    vec, scale, offset, n = [0, 0, 0, 0], 1.0, 0.0, 0
    sign = 1
    i = 0
    while i < len(toks):
        t = toks[i]
        i += 1
        if t == '/':
            sign = -1
            continue
        if t == '*':
            sign = 1
            continue
        if t in TOKENS:
            d, s, o = TOKENS[t]
        elif t in ('1', '1.0'):
            d, s, o = _D['1'], 1.0, 0.0
        else:
            return None
        e = 1
        if i + 1 < len(toks) and toks[i] in ('**', '^'):
            try:
                e = float(toks[i + 1])
            except ValueError:
                return None
            i += 2
        e *= sign
        sign = 1
        if not (d == _D['1'] and s == 1.0):
            n += 1
            offset = o if e == 1 else 0.0
            vec = [a + e * b for a, b in zip(vec, d)]
            scale *= s ** e
    return tuple(vec), scale, (offset if n == 1 else 0.0)


class _Units(dict):
    """The table; other unit strings are looked up by parsing them."""

    def __contains__(self, u):
        return dict.__contains__(self, u) or self.get_parsed(u) is not None

    def __missing__(self, u):
        p = self.get_parsed(u)
        if p is None:
            raise KeyError(u)
        return p

    def get_parsed(self, u):
        p = parse(u) if isinstance(u, str) else None
        if p is None:
            return None
        return _FAMILY.get(p[0], p[0]), p[1], p[2]


_FAMILY = {}
for _u, _t in UNITS.items():
    _p = parse(_u)
    assert _p is not None and abs(_p[1] / _t[1] - 1) < 1e-12 and _p[2] == _t[2], (_u, _t, _p)
    assert _FAMILY.setdefault(_p[0], _t[0]) == _t[0], (_u, _t, _p)
UNITS = _Units(UNITS)


def compatible(u, v):
    return UNITS[u][0] == UNITS[v][0]


def same_unit(u, v):
    a, b = UNITS[u], UNITS[v]
    return a[0] == b[0] and abs(a[1] / b[1] - 1) < 1e-12 and a[2] == b[2]


def convert(x, u, v):
    """x in units u expressed in units v."""
    du, su, ou = UNITS[u]
    dv, sv, ov = UNITS[v]
    assert du == dv, (u, v)
    if same_unit(u, v):
        return x
    return (x * su + ou - ov) / sv


def close(a, b, exact=False, rtol=1e-9, atol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
        return bool(np.array_equal(a, b))
    if exact and {a.dtype.kind, b.dtype.kind} & set('iu') and a.dtype.kind != b.dtype.kind:
        return a.tolist() == b.tolist()  # without rounding the integers
    if exact:
        return bool(np.array_equal(a, b, equal_nan=True) if a.dtype.kind in 'fc' and b.dtype.kind in 'fc'
                    else np.array_equal(a, b))
    if atol == 0.0 and b.size:
        fin = np.abs(b[np.isfinite(b)]) if b.dtype.kind in 'fc' else np.abs(b)
        atol = 1e-9 * (float(fin.max()) if fin.size else 0.0)
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


class Lab(object):
    """A labelled array: axis names, values, units."""

    def __init__(self, dims, data, units=None):
        self.dims = tuple(dims)
        self.data = np.asarray(data)
        self.units = units
        assert self.data.ndim == len(self.dims), (self.dims, self.data.shape)

    def to(self, units):
        return Lab(self.dims, convert(self.data, self.units, units), units)

    def order(self, dims, lengths=None):
        """Axes in the given order; missing ones are broadcast to lengths[dim]."""
        dims = list(dims)
        data = self.data
        have = list(self.dims)
        for d in dims:
            if d not in have:
                n = (lengths or {}).get(d, 1)
                data = np.repeat(data[np.newaxis], n, axis=0)
                have = [d] + have
        require(set(have) == set(dims), 'model: dims {} not covered by {}', have, dims)
        return np.transpose(data, [have.index(d) for d in dims]) if have else data


def lab_of(da):
    """Labelled model array of an xarray object."""
    return Lab(da.dims, np.array(da.values), da.attrs.get('units'))


def values_for(shape, start=1.0, step=1.0, dtype=float):
    n = int(np.prod(shape)) if len(shape) else 1
    # all distinct, not symmetric under any permutation of axes
    v = start + step * np.arange(n) + 0.03125 * (np.arange(n) % 7)
    if np.dtype(dtype).kind in 'iu':
        v = np.arange(n) + int(start)
    return v.reshape(shape).astype(dtype)


def arrangements(items, maxlen=None):
    """All ordered subsets, shortest first."""
    items = list(items)
    for k in range(0, (len(items) if maxlen is None else maxlen) + 1):
        for p in itertools.permutations(items, k):
            yield list(p)


def layout(a, kind):
    """The same values in another memory layout."""
    a = np.array(a)
    if kind == 'C':
        return np.ascontiguousarray(a) if a.ndim else a
    if kind == 'F':
        return np.asfortranarray(a) if a.ndim else a
    if kind == 'strided':
        if a.ndim == 0:
            return a
        big = np.zeros([2 * n for n in a.shape], dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if kind == 'neg':
        if a.ndim == 0:
            return a
        idx = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[idx])[idx]
    raise ValueError(kind)


def fingerprint(v):
    """Everything a caller can observe about a value."""
    if hasattr(v, 'dims') and hasattr(v, 'values'):
        vals = np.asarray(v.values)
        return ('da', tuple(v.dims), str(vals.dtype), vals.shape,
                vals.tolist().__repr__() if vals.dtype.kind == 'O' else np.ascontiguousarray(vals).tobytes(),
                tuple(sorted((str(k), repr(x)) for k, x in v.attrs.items())),
                tuple(sorted((str(k), tuple(c.dims), np.asarray(c.values).tobytes())
                             for k, c in getattr(v, 'coords', {}).items())))
    if isinstance(v, dict):
        return ('dict', tuple(sorted((str(k), fingerprint(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return ('seq', tuple(fingerprint(x) for x in v))
    if isinstance(v, np.ndarray):
        return ('np', str(v.dtype), v.shape, np.ascontiguousarray(v).tobytes())
    return ('val', type(v).__name__, repr(v))


def diff_fingerprints(a, b, path=''):
    if a == b:
        return None
    if a[0] == b[0] == 'dict':
        da, db = dict(a[1]), dict(b[1])
        for k in sorted(set(da) | set(db)):
            if k not in da or k not in db:
                return '{}: {} {}'.format(path, k, 'added' if k in db else 'removed')
            d = diff_fingerprints(da[k], db[k], path + '[' + k + ']')
            if d:
                return d
    if a[0] == b[0] == 'da':
        for i, what in ((1, 'dims'), (2, 'dtype'), (3, 'shape'), (4, 'values'), (5, 'attrs'), (6, 'coords')):
            if a[i] != b[i]:
                if what == 'values':
                    return '{} values changed'.format(path)
                return '{} {} changed from {} to {}'.format(path, what, a[i], b[i])
    return '{} changed'.format(path)


def specs(dims, wildcard=(False, True), maxlen=None):
    """All dims declarations over the names: ordered subsets, '*' at any place."""
    for a in arrangements(dims, maxlen):
        if False in wildcard:
            yield list(a)
        if True in wildcard:
            for i in range(len(a) + 1):
                yield a[:i] + ['*'] + a[i:]


def states_for(spec, dims):
    """All dimension tuples a quantity declared with spec may have, over dims."""
    named = [d for d in spec if d != '*']
    return list(arrangements(dims if '*' in spec else named))


PROFILES = {
    'distinct': {'x': 2, 'y': 3, 'z': 4, 'w': 5},
    'equal': {'x': 2, 'y': 2, 'z': 2, 'w': 2},
    'ones': {'x': 1, 'y': 3, 'z': 1, 'w': 2},
    'zero': {'x': 0, 'y': 2, 'z': 3, 'w': 1},
}


def wildcard_names(decls, labs):
    """Set of the dims collapsed in the wildcard: decls/labs are dicts by quantity."""
    return sorted(set(d for n, spec in decls.items() if '*' in spec
                      for d in labs[n].dims if d not in spec))


def expected_raw(lab, spec, units, wild, lengths):
    """What a computation must see of lab under the declaration (spec, units)."""
    full = []
    for d in spec:
        full.extend(wild if d == '*' else [d])
    data = lab.to(units).order(full, lengths)
    shape = []
    for d in spec:
        if d == '*':
            n = 1
            for w in wild:
                n *= lengths[w]
            shape.append(n)
        else:
            shape.append(lengths.get(d, 1))
    return data.reshape(shape)


def lengths_of(labs):
    out = {}
    for lab in labs.values():
        out.update(zip(lab.dims, lab.data.shape))
    return out


def find_wildcard_order(decls, units, labs, raws, exact):
    """A wildcard order for which all raw arrays are as declared; else None.

    exact: dict name -> bool; raises Violation with the first difference.
    """
    lengths = lengths_of(labs)
    names = wildcard_names(decls, labs)
    why = None
    for wild in itertools.permutations(names):
        ok = True
        for n in decls:
            want = expected_raw(labs[n], decls[n], units[n], wild, lengths)
            got = raws[n]
            if tuple(np.shape(got)) != want.shape:
                why = '{}: shape {} instead of {}'.format(n, np.shape(got), want.shape)
                ok = False
                break
            rtol = 1e-9 if np.asarray(got).dtype != np.float32 else 2e-6
            if not close(got, want, exact=exact[n], rtol=rtol):
                why = '{}: values {} instead of {}'.format(
                    n, np.asarray(got).ravel()[:6].tolist(), want.ravel()[:6].tolist())
                ok = False
                break
        if ok:
            return list(wild)
    raise Violation('input arrays do not match the declaration (units {}, dims {}, state dims {}): {}'.format(
        units, decls, {n: labs[n].dims for n in labs}, why))


def ambiguous(decls, labs):
    """A dimension is collapsed in the wildcard and also named beside a '*':
    such a quantity would need the dimension twice, nothing is promised."""
    wild = wildcard_names(decls, labs)
    return any('*' in spec and d in spec for spec in decls.values() for d in wild)
