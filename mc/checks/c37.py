"""C37: results depend on what a state, a declaration or a time says, not on how it is represented."""
import collections
import itertools
from datetime import datetime, timedelta
import cftime
import numpy as np
from sympl import DataArray
from mc import scen

LEVEL = 'model_checking'
RULE = ('The 21 scenarios of C36 are run with the same states and declarations in other representations: memory layouts (Fortran order, strided, negative strides, read-only, other byte order, '
        'part of a larger array, subclass, unaligned), orders of dimensions (also different in each state of a history), coordinates (numbers, texts, times, additional, scalar, on some quantities '
        'only), further attributes, names of arrays, classes and insertion orders of dictionaries (states and declarations), dims as tuples, subclasses of str and timedelta, starting times of '
        'every calendar, as timedelta and at year ends; each alone and in pairs (quick: two pairs of each two dimensions, thorough: all). Everything observed must be what the plain run gives.')
ASSUMPTIONS = ['The order of dimensions of outputs and of the values along a wildcard is compared by C01 and C02, not by this check.',
               'NetCDF monitors may refuse a state whose dimensions have another order than in the file.']


class Names(dict):
    """A dictionary of the user's own class."""


class Step(timedelta):
    """A timedelta of the user's own class."""


class Word(str):
    """Text of the user's own class."""


def swapped(a):
    return a.astype(a.dtype.newbyteorder())


def strided(a):
    big = np.full([2 * n for n in a.shape], np.nan)
    big[tuple(slice(None, None, 2) for _ in a.shape)] = a
    return big[tuple(slice(None, None, 2) for _ in a.shape)]


def negative(a):
    return np.array(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)]


def readonly(a):
    a = np.array(a)
    a.flags.writeable = False
    return a


class Sub(np.ndarray):
    """An array of the user's own class."""


def part(a):
    """A window of a larger array."""
    big = np.full([n + 2 for n in a.shape], np.nan)
    win = tuple(slice(1, -1) for _ in a.shape)
    big[win] = a
    return big[win]


LAYOUT = {'F': np.asfortranarray, 'strided': strided, 'negative': negative, 'readonly': readonly, 'swapped': swapped, 'part': part, 'sub': lambda a: np.array(a).view(Sub),
          'unaligned': lambda a: np.frombuffer(b'x' + np.ascontiguousarray(a).tobytes(), dtype=a.dtype, offset=1).reshape(a.shape)}
ORDER = {'reversed': lambda n, k: list(range(n))[::-1], 'rotated': lambda n, k: list(np.roll(range(n), 1)), 'rotated2': lambda n, k: list(np.roll(range(n), 2)),
         'varies': lambda n, k: list(np.roll(range(n), k)), 'varies2': lambda n, k: list(np.roll(range(n), k % 2 + 1))[::-1]}
COORDS = ('index', 'texts', 'times', 'extra', 'scalar', 'some', 'multi')
ATTRS = {'long_name': {'long_name': 'text'}, 'many': {'a': 1, 'b': 2.5, 'c': 'd', 'e': [1, 2]}, 'dims': {'dims': 'x'}, 'name': {'name': 'qb'}, 'alias': {'alias': 'ala'}}
DICTS = ('OrderedDict', 'reversed', 'sorted', 'subclass', 'timefirst', 'defaultdict')
PROPS = ('OrderedDict', 'reversed', 'subclass', 'tuple', 'words')
TIMES = {'noleap': cftime.DatetimeNoLeap(2000, 3, 1), '360': cftime.Datetime360Day(2000, 3, 1), 'gregorian': cftime.DatetimeGregorian(2000, 3, 1), 'julian': cftime.DatetimeJulian(2000, 3, 1),
         'all_leap': cftime.DatetimeAllLeap(2000, 3, 1), 'proleptic': cftime.DatetimeProlepticGregorian(2000, 3, 1), 'old': datetime(1500, 3, 1), 'late': datetime(9000, 12, 31),
         'micro': datetime(2000, 3, 1, 1, 2, 3, 4), 'timedelta': timedelta(0), 'timedelta-': timedelta(days=-3), 'yearend': datetime(1999, 12, 31, 23, 40), 'leap': datetime(2000, 2, 28, 23, 55)}
STEPS = {'subclass': lambda dt: Step(seconds=dt.total_seconds())}
LABELS = ('', 'qa', 'time', 'x', 'T', 3)


class Neutral(scen.Env):
    """Arrays with a wildcard are seen as sets of values."""

    def arr(self, v):
        v = np.asarray(v, dtype=float)
        return [sorted(v.shape), sorted(v.ravel().tolist())]


class Form(Neutral):
    def __init__(self, form):
        words = form.get('words')
        q = {n: Word('q' + n) for n in scen.QS} if words else None
        d = {n: Word(n) for n in scen.LEN} if words else None
        scen.Env.__init__(self, q, d)
        self.form = form
        self.t0 = TIMES[form['time']] if 'time' in form else scen.T0
        self.n = 0

    def step(self, dt):
        return STEPS[self.form['step']](dt) if 'step' in self.form else dt

    def da(self, n, dims, data, units):
        f = self.form
        data = np.array(data)
        dims = self.dims(dims)
        if 'order' in f:
            o = ORDER[f['order']](len(dims), self.k)
            data, dims = np.array(np.transpose(data, o)), [dims[i] for i in o]
        if 'layout' in f:
            data = LAYOUT[f['layout']](data)
        attrs = {'units': units}
        if 'attrs' in f:
            attrs = dict(ATTRS[f['attrs']], units=units)
        if 'unitword' in f:
            attrs['units'] = Word(units)
        co = {}
        how = f.get('coords')
        if how and not (how == 'some' and n in 'bd'):
            for d, size in zip(dims, data.shape):
                co[d] = [10. * i - 3 for i in range(size)]
                if how == 'texts':
                    co[d] = ['p%d' % (9 - i) for i in range(size)]
                if how == 'times':
                    co[d] = [np.datetime64('2000-01-01') + np.timedelta64(i, 'D') for i in range(size)]
                if how == 'extra':
                    co['lab_' + d] = (d, np.arange(size) * 2.)
            if how == 'scalar':
                co = {'height': 2.}
        kw = {'name': LABELS[f['label']]} if 'label' in f else {}
        return DataArray(data, dims=tuple(dims) if 'dimtuple' in f else dims, attrs=attrs, coords=co or None, **kw)

    def state(self, spec, k=0):
        self.k = k
        return scen.Env.state(self, spec, k)

    k = 0

    def container(self, items):
        items = list(items)
        return self.mapping(items, self.form.get('dict'))

    def mapping(self, items, how):
        if how == 'OrderedDict':
            return collections.OrderedDict(items)
        if how == 'reversed':
            return dict(items[::-1])
        if how == 'sorted':
            return dict(sorted(items, key=lambda x: x[0]))
        if how == 'subclass':
            return Names(items)
        if how == 'timefirst':
            return dict([x for x in items if x[0] == 'time'] + [x for x in items if x[0] != 'time'])
        if how == 'defaultdict':
            d = collections.defaultdict(list)
            d.update(items)
            return d
        return dict(items)

    def props(self, p):
        how = self.form.get('props')
        out = scen.Env.props(self, p)
        for n in out:
            if how == 'tuple' and 'dims' in out[n]:
                out[n]['dims'] = tuple(out[n]['dims'])
            if how == 'words':
                out[n] = {k: Word(v) if isinstance(v, str) else [Word(x) for x in v] if k == 'dims' else v for k, v in out[n].items()}
            if how in ('OrderedDict', 'reversed', 'subclass'):
                out[n] = self.mapping(list(out[n].items()), how)
        return self.mapping(list(out.items()), how)


def forms(tier):
    dims = [('layout', LAYOUT), ('order', ORDER), ('coords', COORDS[:6]), ('attrs', ATTRS), ('dict', DICTS), ('props', PROPS), ('time', TIMES), ('step', STEPS), ('label', range(len(LABELS))),
            ('words', [1]), ('unitword', [1]), ('dimtuple', [1])]
    for k, vs in dims:
        for v in vs:
            yield {k: v}
    for (k, vs), (l, ws) in itertools.combinations(dims, 2):
        vs, ws = list(vs), list(ws)
        if tier == 'quick':
            yield {k: vs[0], l: ws[-1]}
            yield {k: vs[-1], l: ws[0]}
        else:
            for v, w in itertools.product(vs, ws):
                yield {k: v, l: w}


def admits(name, form):
    return not (name in ('netcdf', 'netcdf_alias') and form.get('order', '').startswith('varies'))


def cases(tier, names=None):
    fs = list(forms(tier))
    for name in (names or scen.ALL):
        use = [f for f in fs if admits(name, f)]
        for i in range(0, len(use), 25):
            yield {'kind': 'forms', 'scenario': name, 'forms': use[i:i + 25]}


def few(*names):
    for name in names:
        yield {'kind': 'forms', 'scenario': name, 'forms': [f for f in forms('quick') if len(f) == 1 and admits(name, f)]}


def run(case, obs):
    for f in case['forms']:
        obs.state([case['scenario'], f])
        scen.compare(case['scenario'], Form(f), f, obs, Neutral)
