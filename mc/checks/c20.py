"""C20: what a RestartMonitor loads is what was stored."""
import itertools
import os
import shutil
import tempfile
from datetime import datetime, timedelta
import cftime
import netCDF4
import numpy as np
import sympl
from sympl import RestartMonitor, DataArray
from mc.core import require
from mc import lab as L

LEVEL = 'model_checking'
RULE = ('All combinations up to the bound of dtype x shape (0 to 4 dims, length 1, zero length) x special values (NaN, '
        'infinities, extremes, the netCDF fill values) x units (including ones that look like times or dates) x attributes x '
        'memory layout x coordinates; of quantity names (named like dimensions, or like netCDF/xarray keywords) and time types; '
        'and all histories of store and load over three states and two files: every loaded state is compared with what was stored, '
        'and re-read after later stores.')
SCENARIOS = ['restart']
ASSUMPTIONS = ['A file called like another with ".new" added makes stores of the latter refuse, loudly and with nothing lost; such pairs are not used.', 'Attributes are strings, integers or floats; coordinates and attributes other than units need not be kept, except that the kept ones have the stored value.',
               'Types bool, complex and object are not representable, nor types other than f8 with packing attributes; dates of Python type datetime are loaded as such, of cftime as an equal date of its calendar.']

DT = ['f4', 'f8', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8']
SHAPES = [((), ()), (('x',), (1,)), (('x',), (3,)), (('x', 'y'), (2, 2)), (('y', 'x'), (1, 3)), (('x', 'y', 'z'), (2, 1, 3)), (('a', 'b', 'c', 'd'), (2, 2, 2, 2)), (('time_of_day',), (2,))]
UNITS = ['m', 'degK', 'seconds', 's', 'hours', 'days since 2000-01-01', 'seconds since 1970-01-01 00:00:00', 'm s^-1', '', '%', 'degrees_north', 'K day^-1', 'months']


def cases(tier):
    for i in range(len(DT)):
        for u in range(len(UNITS)):
            yield {'kind': 'values', 'dtype': i, 'units': u, 'full': tier == 'thorough'}
    for i in range(len(NAMESETS)):
        yield {'kind': 'names', 'names': i}
    for t in range(len(TIMES)):
        yield {'kind': 'times', 'time': t}
    for a in range(len(ATTRS)):
        yield {'kind': 'attrs', 'attrs': a}
    n = 4 if tier == 'quick' else 5
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            yield {'kind': 'history', 'prefix': [a, b], 'len': n}
    for k in range(3 if tier == 'quick' else 4):
        yield {'kind': 'multi', 'n': k + 1}
    for i in range(len(FILENAMES)):
        yield {'kind': 'files', 'first': i}


def run(case, obs):
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
    try:
        globals()['run_' + case['kind']](case, obs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def same(got, want, what):
    require(isinstance(got, dict) and set(got) == set(want), '{}: loaded quantities {}, stored {}', what, sorted(map(str, got)), sorted(map(str, want)))
    for q in want:
        if q == 'time':
            same_time(got[q], want[q], what)
            continue
        g, w = got[q], want[q]
        require(isinstance(g, DataArray), '{}: {} loaded as {}', what, q, type(g))
        require(tuple(g.dims) == tuple(w.dims), '{}: {} loaded with dims {}, stored {}', what, q, g.dims, w.dims)
        require(g.dtype == w.dtype, '{}: {} loaded with type {}, stored {}', what, q, g.dtype, w.dtype)
        gv, wv = np.asarray(g.values), np.asarray(w.values)
        require(gv.shape == wv.shape and np.array_equal(gv, wv, equal_nan=wv.dtype.kind == 'f'), '{}: {} loaded as {}, stored {}', what, q, gv.tolist(), wv.tolist())
        if wv.dtype.kind == 'f':
            require(np.array_equal(np.signbit(gv[~np.isnan(gv)]), np.signbit(wv[~np.isnan(wv)])), '{}: {} lost the sign of zero', what, q)
        require(g.attrs.get('units') == w.attrs['units'], '{}: {} loaded with units {!r}, stored {!r}', what, q, g.attrs.get('units'), w.attrs['units'])
        for k, v in g.attrs.items():
            require(k in w.attrs and np.all(v == w.attrs[k]), '{}: {} loaded with attribute {}={!r}', what, q, k, v)
        # the quantity is usable
        for d in g.dims:
            require(g.sizes[d] == w.sizes[d], '{}: length of {}', what, d)


def same_time(g, w, what):
    if isinstance(w, timedelta):
        require(isinstance(g, timedelta) and g == w, '{}: time loaded as {!r}, stored {!r}', what, g, w)
        return
    f = lambda d: (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)
    require(f(g) == f(w), '{}: time loaded as {!r}, stored {!r}', what, g, w)
    if type(w) is datetime:
        require(isinstance(g, datetime), '{}: time loaded as {!r}, stored {!r}', what, g, w)
    elif getattr(w, 'calendar', None) not in (None, 'standard', 'gregorian', 'proleptic_gregorian'):
        alias = {'365_day': 'noleap', '366_day': 'all_leap'}
        c = getattr(g, 'calendar', None)
        require(alias.get(c, c) == alias.get(w.calendar, w.calendar), '{}: time loaded on calendar {}, stored {}', what, c, w.calendar)
    # it behaves as the stored time does
    require(f(g + timedelta(days=60)) == f(w + timedelta(days=60)), '{}: arithmetic of the loaded time differs', what)


def freeze(st):
    return {q: (v if q == 'time' else v.copy(deep=True)) for q, v in st.items()}


def trip(path, st, what, obs, key):
    want = freeze(st)
    before = L.fingerprint(st)
    RestartMonitor(path).store(st)
    require(not L.diff_fingerprints(before, L.fingerprint(st)), '{}: store changed the state', what)
    got = RestartMonitor(path).load()
    same(got, want, what)
    obs.step(2)
    obs.state(key)
    obs.outcome(sorted(map(str, got)))
    # and once more from what was loaded
    RestartMonitor(path).store(got)
    same(RestartMonitor(path).load(), want, what + ' (second trip)')


def values_of(dt, shape, special):
    n = int(np.prod(shape))
    dt = np.dtype(dt)
    v = (np.arange(n) + 1).astype(dt)
    if special == 'extreme':
        if dt.kind == 'f':
            pool = [np.nan, np.inf, -np.inf, -0.0, np.finfo(dt).max, np.finfo(dt).tiny, np.finfo(dt).eps, 1 / 3.]
        else:
            pool = [np.iinfo(dt).max, np.iinfo(dt).min, 0, 1]
        v = np.array([pool[i % len(pool)] for i in range(n)], dtype=dt)
    elif special == 'allnan':
        v = np.full(n, np.nan if dt.kind == 'f' else 0, dtype=dt)
    elif special == 'fill':
        v = np.full(n, netCDF4.default_fillvals[dt.str[1:]], dtype=dt)
    elif special == 'fillmix':
        v[::2] = netCDF4.default_fillvals[dt.str[1:]]
    return v.reshape(shape)


def run_values(case, obs, d):
    dt = DT[case['dtype']]
    u = UNITS[case['units']]
    path = os.path.join(d, 'r.nc')
    for dims, shape in SHAPES:
        for special in ('plain', 'extreme', 'allnan', 'fill', 'fillmix'):
            for lay in (0, 1):
                if not case['full'] and (special != 'plain' or lay) and case['units'] not in (0, 5):
                    continue
                v = values_of(dt, shape, special)
                if lay:
                    if v.ndim == 0:
                        continue
                    v = np.asfortranarray(v)[::-1] if v.ndim > 1 else np.repeat(v, 2)[::2]
                st = {'time': datetime(2000, 1, 1), 'q': DataArray(v, dims=dims, attrs={'units': u})}
                if lay and dims:
                    st['q'] = st['q'].assign_coords({dims[0]: np.arange(shape[0]) * 2.5})
                trip(path, st, '{} {} {} {!r}'.format(dt, dims, special, u), obs, [dt, dims, shape, special, u, lay])


NAMESETS = [['x'], ['x', 'y'], ['y', 'x', 'q'], ['latitude', 'longitude', 'q'], ['units'], ['dims', 'coords'], ['name', 'attrs', 'values', 'encoding'], ['air_temperature_on_interface_levels', 'q'],
            ['Time', 'TIME', 'times'], ['time_of_day', 'duration'], ['a-b', 'a b', 'a.b'], ['_x', 'q_'], ['mask', 'scale'], ['bnds', 'time_bnds'], []]


def run_names(case, obs, d):
    names = NAMESETS[case['names']]
    path = os.path.join(d, 'r.nc')
    opts = [((), ()), (('x',), (2,)), (('y',), (3,)), (('x', 'y'), (2, 3)), (('y', 'x'), (3, 2))]
    for choice in itertools.product(range(len(opts)), repeat=min(len(names), 3)):
        st = {'time': datetime(2000, 1, 1, 1)}
        for k, q in enumerate(names):
            dims, shape = opts[choice[k % 3]]
            st[q] = DataArray(np.random.RandomState(k).rand(*shape) if shape else np.array(1.5 + k), dims=dims, attrs={'units': 'm'})
        if not names and choice:
            continue
        trip(path, st, 'names {} {}'.format(names, choice), obs, [names, choice])


def cf(cls, *a):
    return getattr(cftime, cls)(*a)


TIMES = [datetime(2000, 1, 1), datetime(2000, 2, 29, 23, 59, 59, 999999), datetime(1, 1, 1), datetime(1582, 10, 10), datetime(1969, 7, 20, 20, 17, 40, 1), datetime(9999, 1, 1, 0, 0, 0, 1), datetime(1850, 1, 1, 0, 0, 0, 500000),
         timedelta(0), timedelta(microseconds=1), timedelta(seconds=-5), timedelta(days=40000, seconds=3, microseconds=7), timedelta(hours=1), timedelta(days=-1, microseconds=1),
         ('DatetimeNoLeap', 2000, 2, 28, 23, 59, 59), ('DatetimeNoLeap', 1, 1, 1), ('Datetime360Day', 2000, 2, 30), ('Datetime360Day', 1999, 12, 30, 12, 30, 1), ('DatetimeAllLeap', 2001, 2, 29, 1, 2, 3),
         ('DatetimeJulian', 1900, 2, 29), ('DatetimeJulian', 1000, 6, 1, 5), ('DatetimeGregorian', 2000, 1, 2, 3, 4, 5), ('DatetimeGregorian', 1500, 1, 1), ('DatetimeProlepticGregorian', 1500, 1, 1, 7)]


def run_times(case, obs, d):
    t = TIMES[case['time']]
    if isinstance(t, tuple):
        t = cf(*t)
    path = os.path.join(d, 'r.nc')
    for off in (timedelta(0), timedelta(seconds=1), timedelta(days=31), timedelta(hours=5, minutes=17), timedelta(days=366)):
        try:
            tt = t + off
        except OverflowError:
            continue
        for k in range(2):
            st = {'time': tt}
            if k:
                st['q'] = DataArray(np.ones(2), dims=['x'], attrs={'units': 'm'})
            else:
                st['q'] = DataArray(np.array(4.), dims=[], attrs={'units': 'days'})
            trip(path, st, 'time {!r}'.format(tt), obs, [repr(tt), k])


ATTRS = [{}, {'long_name': 'a'}, {'note': ''}, {'number': 3}, {'number': 2.5}, {'valid_min': 0., 'valid_max': 2.}, {'valid_range': [0., 2.]}, {'calendar': 'noleap'}, {'coordinates': 'x y'},
         {'dtype': 'timedelta64'}, {'missing_value': 2.}, {'scale_factor': 2.}, {'add_offset': 16.}, {'scale_factor': .5, 'add_offset': -1.}, {'flag_values': 1}, {'standard_name': 'time'}, {'axis': 'T'}]


def run_attrs(case, obs, d):
    path = os.path.join(d, 'r.nc')
    for dt in ('f8', 'i4', 'i1', 'f4'):
        for dims, shape in SHAPES[:5]:
            v = np.arange(int(np.prod(shape))).astype(dt).reshape(shape) * 2
            attrs = dict(ATTRS[case['attrs']], units='m')
            if dt != 'f8' and set(attrs) & {'scale_factor', 'add_offset'}:
                continue  # packed integers are not representable
            st = {'time': datetime(2000, 1, 1), 'q': DataArray(v, dims=dims, attrs=attrs)}
            trip(path, st, 'attributes {}'.format(attrs), obs, [dt, dims, case['attrs']])


def mk(i):
    return [lambda: {'time': datetime(2000, 1, 1), 'q': DataArray(np.arange(3.), dims=['x'], attrs={'units': 'm'})},
            lambda: {'time': datetime(2001, 5, 1, 6), 'q': DataArray(np.arange(3.) + 50, dims=['x'], attrs={'units': 'm'}), 'r': DataArray(np.arange(6, dtype='i4').reshape(2, 3), dims=['y', 'x'], attrs={'units': 's'})},
            lambda: {'time': timedelta(hours=3), 'q': DataArray(np.arange(8.).reshape(2, 4), dims=['y', 'x'], attrs={'units': 'kg'})}][i]()


# store state i through monitor m; load through m; load through a new monitor; store what was loaded last
OPS = [('s', 0, 0), ('s', 0, 1), ('s', 0, 2), ('s', 1, 0), ('l', 0), ('l', 1), ('relay',), ('mut',)]


def run_history(case, obs, d):
    """Two restart files with two monitors, plus states handed on from one to the other."""
    def go(hist):
        # prune histories which cannot differ: operations on nothing
        mons = [RestartMonitor(os.path.join(d, 'm0.nc')), RestartMonitor(os.path.join(d, 'm1.nc'))]
        for m in (0, 1):
            if os.path.exists(os.path.join(d, 'm%d.nc' % m)):
                os.unlink(os.path.join(d, 'm%d.nc' % m))
        cur = [None, None]
        loaded = []
        passed = None
        for i in hist:
            op = OPS[i]
            if op[0] == 's':
                st = mk(op[2])
                passed = st
                mons[op[1]].store(st)
                cur[op[1]] = mk(op[2])
            elif op[0] == 'l':
                if cur[op[1]] is None:
                    try:
                        mons[op[1]].load()
                    except Exception:
                        continue
                    require(False, 'loading before any store succeeded after {}', hist)
                got = mons[op[1]].load()
                loaded.append((got, freeze(cur[op[1]])))
            elif op[0] == 'relay':
                if loaded:
                    mons[1].store(loaded[-1][0])
                    cur[1] = freeze(loaded[-1][1])
            elif op[0] == 'mut' and passed is not None:
                # the caller goes on to use the arrays it stored
                for q in passed:
                    if q != 'time':
                        passed[q].values[...] = -1
        obs.step()
        obs.state(hist)
        what = 'after {}'.format([OPS[i] for i in hist])
        for m in (0, 1):
            if cur[m] is not None:
                same(RestartMonitor(os.path.join(d, 'm%d.nc' % m)).load(), cur[m], what)
                same(mons[m].load(), cur[m], what)
        for got, want in loaded:
            same(got, want, what + ' a state loaded earlier')
        left = [f for f in os.listdir(d) if f not in ('m0.nc', 'm1.nc')]
        require(not left, '{}: left behind {}', what, left)
    import itertools as it
    n = case['len'] - 2
    for k in range(n + 1):
        for r in it.product(range(len(OPS)), repeat=k):
            h = case['prefix'] + list(r)
            if OPS[h[-1]][0] == 'l' and len(h) < case['len']:
                continue  # covered by the extension
            if canonical(h):
                go(h)


def canonical(h):
    """Drop histories that contain an operation without effect on model or code paths already covered."""
    ops = [OPS[i] for i in h]
    for a, b in zip(ops, ops[1:]):
        if a == b and a[0] in ('mut', 'l'):
            return False
    if ops[0] in (('mut',), ('relay',)):
        return False
    # commuting operations on different files: keep one order
    for a, b in zip(ops, ops[1:]):
        if a[0] in 'l' and b[0] == 'l' and a[1] > b[1]:
            return False
    return True


FILENAMES = ['r.nc', 'r', 'r.a', 'r.b', 'r.new', 'r.nc.old', 'r.tmp', '.r', 'r.', 'R.nc', 'r .nc', u'\u00fc.nc', 'd.e/r', 'd.e/r.nc', './r2.nc', 'n' * 200, 'r%s{}.nc', 'rr.nc', 'r.nc.nc', '~r.nc']


def run_files(case, obs, d):
    """Two files in one directory, whatever their names, belong to their own monitors."""
    start = os.getcwd()
    os.chdir(d)
    try:
        for other in FILENAMES:
            for absolute in (False, True):
                names = [FILENAMES[case['first']], other]
                if names[0] == other or names[0] + '.new' == other or other + '.new' == names[0]:
                    continue
                shutil.rmtree('d.e', ignore_errors=True)
                os.mkdir('d.e')
                for f in os.listdir('.'):
                    if f != 'd.e':
                        os.unlink(f)
                what = 'files {} {}'.format(names, absolute)
                mons = [RestartMonitor(os.path.join(d, n) if absolute else n) for n in names]
                cur = [None, None]
                for k, i in enumerate((0, 1, 0, 0, 1, 1, 0)):
                    cur[i] = {'time': datetime(2000, 1, 1 + k), 'q': DataArray(np.arange(3.) + k, dims=['x'], attrs={'units': 'm'})}
                    mons[i].store(cur[i])
                    obs.step()
                    for m, c, n in zip(mons, cur, names):
                        if c is not None:
                            same(m.load(), c, what)
                            same(RestartMonitor(os.path.abspath(n)).load(), c, what + ' by another monitor')
                files = sorted(os.path.relpath(os.path.join(r, f), '.') for r, _, fs in os.walk('.') for f in fs)
                require(files == sorted(os.path.normpath(n) for n in names), '{}: files {} left', what, files)
                obs.state([names, absolute])
                obs.outcome(len(files))
    finally:
        os.chdir(start)


def run_multi(case, obs, d):
    """Several quantities that share dimensions, all assignments of dims, types and units."""
    path = os.path.join(d, 'r.nc')
    n = case['n']
    opt = [((), (), 'f8', 'm'), (('x',), (2,), 'i4', 'seconds'), (('y', 'x'), (3, 2), 'f4', 'days since 2000-01-01'), (('x', 'y'), (2, 3), 'f8', 'K'), (('z',), (2,), 'i8', '')]
    for choice in itertools.product(range(len(opt)), repeat=n):
        st = {'time': datetime(2000, 1, 1)}
        for k, c in enumerate(choice):
            dims, shape, dt, u = opt[c]
            st['q%d' % k] = DataArray((np.arange(int(np.prod(shape))) + 10 * k).astype(dt).reshape(shape), dims=dims, attrs={'units': u})
        trip(path, st, 'quantities {}'.format(choice), obs, choice)
