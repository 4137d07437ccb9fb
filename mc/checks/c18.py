"""C18: NetCDFMonitor files against a model of records, over all histories of stores, writes and reopenings."""
import itertools
import os
import shutil
import tempfile
from datetime import datetime, timedelta
import cftime
import netCDF4
import numpy as np
import sympl
from sympl import NetCDFMonitor, DataArray
from mc.core import require, Violation
from mc import lab as L

LEVEL = 'model_checking'
RULE = ('All histories of up to 3 stores over states that agree, are partial, repeat a time, arrive out of time order or '
        'differ in quantities, units, dimensions, lengths, calendar or type, with every choice of {nothing, write, write and '
        'reopen with a new monitor} between them and with write_on_store; the file is read back with netCDF4 after each '
        'write and compared with a model holding one record per stored time. Also every dtype x dims, every time unit x '
        'time type, every choice of stored names x aliases; the names given as every kind of collection, altered afterwards; writes refused because of '
        'the file or directory found, repeated once that cause was removed.')
SCENARIOS = ['netcdf', 'netcdf_alias']
ASSUMPTIONS = ['Times are multiples of the time unit of the file.', 'After a refused write the monitor is used further only when the file or the missing directory caused the refusal, and that cause was removed.',
               'Equal dimensions in another order are stored under the order of the file or refused; other attributes than units are '
               'constant over the states of one write.', 'Files are read through the netCDF4 library.']

CAL = {'datetime': lambda *a: datetime(*a), 'noleap': lambda *a: cftime.DatetimeNoLeap(*a), '360': lambda *a: cftime.Datetime360Day(*a),
       'julian': lambda *a: cftime.DatetimeJulian(*a), 'all_leap': lambda *a: cftime.DatetimeAllLeap(*a),
       'gregorian': lambda *a: cftime.DatetimeGregorian(*a), 'proleptic': lambda *a: cftime.DatetimeProlepticGregorian(*a)}
DELTA = {'microseconds': timedelta(microseconds=1), 'milliseconds': timedelta(milliseconds=1), 'seconds': timedelta(seconds=1),
         'minutes': timedelta(minutes=1), 'hours': timedelta(hours=1), 'days': timedelta(days=1)}

T = np.arange(6.).reshape(2, 3) + 280.
N = np.array([5, -7], dtype=np.int32)


def arr(values, dims, units, **attrs):
    return DataArray(np.array(values), dims=dims, attrs=dict(attrs, units=units))


def time_of(i, kind='datetime'):
    return CAL[kind](2000, 2, 28, 12) + timedelta(hours=i)


def make_state(i, variant):
    """State at time i; the values depend on (i, variant) so that records cannot be confused."""
    k = 10. * i
    st = {'time': time_of(i), 'T': arr(T + k, ['x', 'y'], 'degK', long_name='temp'), 'n': arr(N + int(k), ['x'], 'count'), 's': arr(3. + k, [], 'm')}
    if variant == 'alt':
        for q in 'Tns':
            st[q] = st[q].copy(deep=True)
            st[q].values[...] += 100
    elif variant == 'missing':
        del st['n']
    elif variant == 'part_n':
        del st['T'], st['s']
        st['n'].values[...] += 50
    elif variant == 'extra':
        st['e'] = arr(1., [], 'm')
    elif variant == 'renamed':
        st['e'] = st.pop('n')
    elif variant == 'units':
        st['T'].attrs['units'] = 'degC'
    elif variant == 'longer_n':
        st['n'] = arr(np.array([1, 2, 3], dtype=np.int32), ['x'], 'count')
    elif variant == 'longer':
        st['T'] = arr(np.arange(9.).reshape(3, 3), ['x', 'y'], 'degK', long_name='temp')
        st['n'] = arr(np.array([1, 2, 3], dtype=np.int32), ['x'], 'count')
    elif variant == 'otherdim':
        st['T'] = arr(T + k, ['x', 'z'], 'degK', long_name='temp')
    elif variant == 'lessdim':
        st['T'] = arr(T[:, 0] + k, ['x'], 'degK', long_name='temp')
    elif variant == 'length1':
        st['T'] = arr(T[:, :1] + k, ['x', 'y'], 'degK', long_name='temp')
    elif variant == 'transposed':
        st['T'] = arr((T + k).T, ['y', 'x'], 'degK', long_name='temp')
    elif variant == 'float_n':
        st['n'] = arr(N + int(k) + .5, ['x'], 'count')
    elif variant == 'calendar':
        st['time'] = time_of(i, 'noleap')
    elif variant == 'delta':
        st['time'] = timedelta(hours=i)
    else:
        assert variant == 'base', variant
    return st


ALPHA = [(0, 'base'), (1, 'base'), (2, 'base'), (1, 'alt'), (1, 'part_n'), (1, 'missing'), (1, 'extra'), (1, 'renamed'), (2, 'units'), (2, 'longer_n'),
         (1, 'longer'), (2, 'otherdim'), (2, 'lessdim'), (2, 'length1'), (1, 'transposed'), (2, 'float_n'), (2, 'delta'), (2, 'calendar')]
SEPS = ['', 'w', 'r']


class Bad(Exception):
    pass


class Either(Exception):
    """The implementation may refuse or store faithfully."""


class Model(object):
    def __init__(self):
        self.cache = {}
        self.records = []     # (time, {name: (dims, values)})
        self.vars = None      # {name: (dims, attrs, dtype)}
        self.cal = None

    def store(self, st, names=None, rename=lambda s: s):
        snap = {}
        for q, a in st.items():
            if q != 'time' and (names is None or q in names):
                snap[rename(q)] = (tuple(a.dims), np.array(a.values, copy=True), dict(a.attrs))
        self.cache.setdefault((cal_of(st['time']), st['time']), {}).update(snap)

    def write(self):
        if not self.cache:
            return
        may = False
        if len({c for c, t in self.cache}) > 1:
            raise Bad('calendars')
        new = sorted([(t, st) for (c, t), st in self.cache.items()], key=lambda kv: kv[0])
        cal = cal_of(new[0][0])
        if self.cal is not None and cal != self.cal:
            raise Bad('calendar')
        first = dict(new[0][1])
        for t, st in new:
            if set(st) != set(first):
                raise Bad('names')
            for q in st:
                if dict(zip(st[q][0], st[q][1].shape)) != dict(zip(first[q][0], first[q][1].shape)):
                    raise Bad('dims')
                if st[q][2]['units'] != first[q][2]['units']:
                    raise Bad('units')
                may |= st[q][0] != first[q][0]
        lengths = {}
        for q, (dims, v, _) in first.items():
            for d, n in zip(dims, v.shape):
                if lengths.setdefault(d, n) != n:
                    raise Bad('lengths')
        if self.vars is not None:
            if set(self.vars) != set(first):
                raise Bad('names')
            for q, (dims, v, attrs) in first.items():
                fdims, fshape, fattrs, fdtype = self.vars[q]
                if dict(zip(dims, v.shape)) != dict(zip(fdims, fshape)):
                    raise Bad('dims')
                if attrs['units'] != fattrs['units']:
                    raise Bad('units')
                may |= dims != fdims
                dts = [st[q][1].dtype for t, st in new]
                if not np.can_cast(np.result_type(*dts), fdtype):
                    raise Bad('dtype')
        else:
            self.newvars = {q: (dims, v.shape, attrs, np.result_type(*[st[q][1].dtype for t, st in new])) for q, (dims, v, attrs) in first.items()}
        if may:
            raise Either()
        self.commit()

    def commit(self):
        new = sorted([(t, st) for (c, t), st in self.cache.items()], key=lambda kv: kv[0])
        if self.vars is None:
            self.vars = self.newvars
        self.cal = cal_of(new[0][0])
        self.records += [(t, st) for t, st in new]
        self.cache = {}


def cal_of(t):
    return 'timedelta' if isinstance(t, timedelta) else getattr(t, 'calendar', 'proleptic_gregorian')


def compare(path, m, what, unit='seconds'):
    """The file holds exactly the records of the model."""
    if not m.records:
        if os.path.exists(path):
            with netCDF4.Dataset(path) as ds:
                require('time' not in ds.dimensions or ds.dimensions['time'].size == 0, '{}: the file has {} records, expected none', what,
                        ds.dimensions['time'].size if 'time' in ds.dimensions else 0)
        return
    with netCDF4.Dataset(path) as ds:
        ds.set_auto_maskandscale(False)
        require(set(ds.variables) == set(m.vars) | {'time'}, '{}: variables {}, expected {}', what, sorted(ds.variables), sorted(m.vars))
        n = ds.dimensions['time'].size
        require(n == len(m.records), '{}: {} records, expected {}', what, n, len(m.records))
        tv = ds.variables['time']
        check_times(tv, [t for t, _ in m.records], unit, what)
        for q, (dims, shape, attrs, dtype) in m.vars.items():
            v = ds.variables[q]
            require(v.dimensions[0] == 'time' and set(v.dimensions[1:]) == set(dims) and len(v.dimensions) == len(dims) + 1,
                    '{}: {} has dimensions {}, expected {}', what, q, v.dimensions, dims)
            require(v.dtype == dtype, '{}: {} has type {}, expected {}', what, q, v.dtype, dtype)
            got = {k: v.getncattr(k) for k in v.ncattrs()}
            require(set(got) == set(attrs) and all(np.all(got[k] == attrs[k]) for k in attrs), '{}: {} has attributes {}, expected {}', what, q, got, attrs)
            for i, (t, st) in enumerate(m.records):
                rdims, rv, _ = st[q]
                g = np.asarray(v[i])
                perm = [rdims.index(d) for d in v.dimensions[1:]]
                want = rv.transpose(perm) if rv.ndim else rv
                require(g.shape == want.shape and np.array_equal(g, want.astype(dtype), equal_nan=dtype.kind == 'f'),
                        '{}: record {} of {} holds {}, expected {}', what, i, q, g.tolist(), want.tolist())


def check_times(tv, times, unit, what):
    require(str(tv.units).split()[0] == unit, '{}: time unit {} not {}', what, tv.units, unit)
    raw = np.asarray(tv[:])
    require(len(raw) == len(times), '{}: {} times, expected {}', what, len(raw), len(times))
    if isinstance(times[0], timedelta):
        require('since' not in tv.units, '{}: durations stored as dates', what)
        for r, t in zip(raw, times):
            require(int(r) * DELTA[unit] == t, '{}: time {} {}, expected {}', what, r, unit, t)
    else:
        got_cal = str(getattr(tv, 'calendar', 'standard'))
        cal = cal_of(times[0])
        same = {'gregorian': 'standard', 'noleap': '365_day', 'all_leap': '366_day'}
        require(same.get(got_cal, got_cal) == same.get(cal, cal), '{}: calendar {}, expected {}', what, got_cal, cal)
        for r, t in zip(raw, times):
            g = cftime.num2date(int(r), tv.units, calendar=got_cal, only_use_cftime_datetimes=True)
            f = lambda d: (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)
            require(f(g) == f(t), '{}: time {}, expected {}', what, g, t)


# ---------------------------------------------------------------- histories
def cases(tier):
    last = len(ALPHA) if tier == 'thorough' else 9
    for a in range(len(ALPHA)):
        for sa in range(3):
            for b in range(len(ALPHA)):
                yield {'kind': 'history', 'prefix': [[a, sa], [b, 0]], 'last': last, 'all': tier == 'thorough'}
    for a in range(len(ALPHA)):
        yield {'kind': 'onstore', 'first': a}
    for i in range(len(DT)):
        yield {'kind': 'dtypes', 'dtype': i}
    for u in DELTA:
        for c in list(CAL) + ['timedelta']:
            yield {'kind': 'times', 'unit': u, 'cal': c}
    for i in range(len(ALIASES)):
        yield {'kind': 'names', 'alias': i}
    yield {'kind': 'given_names'}
    yield {'kind': 'retry'}
    yield {'kind': 'mutation'}
    for i in range(len(ATTRVALS)):
        yield {'kind': 'attributes', 'i': i}
    yield {'kind': 'independent'}


def run(case, obs):
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
    try:
        globals()['run_' + case['kind']](case, obs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def do_write(mon, m, path, what, obs, action=None):
    """Write (or run action) and compare; returns False when refused (the cache of the model is dropped)."""
    obs.step()
    try:
        m.write()
        expect = 'ok'
    except Bad as err:
        expect = 'refuse'
    except Either:
        expect = 'either'
    before = None
    try:
        (action or mon.write)()
        done = True
    except Violation:
        raise
    except Exception as err:
        done = False
        if expect == 'ok':
            raise Violation('{}: write failed with {!r}'.format(what, err))
    require(not (done and expect == 'refuse'), '{}: states that cannot be stored together were accepted', what)
    if done and expect == 'either':
        m.commit()
    if not done:
        m.cache = {}
    compare(path, m, what)
    obs.outcome([done, len(m.records), expect])
    return done


def run_history(case, obs, d):
    prefix = case['prefix']
    n = 0
    tails = [[[c, sc]] for c in range(case['last']) for sc in (0,)]
    if case['all']:
        seps = (0, 1, 2)
    else:
        seps = (0, 1) if (prefix[0][0] + prefix[1][0]) % 2 else (0, 2)
    hists = []
    if prefix[0][1] == 0:
        hists.append([prefix[0]])
    for sb in seps:
        p = [prefix[0], [prefix[1][0], sb]]
        if sb == seps[0]:
            hists.append(p)
        hists += [p + t for t in tails]
    for h in hists:
        n += 1
        path = os.path.join(d, 'f%d.nc' % n)
        m = Model()
        mon = NetCDFMonitor(path)
        desc = []
        for j, (a, s) in enumerate(h):
            st = make_state(*ALPHA[a])
            mixed = any(c != cal_of(st['time']) for c, t in m.cache)
            try:
                mon.store(st)
                m.store(st)
            except Exception as err:
                # times on different calendars may be refused at once
                require(mixed, '{}: store of {} failed with {!r}', desc, ALPHA[a], err)
            # what happens to the caller's arrays afterwards must not matter
            for q in st:
                if q != 'time':
                    st[q].values[...] = -1
            sep = SEPS[s] if j < len(h) - 1 else 'w'
            desc.append([list(ALPHA[a]), sep])
            obs.state(desc)
            if sep:
                ok = do_write(mon, m, path, str(desc), obs)
                if not ok or sep == 'r':
                    mon = NetCDFMonitor(path)
        mon.write()
        compare(path, m, str(desc) + ' and write again')
        # the file always accepts a matching state afterwards
        if m.records and n % 4 == 0:
            tmpl = m.records[0]
            st = {'time': tmpl[0]}
            for q, (dims, v, attrs) in tmpl[1].items():
                if v.dtype != m.vars[q][3]:
                    v = v.astype(m.vars[q][3])
                perm = [dims.index(x) for x in m.vars[q][0]]
                st[q] = DataArray(v.transpose(perm) if v.ndim else v, dims=m.vars[q][0], attrs=attrs)
            mon = NetCDFMonitor(path)
            mon.store(st)
            m.store(st)
            do_write(mon, m, path, str(desc) + ' and one more record', obs)
        os.unlink(path) if os.path.exists(path) else None


def run_onstore(case, obs, d):
    n = 0
    for b in range(len(ALPHA)):
        for c in (0, 1, 3):
            n += 1
            path = os.path.join(d, 'g%d.nc' % n)
            m = Model()
            mon = NetCDFMonitor(path, write_on_store=True)
            desc = []
            for a in (case['first'], b, c):
                st = make_state(*ALPHA[a])
                desc.append(list(ALPHA[a]))
                obs.state(['onstore', desc])
                m.store(st)
                if not do_write(mon, m, path, 'write_on_store ' + str(desc), obs, lambda: mon.store(st)):
                    mon = NetCDFMonitor(path, write_on_store=True)
            os.unlink(path) if os.path.exists(path) else None


DT = ['f4', 'f8', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8']
SHAPES = [((), ()), (('x',), (1,)), (('x',), (3,)), (('x', 'y'), (2, 2)), (('y', 'x'), (1, 3)), (('x', 'y', 'z'), (2, 1, 3))]


def run_dtypes(case, obs, d):
    dt = np.dtype(DT[case['dtype']])
    n = 0
    for dims, shape in SHAPES:
        for special in range(3):
            for nrec in (1, 2, 3):
                n += 1
                path = os.path.join(d, 'h%d.nc' % n)
                m = Model()
                mon = NetCDFMonitor(path)
                size = int(np.prod(shape))
                for i in range(nrec):
                    v = (np.arange(size) + 1 + i * size).astype(dt).reshape(shape)
                    if special == 1:
                        v = np.array(np.full(shape, netCDF4.default_fillvals[dt.str[1:]], dtype=dt))
                    if special == 2:
                        v = np.array(np.full(shape, np.nan if dt.kind == 'f' and i % 2 else (np.inf if dt.kind == 'f' else np.iinfo(dt).max), dtype=dt))
                    order = np.asfortranarray(v) if v.ndim > 1 and i % 2 else v
                    st = {'time': time_of(nrec - i), 'q': DataArray(order, dims=dims, attrs={'units': 'm', 'note': 'a b', 'num': 2.5, 'int': 3})}
                    mon.store(st)
                    m.store(st)
                obs.state([DT[case['dtype']], dims, shape, special, nrec])
                do_write(mon, m, path, 'dtype %s dims %s special %d' % (dt, dims, special), obs)


def run_times(case, obs, d):
    unit, cal = case['unit'], case['cal']
    n = 0
    offs = [0, 1, 2, 100]
    # a reference time of a cftime calendar is only precise to the second in the file
    frac = 250 if cal == 'datetime' or unit == 'microseconds' else (250000 if unit == 'milliseconds' else 0)
    starts = [(2000, 2, 28, 12, 30, 15, frac), (1999, 12, 30, 23, 59, 59), (1850, 1, 1), (2000, 1, 1)]
    for start in starts:
        for k in range(1, 4):
            for order in itertools.permutations(offs, k):
                for seq in (0, 1):
                    n += 1
                    if seq and k == 1:
                        continue
                    base = timedelta(0) if cal == 'timedelta' else CAL[cal](*start)
                    times = [base + o * DELTA[unit] for o in order]
                    path = os.path.join(d, 't%d.nc' % n)
                    m, mon = Model(), NetCDFMonitor(path, time_units=unit)
                    for t in times:
                        st = {'time': t, 'q': arr(float(n), [], 'm')}
                        n += 1
                        mon.store(st)
                        m.store(st)
                        if seq:
                            m.write()
                            mon.write()
                    m.write()
                    mon.write()
                    obs.step()
                    obs.state([unit, cal, start, order, seq])
                    compare(path, m, 'times %s in %s' % ([str(t) for t in times], unit), unit)
                    os.unlink(path)
        if cal == 'timedelta':
            break


NAMES = ['air_temperature', 'air_temperature_tendency', 'air_pressure', 'x_wind']
ALIASES = [None, {}, {'air_temperature': 'T'}, {'air_pressure': 'P', 'air_temperature': 'T'}, {'air': 'a'}, {'_': '-'}, {'air_': ''}, {'x_wind': ''},
           {'air_temperature': 'x_wind'}, {'tendency': 'time'}, {'x_wind': 'time'}, {'not_there': 'q'}, {'air_temperature': 'air_temperature'},
           {'x_wind': 'air_pressure'}, {'time': 'tt'}, {'i': 'i'}, {'temperature': 'temp', 'temp_tendency': 'dT'}]


def rename(name, aliases):
    for k, v in (aliases or {}).items():
        name = name.replace(k, v)
    return name


def run_names(case, obs, d):
    al = ALIASES[case['alias']]
    n = 0
    state = {'time': time_of(0)}
    for i, q in enumerate(NAMES):
        state[q] = arr(np.arange(2.) + i, ['x'], 'K')
    for r in range(len(NAMES) + 1):
        for have in itertools.combinations(NAMES, r):
            for sel in [None] + [list(c) for k in range(len(NAMES) + 1) for c in itertools.combinations(NAMES + ['absent'], k)]:
                if sel is not None and 1 <= r < 3:
                    continue
                n += 1
                path = os.path.join(d, 'n%d.nc' % n)
                st = {k: v for k, v in state.items() if k == 'time' or k in have}
                chosen = [q for q in have if sel is None or q in sel]
                new = [rename(q, al) for q in chosen]
                bad = len(set(new)) < len(new) or '' in new or 'time' in new
                obs.state([al, have, sel])
                obs.step()
                mon = NetCDFMonitor(path, store_names=sel, aliases=al)
                keys = sorted(st)
                try:
                    mon.store(st)
                    done = True
                except Exception as err:
                    done = False
                    require(bad, 'aliases {} for {}: store failed with {!r}', al, chosen, err)
                require(done or bad, 'store failed')
                require(not (done and bad), 'aliases {} for {} give the names {}, but the state was accepted', al, chosen, new)
                require(sorted(st) == keys, 'store changed the state to {}', sorted(st))
                obs.outcome([sorted(new), done])
                if not done:
                    mon.write()
                    compare(path, Model(), 'after a refused store')
                    continue
                m = Model()
                m.store(st, chosen, lambda q: rename(q, al))
                m.write()
                mon.write()
                compare(path, m, 'aliases %s names %s store_names %s' % (al, have, sel))
                os.unlink(path)


def run_given_names(case, obs, d):
    """Names to store given as any collection, which the caller may alter or use up afterwards."""
    n = 0
    for r in range(len(NAMES) + 1):
        for sel in itertools.combinations(NAMES, r):
            for form in ('list', 'tuple', 'set', 'frozenset', 'dict', 'keys', 'iterator', 'generator', 'array', 'with time'):
                for w in itertools.product((0, 1), repeat=2):
                    n += 1
                    given = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': dict.fromkeys,
                             'keys': lambda x: dict.fromkeys(x).keys(), 'iterator': iter, 'generator': lambda x: (y for y in x),
                             'array': lambda x: np.array(x, dtype=object), 'with time': lambda x: ['time'] + list(x)}[form](sel)
                    path = os.path.join(d, 'l%d.nc' % n)
                    mon = NetCDFMonitor(path, store_names=given)
                    m = Model()
                    if form == 'list':
                        given.append('x_wind')
                        del given[0]
                    elif form == 'set':
                        given ^= set(NAMES)
                    elif form == 'dict':
                        given.clear()
                    what = 'store_names %s given as %s, writes %s' % (sel, form, w)
                    for i in range(3):
                        st = {'time': time_of(i)}
                        for k, q in enumerate(NAMES):
                            st[q] = arr(np.arange(2.) + k + 10 * i, ['x'], 'K')
                        mon.store(st)
                        m.store(st, sel)
                        if i == 2 or w[i]:
                            do_write(mon, m, path, what, obs)
                    obs.state([sel, form, w])
                    os.unlink(path) if os.path.exists(path) else None


def run_retry(case, obs, d):
    """A write refused because of what is at the path loses nothing: once that was removed, it succeeds."""
    def q(i, **kw):
        o = dict({'n': 2, 'units': 'K', 'dtype': 'f8', 'name': 'q', 'time': time_of(i), 'dims': ['x']}, **kw)
        return {'time': o['time'], o['name']: DataArray(np.arange(o['n']).astype(o['dtype']) + i, dims=o['dims'], attrs={'units': o['units']})}
    causes = {'lengths': {'n': 3}, 'units': {'units': 'm'}, 'names': {'name': 'p'}, 'type': {'dtype': 'i2'}, 'dims': {'dims': ['y']},
              'calendar': {'time': time_of(0, '360')}, 'duration': {'time': timedelta(0)}, 'garbage': None, 'directory': None}
    n = 0
    for cause, how in sorted(causes.items()):
        for order in itertools.permutations((1, 2, 3), 3):
            for before in (1, 2, 3):              # states stored before the first write
                for tries in (1, 2):
                    for on_store in (False, True):
                        n += 1
                        sub = os.path.join(d, 'r%d' % n)
                        path = os.path.join(sub, 'f.nc')
                        old = Model()
                        if cause != 'directory':
                            os.mkdir(sub)
                            if how is None:
                                with open(path, 'w') as f:
                                    f.write('not a NetCDF file ' * 40)
                            else:
                                prev = NetCDFMonitor(path)
                                prev.store(q(0, **how))
                                old.store(q(0, **how))
                                do_write(prev, old, path, 'existing file', obs)
                        mon, m = NetCDFMonitor(path, write_on_store=on_store), Model()
                        what = 'write refused because of %s, %d times, states in order %s, %d at first, write_on_store %s' % (cause, tries, order, before, on_store)
                        obs.state([cause, order, before, tries, on_store])
                        refused = 0
                        for i in order[:before]:
                            m.store(q(i))
                            try:
                                mon.store(q(i))
                            except Exception:
                                require(on_store, '{}: store failed', what)
                                refused += 1
                        for _ in range(tries):
                            try:
                                mon.write()
                            except Exception:
                                refused += 1
                        require(refused == tries + (before if on_store else 0), '{}: {} refusals', what, refused)
                        if cause == 'directory':
                            os.mkdir(sub)
                        else:
                            if how is not None:
                                compare(path, old, what)
                            os.rename(path, path + '.old')
                        for i in order[before:]:
                            m.store(q(i))
                            mon.store(q(i))
                            if on_store:
                                m.write()
                        do_write(mon, m, path, what, obs)
                        mon.write()
                        compare(path, m, what + ', and written again')
                        if how is not None:
                            compare(path + '.old', old, what)
                        shutil.rmtree(sub)


def run_mutation(case, obs, d):
    """Everything the caller does to a state after storing it, before the write, has no effect on the file."""
    n = 0
    for muts in itertools.product(('none', 'values', 'units', 'replace', 'delete', 'attrs', 'view'), repeat=2):
        for when in (0, 1):
            n += 1
            path = os.path.join(d, 'm%d.nc' % n)
            m, mon = Model(), NetCDFMonitor(path)
            backing = np.arange(24.).reshape(4, 6)
            st = {'time': time_of(0), 'q': DataArray(backing[::2, ::3], dims=['x', 'y'], attrs={'units': 'm', 'a': 'b'}), 'r': arr(1., [], 's')}
            mon.store(st)
            m.store(st)

            def mutate(mu):
                if mu == 'values' and 'q' in st:
                    st['q'].values[...] += 1000
                    st['r'].values[...] += 1
                elif mu == 'units' and 'q' in st:
                    st['q'].attrs['units'] = 'km'
                elif mu == 'replace':
                    st['q'] = arr(0., [], 'kg')
                elif mu == 'delete':
                    st.pop('q', None)
                elif mu == 'attrs' and 'q' in st:
                    st['q'].attrs.clear()
                elif mu == 'view':
                    backing[...] = -9
            for mu in muts:
                mutate(mu)
            if when:
                st2 = {'time': time_of(1), 'q': DataArray(np.ones((2, 2)), dims=['x', 'y'], attrs={'units': 'm', 'a': 'b'}), 'r': arr(2., [], 's')}
                mon.store(st2)
                m.store(st2)
            obs.state([muts, when])
            do_write(mon, m, path, 'modified after the store: %s' % (muts,), obs)


ATTRVALS = [None, 'x', '', 'é', 'two\nlines', 3, 2.5, np.float32(1.5), np.int16(4), 2 ** 40, float('nan'), np.array([1., 2.]), np.array([1., 3.]), np.array([1, 2], dtype='i4'), [1., 2.], (1, 2, 3),
            [7], 7, np.array([np.nan, 1.]), [], ['a', 'bc'], ['a', 'bd'], np.array([0, 1], dtype='i1')]


def same_attr(a, b):
    a, b = (None if x is None else np.atleast_1d(x) for x in (a, b))
    if a is None or b is None:
        return a is None and b is None
    return a.shape == b.shape and all(x == y or (x != x and y != y) for x, y in zip(a.tolist(), b.tolist()))


def run_attributes(case, obs, d):
    """An attribute of any kind, the same or another in later writes."""
    n = 0
    i = case['i']
    for j in range(len(ATTRVALS)):
        for how in ('each', 'reopen', 'on store') + (('once',) if same_attr(ATTRVALS[i], ATTRVALS[j]) else ()):
            n += 1
            path = os.path.join(d, 'at%d.nc' % n)
            mon = NetCDFMonitor(path, write_on_store=how == 'on store')
            vals = [i, i, j, i]
            written = []
            for k, w in enumerate(vals):
                a = {'units': 'm'}
                if ATTRVALS[w] is not None:
                    a['special'] = ATTRVALS[w]
                st = {'time': time_of(k), 'q': DataArray(np.array([1., 2.]) + k, dims=['x'], attrs=a), 'r': arr(1. + k, [], 's')}

                def go():
                    mon.store(st)
                    if how in ('each', 'reopen') or (how == 'once' and k == 3):
                        mon.write()
                try:
                    go()
                    err = None
                except Exception as e:
                    err = e
                obs.step()
                obs.state([i, j, how, k])
                where = 'attribute {!r}, then {!r}, {}, store {}'.format(ATTRVALS[i], ATTRVALS[w], how, k)
                # a state lacking an attribute which the file has may be refused or not
                if same_attr(ATTRVALS[i], ATTRVALS[w]):
                    require(err is None, '{}: refused with {!r}', where, err)
                    written.append(k)
                elif ATTRVALS[w] is not None:
                    require(err is not None, '{}: stored', where)
                    require(not isinstance(err, (AttributeError, NameError, KeyError)) and 'ambiguous' not in str(err), '{}: failed with {!r}', where, err)
                else:
                    written += [k] if err is None else []
                obs.outcome([type(err).__name__, i, w])
                if err is not None or how == 'reopen':
                    mon = NetCDFMonitor(path, write_on_store=how == 'on store')
                if how != 'once' or k == 3:
                    with netCDF4.Dataset(path) as ds:
                        require(ds.dimensions['time'].size == len(written), '{}: {} records instead of {}', where, ds.dimensions['time'].size, len(written))
                        v = ds.variables['q']
                        require(np.array_equal(v[:, 0], [1. + x for x in written]) and np.array_equal(ds.variables['r'][:], [1. + x for x in written]), '{}: values {}', where, v[:].tolist())
                        got = v.getncattr('special') if 'special' in v.ncattrs() else None
                        require(same_attr(got, ATTRVALS[i]), '{}: the attribute is {!r}', where, got)


def run_independent(case, obs, d):
    """Two monitors on two files, all interleavings of three operations each."""
    n = 0
    seqs = [['s0', 's1', 'w'], ['s2', 'w', 's0']]
    for pos in itertools.combinations(range(6), 3):
        n += 1
        paths = [os.path.join(d, 'a%d.nc' % n), os.path.join(d, 'b%d.nc' % n)]
        mons = [NetCDFMonitor(p) for p in paths]
        ms = [Model(), Model()]
        idx = [0, 0]
        for k in range(6):
            w = 0 if k in pos else 1
            op = seqs[w][idx[w]]
            idx[w] += 1
            if op == 'w':
                do_write(mons[w], ms[w], paths[w], 'interleaving %s' % (pos,), obs)
            else:
                st = make_state(int(op[1]), 'base')
                mons[w].store(st)
                ms[w].store(st)
        for w in (0, 1):
            do_write(mons[w], ms[w], paths[w], 'interleaving %s' % (pos,), obs)
        obs.state(pos)
