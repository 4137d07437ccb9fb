"""C28: datetimes on every calendar against a hand-written calendar model."""
import datetime as dtm
import itertools
import sympl
from sympl import timedelta
from mc.core import require
from mc import comp as C

LEVEL = 'model_checking'
RULE = ('Every calendar name the documentation lists in six letter cases x years around every leap and reform rule (thorough: every '
        'year 1..2405, and the century years up to 9999) x months 0..13 x days 0..32: the date exists exactly when the '
        'calendar model (month lengths and leap rules written down by hand) has it, and denotes the given fields; out-of-range '
        'hours/minutes/seconds/microseconds refused; from the first and last days of each month all durations of a set are '
        'added and subtracted and the result and the differences compared with the day-count model, including across the 1582 '
        'reform; all unsupported names and all time zones.')
ASSUMPTIONS = ['Years 1 to 9999.', 'The calendar of a cftime date is taken from its calendar attribute.']

NAMES = {'proleptic_gregorian': 'proleptic_gregorian', 'no_leap': 'noleap', 'noleap': 'noleap', '365_day': 'noleap', 'all_leap': 'all_leap', '366_day': 'all_leap',
         '360_day': '360_day', 'julian': 'julian', 'gregorian': 'gregorian'}
LABELS = {'noleap': {'noleap', '365_day'}, 'all_leap': {'all_leap', '366_day'}, '360_day': {'360_day'}, 'julian': {'julian'},
          'gregorian': {'gregorian', 'standard'}}
FORMS = [str, str.upper, str.title, str.capitalize, lambda s: ''.join(c.upper() if i % 2 else c for i, c in enumerate(s)), str.swapcase]
QYEARS = [1, 3, 4, 5, 99, 100, 101, 400, 1300, 1500, 1581, 1582, 1583, 1600, 1700, 1752, 1896, 1899, 1900, 1901, 1904, 1970, 1999, 2000, 2001, 2004, 2100, 2400, 3000, 9998, 9999]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
BADNAMES = ['', 'gregorian ', 'proleptic', 'standard_', '364_day', 'leap', 'none', '360day', '365', 'all-leap', 'proleptic gregorian', 'lunar', 'noleapp', '_', 'julian1', 'greg']


def leap(cal, y):
    if cal in ('noleap', '360_day'):
        return False
    if cal == 'all_leap':
        return True
    if cal == 'julian' or (cal == 'gregorian' and y <= 1582):
        return y % 4 == 0
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(cal, y, m):
    if cal == '360_day':
        return 30
    return LEN[m - 1] + (1 if m == 2 and leap(cal, y) else 0)


def exists(cal, y, m, d):
    if not (1 <= y and 1 <= m <= 12 and 1 <= d <= mlen(cal, y, m)):
        return False
    return not (cal == 'gregorian' and y == 1582 and m == 10 and 5 <= d <= 14)


_first = {}


def ordinal(cal, y, m, d):
    """Days since 1 January of year 1 of the calendar."""
    if cal not in _first:
        _first[cal] = [0, 0]
    f = _first[cal]
    while len(f) <= y:
        k = len(f) - 1
        n = sum(mlen(cal, k, mm) for mm in range(1, 13))
        f.append(f[-1] + n - (10 if cal == 'gregorian' and k == 1582 else 0))
    n = f[y] + sum(mlen(cal, y, mm) for mm in range(1, m)) + d - 1
    if cal == 'gregorian' and y == 1582 and (m, d) >= (10, 15):
        n -= 10
    return n


def fields(t):
    return (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)


def micros(cal, t):
    y, m, d, hh, mm, ss, us = fields(t)
    return ((ordinal(cal, y, m, d) * 86400 + hh * 3600 + mm * 60 + ss) * 10 ** 6) + us


def cases(tier):
    for name in NAMES:
        for i in range(len(FORMS)):
            yield {'kind': 'names', 'name': name, 'form': i}
    yield {'kind': 'refusals'}
    ys = QYEARS if tier == 'quick' else list(range(1, 2406)) + list(range(2500, 10000, 100)) + [9998, 9999]
    for cal in NAMES:
        for i in range(0, len(ys), 8):
            yield {'kind': 'dates', 'name': cal, 'years': ys[i:i + 8]}
    ya = [y for y in QYEARS if 3 < y < 9998] if tier == 'quick' else list(range(4, 2402)) + [3000, 9000]
    for cal in NAMES:
        for i in range(0, len(ya), 4):
            yield {'kind': 'add', 'name': cal, 'years': ya[i:i + 4], 'deep': tier != 'quick' and i % 80 == 0}


def run(case, obs):
    globals()['run_' + case['kind']](case, obs)


def check_kind(cal, t, what):
    if cal == 'proleptic_gregorian':
        require(type(t) is dtm.datetime, '{} is a {}, not a Python datetime', what, type(t))
    else:
        require(getattr(t, 'calendar', None) in LABELS[cal], '{} is on the calendar {}', what, getattr(t, 'calendar', None))


def run_names(case, obs):
    name = FORMS[case['form']](case['name'])
    cal = NAMES[case['name']]
    for y, m, d, rest in ((2000, 1, 1, ()), (2000, 2, 28, (23,)), (1999, 12, 30, (1, 2)), (1850, 6, 15, (0, 59, 59)), (3, 3, 3, (23, 59, 59, 999999)), (2004, 7, 9, (0, 0, 0, 1))):
        t = sympl.datetime(y, m, d, *rest, calendar=name)
        want = (y, m, d) + tuple(rest) + (0,) * (4 - len(rest))
        require(fields(t) == want, 'datetime{} on {} has the fields {}', want, name, fields(t))
        check_kind(cal, t, 'datetime on ' + name)
        kw = dict(zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'), want))
        require(sympl.datetime(calendar=name, **kw) == t, 'keywords give another datetime on {}', name)
        obs.state([name, want])
        obs.step(2)
        obs.outcome([cal, want])
        if cal == 'proleptic_gregorian':
            require(sympl.datetime(y, m, d, *rest) == t, 'the default calendar differs from proleptic_gregorian')
            for tz in (dtm.timezone.utc, dtm.timezone(timedelta(hours=-7))):
                a = sympl.datetime(y, m, d, *rest, calendar=name, tzinfo=tz)
                require(a.tzinfo is tz and fields(a) == want, 'time zone lost on {}', name)
                require(sympl.datetime(y, m, d, *rest, tzinfo=tz) == a, 'time zone lost on the default calendar')
        else:
            for tz in (dtm.timezone.utc, dtm.timezone(timedelta(hours=-7))):
                kind, got = C.outcome(sympl.datetime, y, m, d, *rest, calendar=name, tzinfo=tz)
                require(kind == 'err', 'a time zone was accepted on the calendar {}: {}', name, got)
                obs.step()


def run_refusals(case, obs):
    for bad in BADNAMES:
        for form in FORMS:
            kind, got = C.outcome(sympl.datetime, 2000, 1, 1, calendar=form(bad))
            require(kind == 'err', 'the calendar {!r} was accepted: {!r}', form(bad), got)
            obs.state(form(bad))
            obs.step()
    for cal in NAMES:
        for i, lim in ((3, 23), (4, 59), (5, 59), (6, 999999)):
            for v in (-1, 0, lim, lim + 1):
                args = [2000, 1, 1, 0, 0, 0, 0]
                args[i] = v
                kind, got = C.outcome(sympl.datetime, *args, calendar=cal)
                require((kind == 'ok') == (0 <= v <= lim), 'datetime{} on {}: {}', tuple(args), cal, got)
                if kind == 'ok':
                    require(fields(got) == tuple(args), 'datetime{} on {} has fields {}', tuple(args), cal, fields(got))
                obs.state([cal, args])
                obs.outcome(kind)
                obs.step()


def run_dates(case, obs):
    name, cal = case['name'], NAMES[case['name']]
    for y in case['years']:
        for m in range(0, 14):
            for d in range(0, 33):
                if 3 < d < 27 and not (cal == 'gregorian' and y == 1582) and (m + d + y) % 5:
                    continue
                kind, got = C.outcome(sympl.datetime, y, m, d, calendar=name)
                require((kind == 'ok') == exists(cal, y, m, d), 'datetime({}, {}, {}) on {}: {}', y, m, d, name, got)
                obs.step()
                if kind == 'ok':
                    require(fields(got)[:3] == (y, m, d), 'datetime({}, {}, {}) on {} is {}', y, m, d, name, got)
                obs.outcome([kind, m, d])
        obs.state([name, y])


DELTAS = [timedelta(0), timedelta(microseconds=1), timedelta(seconds=1), timedelta(hours=1), timedelta(days=1), timedelta(days=10), timedelta(days=29),
          timedelta(days=30), timedelta(days=31), timedelta(days=59, seconds=86399), timedelta(days=360), timedelta(days=365), timedelta(days=366)]


def run_add(case, obs):
    name, cal = case['name'], NAMES[case['name']]
    for y in case['years']:
        pts = []
        for m in range(1, 13):
            for d in (1, 2, 4, 15, 16, 27, 28, 29, 30, 31) if (y in (1582, 1900, 2000, 2001) or case['deep']) else (1, 28, 29, 30, 31):
                if exists(cal, y, m, d):
                    pts.append((y, m, d, 0, 0, 0, 0))
                    pts.append((y, m, d, 23, 59, 59, 999999))
        prev = None
        for p in pts:
            t = sympl.datetime(*p, calendar=name)
            at = micros(cal, t)
            for dt in DELTAS:
                us = (dt.days * 86400 + dt.seconds) * 10 ** 6 + dt.microseconds
                for sign in (1, -1):
                    r = t + sign * dt if sign == 1 else t - dt
                    require(exists(cal, r.year, r.month, r.day), '{} {:+d}*{} on {} gives {}, which does not exist', p, sign, dt, name, r)
                    require(micros(cal, r) - at == sign * us, '{} {:+d}*{} on {} gives {}', p, sign, dt, name, r)
                    check_kind(cal, r, 'a sum on ' + name)
                    require(r - t == sign * dt, 'the difference of {} and {} on {} is {}', r, t, name, r - t)
                    require((r > t) == (sign * us > 0) and (r < t) == (sign * us < 0) and (r == t) == (us == 0), 'order of {} and {} on {}', r, t, name)
                    obs.step(2)
            if prev is not None:
                require((t - prev[0]) == timedelta(microseconds=at - prev[1]), '{} - {} on {} is {}', t, prev[0], name, t - prev[0])
            prev = (t, at)
            obs.state([name, p])
        obs.outcome([cal, leap(cal, y)])
