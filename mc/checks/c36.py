"""C36: names of quantities, dimensions and aliases are labels only."""
import itertools
from mc import scen

LEVEL = 'model_checking'
RULE = ('21 scenarios which use every part of the library (component calls, output and declaration checks, combination, every time stepper with failures between steps, '
        'wrappers, NetCDF and restart files, tracers, constants, array functions, basic components, plots) are run with every name of a list of unusual names (beginning '
        'with "time" or "_", attributes and arguments used in the code, names of dimensions, other scripts, blanks, digits, parts of one another, one letter in the other case, '
        'very long, format directives) in every role of five quantities, four dimensions and two aliases, and of named parts, with all permutations of the neutral names, and with pairs of '
        'unusual names (thorough: all ordered pairs). Everything observed, mapped back to neutral names, must be what the run with neutral names gives.')
ASSUMPTIONS = ['The name "time" is reserved for the time, "tracers" and "tracer" where tracers are used, "*" for the wildcard, a dimension "time" cannot be stored in a file, '
               'and names stored in files contain none of "/", "{", "}", "%" and are not empty (NetCDF reserves them).',
               'The order of dimensions is compared by the checks of the respective properties, not by this one.',
               'Aliases of NetCDF monitors replace parts of names: compared only where no other name contains the replaced one.']
QN = ['time_x', 'timescale', 'a_time', 'Time', 'tracers', 'tracer', '_b', '__b__', '__class__', 'units', 'dims', 'values', 'attrs', 'name', 'state', 'self', 'timestep',
      'x', 'y', 'w', u'\u03b8', 'a b', 'a-b', 'a.b', '1', '0', 'None', 'ALA', 'qa_', 'Qa', 'QB', 'q', 'qaqa', 'equilibrium_qz', 'zz_tendency_from_M', 'n' * 150, 'air_temperature',
      '{}', '{0}', '%s', 'qb s^-1', 'K', 'a/b', '', 'aliases', 'depth', 'raw_state', 'qd_tendency']
DN = ['time', 'lat', 'Y', 'X', 'x0', '_x', '__x__', 'tracer', 'dim_0', 'dim_1', 'concat_dim', 'variable', u'\u03b8', 'a b', '1', '0', 'units', 'qa', 'qb', 'ala', 'values', 'T',
      'name', 'tracers', 'tracer_bin', 'a_tracer', 'dims', 'None', '{}', '%s', 'index', 'method', 'keep_attrs', 'drop', 'data', 'other', 'l' * 100, 'xy', 'interface_levels', 'self', 'x*', '']
AN = ['T', 'time_x', '_t', 'units', 'x', u'\u03b8', 'a b', '1', 'ALA', 'a' * 100, '{}', 'qa_', 'q', 'self', 'state', 'tracer', '']
CN = ['my part', 'a-b', 'Upper_lower', 'lower', 'time', 'time_x', '_p', '_tendency_from_', 'x_tendency_from_y', '{}', '%s', u'\u03b8', '1', 'n' * 150, 'qa', 'self', ' p ', 'a.b', 'a/b', 'N-N']
FILES = ('netcdf', 'netcdf_alias', 'restart')


def admits(name, m):
    """Whether the scenario can use the names."""
    qs, ds = m.get('q', {}), m.get('d', {})
    if name in FILES and any(n == '' or set(n) & set('/{}%') for n in list(qs.values()) + list(ds.values())):
        return False
    if name in FILES and 'time' in ds.values():
        return False
    if name == 'tracers' and ('tracers' in qs.values() or 'tracer' in ds.values()):
        return False
    if name == 'netcdf_alias':
        full = dict({n: 'q' + n for n in scen.QS}, **qs)
        if any(full['a'] in full[n] for n in 'bce'):
            return False
    return True


def maps(tier):
    for r in scen.QS:
        for n in QN:
            yield {'q': {r: n}}
    for p in itertools.permutations(scen.QS):
        yield {'q': {r: 'q' + n for r, n in zip(scen.QS, p)}}
    for r in scen.LEN:
        for n in DN:
            yield {'d': {r: n}}
    for p in itertools.permutations(scen.LEN):
        yield {'d': dict(zip(scen.LEN, p))}
    for r in ('ala', 'alb'):
        for n in AN:
            yield {'al': {r: n}}
    yield {'al': {'ala': 'alb', 'alb': 'ala'}}
    for r in ('N', 'St', 'M'):
        for n in CN:
            yield {'n': {r: n}}
    pick = ['time_x', 'timescale', '_b', 'tracers', 'x', 'qaqa', 'Qa', '1', 'a b']
    for m, n in itertools.permutations(QN if tier == 'thorough' else pick, 2):
        yield {'q': {'a': m, 'b': n}}
    for m, n in itertools.permutations(DN if tier == 'thorough' else ['X', 'x0', '_x', 'qa', 'T'], 2):
        yield {'d': {'y': m, 'z': n}}
    if tier == 'thorough':
        for m, n in itertools.product(QN, DN):
            if m != n:
                yield {'q': {'b': m}, 'd': {'z': n}}


def cases(tier, names=None):
    ms = list(maps(tier))
    for name in (names or scen.ALL):
        use = [m for m in ms if admits(name, m) and ('n' not in m or name == 'wrappers' or name.startswith('stepper'))]
        for i in range(0, len(use), 40):
            yield {'kind': 'names', 'scenario': name, 'maps': use[i:i + 40]}


def few(*names):
    """A short list for the checks of other properties."""
    for name in names:
        use = [{'q': {r: n}} for r in scen.QS for n in ('time_x', '_b', 'tracers', 'x', 'qaqa')] + [{'d': {r: n}} for r in scen.LEN for n in ('_x', 'X', 'qa')]
        use += [{'n': {'N': 'my part', 'St': 'Upper-lower'}}, {'n': {'N': 'x_tendency_from_y', 'M': 'my part'}}]
        use += [{'q': {r: 'q' + n for r, n in zip(scen.QS, p)}} for p in (('e', 'd', 'c', 'b', 'a'), ('b', 'c', 'a', 'e', 'd'))]
        yield {'kind': 'names', 'scenario': name, 'maps': [m for m in use if admits(name, m)]}


def run(case, obs):
    for m in case['maps']:
        obs.state([case['scenario'], m])
        scen.compare(case['scenario'], scen.Env(**m), m, obs)
