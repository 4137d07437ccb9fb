"""C39: results depend on physical quantities, not on the units in which states and declarations give them."""
import re
import numpy as np
from sympl import DataArray
from mc import scen, comp as C

LEVEL = 'model_checking'
RULE = ('The scenarios of C36 are run with the quantities of the states in other units (five assignments of units and spellings to quantities, one of which changes from state to state), with '
        'the declarations of the components in other units (six, of which one only spells them differently; the computations then convert what they get and give), and all pairs of both. '
        'Everything observed - values in SI by a conversion of our own, dimensions of units, refusals, memories - must be what the plain run gives.')
ASSUMPTIONS = ['Scaled quantities keep units that are multiples of each other, as a scale factor multiplies the number it finds.',
               'Units of NetCDF output stay the same during a run.', 'Values are compared to a relative 1e-7.']

# scale, offset, (length, time, mass, temperature)
L, T, M, K, P, N = (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (-1, -2, 1, 0), (0, 0, 0, 0)
TABLE = {}
for _names, _f, _off, _d in (
        ('m meter metre', 1., 0, L), ('km kilometer kilometre', 1e3, 0, L), ('cm centimeter centimetre', 1e-2, 0, L), ('mm millimeter', 1e-3, 0, L),
        ('s second sec seconds', 1., 0, T), ('minute min', 60., 0, T), ('hour h hr hours', 3600., 0, T), ('day d days', 86400., 0, T), ('ms millisecond', 1e-3, 0, T),
        ('kg kilogram', 1., 0, M), ('g gram', 1e-3, 0, M), ('mg milligram', 1e-6, 0, M),
        ('Pa pascal', 1., 0, P), ('hPa hectopascal', 1e2, 0, P), ('kPa kilopascal', 1e3, 0, P), ('bar', 1e5, 0, P), ('mbar millibar', 1e2, 0, P),
        ('K kelvin degK', 1., 0, K), ('mK millikelvin', 1e-3, 0, K), ('degC celsius degree_Celsius', 1., 273.15, K), ('degF fahrenheit degree_Fahrenheit', 5 / 9., 459.67 * 5 / 9., K),
        ('delta_degree_Celsius delta_degC', 1., 0, K), ('delta_degree_Fahrenheit delta_degF', 5 / 9., 0, K), ('percent', 1e-2, 0, N), ('dimensionless', 1., 0, N)):
    for _n in _names.split():
        TABLE[_n] = (_f, _off, _d)
TOKEN = re.compile(r'([A-Za-z_]+)|(\*\*|\^) *(-?\d+)|([*/])|(-?\d+(?:\.\d+)?)')


def parse(units):
    """Scale, offset and dimensions of a text."""
    scale, offset, dim = 1., 0., np.zeros(4)
    parts = []
    sign = 1
    for name, _, power, op, num in TOKEN.findall(units):
        if name:
            parts.append([name, sign])
            sign = 1
        elif power:
            parts[-1][1] *= int(power)
        elif op == '/':
            sign = -1
        elif num:
            scale *= float(num) ** sign
            sign = 1
    for name, power in parts:
        f, off, d = TABLE[name]
        scale *= f ** power
        dim += np.array(d) * power
        if len(parts) == 1 and power == 1:
            offset = off
    return scale, offset, dim.astype(int).tolist()


def convert(v, old, new):
    if old == new:
        return v
    (f, o, d), (g, p, e) = parse(old), parse(new)
    assert d == e, (old, new)
    return (v * f + o - p) / g


STATES = {
    'spelled': {'a': 'celsius', 'b': 'meter', 'c': 'hectopascal', 'd': 'kilogram', 'e': 'second'},
    'si': {'a': 'K', 'b': 'km', 'c': 'Pa', 'd': 'g', 'e': 'hour'},
    'other': {'a': 'degF', 'b': 'cm', 'c': 'kPa', 'd': 'mg', 'e': 'day'},
    'small': {'a': 'mK', 'b': 'mm', 'c': 'bar', 'd': 'kg', 'e': 'minute'},
    'products': {'a': 'degK', 'b': 'm s s^-1', 'c': 'kg m^-1 s^-2', 'd': 'g m / m', 'e': 'hour**2/hour'},
    'varies': None,
}
TOKENS = {
    'spelled': {'K': 'kelvin', 'degK': 'kelvin', 'degC': 'celsius', 'm': 'metre', 'km': 'kilometer', 'cm': 'centimeter', 'Pa': 'pascal', 'hPa': 'hectopascal', 'g': 'gram', 's': 'second', 'hour': 'h', 'day': 'd'},
    'si': {'K': 'K', 'degK': 'K', 'degC': 'K', 'km': 'm', 'cm': 'm', 'hPa': 'Pa', 'g': 'kg', 'hour': 's', 'day': 's'},
    'offset': {'K': 'degC', 'degK': 'degC', 'degC': 'degF', 'mK': 'degC', 'km': 'cm', 'cm': 'km', 'Pa': 'hPa', 'g': 'mg', 'hour': 'day', 'day': 'hour'},
    'offset2': {'K': 'degF', 'degK': 'K', 'degC': 'mK', 'm': 'km', 'km': 'm', 'Pa': 'bar', 'g': 'kg', 's': 'minute'},
    'small': {'K': 'mK', 'degK': 'mK', 'm': 'mm', 'km': 'mm', 'cm': 'mm', 'Pa': 'kPa', 'hPa': 'Pa', 'g': 'mg', 'day': 'ms', 'hour': 'ms', 's': 'ms'},
}
LINEAR = ('spelled', 'small')
NO_DECL = ('tracers', 'functions', 'constants')
SKIP = ('constants', 'checks')
SCENES = [n for n in scen.ALL if n not in SKIP]


class Units(scen.Env):
    tol = (1e-7, 1e-9)

    def __init__(self, states=None, decl=None, keep=(), mix=0):
        scen.Env.__init__(self)
        self.states, self.decl, self.keep, self.k, self.raw = states, decl, keep, mix, {}

    # states
    def state(self, spec, k=0):
        self.k += 1
        return scen.Env.state(self, spec, k)

    def da(self, n, dims, data, units):
        new = units
        if self.states and n not in self.keep:
            table = STATES[self.states] or [STATES['si'], STATES['other'], STATES['small'], STATES['spelled']][self.k % 4]
            for u in table.values():
                if parse(u)[2] == parse(units)[2]:
                    new = u
        return scen.Env.da(self, n, dims, convert(np.array(data, dtype=float), units, new), new)

    # declarations
    def unit(self, units):
        if not self.decl:
            return units
        return re.sub('[A-Za-z]+', lambda m: TOKENS[self.decl].get(m.group(), m.group()), units)

    def props(self, p):
        out = scen.Env.props(self, p)
        for pr in out.values():
            if 'units' in pr:
                pr['units'] = self.unit(pr['units'])
        Units.old.update({id(pr): q.get('units') for pr, q in zip(out.values(), p.values())})
        Units.held.append(out)
        return out

    old = {}
    held = []

    def make(self, kind, inp, main, diag, fn, **kw):
        def keys(*props):
            out = {}
            for p in props:
                for n, pr in p.items():
                    new, was = pr['units'], Units.old[id(pr)]
                    for key in [n] + [q[n]['alias'] for q in (inp, p) if n in q and 'alias' in q[n]]:
                        out[key] = (new, was)
            return out
        ins, mains, diags = keys(inp), keys(main), keys(diag)

        def inner(raw, dt):
            m, d = fn({k: convert(v, *ins[k]) if k in ins else v for k, v in raw.items()}, dt)
            return {k: convert(v, *mains[k][::-1]) for k, v in m.items()}, {k: convert(v, *diags[k][::-1]) for k, v in d.items()}
        self.raw = ins
        return C.make(kind, inp, main, diag, inner, **kw)

    # observations
    def see_q(self, v):
        r = scen.Env.see_q(self, v)
        if r[0] != 'other' and r[3] is not None:
            f, o, d = parse(r[3])
            r[2], r[3] = (np.array(r[2]) * f + o).tolist(), d
        return r

    def see_raw(self, raw):
        return scen.Env.see_raw(self, {k: convert(v, *self.raw[k]) if k in self.raw else v for k, v in raw.items()})

    def see_props(self, p):
        return {n: [d, u and parse(u)[2]] for n, (d, u) in scen.Env.see_props(self, p).items()}

    def in_file(self, v, dims, units):
        f, o, d = parse(units)
        return [(v * f + o).tolist(), d]


def combos(name):
    states = [None] + [s for s in STATES if not (s == 'varies' and name.startswith('netcdf'))]
    decls = [None] + ([] if name in NO_DECL else list(LINEAR) if name == 'wrappers' else list(TOKENS))
    return [(s, d) for s in states for d in decls if s or d]


def cases(tier):
    for name in SCENES:
        for s, d in combos(name):
            for mix in range(4) if s == 'varies' else (0,):
                yield {'kind': 'units', 'scenario': name, 'states': s, 'decl': d, 'mix': mix}


def few(*names):
    for name in names:
        if name in SCENES:
            both = combos(name)
            for s, d in [x for x in both if x in (('other', None), ('varies', None), (None, 'small'), ('si', 'offset'), (None, 'offset2'))]:
                yield {'kind': 'units', 'scenario': name, 'states': s, 'decl': d, 'mix': 1}


def run(case, obs):
    name = case['scenario']
    keep = ('a',) if name in ('wrappers', 'functions') else ()
    E = Units(case['states'], case['decl'], keep, case['mix'])
    Units.old.clear()
    del Units.held[:]
    scen.compare(name, E, {k: case[k] for k in ('states', 'decl', 'mix')}, obs, Units)
    obs.state([name, case['states'], case['decl'], case['mix']])
