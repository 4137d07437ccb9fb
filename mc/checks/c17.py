"""C17: the constants library as one aliased table, over all histories of operations."""
import re
import sympl
from sympl import set_constant, get_constant, set_condensible_name, reset_constants, get_constants_string
from mc.core import require
from mc import lab as L

LEVEL = 'model_checking'
RULE = ('All histories up to the bound over {set a constant through each of its names (direct, alias, alias of an alias, '
        'phase name) in several units, set a new constant, change the condensible species (defined, partly defined and '
        'undefined ones), reset, refused sets}; after each operation every name is read (in its own and in other units) '
        'and the listing is parsed, all compared with a one-table model.')
SCENARIOS = ['constants']
ASSUMPTIONS = ['Bounds: histories of length 3 (thorough 4) over 26 operations from the default table, every name of the '
               'documented table set once on its own.',
               'Documented defaults are those of the table shipped with the pinned commit, copied into this check.',
               'Values set are Python floats or integers.']

K = 'J kg^-1 K^-1'
DEFAULTS = {
    'stefan_boltzmann_constant': (5.670367e-8, 'W m^-2 K^-4'),
    'gravitational_acceleration': (9.80665, 'm s^-2'),
    'heat_capacity_of_dry_air_at_constant_pressure': (1004.64, K),
    'heat_capacity_of_water_vapor_at_constant_pressure': (1846.0, K),
    'specific_enthalpy_of_water_vapor': (2500.0, 'J kg^-1'),
    'heat_capacity_of_liquid_water': (4185.5, K),
    'freezing_temperature_of_liquid_water': (273.0, 'K'),
    'thermal_conductivity_of_liquid_water': (0.57, 'W m^-1 K^-1'),
    'heat_capacity_of_solid_water_as_ice': (2108., K),
    'thermal_conductivity_of_solid_water_as_ice': (2.22, 'W m^-1 K^-1'),
    'heat_capacity_of_solid_water_as_snow': (2108., K),
    'thermal_conductivity_of_solid_water_as_snow': (0.2, 'W m^-1 K^-1'),
    'reference_air_pressure': (1.0132e5, 'Pa'),
    'reference_air_temperature': (300., 'degK'),
    'thermal_conductivity_of_dry_air': (0.026, 'W m^-1 K^-1'),
    'gas_constant_of_dry_air': (287., K),
    'gas_constant_of_water_vapor': (461.5, K),
    'planetary_rotation_rate': (7.292e-5, 's^-1'),
    'planetary_radius': (6.371e6, 'm'),
    'latent_heat_of_vaporization_of_water': (2.5e6, 'J kg^-1'),
    'latent_heat_of_fusion_of_water': (333550.0, 'J kg^-1'),
    'density_of_liquid_water': (1e3, 'kg m^-3'),
    'density_of_solid_water_as_ice': (916.7, 'kg m^-3'),
    'density_of_solid_water_as_snow': (100.0, 'kg m^-3'),
    'solar_constant': (1367., 'W m^-2'),
    'planck_constant': (6.62607004e-34, 'J s'),
    'speed_of_light': (299792458., 'm s^-1'),
    'seconds_per_day': (86400., 'dimensionless'),
    'avogadro_constant': (6.022140857e23, 'mole^-1'),
    'boltzmann_constant': (1.38064852e-23, 'J K^-1'),
    'loschmidt_constant': (2.6516467e25, 'm^-3'),
    'universal_gas_constant': (8.3144598, 'J mole^-1 K^-1'),
}
PHASE = {
    'gas_constant_of_vapor_phase': 'gas_constant_of_{}_vapor',
    'heat_capacity_of_vapor_phase': 'heat_capacity_of_{}_vapor_at_constant_pressure',
    'specific_enthalpy_of_vapor_phase': 'specific_enthalpy_of_{}_vapor',
    'density_of_liquid_phase': 'density_of_liquid_{}',
    'heat_capacity_of_liquid_phase': 'heat_capacity_of_liquid_{}',
    'latent_heat_of_vaporization': 'latent_heat_of_vaporization_of_{}',
    'freezing_temperature_of_liquid_phase': 'freezing_temperature_of_liquid_{}',
    'thermal_conductivity_of_liquid_phase': 'thermal_conductivity_of_liquid_{}',
    'latent_heat_of_fusion': 'latent_heat_of_fusion_of_{}',
    'density_of_solid_phase_as_ice': 'density_of_solid_{}_as_ice',
    'density_of_solid_phase_as_snow': 'density_of_solid_{}_as_snow',
    'heat_capacity_of_solid_phase_as_ice': 'heat_capacity_of_solid_{}_as_ice',
    'heat_capacity_of_solid_phase_as_snow': 'heat_capacity_of_solid_{}_as_snow',
    'thermal_conductivity_of_solid_phase_as_ice': 'thermal_conductivity_of_solid_{}_as_ice',
    'thermal_conductivity_of_solid_phase_as_snow': 'thermal_conductivity_of_solid_{}_as_snow',
}
ALIAS = {
    'latent_heat_of_condensation': 'latent_heat_of_vaporization',
    'enthalpy_of_fusion': 'latent_heat_of_fusion',
    'stellar_irradiance': 'solar_constant',
    'heat_capacity_of_ice': 'heat_capacity_of_solid_phase_as_ice',
    'heat_capacity_of_snow': 'heat_capacity_of_solid_phase_as_snow',
    'thermal_conductivity_of_ice': 'thermal_conductivity_of_solid_phase_as_ice',
    'thermal_conductivity_of_snow': 'thermal_conductivity_of_solid_phase_as_snow',
    'density_of_ice': 'density_of_solid_phase_as_ice',
    'density_of_snow': 'density_of_solid_phase_as_snow',
}
NAMES = sorted(set(DEFAULTS) | set(PHASE) | set(ALIAS))
CONDS = ['water', 'carbon_dioxide', 'methane']
# own units -> another unit with value(other) = value(own) * factor + offset
OTHER = {'W m^-2 K^-4': ('mW m^-2 K^-4', 1e3), 'm s^-2': ('cm s^-2', 1e2), K: ('kJ kg^-1 K^-1', 1e-3), 'J kg^-1': ('kJ/kg', 1e-3),
         'K': ('mK', 1e3), 'degK': ('mK', 1e3), 'W m^-1 K^-1': ('mW m^-1 K^-1', 1e3), 'Pa': ('hPa', 1e-2), 's^-1': ('ms^-1', 1e-3), 'm': ('km', 1e-3),
         'kg m^-3': ('g cm^-3', 1e-3), 'W m^-2': ('kW m^-2', 1e-3), 'J s': ('J ms', 1e3), 'm s^-1': ('km/s', 1e-3),
         'dimensionless': ('%', 100.), 'mole^-1': ('mmol^-1', 1e-3), 'J K^-1': ('mJ K^-1', 1e3), 'm^-3': ('cm^-3', 1e-6),
         'J mole^-1 K^-1': ('kJ mole^-1 K^-1', 1e-3), 'kJ/kg': ('J kg^-1', 1e3), 'g cm^-3': ('kg m^-3', 1e3), 'degC': ('degC', 1.),
         'kW m^-2': ('W m^-2', 1e3), 'kg': ('g', 1e3), '': ('%', 100.)}
OPS = [('set', 'density_of_ice', 901., 'kg m^-3'), ('set', 'density_of_solid_phase_as_ice', 0.902, 'g cm^-3'), ('set', 'density_of_solid_water_as_ice', 903, 'kg m^-3'),
       ('set', 'density_of_solid_carbon_dioxide_as_ice', 1562., 'kg m^-3'),
       ('set', 'latent_heat_of_condensation', 2.4e6, 'J kg^-1'), ('set', 'latent_heat_of_vaporization', 2300., 'kJ/kg'),
       ('set', 'latent_heat_of_vaporization_of_water', 2.2e6, 'J kg^-1'), ('set', 'latent_heat_of_vaporization_of_carbon_dioxide', 5.7e5, 'J kg^-1'),
       ('set', 'density_of_liquid_phase', 1.001, 'g cm^-3'), ('set', 'density_of_liquid_water', 998., 'kg m^-3'),
       ('set', 'solar_constant', 1361., 'W m^-2'), ('set', 'stellar_irradiance', 1.362, 'kW m^-2'),
       ('set', 'enthalpy_of_fusion', 1., 'J kg^-1'),
       ('set', 'my_constant', 5., 'kg'), ('set', 'my_constant', 7, ''), ('set', 'reference_air_temperature', 20., 'degC'),
       ('set', 'gravitational_acceleration', 0.0, 'm s^-2'),
       ('cond', 'water'), ('cond', 'carbon_dioxide'), ('cond', 'methane'), ('reset',),
       ('bad', 'density_of_ice', 1., 'not_a_unit'), ('bad', 'my_constant', 1., 'm // s'), ('bad', 'solar_constant', 1., 'bogus m'), ('list',), ('getbad',)]


class Model(object):
    def __init__(self):
        self.table = dict(DEFAULTS)
        self.cond = 'water'

    def canon(self, name):
        name = ALIAS.get(name, name)
        return PHASE[name].format(self.cond) if name in PHASE else name


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            yield {'kind': 'history', 'prefix': [a, b], 'len': n}
    for i in range(len(NAMES)):
        for c in CONDS:
            yield {'kind': 'each', 'name': i, 'cond': c}


def run(case, obs):
    try:
        globals()['run_' + case['kind']](case, obs)
    finally:
        reset_constants()


def apply(op, m):
    if op[0] == 'set':
        set_constant(op[1], op[2], op[3])
        m.table[m.canon(op[1])] = (op[2], op[3])
    elif op[0] == 'cond':
        set_condensible_name(op[1])
        m.cond = op[1]
    elif op[0] == 'reset':
        reset_constants()
        m.__init__()
    elif op[0] == 'bad':
        try:
            set_constant(op[1], op[2], op[3])
        except Exception:
            pass
        else:
            require(False, 'setting {} in the invalid unit {!r} was accepted', op[1], op[3])
    elif op[0] == 'list':
        get_constants_string()
    elif op[0] == 'getbad':
        for name, unit in (('no_such_constant', 'm'), ('solar_constant', 'no_such_unit'), ('planetary_radius', 'kg')):
            try:
                v = get_constant(name, unit)
            except Exception:
                continue
            require(False, 'reading {} in {!r} gives {}', name, unit, v)


def check_one(m, name, v, u, cond):
    c = m.canon(name)
    for n in sorted(set(NAMES) | {c}):
        if m.canon(n) == c:
            require(get_constant(n, u) == v, '{} set to {} {!r} with {}: {} reads {}', name, v, u, cond, n, get_constant(n, u))


def check(m, hist, obs, full):
    obs.state([sorted((k, list(v)) for k, v in m.table.items() if DEFAULTS.get(k) != v), m.cond])
    obs.step()
    names = set(NAMES) | set(m.table) | {p.format(c) for c in CONDS for p in PHASE.values()} | {'my_constant'}
    if not full:  # the names the last operations could have affected; all others are in the listing
        names = HOT | set(NAMES[len(hist) % 7::7])
    for name in sorted(names):
        c = m.canon(name)
        if c not in m.table:
            try:
                v = get_constant(name, 'dimensionless')
            except Exception:
                continue
            require(False, 'after {}: {} is not defined but reads as {}', hist, name, v)
        val, unit = m.table[c]
        got = get_constant(name, unit)
        require(isinstance(got, (float, int)) and got == val, 'after {}: {} in {!r} reads {!r}, expected {!r}', hist, name, unit, got, val)
        if full:
            u2, fac = OTHER[unit]
            got = get_constant(name, u2)
            require(abs(got - val * fac) <= 1e-12 * abs(val * fac), 'after {}: {} in {!r} reads {!r}, expected {!r}', hist, name, u2, got, val * fac)
            obs.outcome([name, got])
    if full:
        for nm in ('reference_air_temperature',):
            val, unit = m.table[nm]
            want = val if unit == 'degC' else val - 273.15
            require(abs(get_constant(nm, 'degC') - want) < 1e-9, 'after {}: {} in degC', hist, nm)
            require(abs(get_constant(nm, 'K') - want - 273.15) < 1e-9, 'after {}: {} in K', hist, nm)
    listed = {}
    for line in get_constants_string().splitlines():
        mt = re.match(r'^\s+([A-Za-z0-9_]+): (\S+) ?(.*)$', line)
        if mt:
            listed.setdefault(mt.group(1), []).append((mt.group(2), mt.group(3).strip()))
    for name in set(NAMES) | set(m.table):
        c = m.canon(name)
        if c in m.table:
            require(name in listed, 'after {}: {} is not listed', hist, name)
    for name, entries in listed.items():
        c = m.canon(name)
        require(c in m.table, 'after {}: the undefined {} is listed', hist, name)
        val, unit = m.table[c]
        for v, u in entries:
            require(float(v) == float(val), 'after {}: {} listed as {} not {}', hist, name, v, val)
            require(u == unit or {u, unit} <= {'', 'dimensionless'}, 'after {}: {} listed in {!r} not {!r}', hist, name, u, unit)


def run_history(case, obs):
    def go(hist):
        m = Model()
        reset_constants()
        for i in hist:
            apply(OPS[i], m)
        check(m, [OPS[i] for i in hist], obs, len(hist) <= 2)
        if len(hist) < case['len']:
            for j in range(len(OPS)):
                go(hist + [j])
    go(case['prefix'])


HOT = {o[1] for o in OPS if o[0] == 'set'}


def run_each(case, obs):
    """Set every documented name on its own, read it through every name, switch away and back, reset."""
    name = NAMES[case['name']]
    m = Model()
    reset_constants()
    check(m, 'reset', obs, True)
    apply(('cond', case['cond']), m)
    check(m, ('cond', case['cond']), obs, True)
    unit = DEFAULTS.get(Model().canon(name), (0, 'm'))[1]
    # the same number in other units, and the other way round
    other = OTHER[unit][0]
    for v, u in ((DEFAULTS.get(m.canon(name), (5., 'm'))[0], other), (777., other), (777., unit), (777., unit)):
        apply(('set', name, v, u), m)
        check_one(m, name, v, u, case['cond'])
        obs.step()
    apply(('set', name, 123.5, unit), m)
    check(m, ('set', name, case['cond']), obs, True)
    for c in CONDS:
        apply(('cond', c), m)
        check(m, ('set', name, 'cond', c), obs, True)
    apply(('reset',), m)
    check(m, ('set', name, 'reset'), obs, True)
