"""C05: which declarations are accepted at construction."""
import itertools
from datetime import datetime
import numpy as np
import sympl
from sympl import InvalidPropertyDictError
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('Every combination of input / main / diagnostic declarations over an alphabet of two quantities (absent, '
        'consistent, other spelling of units, incompatible units, no units, no dims, shared alias, not a dictionary) is '
        'built for every component kind and declaration style (class attribute, property, set before the base '
        'initializer), and acceptance compared with the model; all ordered unit pairs for same-named quantities; three quantities each right or wrong in '
        'one of five ways x their order.')
SCENARIOS = ['declare']
ASSUMPTIONS = ['Bounds: two quantities per declaration, three in one; the unit table of mc/lab.py.',
               'A declaration missing from the class altogether is only required to be refused (the language reports it).']
T0 = datetime(2000, 1, 1)
STYLES = ('class', 'property', 'instance')


def roles(kind):
    return ('input',) if kind == 'none' else (('input', 'diag') if kind == 'diag' else ('input', 'main', 'diag'))


def input_alphabet():
    p = [None, {'dims': ['x'], 'units': 'm'}, {'dims': ['x'], 'units': 'm', 'alias': 'A'}, {'dims': ['x']}, {'units': 'm'}, {}]
    q = [None, {'dims': ['*'], 'units': 'K'}, {'dims': ['*'], 'units': 'K', 'alias': 'A'}]
    for a, b in itertools.product(p, q):
        yield {k: v for k, v in (('p', a), ('q', b)) if v is not None}
    for bad in (None, ['p'], 'p'):
        yield {'__bad__': bad}


def out_alphabet(tend):
    u = ' s^-1' if tend else ''
    p = [None, {'dims': ['x'], 'units': 'm' + u}, {'units': 'km' + u if not tend else 'cm s^-1'}, {'dims': ['x'], 'units': 'kg m^-3'},
         {'dims': ['x']}, {'dims': ['x'], 'units': 'm' + u, 'alias': 'A'}]
    q = [None, {'units': 'K' + u}, {'dims': ['x'], 'units': 'K' + u, 'alias': 'A'}]
    for a, b in itertools.product(p, q):
        yield {k: v for k, v in (('p', a), ('q', b)) if v is not None}
    for bad in (None, ['p']):
        yield {'__bad__': bad}


def cases(tier):
    for kind in C.KINDS:
        for style in STYLES:
            for i, inp in enumerate(input_alphabet()):
                if style != 'class' and tier == 'quick' and i % 3 != STYLES.index(style):
                    continue
                yield {'kind': 'decl', 'comp': kind, 'inp': inp, 'style': style}
    for kind in C.KINDS:
        yield {'kind': 'units', 'comp': kind}
        yield {'kind': 'uninit', 'comp': kind}
        yield {'kind': 'absent', 'comp': kind}
        yield {'kind': 'several', 'comp': kind}


def unpack(d):
    return d['__bad__'] if '__bad__' in d else d


def dup_alias(d):
    al = [v['alias'] for v in d.values() if 'alias' in v]
    return len(al) != len(set(al))


def consistent(kind, inp, main, diag):
    ds = [inp, diag] + ([main] if kind != 'diag' else [])
    if any(not isinstance(d, dict) for d in ds):
        return False
    if any('units' not in v or 'dims' not in v for v in inp.values()):
        return False
    if any(dup_alias(d) for d in ds):
        return False
    for d, tend in ((main, kind in ('tend', 'impl')), (diag, False)):
        if d is None:
            continue
        for n, v in d.items():
            if 'units' not in v or ('dims' not in v and n not in inp):
                return False
            if n in inp:
                want = inp[n]['units']
                have = v['units']
                fam = L.UNITS[want][0]
                if tend:
                    fam = {'L': 'L/t', 'T': 'T/t', '1': '1/t', 'P': 'P/t'}.get(fam)
                if L.UNITS[have][0] != fam:
                    return False
    return True


def declared(kind, style, inp, main, diag):
    attrs = {'input_properties': inp, 'diagnostic_properties': diag}
    if kind != 'diag':
        attrs[C.MAIN[kind]] = main
    base = C.BASES[kind]
    ns = {'array_call': {'tend': lambda self, s: ({}, {}), 'impl': lambda self, s, timestep: ({}, {}),
                         'step': lambda self, s, timestep: ({}, {}), 'diag': lambda self, s: {}}[kind]}
    if style == 'class':
        ns.update(attrs)
    elif style == 'property':
        for k, v in attrs.items():
            ns[k] = property(lambda self, v=v: v)
    else:
        for k in attrs:
            ns[k] = None

        def init(self, **kw):
            for k, v in attrs.items():
                setattr(self, k, v)
            base.__init__(self, **kw)
        ns['__init__'] = init
    return type('Decl', (base,), ns)


def run(case, obs):
    kind = case['comp']
    if case['kind'] == 'decl':
        inp0 = case['inp']
        mains = list(out_alphabet(kind in ('tend', 'impl'))) if kind != 'diag' else [{}]
        for m0 in mains:
            for d0 in out_alphabet(False):
                import copy
                inp, main, diag = copy.deepcopy(unpack(inp0)), copy.deepcopy(unpack(m0)), copy.deepcopy(unpack(d0))
                cls = declared(kind, case['style'], inp, main, diag)
                want = consistent(kind, inp, main if kind != 'diag' else None, diag)
                st, val = C.outcome(cls)
                obs.step()
                obs.state([kind, case['style'], inp0, m0, d0])
                what = '{}: input {} main {} diagnostics {} ({})'.format(kind, inp0, m0, d0, case['style'])
                if want:
                    require(st == 'ok', 'consistent declaration refused: {!r}; {}', val, what)
                    require((inp, main, diag) == (unpack(inp0), unpack(m0), unpack(d0)), 'declaration altered: {}', what)
                    obs.outcome('ok')
                else:
                    require(st == 'err', 'inconsistent declaration accepted; {}', what)
                    require(isinstance(val, InvalidPropertyDictError), 'refused with {!r}; {}', val, what)
                    obs.outcome('err')
    elif case['kind'] == 'units':
        fams = {'L/t': 'L', 'T/t': 'T', '1/t': '1', 'P/t': 'P'}
        for u in sorted(L.UNITS):
            for v in sorted(L.UNITS):
                if kind in ('tend', 'impl'):
                    want = fams.get(L.UNITS[v][0]) == L.UNITS[u][0]
                    if L.UNITS[u][0] not in fams.values():
                        # no rate family in the table: nothing in it fits
                        want = False
                        if L.UNITS[u][0] in ('t',):
                            want = L.UNITS[v][0] == '1'
                        elif L.UNITS[u][0] in ('E', 'F', 'c', 'rho', 'L/t', 'T/t', '1/t', 'P/t'):
                            want = False
                else:
                    want = L.compatible(u, v)
                main = {'p': {'units': v}} if kind != 'diag' else None
                diag = {} if kind != 'diag' else {'p': {'units': v}}
                cls = declared(kind, 'class', {'p': {'dims': ['x'], 'units': u}}, main, diag)
                st, val = C.outcome(cls)
                obs.step()
                obs.state(['units', kind, u, v])
                require((st == 'ok') == want, '{}: input units {!r} with units {!r}: {} ({!r})', kind, u, v,
                        'refused' if want else 'accepted', val)
                if st == 'err':
                    require(isinstance(val, InvalidPropertyDictError), 'refused with {!r}', val)
                if kind != 'diag':
                    # diagnostics of the other kinds
                    cls = declared(kind, 'class', {'p': {'dims': ['x'], 'units': u}}, {}, {'p': {'units': v}})
                    st, val = C.outcome(cls)
                    obs.step()
                    require((st == 'ok') == L.compatible(u, v), '{}: input {!r} diagnostic {!r}: {!r}', kind, u, v, val)
    elif case['kind'] == 'several':
        # three quantities: each may be wrong, in any declaration and any order of declaration
        u = ' s^-1' if kind in ('tend', 'impl') else ''
        good, bad = ['m', 'K', 'Pa'], ['K', 'Pa', 'm']
        cats = roles(kind)[1:]
        for order in itertools.permutations(range(3)):
            for flags in itertools.product(('no', 'ok', 'units', 'nounits', 'nodims', 'alias'), repeat=3):
                for cat in cats:
                    inp, out = {}, {}
                    for i in order:
                        n = 'pqr'[i]
                        if flags[i] != 'nodims':
                            inp[n] = {'dims': ['x'], 'units': good[i]}
                        if flags[i] != 'no':
                            out[n] = {'dims': ['x'], 'units': (bad if flags[i] == 'units' else good)[i] + (u if cat == 'main' else '')}
                        if flags[i] == 'nodims':
                            out[n].pop('dims')
                        elif flags[i] == 'nounits':
                            out[n].pop('units')
                        elif flags[i] == 'alias':
                            out[n]['alias'] = 'A'
                    want = not set(flags) & {'units', 'nounits', 'nodims'} and flags.count('alias') < 2
                    st, val = C.outcome(declared(kind, 'class', inp, out if cat == 'main' else {}, out if cat == 'diag' else {}))
                    obs.step()
                    obs.state(['several', kind, order, flags, cat])
                    require((st == 'ok') == want, '{}: inputs {} with {} {}: {} ({!r})', kind, inp, cat, out, 'refused' if want else 'accepted', val)
                    require(st == 'ok' or isinstance(val, InvalidPropertyDictError), '{}: inputs {} with {} {} refused with {!r}', kind, inp, cat, out, val)
                # the inputs alone
                inp = {}
                for i in order:
                    inp['pqr'[i]] = {'dims': ['x'], 'units': good[i]}
                    if flags[i] in ('nodims', 'nounits'):
                        inp['pqr'[i]].pop(flags[i][2:])
                    elif flags[i] == 'alias':
                        inp['pqr'[i]]['alias'] = 'A'
                want = not set(flags) & {'nounits', 'nodims'} and flags.count('alias') < 2
                st, val = C.outcome(declared(kind, 'class', inp, {}, {}))
                require((st == 'ok') == want, '{}: inputs {}: {} ({!r})', kind, inp, 'refused' if want else 'accepted', val)
    elif case['kind'] == 'uninit':
        ran = []

        def noinit(self):
            pass
        for style in STYLES[:2]:
            cls = declared(kind, style, {'p': {'dims': ['x'], 'units': 'm'}}, {}, {})
            call = cls.__dict__['array_call']
            ns = {'__init__': noinit,
                  'array_call': (lambda self, s: ran.append(1) or call(self, s)) if kind in ('tend', 'diag')
                  else (lambda self, s, timestep: ran.append(1) or call(self, s, timestep))}
            for beside in ('nothing', 'parent', 'called parent', 'class'):
                sub = type('Forgetful', (cls,), ns)
                full = {'p': C.da(['x'], [1.], 'm'), 'time': T0}
                if beside != 'nothing':
                    # instances that are initialised properly make no difference
                    parent = (type('Proper', (sub,), {'__init__': lambda self: C.BASES[kind].__init__(self)}) if beside == 'class' else cls)()
                    if beside == 'called parent':
                        C.call(kind, parent, full)
                comp = sub()
                for state in (full, {}):
                    st, val = C.outcome(C.call, kind, comp, state)
                    obs.step()
                    obs.state(['uninit', kind, style, beside, len(state)])
                    require(st == 'err' and not ran, 'a component without base initialisation was called')
                    require(isinstance(val, RuntimeError), 'a component without base initialisation fails with {!r} instead of being refused ({} beside it)', val, beside)
    else:
        for missing in ['input_properties', 'diagnostic_properties'] + ([C.MAIN[kind]] if kind != 'diag' else []):
            cls = declared(kind, 'class', {'p': {'dims': ['x'], 'units': 'm'}}, {}, {})
            ns = {k: v for k, v in cls.__dict__.items() if k in ('input_properties', 'diagnostic_properties', 'array_call', C.MAIN[kind]) and k != missing}
            st, val = C.outcome(type('Absent', (C.BASES[kind],), ns))
            obs.step()
            obs.state(['absent', kind, missing])
            require(st == 'err', '{} without {} accepted', kind, missing)

            def gone(self):
                raise AttributeError(missing)
            ns[missing] = property(gone)
            st, val = C.outcome(type('Gone', (C.BASES[kind],), ns))
            obs.step()
            require(st == 'err' and isinstance(val, InvalidPropertyDictError), '{} whose {} is absent: {!r}', kind, missing, val)
