"""Closing the system: small components, made to order, around the real base classes."""
import copy
from datetime import timedelta
import numpy as np
import sympl
from sympl import (
    TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent, Stepper, DataArray)

BASES = {'tend': TendencyComponent, 'impl': ImplicitTendencyComponent,
         'diag': DiagnosticComponent, 'step': Stepper}
KINDS = ('tend', 'impl', 'diag', 'step')
MAIN = {'tend': 'tendency_properties', 'impl': 'tendency_properties',
        'step': 'output_properties', 'diag': 'diagnostic_properties'}
DT = timedelta(seconds=10)


def snap(raw):
    return {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in raw.items()}


def make_class(kind, inputs, main=None, diags=None, fn=None, attrs=None, name='Comp'):
    """A component class of the given kind.

    fn(raw, dt) -> (main dict, diagnostics dict); for 'diag' the main dict is
    merged in the diagnostics.
    """
    ns = {'input_properties': copy.deepcopy(inputs)}
    if kind == 'diag':
        d = copy.deepcopy(main or {})
        d.update(copy.deepcopy(diags or {}))
        ns['diagnostic_properties'] = d
    else:
        ns[MAIN[kind]] = copy.deepcopy(main or {})
        ns['diagnostic_properties'] = copy.deepcopy(diags or {})

    def record(self, raw, dt):
        if not hasattr(self, 'seen'):
            self.seen = []
            self.raw = []
            self.dts = []
        self.seen.append(snap(raw))
        self.dts.append(dt)
        return (fn or (lambda raw, dt: ({}, {})))(raw, dt)

    if kind == 'tend':
        def array_call(self, state):
            return record(self, state, None)
    elif kind == 'impl':
        def array_call(self, state, timestep):
            return record(self, state, timestep)
    elif kind == 'step':
        def array_call(self, state, timestep):
            m, d = record(self, state, timestep)
            return d, m
    else:
        def array_call(self, state):
            m, d = record(self, state, None)
            out = dict(m)
            out.update(d)
            return out
    ns['array_call'] = array_call
    ns.update(attrs or {})
    return type(name, (BASES[kind],), ns)


def make(kind, inputs, main=None, diags=None, fn=None, attrs=None, name='Comp', **kw):
    return make_class(kind, inputs, main, diags, fn, attrs, name)(**kw)


def call(kind, comp, state, dt=DT):
    """-> (main, diagnostics); for 'diag' main is the diagnostics."""
    if kind == 'tend':
        return comp(state)
    if kind == 'impl':
        return comp(state, dt)
    if kind == 'step':
        d, m = comp(state, dt)
        return m, d
    d = comp(state)
    return d, d


def calls(comp):
    return getattr(comp, 'seen', [])


def da(dims, data, units=None, **attrs):
    a = dict(attrs)
    if units is not None:
        a['units'] = units
    return DataArray(data, dims=list(dims), attrs=a)


def refill(old, new):
    """Makes old, a state used before, hold the contents of new, in the same objects wherever possible."""
    for k in [k for k in old if k not in new]:
        del old[k]
    for k, v in new.items():
        o = old.get(k)
        if isinstance(o, DataArray) and isinstance(v, DataArray) and o.dims == v.dims and o.shape == v.shape and o.dtype == v.dtype:
            o.values[...] = v.values
            o.attrs.clear()
            o.attrs.update(v.attrs)
        else:
            old[k] = v
    return old


def outcome(fn, *args, **kw):
    """('ok', value) or ('err', exception)."""
    try:
        return 'ok', fn(*args, **kw)
    except Exception as err:  # noqa
        return 'err', err
