"""C35: plot monitors hand every stored state to the plot function, on a clear figure of their own, and show what it drew."""
import itertools
from datetime import datetime, timedelta
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.text import Text
import numpy as np
import sympl
from mc.core import require
from mc import lab as L, comp as C

LEVEL = 'model_checking'
RULE = ('All sequences of up to three (thorough: four) stores over two monitors of every choice of modes x five behaviours of the plot function (draws axes, '
        'draws text, draws nothing, alters its state and figure, raises); states of several kinds of entries. At each call of a plot function and '
        'after each store: the number of calls, the figure and what is on it, the state it got, the shows, the caller\'s data.')
SCENARIOS = ['plot']
ASSUMPTIONS = ['The figures are rendered with the Agg backend and showing is recorded, not performed.']
T0 = datetime(2000, 1, 1)
BEHAVE = ('axes', 'text', 'nothing', 'vandal', 'raise')


class Drawing(Exception):
    pass


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for modes in itertools.product((True, False), repeat=2):
        for default in ((False, True) if modes[0] else (False,)):
            for first in itertools.product((0, 1), BEHAVE, (0, 1), BEHAVE):
                yield {'modes': modes, 'default': default, 'first': first, 'n': n}


def state(k):
    st = {'time': T0 + timedelta(hours=k),
          'a': C.da(['x', 'y'], L.values_for([2, 3], 10. * k), 'K'),
          'b': C.da([], np.array(3. + k), 'm'), 'n': 7, 's': 'text'}
    st['a'].attrs['note'] = ['kept']
    st['i'] = C.da(['y'], np.arange(3) + k, 'm')
    st['h'] = C.da(['x'], np.arange(2, dtype='f4') + k, '')
    st['f'] = C.da(['x'], np.array([True, False]), '')
    st['l'] = C.da(['y', 'x'], np.asfortranarray(L.values_for([3, 2], 1. * k)), 'K').assign_coords(x=[1., 2.], lon=('x', np.array([5., 6.])))
    if k % 2:
        st['c'] = C.da(['x'], L.values_for([0], 1.), 's')
        st['t2'] = timedelta(seconds=k)
    return st


def content(fig):
    return [a for a in fig.get_children() if a is not fig.patch]


class Seen(Text):
    """Text on a figure which knows how often it was rendered."""
    drawn = 0

    def draw(self, renderer, *args, **kwargs):
        self.drawn += 1
        return super(Seen, self).draw(renderer, *args, **kwargs)


def run(case, obs):
    ops = list(itertools.product((0, 1), BEHAVE))
    f = case['first']
    first = [(f[0], f[1]), (f[2], f[3])]
    real_show = plt.show
    shows = []
    plt.show = lambda *a, **k: shows.append(list(plt.get_fignums()))
    try:
        for rest in itertools.product(ops, repeat=case['n'] - 2):
            try:
                sequence(case, first + list(rest), shows, obs)
            finally:
                plt.close('all')
    finally:
        plt.show = real_show


def sequence(case, ops, shows, obs):
    calls = []
    now = {}
    del shows[:]

    def function(who):
        def plot(fig, state):
            calls.append((who, fig, content(fig), L.fingerprint(state), len(shows)))
            now['fig'] = fig
            now['state'] = state
            what = now['what']
            now['mark'] = None
            if what in ('axes', 'vandal'):
                ax = fig.add_subplot(1, 1, 1)
                ax.plot([0, 1], [0, 1])
                ax.set_axis_off()
            if what in ('text', 'vandal', 'axes'):
                now['mark'] = Seen(0.5, 0.5, 'x')
                fig.add_artist(now['mark'])
            if what == 'vandal':
                for n in 'aihl':
                    state[n].values[:] = -1
                state['f'].values[:] = False
                state['l'].coords['lon'].values[:] = -1
                state['i'].attrs.clear()
                state['a'].attrs['units'] = 'vandal'
                state['a'].attrs['note'].append('gone')
                state['b'].values[...] = -1
                state['extra'] = 1
                state.pop('time')
            if what == 'raise':
                fig.add_subplot(2, 1, 1)
                now['error'] = Drawing('no')
                raise now['error']
            return 'ignored'
        return plot

    mons = []
    for i, m in enumerate(case['modes']):
        mons.append(sympl.PlotFunctionMonitor(function(i)) if m and case['default'] else sympl.PlotFunctionMonitor(function(i), interactive=m))
        require(plt.isinteractive() is bool(m), 'interactive plotting is {} with interactive={}', plt.isinteractive(), m)
        require(bool(mons[-1].interactive) is bool(m), 'interactive is {} instead of {}', mons[-1].interactive, m)
        require(not calls and not shows, 'plotted or shown when made')
    figs = {}
    used = []
    del shows[:]
    for k, (i, what) in enumerate(ops):
        st = state(k)
        before = L.fingerprint(st)
        now.clear()
        now['what'] = what
        ncall, nshow = len(calls), len(shows)
        res, got = C.outcome(mons[i].store, st)
        obs.step()
        obs.state([case['modes'], case['default'], ops[:k + 1]])
        where = 'store {} of {} with interactive={}'.format(k, ops, case['modes'])
        require(len(calls) == ncall + 1, '{}: {} calls of plot functions', where, len(calls) - ncall)
        who, fig, found, seen, shown = calls[-1]
        require(who == i, '{}: the plot function of the other monitor was called', where)
        require(not found, '{}: the figure was not clear: {}', where, found)
        require(seen == before, '{}: the plot function got another state', where)
        require(shown == nshow, '{}: shown before it was drawn', where)
        require(L.fingerprint(st) == before, '{}: the state of the caller was altered', where)
        if what == 'raise':
            require(res == 'err' and got is now['error'], '{}: the failure of the plot function became {!r}', where, got)
        else:
            require(res == 'ok', '{}: {!r}', where, got)
        if case['modes'][i]:
            require(figs.setdefault(i, fig) is fig, '{}: not on the figure of the monitor', where)
            require(all(figs[j] is not fig for j in figs if j != i), '{}: on the figure of the other monitor', where)
            require(len(shows) == nshow, '{}: shown although interactive', where)
            require(plt.fignum_exists(fig.number), '{}: the figure is gone', where)
        else:
            require(all(fig is not g for g in used), '{}: not on a figure of its own', where)
            if what != 'raise':
                require(len(shows) == nshow + 1, '{}: shown {} times', where, len(shows) - nshow)
                require(fig.number in shows[-1], '{}: its figure was not among those shown', where)
        if fig not in used:
            used.append(fig)
        if what != 'raise':
            mark = now['mark']
            if mark is not None:
                require(mark in fig.get_children(), '{}: what was drawn is gone', where)
                require(mark.drawn, '{}: the figure was not rendered', where)
            require(bool(content(fig)) == (what != 'nothing'), '{}: {} on the figure', where, content(fig))
        obs.outcome([case['modes'][i], what, len(plt.get_fignums())])
