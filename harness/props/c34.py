"""C34: callback functions."""
import os
import numpy as np
import netCDF4
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
from aeolis.model import AeoLiSRunner

PROPERTY = 'C34'
RULE = ('Generated runs with callback functions that do nothing, observe or change variables and parameters at generated steps, given as function, as text or in the '
        'configuration file, compared with the same run stepped by hand. Non-trivial: the callback changes something that changes the result.')
SOURCE = '''
import json
LOG = %r
CHANGES = %r


def %s(model):
    with open(LOG, 'a') as fp:
        fp.write('%%r\\n' %% (float(model.t),))
    n = sum(1 for line in open(LOG)) - 1
    for k, var, value in CHANGES:
        if k == n:
            if var in model.s:
                model.set_var(var, model.get_var(var, clear=False) + value)
            else:
                model.set_params(**{var: value})


def other(model):
    raise RuntimeError('wrong function called')
'''


@st.composite
def cases(draw):
    c = draw(sim.setups(steps=(2, 5), shear=False, calm=False, solvers=('trunk', 'pieter', 'steadystate'), schemes=('euler_backward',)))
    c['changes'] = draw(st.lists(st.tuples(st.integers(0, 4), st.sampled_from(['zb', 'zb', 'SWL', 'T', 'Cb', 'output_times']), st.sampled_from([.1, .5, 2.])), max_size=3))
    c['changes'] = [(k, v, x if v != 'output_times' else x * 100.) for k, v, x in c['changes']]
    c['how'] = draw(st.sampled_from(['function', 'text', 'config', 'config', 'both', 'absolute']))
    c['func'] = draw(st.sampled_from(['update', 'callback', 'f_1']))
    return c


def values(m):
    return {k: np.array(v, copy=True) for k, v in m.s.items() if isinstance(v, np.ndarray) and v.dtype.kind in 'fib'}


def callback(c):
    log = []

    def func(m):
        n = len(log)
        log.append((float(m.t), m.get_count('time'), values(m)))
        for k, var, value in c['changes']:
            if k == n:
                if var in m.s:
                    m.set_var(var, m.get_var(var, clear=False) + value)
                else:
                    m.set_params(**{var: value})
    # by hand
    with tmpdir() as d, quiet():
        m = sim.start(d, c, runner=True)
        ref = []
        while m.t <= m.p['tstop']:
            func(m)
            m.update()
            ref.append(values(m))
        want, log = log, []
        end = values(m)
        t = m.t
    with tmpdir() as d, quiet():
        m = sim.start(d, c)
        for k in range(len(ref)):
            m.update()
        plain = values(m)
    with tmpdir() as d, quiet():
        cfg = dict(c['cfg'])
        with open('cb.py', 'w') as fp:
            fp.write(SOURCE % (os.path.join(d, 'log.txt'), c['changes'], c['func']))
        with open('wrong.py', 'w') as fp:
            fp.write(SOURCE % (os.path.join(d, 'wrong.txt'), [], 'f'))
        arg = None
        how = c['how']
        text = 'cb.py:%s' % c['func']
        if how == 'function':
            arg = func
        elif how == 'text':
            arg = text
        elif how == 'absolute':
            arg = os.path.join(d, 'cb.py') + ':' + c['func']
        else:
            cfg['callback'] = text
        if how == 'both':
            cfg['callback'], arg = 'wrong.py:f', text
        path = sim.write_setup(d, cfg, c['files'])
        m = AeoLiSRunner(configfile=path)
        m.run(callback=arg)
        if how == 'function':
            times = [x[0] for x in log]
            for a, b in zip(want, log):
                check(a[1] == b[1], 'callback of step %d called after %d steps', a[1], b[1])
                for k in a[2]:
                    close(b[2][k], a[2][k], '%s seen by the callback before step %d' % (k, a[1]), rtol=0., atol=0.)
        else:
            check(os.path.exists('log.txt'), 'callback is not called')
            with open('log.txt') as fp:
                times = [float(x) for x in fp]
            check(not os.path.exists('wrong.txt'), 'callback of the configuration file is called instead of the given one')
        close(times, [x[0] for x in want], 'times of callbacks', rtol=1e-12)
        check(m.t == t, 'final time')
        got = values(m)
        for k in end:
            close(got[k], end[k], '%s after a run with callback' % k, rtol=0., atol=0.)
    c.label(how)
    c.hit(any(np.any(end[k] != plain[k]) for k in ('zb', 'Ct', 'mass')) or not c['changes'])


@st.composite
def parse_cases(draw):
    return dict(kind=draw(st.sampled_from(['none', 'function', 'lambda', 'object', 'method', 'missing file', 'number', 'ok', 'dir', 'colon'])),
                name=draw(st.from_regex(r'[a-z][a-z0-9_]{0,7}', fullmatch=True)), func=draw(st.from_regex(r'f[a-z0-9_]{0,7}', fullmatch=True)), val=draw(st.integers()))


class Obj:
    def __call__(self, m):
        return 'object'

    def method(self, m):
        return 'method'


def parse(c):
    """callback definitions are turned into the functions they name, or refused"""
    with tmpdir() as d, quiet():
        m = AeoLiSRunner(configfile=sim.write_setup(d, *sim.base()))
        k = c['kind']
        if k == 'none':
            check(m.parse_callback(None) is None, 'None as callback')
        elif k == 'number':
            check(m.parse_callback(c['val']) is None, 'number as callback')
        elif k in ('function', 'lambda', 'object', 'method'):
            f = {'function': parse, 'lambda': lambda x: c['val'], 'object': Obj(), 'method': Obj().method}[k]
            check(m.parse_callback(f) == f, 'callable as callback')
        elif k in ('missing file', 'colon'):
            try:
                m.parse_callback(c['name'] + '.py:' + c['func'])
            except IOError:
                pass
            else:
                check(False, 'callback from a missing file is accepted')
        else:
            fname = c['name'] + '.py'
            if k == 'dir':
                os.makedirs('sub')
                fname = 'sub/' + fname
            with open(fname, 'w') as fp:
                fp.write('X = %d\ndef %s(m):\n    return (X, m)\n' % (c['val'], c['func']))
            f = m.parse_callback(fname + ':' + c['func'])
            check(callable(f) and f(7) == (c['val'], 7), 'function from a file')
            f2 = m.parse_callback(fname + ':' + 'g' + c['func'])
            check(f2 is None, 'callback to a missing function')
        c.label(k)
        c.hit(k in ('ok', 'dir', 'missing file', 'colon'))


CHECKS = [Check('callback', cases(), callback, quick=120), Check('parse', parse_cases(), parse, quick=200)]
