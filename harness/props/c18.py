"""C18: immutable state variables."""
import pickle
import copy
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
from aeolis.model import ModelState

PROPERTY = 'C18'
RULE = ('Generated sequences of assignments, updates, (un)freezing and copies on a model state, compared with a reference dictionary, and models '
        'with a frozen variable. Non-trivial: a frozen variable is assigned afterwards / other variables change while one is frozen.')
KEYS = ['zb', 'Ct', 'a', 'b', 'c']


@st.composite
def cases(draw):
    key = st.sampled_from(KEYS)
    op = st.one_of(st.tuples(st.just('set'), key, st.integers(0, 99)), st.tuples(st.just('set'), key, st.integers(0, 99)),
                   st.tuples(st.just('update'), st.dictionaries(key, st.integers(100, 199), max_size=4)),
                   st.tuples(st.just('kwargs'), st.dictionaries(key, st.integers(200, 299), max_size=4)),
                   st.tuples(st.just('pairs'), st.lists(st.tuples(key, st.integers(300, 399)), max_size=4)),
                   st.tuples(st.just('freeze'), key), st.tuples(st.just('freeze'), key), st.tuples(st.just('thaw'), key),
                   st.tuples(st.just('pickle')))
    return dict(init=draw(st.dictionaries(key, st.integers(0, 9), max_size=5)), how=draw(st.sampled_from(['dict', 'kwargs', 'none'])),
                ops=draw(st.lists(op, min_size=1, max_size=25)))


def states(c):
    ref = dict(c['init'])
    if c['how'] == 'dict':
        s = ModelState(c['init'])
    elif c['how'] == 'kwargs':
        s = ModelState(**c['init'])
    else:
        s = ModelState()
        for k, v in c['init'].items():
            s[k] = v
    frozen = set()
    tried = False

    def put(k, v):
        nonlocal tried
        if k in frozen:
            tried = True
        else:
            ref[k] = v
    for op in c['ops']:
        if op[0] == 'set':
            s[op[1]] = op[2]
            put(op[1], op[2])
        elif op[0] == 'update':
            s.update(op[1])
            [put(k, v) for k, v in op[1].items()]
        elif op[0] == 'kwargs':
            s.update(**op[1])
            [put(k, v) for k, v in op[1].items()]
        elif op[0] == 'pairs':
            s.update(op[1])
            [put(k, v) for k, v in op[1]]
        elif op[0] == 'freeze' and op[1] in ref:
            s.set_immutable(op[1])
            frozen.add(op[1])
        elif op[0] == 'thaw' and op[1] in ref:
            s.set_mutable(op[1])
            frozen.discard(op[1])
        elif op[0] == 'pickle':
            s = pickle.loads(pickle.dumps(s))
            check(isinstance(s, ModelState), 'restored state is no model state')
        check(dict(s) == ref, 'state is %r, expected %r after %r (frozen: %r)', dict(s), ref, op, sorted(frozen))
        check(len(s) == len(ref) and set(s.keys()) == set(ref), 'variables of the state')
    c.hit(tried)


@st.composite
def model_cases(draw):
    c = draw(sim.setups(shear=False, calm=False, solvers=('trunk', 'pieter', 'steadystate')))
    c['var'] = draw(st.sampled_from(['Ct', 'uth', 'Cu', 'zs', 'Hs', 'tau', 'w', 'qs', 'u']))
    c['late'] = draw(st.booleans())
    return c


def frozen_model(c):
    """a frozen variable keeps its value during the time steps, whatever they compute"""
    v = c['var']
    with tmpdir() as d, quiet():
        m = sim.start(d, c)
        if c['late']:
            m.update()
        a = m.s[v].copy() + .125
        m.set_var(v, a.copy())
        m.s.set_immutable(v)
        m.set_var(v, a * 0.)
        close(m.s[v], a, 'frozen %s after writing to it' % v, atol=0)
        u = m.s['uw'].copy()
        for k in range(c['nsteps']):
            if v in ('Ct', 'w', 'tau'):                      # always assigned as a whole
                m.update()
                close(m.s[v], a, 'frozen %s after a time step' % v, atol=0)
            else:
                m.s.update({v: a * 2., 'S': m.s['S'] + 1.})
                close(m.s[v], a, 'frozen %s after updating the state' % v, atol=0)
        m.s.set_mutable(v)
        m.set_var(v, a * 3.)
        close(m.s[v], a * 3., 'thawed %s' % v, atol=0)
        c.label(v)
        c.hit()


CHECKS = [Check('states', cases(), states, quick=1500), Check('frozen_model', model_cases(), frozen_model, quick=120)]
