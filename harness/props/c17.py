"""C17: access to model variables (Basic Model Interface)."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import aeolis.constants

PROPERTY = 'C17'
RULE = ('Generated set-ups and sequences of reads, writes (by name and by index), queries and time steps on the model and its runner, compared with '
        'a dictionary as reference. Non-trivial: a written grid is read again after other operations.')

GRIDS = sorted(v for names in aeolis.constants.MODEL_STATE.values() for v in names)
DIMS = {v: d for d, names in aeolis.constants.MODEL_STATE.items() for v in names}
SETTABLE = ['zb', 'Ct', 'mass', 'uth', 'moist', 'Cu', 'pickup']
PARAMS = [('tstop', 7200.), ('T', 2.), ('scheme', 'euler_forward'), ('bi', .5), ('grain_size', [1., 2.]), ('callback', None), ('process_tide', True), ('max_iter', 3)]


@st.composite
def cases(draw):
    c = draw(sim.setups(steps=(1, 1), shear=False, solvers=('trunk',), schemes=('euler_backward',)))
    c['runner'] = draw(st.booleans())
    op = st.one_of(st.tuples(st.just('set'), st.sampled_from(SETTABLE), st.integers(0, 10 ** 6)),
                   st.tuples(st.just('idx'), st.integers(0, len(GRIDS) - 1), st.integers(0, 10 ** 6)),
                   st.tuples(st.just('get'), st.sampled_from(SETTABLE)),
                   st.tuples(st.just('get'), st.sampled_from(SETTABLE)),
                   st.tuples(st.just('param'), st.integers(0, len(PARAMS) - 1)),
                   st.tuples(st.just('query'), st.sampled_from(GRIDS + ['nothing', 'tstop', '', 'threshold_mask'])),
                   st.tuples(st.just('unknown'), st.sampled_from(['nothing', 'zb2', 'Zb', '']), st.integers(0, 9)),
                   st.tuples(st.just('step')))
    c['ops'] = draw(st.lists(op, min_size=8, max_size=30))
    return c


def access(c):
    with tmpdir() as d, quiet():
        m = sim.start(d, c, runner=c['runner'])
        n = m.get_var_count()
        names = [m.get_var_name(i) for i in range(n)]
        check(names == sorted(names) and len(set(names)) == n, 'names of variables are not in alphabetical order or not unique')
        check(set(GRIDS) <= set(names), 'spatial grids are missing: %s', sorted(set(GRIDS) - set(names)))
        check(m.get_var_name(n) == -1 and m.get_var_name(n + 5) == -1, 'name of a variable beyond the last one')
        dims = dict(nx=c['nx'] + 1, ny=c['ny'] + 1, nlayers=c['nl'], nfractions=c['nf'])
        for v in names:
            check(m.get_var_type(v) == 'double', 'type of %s', v)
            a = np.asarray(m.get_var(v) if not isinstance(m.get_var(v), dict) else 0.)
            check(m.get_var_rank(v) == a.ndim and m.get_var_shape(v) == a.shape, 'rank or shape of %s', v)
            if v in DIMS:
                check(a.shape == tuple(dims[k] for k in DIMS[v]), 'shape of %s is %s', v, a.shape)
                check(m.dimensions(v) == DIMS[v], 'dimensions of %s', v)
        ref, par = {}, {}
        again = False
        age = {}
        acc = m.p['accfac']

        def verify(v):
            want = ref[v] / acc if v in ('Ct', 'Cu') else ref[v]
            close(m.get_var(v), want, 'value of %s' % v, rtol=1e-12, atol=0)

        for k, op in enumerate(c['ops']):
            if op[0] in ('set', 'idx'):
                v = op[1] if op[0] == 'set' else names[names.index(GRIDS[op[1]])]
                if v in ('x', 'y', 'ds', 'dn', 'dsdn', 'dsdni', 'zne'):
                    continue
                a = np.random.RandomState(op[2]).rand(*[dims[x] for x in DIMS[v]])
                if op[0] == 'set':
                    m.set_var(v, a.copy())
                else:
                    m.set_var_index(names.index(v), a.copy())
                ref[v], age[v] = a, k
            elif op[0] == 'get':
                if op[1] in ref:
                    verify(op[1])
                    again = again or age[op[1]] < k - 1
            elif op[0] == 'param':
                key, val = PARAMS[op[1]]
                m.set_var(key, val)
                par[key] = val
            elif op[0] == 'query':
                v = op[1]
                known = v in names
                if not known:
                    check(m.get_var_rank(v) == -1 and m.get_var_shape(v) == -1 and m.get_var_type(v) == -1, 'properties of unknown grid %s', v)
                else:
                    check(m.get_var_rank(v) == len(m.get_var_shape(v)), 'rank of %s', v)
            elif op[0] == 'unknown':
                before = m.get_var_count()
                m.set_var(op[1], op[2])
                m.set_var_index(n + op[2], op[2])
                check(m.get_var(op[1]) is None and m.get_var_count() == before, 'unknown variable %r was created', op[1])
            elif op[0] == 'step':
                if par or ref:
                    continue
                m.update()
                n = m.get_var_count()
                names = [m.get_var_name(i) for i in range(n)]
                check(names == sorted(names), 'names of variables are not in alphabetical order')
        for v in ref:
            verify(v)
        for k, v in par.items():
            got = m.get_var(k)
            check(type(got) is type(v) and got == v, 'parameter %s is %r instead of %r', k, got, v)
        close(m.get_var('x'), np.atleast_2d(c['files']['x.grd']), 'x-coordinates')
        c.label('runner' if c['runner'] else 'model')
        c.hit(again)


@st.composite
def effect_cases(draw):
    c = draw(sim.setups(steps=(1, 1), shear=False, solvers=('trunk', 'pieter'), features=False, ny=(0, 2)))
    c['runner'] = draw(st.booleans())
    c['what'] = draw(st.sampled_from(['zb', 'tstop', 'moist', 'mass', 'wind_file', 'Ct']))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    return c


def effect(c):
    """a variable that is set between time steps is used by the next one, as if it were there from the start"""
    with tmpdir() as d, quiet():
        r = np.random.RandomState(c['seed'])
        cfg = dict(c['cfg'])
        cfg.update(process_moist=True, th_moisture=True)
        v = c['what']
        m = sim.start(d, dict(c, cfg=cfg), runner=c['runner'])
        ref = sim.start(d, dict(c, cfg=cfg))
        if v == 'zb':
            a = m.get_var('zb') + r.rand(*m.get_var('zb').shape)
            m.set_var('zb', a.copy())
            ref.s['zb'][:] = a
        elif v in ('moist', 'mass', 'Ct'):
            a = m.s[v] * 0 + r.rand(*m.s[v].shape) * (.02 if v == 'moist' else 1.)
            m.set_var(v, a.copy())
            ref.s[v][...] = a
        elif v == 'tstop':
            m.set_var('tstop', 1e6)
            check(m.get_end_time() == 1e6, 'end time is not set')
        elif v == 'wind_file':
            w = np.array([[0., 12., 270.], [1e7, 12., 270.]])
            m.set_var('wind_file', w)
            ref.p['wind_file'] = w
        m.update()
        ref.update()
        for k in ('zb', 'mass', 'Ct', 'pickup', 'uth', 'moist', 'uw'):
            close(m.s[k], ref.s[k], '%s after setting %s' % (k, v), rtol=1e-10, atol=1e-14)
        if v == 'zb':
            close(m.s['zb'], a, 'bed level that was set', atol=.1)
        c.hit(v != 'tstop')


CHECKS = [Check('access', cases(), access, quick=250), Check('effect', effect_cases(), effect, quick=120)]
