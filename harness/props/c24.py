"""C24: hotstart files and text dumps."""
import os
import numpy as np
import netCDF4
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import aeolis.netcdf
import aeolis.constants
from aeolis.model import AeoLiSRunner

PROPERTY = 'C24'
RULE = ('Generated runs started with hotstart files for random state variables, written by hand or dumped from the output of another run. '
        'Non-trivial: a hotstart variable would change during the run without the file.')
DIMS = {v: d for d, names in aeolis.constants.MODEL_STATE.items() for v in names}
NAMES = ['zb', 'Ct', 'mass', 'moist', 'uth', 'zs', 'SWL', 'Cu', 'dzbavg', 'rhoveg', 'thlyr', 'w', 'Ct']


@st.composite
def cases(draw):
    c = draw(sim.setups(steps=(1, 3), shear=False, solvers=('trunk', 'trunk', 'pieter', 'steadystate'), schemes=('euler_backward',)))
    c['vars'] = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=3))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['junk'] = draw(st.booleans())
    c['flat'] = draw(st.booleans())
    return c


def run(d, c, names):
    path = sim.write_setup(d, c['cfg'], c['files'])
    hist = []

    def snap(m):
        hist.append({k: np.array(m.s[k], copy=True) for k in names})
    m = AeoLiSRunner(configfile=path)
    np.random.seed(1)
    m.run(callback=snap)
    snap(m)
    return m, hist


def shape(c, v):
    n = dict(nx=c['nx'] + 1, ny=c['ny'] + 1, nlayers=c['nl'], nfractions=c['nf'])
    return tuple(n[x] for x in DIMS[v])


def value(c, v, r):
    a = r.rand(*shape(c, v))
    if v in ('zb', 'zs', 'SWL'):
        return a - 1.
    if v == 'mass':
        return a / a.sum(-1, keepdims=True) * 1590. * c['cfg']['layer_thickness']
    if v == 'w':
        return a / a.sum(-1, keepdims=True)
    if v in ('Ct', 'Cu', 'moist'):
        return a * 1e-2
    if v == 'thlyr':
        return a * 0. + c['cfg']['layer_thickness']
    return a


def hotstart(c):
    """hotstart files set state variables at the start of a run"""
    names = sorted(set(c['vars']) | {'zb', 'Ct', 'mass'})
    with tmpdir() as d, quiet():
        m0, ref = run(d, c, names)
    with tmpdir() as d, quiet():
        r = np.random.RandomState(c['seed'])
        val = {v: value(c, v, r) for v in c['vars']}
        for v, a in val.items():
            np.savetxt(v + '.hotstart', a.ravel() if c['flat'] else a.reshape((a.shape[0], -1)), fmt='%.17g')
        if c['junk']:
            np.savetxt('nosuchvariable.hotstart', np.zeros(3))
            for v in names:                                     # not the name of a variable with the extension
                for f in '%s.old.hotstart', '%s.hotstart.bak', '%s.hotstart0', 'old_%s.hotstart', '%s_avg.hotstart', '%s.txt', 'hotstart.%s':
                    np.savetxt(f % v, r.rand(m0.s[v].size))
        m, hist = run(d, c, names)
        check(len(hist) == len(ref), 'number of steps')
        for v in c['vars']:
            for k, h in enumerate(hist):
                if v not in KEPT and k:
                    continue
                close(h[v], val[v], '%s after %d steps of a run with a hotstart file' % (v, k), rtol=1e-15, atol=0.)
            c.hit(bool(np.any(ref[-1][v] != ref[0][v])))
        check('nosuchvariable' not in m.s, 'hotstart files of unknown variables are loaded')
        for v in set(names) - set(c['vars']):
            close(hist[0][v], ref[0][v], 'initial %s with hotstart files for %s' % (v, ','.join(c['vars'])), rtol=0., atol=0.)


# variables that the model assigns as a whole (others are changed in place and hence not kept)
KEPT = {'Ct', 'w'}


@st.composite
def dump_cases(draw):
    c = draw(sim.setups(steps=(2, 4), shear=False, tstarts=(0,), solvers=('trunk', 'steadystate'), schemes=('euler_backward',)))
    c['vars'] = draw(st.lists(st.sampled_from(['zb', 'mass', 'Ct', 'moist']), unique=True, min_size=1, max_size=3))
    c['ix'] = draw(st.sampled_from([-1, -1, 0, 1]))
    return c


def dumped(c):
    """a dump of an output record, used as hotstart file, brings back the state of that record"""
    with tmpdir() as d, quiet():
        c['cfg'].update(output_vars=list(c['vars']), output_times=c['cfg']['dt'] * c['cfg']['accfac'])
        c['cfg']['output_types'] = []
        m, hist = run(d, c, c['vars'])
        os.makedirs('next')
        for v in c['vars']:
            aeolis.netcdf.dump('out.nc', 'next/%s.hotstart' % v, var=v, ix=c['ix'])
        os.chdir('next')
        sim.write_setup('.', c['cfg'], c['files'])
        m2, hist2 = run(os.getcwd(), c, c['vars'])
        for v in c['vars']:
            a = hist[c['ix']][v]
            if v == 'Ct':
                a = a / m.p['accfac']
            close(hist2[0][v], a, '%s from the dump of record %d' % (v, c['ix']), rtol=2e-6, atol=1e-6 * np.max(np.abs(a), initial=0.))
        c.hit(c['ix'] != 0 and any(np.any(hist[c['ix']][v] != hist[0][v]) for v in c['vars']))


CHECKS = [Check('hotstart', cases(), hotstart, quick=120), Check('dumped', dump_cases(), dumped, quick=60)]
