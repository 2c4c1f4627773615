"""C23: restart files."""
import os
import glob
import pickle
import numpy as np
import netCDF4
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
from aeolis.model import AeoLiSRunner

PROPERTY = 'C23'
RULE = ('Generated complete runs that write restart files with random intervals and limits on the time step; one of the files is used to restart '
        'the run. Non-trivial: at least two steps follow the restart and sediment moves in one of them.')


@st.composite
def cases(draw):
    c = draw(sim.rich(steps=(4, 7), random=False, solvers=('trunk', 'trunk', 'pieter', 'steadystate', 'steadystatepieter'), calm=False,
                        schemes=('euler_backward', 'euler_backward', 'euler_forward', 'crank_nicolson')))
    cfg = c['cfg']
    if cfg['scheme'] == 'euler_forward':
        cfg['dt'] = .05
        cfg['tstop'] = cfg['tstart'] + .05 * cfg['accfac'] * (c['nsteps'] - .5)
    step = cfg['dt'] * cfg['accfac']
    cfg['restart'] = step * draw(st.sampled_from([1., 1., 2., 1.5]))
    cfg['max_bedlevel_change'] = draw(st.sampled_from([999., 999., 1e-4, 1e-5, 1e-6]))
    if cfg['max_bedlevel_change'] != 999.:
        cfg['tstop'] = cfg['tstart'] + step * 3.
        cfg['restart'] = step * draw(st.sampled_from([1., .001, .001]))       # also after shortened steps
        c['files']['wind.txt'] = np.array(c['files']['wind.txt'], dtype=float)
        c['files']['wind.txt'][:, 1] = np.maximum(c['files']['wind.txt'][:, 1], draw(F(8., 20.)))
    cfg['output_times'] = step * draw(st.sampled_from([1., 2.]))
    c['pick'] = draw(st.sampled_from([0, 1, 1, 2, 3, 5]))
    c['elsewhere'] = draw(st.booleans())
    # variables kept at the values of a hotstart file for the whole run
    c['kept'] = {v: draw(grid((c['ny'] + 1, c['nx'] + 1), 0., .3)) for v in draw(st.sampled_from([(), (), ('tau',), ('moist',), ('ustars', 'rhoveg'), ('zs',)]))}
    return c


def states(s):
    return {k: np.array(v, copy=True) for k, v in s.items() if isinstance(v, np.ndarray) and v.dtype.kind in 'fibc' or isinstance(v, (int, float))}


def run(d, c, restart=None, limit=60):
    """(time, states) before every step and at the end"""
    cfg = dict(c['cfg'])
    path = sim.write_setup(d, cfg, c['files'])
    for v, a in c['kept'].items():
        np.savetxt(v + '.hotstart', a, fmt='%.17g')
    hist = []

    def snap(m):
        hist.append((float(m.t), states(m.s), m.get_count('time')))
        if len(hist) > limit:
            m.p['tstop'] = m.t - 1.
    m = AeoLiSRunner(configfile=path)
    m.run(callback=snap, restartfile=restart)
    hist.append((float(m.t), states(m.s), m.get_count('time')))
    return m, hist


def restart(c):
    with tmpdir() as d, quiet():
        limit = 12
        m, hist = run(d, c, limit=limit)
        # files that have to be there
        want, last = [], 0.
        for t, s, _ in hist:
            if t - last >= c['cfg']['restart']:
                want.append(t)
                last = t
        names = {'out.r%010d' % int(t): t for t in want}
        files = sorted(glob.glob('out.r*'))
        check(files == sorted(names), 'restart files %s, expected %s', files, sorted(names))
        if not files:
            return
        # the latest file of each name holds the latest state
        at = {f: max(i for i, h in enumerate(hist) if h[0] == names[f]) for f in files}
        early = [f for f in files if at[f] < len(hist) - 2] or files
        if c['cfg']['max_bedlevel_change'] != 999.:
            early = early[2:] or early
        f = early[c['pick'] % len(early)]
        k = at[f]
        if c['elsewhere']:
            os.makedirs('keep')
            os.rename(f, 'keep/state.pkl')
            f = 'keep/state.pkl'
        for g in glob.glob('out.r*') + ['out.nc']:
            if g != f:
                os.remove(g)
        m2, hist2 = run(d, c, restart=f, limit=limit - k)
        check(hist2[0][0] == hist[k][0], 'restarted run starts at %r instead of %r', hist2[0][0], hist[k][0])
        check(len(hist2) == len(hist) - k, 'restarted run takes %d steps instead of %d', len(hist2) - 1, len(hist) - k - 1)
        moved = False
        for i, (a, b) in enumerate(zip(hist[k:], hist2)):
            check(a[0] == b[0], 'time after %d steps is %r instead of %r', i, b[0], a[0])
            check(a[2] == b[2], 'step counter after %d steps is %r instead of %r', i, b[2], a[2])
            for v in sorted(a[1]):
                check(v in b[1], '%s is missing after a restart', v)
                close(b[1][v], a[1][v], '%s %d steps after the restart' % (v, i), rtol=0., atol=0.)
            moved |= i > 0 and bool(np.any(a[1]['qs'] != 0.))
        with netCDF4.Dataset('out.nc') as nc:
            t = np.array(nc.variables['time'][:])
            check(np.all(np.diff(t) > 0) and np.all(np.isin(np.round(t, 6), np.round([h[0] for h in hist2], 6))), 'times %s in the output file of a restarted run', t)
        c.label('%d steps' % (len(hist2) - 1))
        if moved and 1e-9 < np.abs(np.diff([h[0] for h in hist[max(k - 1, 0):k + 2]])).min() < .99 * m.p['dt'] * m.p['accfac']:
            c.label('shortened steps around the restart')
        c.hit(len(hist2) > 2 and moved)


@st.composite
def missing_cases(draw):
    c = draw(sim.setups(steps=(1, 2), features=False))
    c['kept'] = {}
    c['name'] = draw(st.sampled_from(['none.r1', 'x/y', 'out.r0000000001']))
    return c


def missing(c):
    """a restart file that does not exist is an error, not a fresh start"""
    with tmpdir() as d, quiet():
        try:
            run(d, c, restart=c['name'])
        except IOError:
            c.hit()
            return
        check(False, 'restart from a missing file is ignored')


CHECKS = [Check('restart', cases(), restart, quick=150), Check('missing', missing_cases(), missing, quick=10)]
