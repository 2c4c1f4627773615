"""C21: the output file holds the model states at the output times."""
import os
import numpy as np
import netCDF4
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import aeolis.constants
import aeolis.netcdf

PROPERTY = 'C21'
RULE = ('Generated complete runs with random output variables, statistics, intervals, time steps, start times and acceleration; every state of the '
        'run is recorded from outside and compared with the file. Non-trivial: at least three records, not all steps are records or several variables.')
DIMS = {v: d for d, names in aeolis.constants.MODEL_STATE.items() for v in names}
NAMES = sorted(v for v in DIMS if v not in ('zne', 'x', 'y'))         # coordinates are always in the file
UNITS = dict(zb='m', zs='m', Hs='m', Tp='s', uw='m/s', ustar='m/s', uth='m/s', tau='N/m^2', taus='N/m^2', Ct='kg/m^2', Cu='kg/m^2', mass='kg/m^2', pickup='kg/m^2', qs='kg/m/s', thlyr='m', w='1', w_bed='1')
STATS = ['avg', 'sum', 'min', 'max', 'var']


@st.composite
def cases(draw, stats=False):
    c = draw(sim.setups(steps=(3, 8) if stats else (1, 7), calm=not stats, shear=False, rotated=True, tstarts=(0, 0, 3600, 100000), solvers=('trunk', 'pieter', 'steadystate'), schemes=('euler_backward', 'euler_backward', 'euler_forward')))
    cfg = c['cfg']
    if cfg['scheme'] == 'euler_forward':
        cfg['dt'] = .05
        cfg['tstop'] = cfg['tstart'] + .05 * cfg['accfac'] * (c['nsteps'] - .5)
    step = cfg['dt'] * cfg['accfac']
    cfg['output_times'] = step * draw(st.sampled_from([1., 2., 2., 2.5, 3.] if stats else [1., 1., .5, 2., 2.5, 3., 100.]))
    vars_ = draw(st.lists(st.sampled_from(NAMES + ['zb', 'Ct', 'mass', 'q', 'w_bed', 'taus_u', 'moist_swr', 'pickup']), unique=True, min_size=1, max_size=6))
    names = []
    for v in vars_:
        ext = draw(st.sampled_from(['', ''] + (['_' + s for s in STATS] * 2 if stats else [])))
        names.append(v + ext)
        if ext and draw(st.booleans()):
            names.append(v)
        if ext and draw(st.integers(0, 2)) == 0:
            names.append(v + draw(st.sampled_from(['_' + s for s in STATS])))
    names = list(dict.fromkeys(names))
    cfg['output_vars'] = names
    cfg['output_types'] = draw(st.lists(st.sampled_from(STATS), unique=True, max_size=2)) if stats else []
    cfg['output_file'] = draw(st.sampled_from(['out.nc', 'sub/res.nc', None]))
    cfg['refdate'] = draw(st.sampled_from(['2020-01-01 00:00', '2013-05-04']))
    c['vars'] = vars_
    return c


def scaled(m, v, a):
    return a / m.p['accfac'] if v in ('Ct', 'Cu') else a


def records(m, hist, c, t):
    """indices of recorded states; the file counts its first interval from zero, so it may skip the initial state of late starts"""
    cfg = c['cfg']
    if cfg['tstart'] > 0 and cfg['tstart'] < cfg['output_times'] and (len(t) == 0 or t[0] != hist[0][0]):
        out, last = [], 0.
        for k, (tt, _) in enumerate(hist):
            if tt - last >= cfg['output_times']:
                out.append(k)
                last = tt
        return out
    return sim.record_steps(hist, cfg['tstart'], cfg['output_times'])


def states(c):
    with tmpdir() as d, quiet():
        os.makedirs('sub')
        m, hist = sim.record_run(d, c, sorted(set(c['vars']) | {'q', 'qs', 'qn'}))
        fname = c['cfg']['output_file'] or 'aeolis.nc'
        check(os.path.exists(fname), 'no output file %s', fname)
        with netCDF4.Dataset(fname) as nc:
            t = np.array(nc.variables['time'][:])
            ix = records(m, hist, c, t)
            want = np.array([hist[k][0] for k in ix])
            close(t, want, 'times in the output file', rtol=1e-12)
            for dim, n in (('s', c['nx'] + 1), ('n', c['ny'] + 1), ('layers', c['nl']), ('fractions', c['nf']), ('time', len(ix))):
                check(len(nc.dimensions[dim]) == n, 'dimension %s is %d', dim, len(nc.dimensions[dim]))
            close(nc.variables['x'][:], np.atleast_2d(c['files']['x.grd']), 'x in the output file', rtol=1e-6, atol=1e-5)
            close(nc.variables['y'][:], np.atleast_2d(c['files']['y.grd']) * (c['ny'] > 0), 'y in the output file', rtol=1e-6, atol=1e-5)
            close(nc.variables['fractions'][:], np.atleast_1d(c['cfg']['grain_size']), 'fractions in the output file', rtol=1e-6)
            for k, n in (('s', c['nx'] + 1), ('n', c['ny'] + 1), ('layers', c['nl'])):
                close(nc.variables[k][:], np.arange(n), '%s in the output file' % k, rtol=0, atol=0)
            for v in c['vars']:
                if v in c['cfg']['output_vars']:
                    check(v not in UNITS or getattr(nc.variables[v], 'units', None) == UNITS[v], 'unit of %s is %r', v, getattr(nc.variables[v], 'units', None))
            check(nc.variables['time'].units == 'seconds since %s' % c['cfg']['refdate'], 'unit of time is %r', nc.variables['time'].units)
            b = np.array(nc.variables['time_bounds'][:])
            close(b[:, 1], want, 'end of time bounds', rtol=1e-6)
            close(b[1:, 0], want[:-1], 'start of time bounds', rtol=1e-6)
            size = dict(nx=c['nx'] + 1, ny=c['ny'] + 1, nlayers=c['nl'], nfractions=c['nf'])
            sh = {v: tuple(size[x] for x in DIMS[v]) for v in c['vars']}
            for v in c['vars']:
                if v not in c['cfg']['output_vars']:
                    continue
                a = np.ma.filled(nc.variables[v][:], np.nan)
                check(a.shape == (len(ix),) + sh[v], 'shape of %s in the output file is %s', v, a.shape)
                check(nc.variables[v].dimensions == ('time',) + tuple({'nx': 's', 'ny': 'n'}.get(x, x[1:]) for x in DIMS[v]), 'dimensions of %s are %s', v, nc.variables[v].dimensions)
                for j, k in enumerate(ix):
                    w = np.asarray(scaled(m, v, hist[k][1][v]), dtype=float)
                    close(a[j], w, '%s in record %d (time %g)' % (v, j, t[j]), rtol=1e-6, atol=1e-7 * (1e-30 + np.max(np.abs(w[np.isfinite(w)]), initial=0.)))
            for t1, h in hist[1:]:
                close(h['q'], np.hypot(h['qs'], h['qn']), 'total flux at %s s' % t1, rtol=1e-9)
            extra = set(nc.variables) & set(DIMS) - set(c['vars']) - {'x', 'y'}
            check(not extra, 'variables %s are written without request', sorted(extra))
        c.label('%d records' % min(len(ix), 4))
        c.hit(len(ix) > 2 and (len(ix) < len(hist) or len(c['vars']) > 1))


@st.composite
def raw_cases(draw):
    n = draw(st.integers(1, 6))
    dims = dict(nx=draw(st.integers(0, 5)), ny=draw(st.integers(0, 4)), nlayers=draw(st.integers(1, 4)), nfractions=draw(st.integers(1, 4)))
    return dict(n=n, dims=dims, vars=draw(st.lists(st.sampled_from(['zb', 'Ct', 'mass', 'thlyr', 'taus_u']), unique=True, min_size=1)),
                exts=[draw(st.sampled_from([None, 'avg', 'max'])) for _ in range(5)], seed=draw(st.integers(0, 10 ** 6)),
                t=sorted(draw(st.lists(F(0., 1e6), min_size=n, max_size=n, unique=True))), ix=draw(st.integers(0, 5)))


def raw(c):
    """writing, appending and dumping grids of any shape"""
    with tmpdir() as d, quiet():
        r = np.random.RandomState(c['seed'])
        p = dict(c['dims'], refdate='2020-01-01', grain_size=np.linspace(1e-4, 1e-3, c['dims']['nfractions']))
        sh = {v: tuple(p[k] + (k in ('nx', 'ny')) for k in DIMS[v]) for v in c['vars'] + ['x', 'y']}
        s = {v: r.rand(*sh[v]) for v in sh}
        out = {v: [e] for v, e in zip(c['vars'], c['exts'])}
        aeolis.netcdf.initialize('o.nc', out, s, p, DIMS)
        names = {v: v if e is None else '%s_%s' % (v, e) for v, e in zip(c['vars'], c['exts'])}
        hist = []
        for t in c['t']:
            rec = {names[v]: r.randn(*sh[v]) for v in c['vars']}
            hist.append(rec)
            aeolis.netcdf.append('o.nc', dict(rec, time=t))
        with netCDF4.Dataset('o.nc') as nc:
            close(nc.variables['time'][:], c['t'], 'times')
            for j, rec in enumerate(hist):
                for k, a in rec.items():
                    close(nc.variables[k][j], a, '%s in record %d' % (k, j), rtol=1e-6)
        i = c['ix'] % c['n']
        for i in (i, -1):
            for v in c['vars']:
                aeolis.netcdf.dump('o.nc', 'dump.txt', var=names[v], ix=i)
                a = np.loadtxt('dump.txt').reshape(sh[v])
                close(a, hist[i][names[v]], 'dump of %s' % v, rtol=1e-6)
        c.hit(c['n'] > 1)


CHECKS = [Check('states', cases(), states, quick=150), Check('raw', raw_cases(), raw, quick=120)]
