"""C09: wind forcing: conventions, interpolation, decomposition, log law, roughness."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import state
import aeolis.wind as wd

PROPERTY = 'C09'
RULE = ('Generated wind series (speeds, directions over the full circle, both conventions), grid orientations, '
        'roughness formulations and query times inside and beyond the series. Non-trivial: a query strictly between '
        'two samples with different wind.')
METHODS = ['constant', 'constant_nikuradse', 'mean_grainsize_initial', 'mean_grainsize_adaptive',
           'median_grainsize_adaptive', 'vanrijn_strypsteen']


@st.composite
def cases(draw, methods=('constant', 'constant', 'constant_nikuradse', 'mean_grainsize_initial')):
    ny = draw(st.sampled_from([0, 0, 2]))
    nx = draw(st.integers(2, 4))
    n = draw(st.integers(2, 6))
    nf = draw(st.integers(1, 4))
    steps = draw(grid((n,), 30., 7200.))
    sp = draw(grid((n,), 0., 30.))
    di = draw(st.lists(st.one_of(F(-180., 540.), st.sampled_from([0., 90., 180., 270., 360., 45.])), min_size=n, max_size=n))
    return dict(ny=ny, nx=nx, nf=nf, t0=draw(st.sampled_from([0., 0., 1000., -500.])), steps=steps, sp=sp, di=np.array(di),
                conv=draw(st.sampled_from(['nautical', 'cartesian'])), alfa=draw(st.sampled_from([0., 0., 30., -45., 120.5])),
                method=draw(st.sampled_from(list(methods))), k=draw(F(1e-4, .05)), z=draw(F(2., 20.)),
                kappa=draw(st.sampled_from([.4, .41])), rhoa=draw(F(1., 1.4)),
                q=draw(F(0., 1., (0., 1.))), seg=draw(st.integers(0, n - 2)), loops=draw(st.integers(-2, 3)),
                d=draw(grid((nf,), 1e-4, 1e-3)), gd=draw(grid((nf,), .1, 1.)), mass=draw(grid((ny + 1, nx + 1, nf), .1, 10.)))


def build(c, flip=False):
    p = state.params(c['nx'], c['ny'], 2, c['nf'], wind_convention=c['conv'], alfa=c['alfa'], method_roughness=c['method'],
                     k=c['k'], z=c['z'], kappa=c['kappa'], rhoa=c['rhoa'], grain_size=np.sort(c['d']) * (1 + np.arange(c['nf']) * .01),
                     grain_dist=c['gd'] / c['gd'].sum())
    s = state.state(p)
    s['mass'][:, :, 0, :] = c['mass']
    s['mass'][:, :, 1, :] = 1.
    t = c['t0'] + np.concatenate([[0.], np.cumsum(c['steps'])[:-1]])
    p['wind_file'] = np.stack([t, c['sp'], c['di']], axis=1)
    return p, s, t


def nautical(c):
    """direction the wind comes from, degrees clockwise from north (with the documented nudge of longshore winds)"""
    d = c['di'].copy()
    if c['conv'] == 'nautical':
        return np.where(d == 0., .01, d)
    return 270. - np.where(d == 270., 270.01, d)


def forcing(c):
    p, s, t = build(c)
    s = wd.initialize(s, p)
    i, q = c['seg'], c['q']
    tq = t[i] + q * (t[i + 1] - t[i])
    period = t[-1] - t[0] + 1.
    te = tq + c['loops'] * period if 1e-6 < q < 1 - 1e-6 else tq
    s = wd.interpolate(s, p, te)
    d = np.deg2rad(nautical(c))
    a, b = c['sp'][i], c['sp'][i + 1]
    speed = a + (b - a) * q
    sn = np.sin(d[i]) + (np.sin(d[i + 1]) - np.sin(d[i])) * q
    cs = np.cos(d[i]) + (np.cos(d[i + 1]) - np.cos(d[i])) * q
    tol = 1e-7
    close(s['uw'], speed, 'wind speed', rtol=tol, atol=1e-8)
    if np.hypot(sn, cs) < 1e-3:
        return                                      # opposite directions: undefined in between
    ang = np.arctan2(sn, cs)
    atol = 1e-6 / np.hypot(sn, cs)
    dd = np.deg2rad(s['udir']) - ang
    check(np.all(np.abs(np.angle(np.exp(1j * dd))) < 10 * atol), 'wind direction: got %r, expected %r', float(s['udir'].flat[0]),
          float(np.rad2deg(ang)))
    al = np.deg2rad(c['alfa'])
    uws, uwn = -speed * np.sin(ang - al), -speed * np.cos(ang - al)
    close(s['uws'], uws, 'wind in s-direction', rtol=1e-7, atol=40 * atol)
    close(s['uwn'], uwn, 'wind in n-direction', rtol=1e-7, atol=40 * atol)
    close(np.hypot(s['uws'], s['uwn']), s['uw'], 'wind components versus wind speed', rtol=1e-9, atol=1e-12)
    z0 = {'constant': c['k'], 'constant_nikuradse': c['k'] / 30.,
          'mean_grainsize_initial': float(np.sum(p['grain_size'] * p['grain_dist'])) / 30.}[c['method']]
    f = c['kappa'] / np.log(c['z'] / z0)
    close(s['ustar'], speed * f, 'shear velocity (log law)', rtol=1e-6, atol=1e-9)
    close(s['ustars'], s['uws'] * f, 'shear velocity in s-direction', rtol=1e-8, atol=1e-12)
    close(s['ustarn'], s['uwn'] * f, 'shear velocity in n-direction', rtol=1e-8, atol=1e-12)
    close(s['tau'], c['rhoa'] * (speed * f) ** 2, 'shear stress', rtol=1e-6, atol=1e-9)
    close(s['taus'], c['rhoa'] * s['ustar'] * s['ustars'], 'shear stress in s-direction', rtol=1e-8, atol=1e-12)
    close(s['taun'], c['rhoa'] * s['ustar'] * s['ustarn'], 'shear stress in n-direction', rtol=1e-8, atol=1e-12)
    for k in ('ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun'):
        close(s[k + '0'], s[k], 'undisturbed %s' % k, rtol=0, atol=0)
        check(s[k + '0'] is not s[k] and not np.shares_memory(s[k + '0'], s[k]), '%s shares memory with its undisturbed value', k)
    c.label(c['conv'])
    if c['loops'] and 0 < q < 1:
        c.label('beyond the series')
    c.hit(0 < q < 1 and (a != b or d[i] != d[i + 1]))


def conventions(c):
    """the same wind in both conventions gives the same forcing"""
    c['conv'] = 'nautical'
    p1, s1, t = build(c)
    c['conv'] = 'cartesian'
    p2, s2, _ = build(c)
    p2['wind_file'][:, 2] = 270. - p1['wind_file'][:, 2]
    special = np.any(np.abs(p1['wind_file'][:, 2]) < 1e-6)
    s1, s2 = wd.initialize(s1, p1), wd.initialize(s2, p2)
    tq = t[c['seg']] + c['q'] * (t[c['seg'] + 1] - t[c['seg']])
    s1, s2 = wd.interpolate(s1, p1, tq), wd.interpolate(s2, p2, tq)
    i, q = c['seg'], c['q']
    d = np.deg2rad(p1['wind_file'][:, 2])
    r = np.hypot(np.sin(d[i]) * (1 - q) + np.sin(d[i + 1]) * q, np.cos(d[i]) * (1 - q) + np.cos(d[i + 1]) * q)
    if r < 1e-3:
        return
    for k in ('uw', 'uws', 'uwn', 'ustars', 'ustarn', 'taus', 'taun'):
        close(s2[k], s1[k], '%s in cartesian versus nautical convention' % k, rtol=1e-6, atol=(.05 if special else 1e-6) / r)
    c.hit(c['sp'][i] > 0)


def turned_grid(c):
    """turning grid and wind together does not change what the grid sees"""
    p1, s1, t = build(c)
    p2, s2, _ = build(c)
    turn = 73.25
    sgn = 1 if c['conv'] == 'nautical' else -1
    p2['alfa'] = p1['alfa'] + turn
    p2['wind_file'][:, 2] += sgn * turn
    special = any(np.any(np.abs(p['wind_file'][:, 2] - v) < 1e-6) for p in (p1, p2) for v in (0., 270.))
    s1, s2 = wd.initialize(s1, p1), wd.initialize(s2, p2)
    tq = t[c['seg']]
    s1, s2 = wd.interpolate(s1, p1, tq), wd.interpolate(s2, p2, tq)
    for k in ('uw', 'uws', 'uwn', 'ustars', 'ustarn'):
        close(s2[k], s1[k], '%s on a turned grid' % k, rtol=1e-7, atol=.05 if special else 1e-6)
    c.hit(c['sp'][c['seg']] > 0)


def percentile(mass, d, pc):
    """grain size at a percentage of the cumulative mass, linear from zero"""
    x = np.concatenate([[0.], np.cumsum(mass)])
    x = 100. * x / x[-1]
    return float(np.interp(pc, x, np.concatenate([[0.], d])))


def roughness(c):
    p, s, t = build(c)
    s['uw'][:] = c['sp'][0] + 1.
    z0 = wd.calculate_z0(p, s)
    d, m = p['grain_size'], s['mass'][:, :, 0, :]
    me = c['method']
    J, K = c['ny'] + 1, c['nx'] + 1
    ref = np.zeros((J, K))
    for j in range(J):
        for k in range(K):
            if me == 'constant':
                r = c['k']
            elif me == 'constant_nikuradse':
                r = c['k'] / 30.
            elif me == 'mean_grainsize_initial':
                r = np.sum(d * p['grain_dist']) / 30.
            elif me == 'mean_grainsize_adaptive':
                r = np.sum(d * m[j, k]) / m[j, k].sum() / 30.
            elif me == 'median_grainsize_adaptive':
                r = 2 * percentile(m[j, k], d, 50) / 30.
            else:
                if c['nf'] == 1:
                    d50, d90 = d[0], 2 * d[0]
                else:
                    d50, d90 = percentile(m[j, k], d, 50), percentile(m[j, k], d, 90)
                ug = p['kappa'] * s['uw'][j, k] / np.log(30 * p['z'] / d90)
                ub2 = .01 * (p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d50
                T = (ug ** 2 - ub2) / ub2
                r = (d90 + 15 * (T + 1) * d50) / 30.          # (1 + 1/T) T = T + 1
            ref[j, k] = r
    close(np.broadcast_to(np.asarray(z0), ref.shape), ref, 'roughness height (%s)' % me, rtol=1e-6, atol=1e-12)
    if me in ('mean_grainsize_adaptive', 'median_grainsize_adaptive', 'vanrijn_strypsteen'):
        p['wind_file'][:, 1] = s['uw'][0, 0]
        s = wd.initialize(s, p)
        s['uw'][:] = c['sp'][0] + 1.
        s = wd.interpolate(s, p, t[0])
        if me != 'vanrijn_strypsteen' or c['nf'] == 1:
            close(s['ustar'], s['uw'] * p['kappa'] / np.log(p['z'] / ref), 'shear velocity (log law)', rtol=1e-6, atol=1e-9)
    c.label(me)
    c.hit(c['nf'] > 1 or me.startswith('constant'))


def external(c):
    """without wind process, an externally given wind is decomposed and never altered"""
    p, s, t = build(c)
    s = wd.initialize(s, p)
    p['process_wind'] = False
    s['uw'][:] = c['sp'][0]
    s['udir'][:] = c['di'][0]
    s = wd.interpolate(s, p, t[1])
    close(s['uw'], c['sp'][0], 'wind speed', rtol=1e-12)
    a = np.deg2rad(c['di'][0] - c['alfa'])
    close(s['uws'], -c['sp'][0] * np.sin(a), 'wind in s-direction', rtol=1e-9, atol=1e-9)
    close(s['uwn'], -c['sp'][0] * np.cos(a), 'wind in n-direction', rtol=1e-9, atol=1e-9)
    c.hit(c['sp'][0] > 0)


CHECKS = [Check('forcing', cases(), forcing, quick=1200),
          Check('conventions', cases(), conventions, quick=300),
          Check('turned_grid', cases(), turned_grid, quick=300),
          Check('roughness', cases(METHODS), roughness, quick=600),
          Check('external', cases(), external, quick=100)]
