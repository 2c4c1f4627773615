"""C36: dune erosion by high water."""
import math
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import state
import aeolis.erosion

PROPERTY = 'C36'
RULE = ('Generated dune profiles, water level and wave series, runup and set-up per row, dune toe levels, slopes and erosion coefficients; '
        'directly and in complete runs. Non-trivial: the high water reaches above the dune toe and removes sediment in some row.')


def series(t, ts, v):
    """linear in time; repeats one second after the last record"""
    r = ts[-1] - ts[0]
    t = ts[0] + (t - ts[-1] - 1.) % (r + 1.)
    return float(np.interp(t, ts, v))


def reference(x, zb, p, R, eta, sig, wl, Tp, dt):
    """eroded profile of one row and whether the number of eroded cells is unambiguous"""
    out = zb.copy()
    toe = p['dune_toe_elevation']
    twl = 1.26 * R + wl
    if not twl > toe or sig <= 0:
        return out, abs(twl - toe) > 1e-9
    dx = [abs(b - a) for a, b in zip(x[:-1], x[1:])]
    d = [abs(z - toe) for z in zb]
    i0 = d.index(min(d))
    traj = [min(zb[i], .54 * p['beach_slope'] * (x[i] - x[i0]) + toe) for i in range(i0, len(zb))]
    chance = 1. - .5 * (1. + math.erf((toe - (eta + wl)) / (sig * math.sqrt(2.))))
    vol = 4. * p['Cs'] * (twl - toe) ** 2 * chance * dt / Tp
    best, n, v = None, 0, 0.
    gaps = []
    for k in range(len(traj)):
        v += dx[i0 + k - 1] * (zb[i0 + k] - traj[k]) if k else 0.
        gap = abs(v - vol)
        gaps.append(gap)
        if best is None or gap < best:
            best, n = gap, k
    for k in range(n):
        out[i0 + k] = traj[k]
    sure = all(abs(g - best) > 1e-9 * (1 + vol) for k, g in enumerate(gaps) if k != n and (k < n or abs(traj[k] - zb[i0 + k]) > 0)) \
        and (sorted(d)[1] - sorted(d)[0] > 1e-9)
    return out, sure


@st.composite
def profiles(draw, rows=None):
    ny = draw(st.sampled_from([0, 0, 2, 3])) if rows is None else rows
    nx = draw(st.integers(6, 30))
    dx = draw(st.sampled_from([1., .5, 2., 5.]))
    x = np.arange(nx + 1) * dx
    if not ny and draw(st.booleans()):
        # transects may have cells of different sizes
        x = np.concatenate([[0.], np.cumsum(dx * draw(st.one_of(grid((nx,), .3, 3.), F(.9, 1.1).map(lambda r: r ** np.arange(nx)))))])
    toe = draw(F(1., 4.))
    zb = []
    for j in range(ny + 1):
        x1 = draw(F(.1, .6)) * x[-1]
        h = draw(F(.3, 8.))
        z = np.where(x < x1, toe - draw(F(.01, .1)) * (x1 - x), toe + np.minimum(draw(F(.1, 1.)) * (x - x1), h))
        zb.append(z + draw(grid((nx + 1,), 0., draw(st.sampled_from([0., .05, .3])))))
    n = draw(st.integers(2, 4))
    t = np.cumsum([0.] + [draw(F(100., 4000.)) for _ in range(n - 1)])
    tide = np.column_stack([t, [toe + draw(F(-2., 1.5)) for _ in t]])
    wave = np.column_stack([t, [draw(F(.1, 5.)) for _ in t], [draw(F(2., 15.)) for _ in t]])
    return dict(ny=ny, nx=nx, dx=dx, x=x, zb=np.array(zb), tide=tide, wave=wave, toe=toe, slope=draw(F(.01, .2)), Cs=draw(st.sampled_from([1e-3, 1e-4, 1e-2, .1])),
                dt=draw(st.sampled_from([60., 600., 3600.])), t=draw(F(0., 1.)) * t[-1] * draw(st.sampled_from([1., 1., 3.])),
                R=draw(grid((ny + 1,), 0., 3.)), eta=draw(grid((ny + 1,), 0., 1.)), sig=draw(grid((ny + 1,), 0., 1.)), x0=draw(st.sampled_from([0., 500.])))


def run(c, rows=None, **over):
    q = dict(c)
    q.update(over)
    p = state.params(c['nx'], c['ny'] if rows is None else len(rows) - 1, 2, 1, dune_toe_elevation=c['toe'], beach_slope=c['slope'], Cs=q['Cs'], dt_opt=q['dt'],
                     tide_file=c['tide'].copy(), wave_file=c['wave'].copy(), process_dune_erosion=True, process_tide=True, process_wave=True, process_runup=True)
    s = state.state(p)
    j = np.arange(c['ny'] + 1) if rows is None else np.array(rows)
    s['x'][:] = c['x0'] + c['x']
    s['ds'][:, 1:] = np.diff(c['x'])
    s['ds'][:, 0] = s['ds'][:, 1]
    s['dsdn'] = s['ds'] * s['dn']
    s['dsdni'] = 1. / s['dsdn']
    s['zb'] = c['zb'][j].copy()
    for k, v in (('R', 'R'), ('eta', 'eta'), ('sigma_s', 'sig')):
        s[k][:] = q[v][j][:, None]
    others = {k: np.array(v, copy=True) for k, v in s.items() if isinstance(v, np.ndarray) and k != 'zb'}
    s = aeolis.erosion.run_ph12(s, p, c['t'])
    for k, v in others.items():
        close(s[k], v, '%s changed by dune erosion' % k, rtol=0, atol=0)
    return s['zb'], p


def erosion(c):
    zb, p = run(c)
    z0 = c['zb']
    x = c['x0'] + c['x']
    finite(zb, 'bed level')
    check(np.all(zb <= z0), 'bed raised by dune erosion')
    wl, Tp = series(c['t'], c['tide'][:, 0], c['tide'][:, 1]), series(c['t'], c['wave'][:, 0], c['wave'][:, 2])
    for j in range(c['ny'] + 1):
        twl = 1.26 * c['R'][j] + wl
        toe = np.argmin(np.abs(z0[j] - c['toe']))
        close(zb[j, :toe], z0[j, :toe], 'bed seaward of the dune toe', rtol=0, atol=0)
        if twl < c['toe'] - 1e-9 or c['sig'][j] == 0:
            close(zb[j], z0[j], 'bed while the water does not reach the dune', rtol=0, atol=0)
            continue
        traj = c['toe'] + .54 * c['slope'] * (x - x[toe])
        low = zb[j] < z0[j]
        close(zb[j][low], traj[low], 'eroded bed versus the trajectory of the toe', rtol=1e-9, atol=1e-9)
        want, sure = reference(x, z0[j], p, c['R'][j], c['eta'][j], c['sig'][j], wl, Tp, c['dt'])
        if sure:
            close(zb[j], want, 'eroded profile', rtol=1e-9, atol=1e-9)
    # rows do not influence each other
    for j in range(c['ny'] + 1):
        one, _ = run(c, [j])
        close(one[0], zb[j], 'row %d on its own' % j, rtol=0, atol=0)
    # more collisions or a weaker dune never erode less
    for k, v in (('Cs', 2.5), ('dt', 3.)):
        more, _ = run(c, **{k: c[k] * v})
        check(np.all(more <= zb + 1e-12), 'less erosion with larger %s', k)
    none, _ = run(c, Cs=0.)
    close(none, z0, 'bed with an erosion coefficient of zero', rtol=0, atol=0)
    c.hit(np.any(zb < z0))


@st.composite
def models(draw):
    c = draw(profiles())
    c['angle'] = draw(st.sampled_from([0., 0., 30., 90., 200.])) if c['ny'] else 0.
    c['steps'] = draw(st.integers(1, 3))
    c['mask'] = draw(st.booleans())
    c['wind'] = draw(st.sampled_from([0., 0., 5.]))
    c['calm'] = draw(st.integers(0, 4)) == 0
    c['runup'] = draw(st.integers(0, 4)) > 0
    c['on'] = draw(st.integers(0, 5)) > 0
    return c


def model(c):
    nx, ny = c['nx'], c['ny']
    X, Y = np.meshgrid(c['x'], np.arange(ny + 1) * 3.)
    a = np.radians(c['angle'])
    wave = c['wave'].copy()
    if c['calm']:
        wave[:, 1] = 0.
    cfg, files = sim.base(nx=nx, ny=ny, dt=c['dt'], tstop=1e6, zb=c['zb'] if ny else c['zb'][0], wind=np.array([[0., c['wind'], 270. - c['angle']], [1e6, c['wind'], 270. - c['angle']]]),
                          process_tide=True, process_wave=True, process_runup=c['runup'], tide_file='tide.txt', wave_file='wave.txt', process_dune_erosion=c['on'],
                          dune_toe_elevation=c['toe'], beach_slope=c['slope'], Cs=c['Cs'], process_threshold=True, boundary_lateral='circular')
    files.update({'tide.txt': c['tide'], 'wave.txt': wave})
    if ny:
        files['x.grd'], files['y.grd'] = X * np.cos(a) - Y * np.sin(a), X * np.sin(a) + Y * np.cos(a)
    else:
        files['x.grd'] = X[0]
    if c['mask']:
        v = np.repeat(1. + c['eta'][:, None], nx + 1, 1)
        files['runup_mask.txt'] = v if ny else v[0]
        cfg['runup_mask'] = 'runup_mask.txt'
    hit = False
    with tmpdir() as d, quiet():
        m = sim.model(d, cfg, files)
        p = m.p
        for k in range(c['steps']):
            zb, t = m.s['zb'].copy(), m.t
            m.update()
            s = m.s
            dz = 0. if not c['wind'] else -s['pickup'].sum(-1) / (p['rhog'] * (1 - p['porosity']))
            zb = zb + dz
            finite(s['zb'], 'bed level')
            wl, Tp = series(t, c['tide'][:, 0], c['tide'][:, 1]), series(t, wave[:, 0], wave[:, 2])
            for j in range(ny + 1):
                if not c['on']:
                    want, sure = zb[j], True
                else:
                    want, sure = reference(c['x'], zb[j], p, s['R'][j, 0], s['eta'][j, 0], s['sigma_s'][j, 0], wl, Tp, m.dt)
                if sure:
                    close(s['zb'][j], want, 'bed level in step %d' % (k + 1), rtol=1e-9, atol=1e-9)
                hit = hit or np.any(want < zb[j])
            if c['calm'] or not c['runup']:
                close(s['zb'], zb, 'bed level without waves', rtol=1e-9, atol=1e-12)
    c.hit(hit)


CHECKS = [Check('erosion', profiles(), erosion, quick=400), Check('model', models(), model, quick=120)]
