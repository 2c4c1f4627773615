"""C14: groundwater under beach transects."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import state
import aeolis.hydro as hy

PROPERTY = 'C14'
RULE = ('Generated beach profiles, tides, waves, aquifer parameters, time steps and initial levels over several time steps, '
        'both landward boundaries, with and without seepage faces and runup; entirely dry and flooded transects included. '
        'Non-trivial: groundwater below a dry cell changes by more than 1 mm.')


@st.composite
def cases(draw):
    ny = draw(st.sampled_from([0, 0, 2, 3]))
    nx = draw(st.integers(7, 14))
    slope = draw(st.one_of(st.just(.3), F(.1, .6)))
    x = np.arange(nx + 1)
    off = np.array([draw(F(-3., -.5)) if k == 0 else 0. for k in range(ny + 1)])
    off = off[0] + np.array([0.] + [draw(st.sampled_from([0., .4, -.6])) for _ in range(ny)])
    zb = off[:, None] + slope * x[None, :] + draw(grid((ny + 1, nx + 1), 0., draw(st.sampled_from([.05, .3]))))
    nt = draw(st.integers(2, 4))
    tide = np.column_stack([np.arange(nt) * draw(F(300., 3000.)), np.array([draw(F(-2., 3.)) for _ in range(nt)])])
    waves = draw(st.sampled_from([False, True, True]))
    return dict(ny=ny, nx=nx, zb=zb, tide=tide, waves=waves, Hs=draw(F(.1, 3.)), Tp=draw(F(3., 12.)),
                dx=draw(st.sampled_from([1., 2., 5.])), dt=draw(st.sampled_from([60., 60., 7., 25., 300., 12.5])),
                tfac=draw(st.sampled_from([10, 10, 3, 30])), K=draw(F(1e-5, 7e-4)), D=draw(F(2., 12.)), ne=draw(F(.25, .45)),
                Cl=draw(F(0., 1.)), bound=draw(st.sampled_from(['no_flow', 'static', 'NO_FLOW'])), stat=draw(F(-1., 2.)),
                seep=draw(st.booleans()), in_gw=draw(F(-1., 1.)), steps=draw(st.integers(1, 3)), t0=draw(st.sampled_from([0., 0., 120.])),
                mask=draw(st.sampled_from([0, 0, 0, 1])), m=draw(grid((ny + 1, nx + 1), 0., 1.)))


def build(c):
    p = state.params(c['nx'], c['ny'], 2, 1, process_tide=True, process_wave=c['waves'], process_runup=c['waves'],
                     process_groundwater=True, process_seepage_face=c['seep'], tide_file=c['tide'].copy(),
                     wave_file=np.array([[0., c['Hs'], c['Tp']], [9000., c['Hs'], c['Tp']]]) if c['waves'] else None,
                     tfac_gw=c['tfac'], K_gw=c['K'], D_gw=c['D'], ne_gw=c['ne'], Cl_gw=c['Cl'], boundary_gw=c['bound'],
                     GW_stat=c['stat'], in_gw=c['in_gw'], tstart=c['t0'], process_moist=False)
    s = state.state(p)
    s['zb'] = c['zb'].copy()
    s['x'][:] = np.arange(c['nx'] + 1)[None, :] * c['dx']
    s['ds'][:] = c['dx']
    if c['mask']:
        s['gw_mask'] = np.where(c['m'] > .9, 0. + .5j, 1. + 0j)
    return p, s


def stable(c):
    return c['K'] / c['ne'] * (c['D'] + 8.) * c['dt'] / c['tfac'] / c['dx'] ** 2 < .25


def shoreline(z, lv):
    n = len(z)
    for i in range(n):
        if z[i] > lv[i]:
            return max(i - 1, 1)
    return n - 1


def rate(g, c, z, dswl, shl):
    """applies the boundary conditions to g (in place), returns its rate of change"""
    n = len(g)
    g[shl] = dswl[shl]
    g[shl - 1] = dswl[shl - 1]
    g[-3:] = g[-4] if c['bound'].lower() == 'no_flow' else c['stat']
    if c['seep']:
        low = [i for i in range(n) if not g[i] + .05 >= z[i]]
        first = low[0] if low else 0
        for i in range(shl, first - 1):
            g[i] = z[i]
    d = np.zeros(n)
    for i in range(shl + 1, n - 3):
        dx = c['dx']
        a = (g[i + 1] - 2 * g[i] + g[i - 1]) / dx ** 2
        b = [g[k] * (g[k + 1] - g[k - 1]) / dx for k in (i - 1, i + 1)]
        d[i] = c['K'] / c['ne'] * (c['D'] * a + (b[1] - b[0]) / dx)
    return d


def ref_step(c, p, s, gw, t):
    """s only supplies the water levels"""
    n = c['tfac']
    h = c['dt'] / n
    zb = s['zb']
    for k in range(n):
        hy.interpolate(s, p, t + k * h)
        new = np.zeros(gw.shape)
        for j in range(c['ny'] + 1):
            z, ds = zb[j], s['DSWL'][j]
            shl = shoreline(z, ds)
            ru = max(shl, shoreline(z, s['TWL'][j]))
            g = gw[j].copy()
            k1 = rate(g, c, z, ds, shl)
            k2 = rate(g + h / 2 * k1, c, z, ds, shl)
            k3 = rate(g + h / 2 * k2, c, z, ds, shl)
            k4 = rate(g + h * k3, c, z, ds, shl)
            g = g + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            if c['waves'] and ru > shl:
                x = np.arange(c['nx'] + 1) * c['dx']
                L = x[ru] - x[shl]
                pk = int(shl + 2 / 3 * (ru - shl))
                f = np.zeros(len(g))
                for i in range(shl, ru):
                    if i == pk:
                        f[i] = 1.
                    elif i < pk:
                        f[i] = (x[i] - x[shl]) / (2 / 3 * L)
                    else:
                        f[i] = 3 - (x[i] - x[shl]) / (1 / 3 * L)
                g = g + c['Cl'] * f
            new[j] = g
        if c['mask']:
            new = new * s['gw_mask'].real + s['gw_mask'].imag
        new = np.minimum(new, zb)
        gw = np.where(zb < s['DSWL'], s['DSWL'], new)
    return gw


def reference(c):
    if not stable(c):
        c.label('unstable')
        return
    p, s = build(c)
    _, r = build(c)
    gw = np.full(c['zb'].shape, c['in_gw'])
    t = c['t0']
    prev = gw
    for k in range(c['steps']):
        hy.interpolate(s, p, t)
        wet = gw > prev if k else np.zeros(gw.shape, bool)
        s = hy.update(s, p, c['dt'], t)
        prev = gw
        gw = ref_step(c, p, r, gw, t)
        t += c['dt']
        close(s['gw'], gw, 'groundwater level after step %d' % k, rtol=0, atol=1e-8)
        close(s['gw_prev'], prev, 'groundwater level of the previous step', rtol=0, atol=1e-8)
        if not np.any(np.abs(gw - prev)[:] < 1e-7) or k == 0:
            check(np.array_equal(np.asarray(s['wetting'], bool), wet), 'wetting of the previous step')
        # what holds regardless of the reference
        if not c['mask']:
            check(np.all(s['gw'] <= np.maximum(s['zb'], s['DSWL']) + 1e-9), 'groundwater above the bed')
        sub = s['zb'] < s['DSWL']
        close(s['gw'][sub], s['DSWL'][sub], 'groundwater below water', rtol=0, atol=1e-9)
    dry = s['zb'] > s['DSWL'] + .1
    c.label('flooded' if not dry.any() else 'dry' if np.all(s['zb'] > s['DSWL']) else 'beach')
    c.hit(np.any(np.abs(gw - c['in_gw'])[dry] > 1e-3))


def relations(c):
    """rows do not interact; still water is an equilibrium; levels stay within those imposed"""
    c['mask'] = 0
    if not stable(c):
        return
    p, s = build(c)
    t = c['t0']
    lo, hi = min(c['in_gw'], c['tide'][:, 1].min()), max(c['in_gw'], c['tide'][:, 1].max())
    if c['bound'].lower() == 'static':
        lo, hi = min(lo, c['stat']), max(hi, c['stat'])
    for k in range(c['steps']):
        hy.interpolate(s, p, t)
        s = hy.update(s, p, c['dt'], t)
        t += c['dt']
    for j in range(c['ny'] + 1):
        c1 = dict(c, ny=0, zb=c['zb'][j:j + 1])
        p1, s1 = build(c1)
        t = c['t0']
        for k in range(c['steps']):
            hy.interpolate(s1, p1, t)
            s1 = hy.update(s1, p1, c['dt'], t)
            t += c['dt']
        close(s['gw'][j], s1['gw'][0], 'groundwater in row %d of a grid versus the transect alone' % j, rtol=0, atol=1e-9)
    if not c['waves'] and not c['seep']:
        tol = .1 * (hi - lo) + 1e-6                 # the documented wide stencil is not strictly monotonic
        check(s['gw'].max() <= hi + tol, 'groundwater %g higher than any level imposed (%g)', s['gw'].max(), hi)
        # the bed may push the groundwater down
        check(s['gw'].min() >= min(lo, c['zb'].min()) - tol, 'groundwater %g lower than any level imposed (%g)', s['gw'].min(), lo)
    c2 = dict(c, waves=False, bound='no_flow', tide=np.array([[0., c['in_gw']], [9000., c['in_gw']]]))
    p2, s2 = build(c2)
    s2['zb'] = np.where(np.maximum.accumulate(s2['zb'] > c['in_gw'], axis=1), np.maximum(s2['zb'], c['in_gw'] + .2), s2['zb'])
    s2['zb'][:, :2] = np.minimum(s2['zb'][:, :2], c['in_gw'] - .1)
    t = c['t0']
    for k in range(c['steps']):
        hy.interpolate(s2, p2, t)
        s2 = hy.update(s2, p2, c['dt'], t)
        t += c['dt']
    close(s2['gw'], c['in_gw'], 'groundwater at rest', rtol=0, atol=1e-9)
    c.hit(c['ny'] > 0)


CHECKS = [Check('reference', cases(), reference, quick=300),
          Check('relations', cases(), relations, quick=200)]
