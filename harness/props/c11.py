"""C11: avalanching."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import state
import aeolis.avalanching as av

PROPERTY = 'C11'
RULE = ('Generated beds (rough, ridges, plateaus with equal neighbours) on 1D and 2D grids with and without a non-erodible '
        'layer and varying angles of repose. Non-trivial: the bed is steeper than the static angle of repose somewhere and '
        'the avalanche changes the bed.')


@st.composite
def cases(draw, rough=True):
    ny = draw(st.sampled_from([0, 0, 2, 3, 5, 8]))
    nx = draw(st.integers(3, 12))
    sh = (ny + 1, nx + 1)
    dyn = draw(st.one_of(st.just(33.), F(5., 50.)))
    return dict(ny=ny, nx=nx, dyn=dyn, stat=dyn + draw(st.one_of(st.just(1.), F(0., 15.))), off=draw(st.booleans()),
                dx=draw(st.sampled_from([1., 1., 2., 5., .5])), dy=draw(st.sampled_from([1., 1., 2., 5.])),
                z=draw(grid(sh, 0., 1.)), amp=draw(F(1., 8.)), level=draw(F(-10., 10., (0.,))),
                levels=draw(st.sampled_from([0, 0, 2, 3])),          # plateaus
                ne=draw(st.sampled_from([0, 0, 1, 2])), zne=draw(grid(sh, 0., 1.)),
                it=draw(st.sampled_from([1000, 1000, 1, 2, 10, 0])), interior=draw(st.booleans()))


def build(c):
    p = state.params(c['nx'], c['ny'], 2, 1, theta_dyn=c['dyn'], theta_stat=min(c['stat'], 80.),
                     process_avalanche=not c['off'], max_iter_ava=c['it'])
    s = state.state(p)
    z = c['z']
    if c['levels']:
        z = np.round(z * c['levels']) / c['levels']
    z = z * c['amp']
    if c['interior']:                       # flat margin of two cells
        m = np.zeros(z.shape, bool)
        if c['ny']:
            m[2:-2, 2:-2] = True
        else:
            m[:, 2:-2] = True
        z = np.where(m, z, 0.)
    s['zb'] = z + c['level']
    s['ds'][:], s['dn'][:] = c['dx'], c['dy']
    if c['ne'] == 0:
        s['zne'][:] = np.nan                # no ne_file
    elif c['ne'] == 1:
        s['zne'] = s['zb'] - c['zne'] * c['amp']
    else:
        s['zne'] = np.full(z.shape, s['zb'].min() - 100.)
    return p, s


def grads(z, dx, dy):
    """drop towards the lowest neighbour along every axis, per cell; zero at the edges"""
    ny, nx = z.shape
    rx, ry = np.zeros(z.shape), np.zeros(z.shape)
    for j in range(ny):
        for i in range(nx):
            if i in (0, nx - 1) or (ny > 1 and j in (0, ny - 1)):
                continue
            rx[j, i] = max(0., z[j, i] - min(z[j, i - 1], z[j, i + 1])) / dx
            if ny > 1:
                ry[j, i] = max(0., z[j, i] - min(z[j - 1, i], z[j + 1, i])) / dy
    return rx, ry


def step(z, zne, dx, dy, tdyn):
    rx, ry = grads(z, dx, dy)
    g = np.hypot(rx, ry)
    if g.max() < tdyn:
        return None
    dz = np.zeros(z.shape)
    ny, nx = z.shape
    for j in range(ny):
        for i in range(nx):
            if g[j, i] == 0:
                continue
            room = (z[j, i] - zne[j, i]) / dx if np.isfinite(zne[j, i]) else np.inf
            f = 0.
            if g[j, i] > tdyn and room > 0:
                f = np.tanh(g[j, i]) - np.tanh(.9 * tdyn)
            if room < g[j, i] - tdyn:
                f = np.tanh(room)
            f = max(0., min(f, room))          # never from below the non-erodible layer
            for r, a, b in ((rx, (j, i - 1), (j, i + 1)), (ry, (j - 1, i), (j + 1, i))):
                q = .2 * f * r[j, i] / g[j, i]
                if q == 0:
                    continue
                dz[j, i] -= q
                to = [a, b] if z[a] == z[b] else [a] if z[a] < z[b] else [b]
                for t in to:
                    edge = t[1] in (0, nx - 1) or (ny > 1 and t[0] in (0, ny - 1))
                    if not edge:
                        dz[t] += q / len(to)
    return z + dz


def run(p, s):
    s = av.angele_of_repose(s, p)
    return av.avalanche(s, p)


def reference(c):
    """iteration by iteration, against a cell-by-cell redistribution"""
    c['it'] = min(c['it'], 3)
    p, s = build(c)
    z = s['zb'].copy()
    zne = s['zne'].copy()
    tdyn, tstat = np.tan(np.deg2rad(c['dyn'])), np.tan(np.deg2rad(p['theta_stat']))
    # ties between drops make single steps discontinuous: nudge free of them is not needed, exact arithmetic is shared
    s = run(p, s)
    g = np.hypot(*grads(z, c['dx'], c['dy']))
    moves = not c['off'] and g.max() > tstat
    if abs(g.max() - tstat) < 1e-9:
        return
    ref = z.copy()
    near = False
    if moves:
        for i in range(c['it']):
            gg = np.hypot(*grads(ref, c['dx'], c['dy']))
            near = near or abs(gg.max() - tdyn) < 1e-9 or np.any(np.abs(gg - tdyn) < 1e-9)
            if c['ne'] == 1:
                room = (ref - zne) / c['dx']
                near = near or np.any(np.abs(room - gg + tdyn) < 1e-9) or (i > 0 and np.any((np.abs(room) < 1e-9) & (gg > 0)))
            n = step(ref, zne, c['dx'], c['dy'], tdyn)
            if n is None:
                break
            ref = n
            # equal neighbours after a step are equal up to rounding only
            d1 = np.abs(ref[:, 2:] - ref[:, :-2])
            d2 = np.abs(ref[2:] - ref[:-2])
            new = np.abs(ref - z) > 0
            m1, m2 = new[:, 2:] | new[:, :-2], new[2:] | new[:-2]
            if i < c['it'] - 1:
                near = near or np.any((d1 < 1e-9) & m1) or np.any((d2 < 1e-9) & m2)
    if near:
        c.label('not compared')
        return
    close(s['zb'], ref, 'bed level after %d iterations of avalanching' % c['it'], rtol=0, atol=1e-9)
    if not c['off']:
        close(s['gradh'], g, 'slope before avalanching', rtol=1e-9, atol=1e-12)
    c.label('moves' if moves else 'rest')
    c.hit(moves and np.abs(ref - z).max() > 1e-6)


def invariants(c):
    """complete avalanches"""
    c['it'] = 3000
    c['off'] = False
    if c['dx'] < 1:
        c['dx'] = 1.
    p, s = build(c)
    z = s['zb'].copy()
    zne = s['zne'].copy()
    tdyn, tstat = np.tan(np.deg2rad(c['dyn'])), np.tan(np.deg2rad(p['theta_stat']))
    g0 = np.hypot(*grads(z, c['dx'], c['dy']))
    s = run(p, s)
    finite(s['zb'], 'bed level')
    close(s['zne'], zne, 'non-erodible layer', rtol=0, atol=0)
    dz = s['zb'] - z
    if g0.max() < tstat * (1 - 1e-12):
        close(s['zb'], z, 'bed gentler than the static angle of repose', rtol=0, atol=0)
        c.label('rest')
        return
    for e in (dz[:, 0], dz[:, -1]) + ((dz[0], dz[-1]) if c['ny'] else ()):
        check(not np.any(e), 'avalanching changes the bed at the edge of the grid')
    check(s['zb'].max() <= z.max() + 1e-9, 'avalanching raises the highest point')
    check(s['zb'].min() >= z.min() - 1e-9, 'avalanching lowers the lowest point')
    check(dz.sum() <= 1e-9 * max(1., np.abs(z).max()) * z.size, 'avalanching creates sediment')
    # nothing reaches the edge: volume is conserved
    ring = np.zeros(z.shape, bool)
    ring[:, :2] = ring[:, -2:] = True
    if c['ny']:
        ring[:2] = ring[-2:] = True
    if c['interior'] and c['ne'] != 1 and not np.any(np.abs(dz[ring]) > 1e-12):
        close(dz.sum(), 0., 'volume of the bed', rtol=0, atol=1e-9 * max(1., c['amp']) * z.size)
        c.label('closed')
    if c['ne'] == 1:
        check(np.all(s['zb'] >= zne - 1e-9), 'bed below the non-erodible layer: %r', float((s['zb'] - zne).min()))
        c.label('hard layer')
    else:
        g = np.hypot(*grads(s['zb'], c['dx'], c['dy']))
        check(g.max() < tdyn * (1 + 1e-6), 'bed steeper than the dynamic angle of repose after avalanching: %g > %g', g.max(), tdyn)
    c.hit(np.abs(dz).max() > 1e-6)


def symmetry(c):
    """mirroring, transposing and shifting the bed"""
    c['off'] = False
    c['it'] = min(c['it'], 5)
    p, s = build(c)
    z, zne = s['zb'].copy(), s['zne'].copy()
    a = run(p, s)['zb'].copy()

    def again(z, zne, dx=c['dx'], dy=c['dy'], ny=c['ny'], nx=c['nx']):
        p2, s2 = build(c)
        if (ny, nx) != (c['ny'], c['nx']):
            p2 = dict(p2, nx=nx, ny=ny)
            s2 = state.state(p2)
        s2['ds'][:], s2['dn'][:] = dx, dy
        s2['zb'], s2['zne'] = z.copy(), zne.copy()
        return run(p2, s2)['zb']
    tol = 1e-6
    # beds that depend on rounding (equal neighbours, slopes at the limit) cannot be compared
    e = 1e-9 * np.sin(12.9898 * np.arange(z.size)).reshape(z.shape)
    rough = max(np.abs(again(z + x, zne + x) - a).max() for x in (e, -e, e[::-1, ::-1] + 1e-9)) > 1e-7
    if rough:
        c.label('not compared')
        return
    close(again(z[:, ::-1], zne[:, ::-1])[:, ::-1], a, 'bed mirrored in s-direction', rtol=0, atol=tol)
    close(again(z[::-1], zne[::-1])[::-1], a, 'bed mirrored in n-direction', rtol=0, atol=tol)
    close(again(z + 7., zne + 7.), a + 7., 'bed shifted vertically', rtol=0, atol=tol)
    if c['ny'] > 2 and c['ne'] != 1:
        close(again(z.T, zne.T, c['dy'], c['dx'], c['nx'], c['ny']).T, a, 'transposed bed', rtol=0, atol=tol)
    c.hit(np.abs(a - z).max() > 1e-6)


CHECKS = [Check('reference', cases(), reference, quick=1200),
          Check('invariants', cases(), invariants, quick=400),
          Check('symmetry', cases(), symmetry, quick=500)]
