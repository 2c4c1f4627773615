"""C01: bed bookkeeping conserves sediment per fraction, layer and cell."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import state
import aeolis.bed

PROPERTY = 'C01'
RULE = ('Bed columns (grid, layers, fractions, layer mass, composition, base composition given as one '
        'distribution / one per layer / one per cell) and a history of net exchanges per fraction are generated; '
        'erosion never exceeds the surface layer, deposition reaches several layer masses. Non-trivial: a case in '
        'which some cell erodes and some cell receives sediment.')


@st.composite
def columns(draw):
    ny = draw(st.sampled_from([0, 0, 1, 2]))
    nx = draw(st.integers(3, 6))
    nl = draw(st.integers(2, 5))
    nf = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(['uniform', 'layered', 'file']))
    th = draw(F(0.001, 0.2))
    comp_shape = {'uniform': (nf,), 'layered': (nl, nf), 'file': (ny + 1, nx + 1, nl, nf)}[kind]
    comp = draw(grid(comp_shape, 0., 1.)) + 0.02
    start = draw(st.one_of(st.none(), grid((ny + 1, nx + 1, nl, nf), 0., 1.)))
    big = draw(st.sampled_from([0.3, 0.9, 0.9, 3.5, 7.5]))
    steps = draw(st.integers(1, 3))
    ero = [draw(grid((ny + 1, nx + 1, nf), -1., 1.)) for _ in range(steps)]
    scale = [draw(grid((ny + 1, nx + 1), 0., 1.)) for _ in range(steps)]
    return dict(ny=ny, nx=nx, nl=nl, nf=nf, kind=kind, th=th, comp=comp, start=start, big=big,
                ero=ero, scale=scale, bedupdate=draw(st.booleans()), tide=draw(st.booleans()),
                rhog=draw(st.sampled_from([2650., 2000., 2700.])), porosity=draw(F(0.2, 0.6)))


def norm(a):
    t = a.sum(axis=-1, keepdims=True)
    return np.where(t > 0, a / np.where(t > 0, t, 1), 0.)


def setup(c):
    nl, nf = c['nl'], c['nf']
    p = state.params(c['nx'], c['ny'], nl, nf, rhog=c['rhog'], porosity=c['porosity'],
                     layer_thickness=c['th'], process_bedupdate=c['bedupdate'], process_tide=c['tide'])
    s = state.state(p)
    M = c['rhog'] * (1 - c['porosity']) * c['th']
    shp = s['mass'].shape
    if c['kind'] == 'file':
        mass = norm(c['comp']) * M
        p['bedcomp_file'] = mass.reshape((-1, nl * nf)).copy()
        base = norm(mass[:, :, -1, :])
    elif c['kind'] == 'layered':
        p['grain_dist'] = c['comp'].copy()
        mass = np.broadcast_to(norm(c['comp']) * M, shp).copy()
        base = np.broadcast_to(norm(c['comp'][-1]), (shp[0], shp[1], nf))
    else:
        p['grain_dist'] = c['comp'].copy()
        mass = np.broadcast_to(norm(c['comp']) * M, shp).copy()
        base = np.broadcast_to(norm(c['comp']), (shp[0], shp[1], nf))
    if c['start'] is not None:
        mass = norm(c['start'] + 1e-3) * M
    s['mass'] = mass.copy()
    s['thlyr'][:] = c['th']
    s['zb'][:] = np.linspace(-1, 2, s['zb'].size).reshape(s['zb'].shape)
    s['zs'][:] = 0.5
    return p, s, M, base


def bed_history(c):
    p, s, M, base = setup(c)
    nl, nf = c['nl'], c['nf']
    rho = c['rhog'] * (1 - c['porosity'])
    eroded = deposited = False
    for ero, scale in zip(c['ero'], c['scale']):
        m0 = s['mass'].copy()
        top = m0[:, :, 0, :]
        # erosion limited by the surface layer, deposition up to `big` layer masses
        P = np.where(ero > 0, ero * top, ero * (c['big'] * M * scale[:, :, None] / nf))
        P = np.where(scale[:, :, None] == 0, np.abs(ero) * top, P)       # purely eroding cells
        P = np.where(scale[:, :, None] == 1, np.minimum(P, 0.), P)       # purely depositing cells
        s['pickup'] = P.copy()
        zb0, zs0 = s['zb'].copy(), s['zs'].copy()
        s = aeolis.bed.update(s, p)
        m1 = s['mass']
        finite(m1, 'bed mass')
        check(m1.shape == m0.shape, 'shape of bed mass changed')
        E = P.sum(axis=-1)

        close(m1.sum(axis=-1), m0.sum(axis=-1), 'total mass per bed layer', rtol=1e-9, atol=1e-9 * M)
        check(m1.min() >= -1e-6, 'negative bed mass %g', m1.min())

        # fraction-wise column budget
        net = m1.sum(axis=2) - m0.sum(axis=2) + P           # supplied by the base layer
        tol = 1e-8 * M * nl + 2e-6 * nl
        isero = E > 0
        close(net[isero], (E[:, :, None] * base)[isero], 'base layer supply per fraction', rtol=1e-8, atol=tol)
        D = -E
        out = -net
        dep = D >= 0
        close(out.sum(axis=-1)[dep], D[dep], 'mass handed to the base layer', rtol=1e-8, atol=tol)
        avail = m0.sum(axis=2) + np.maximum(-P, 0)
        check(np.all(out[dep] >= -tol) and np.all(out[dep] <= avail[dep] + tol),
              'sediment handed to the base layer exceeds what is available')
        small = dep & (D < M * (1 - 1e-9))
        close(out[small], (D[:, :, None] * norm(m0[:, :, -1, :]))[small],
              'composition of mass handed to the base layer', rtol=1e-8, atol=tol)

        # layer by layer: erosion is refilled from below with the composition of the layer below
        d0 = norm(m0)
        Ee = E[:, :, None]
        for i in range(1, nl):
            below = d0[:, :, i + 1] if i + 1 < nl else base
            close(m1[:, :, i][isero], (m0[:, :, i] - Ee * d0[:, :, i] + Ee * below)[isero],
                  'composition of layer %d after erosion' % i, rtol=1e-8, atol=tol)
        close(m1[:, :, 0][isero], (m0[:, :, 0] - P + Ee * (d0[:, :, 1]))[isero],
              'composition of surface layer after erosion', rtol=1e-8, atol=tol)
        # pure deposition of less than a layer: every layer hands its own mixture down
        pure = small & np.all(P <= 0, axis=-1)
        Dd = D[:, :, None]
        close(m1[:, :, 0][pure], (m0[:, :, 0] - P - Dd * d0[:, :, 0])[pure],
              'composition of surface layer after deposition', rtol=1e-8, atol=tol)
        for i in range(1, nl):
            close(m1[:, :, i][pure], (m0[:, :, i] + Dd * (d0[:, :, i - 1] - d0[:, :, i]))[pure],
                  'composition of layer %d after deposition' % i, rtol=1e-8, atol=tol)
        # deep layers do not see the surface exchange directly
        for i in range(2, nl):
            close(m1[:, :, i][small], (m0[:, :, i] + Dd * (d0[:, :, i - 1] - d0[:, :, i]))[small],
                  'composition of deep layer %d after deposition' % i, rtol=1e-8, atol=tol)
        # deposition of one or more complete layers buries the old surface
        nfull = np.floor(D / M + 1e-12).astype(int)
        fr = norm(np.maximum(-P, 0))
        for i in range(nl):
            full = (nfull >= i + 1) & np.all(P <= 0, axis=-1) & (np.abs(D / M - np.round(D / M)) > 1e-6)
            close(m1[:, :, i][full], (M * fr)[full], 'layer %d buried under fresh deposits' % i,
                  rtol=1e-7, atol=tol)
        # ... and moves the old layers down; what is left of the deposits mixes in and every layer hands its own mixture down
        whole = np.all(P <= 0, axis=-1) & (nfull >= 1) & (nfull < nl) & (np.abs(D / M - np.round(D / M)) > 1e-6)
        for j, k in zip(*np.nonzero(whole)):
            q = nfull[j, k]
            old = np.concatenate([np.repeat(M * fr[j, k][None], q, 0), m0[j, k, :nl - q]])
            mix = norm(old)
            left = D[j, k] - q * M
            want = old.copy()
            want[1:] += left * (mix[:-1] - mix[1:])
            close(m1[j, k], want, 'layers below deposits of %d complete layers' % q, rtol=1e-7, atol=tol)

        # bed level
        dz = -E / rho if c['bedupdate'] else np.zeros(E.shape)
        close(s['zb'], zb0 + dz, 'bed level', rtol=1e-10, atol=1e-11)
        close(s['zs'], zs0 + (dz if c['tide'] else 0.), 'water level', rtol=1e-10, atol=1e-11)

        eroded |= bool(np.any(E > 0))
        deposited |= bool(np.any(E < 0))
        if np.any(D > M):
            c.label('deposition > layer')
        if np.any((P > 0).any(-1) & (E < 0)):
            c.label('depositing cell with eroding fraction')
    c.label(c['kind'])
    c.hit(eroded and deposited)


CHECKS = [Check('bed_history', columns(), bed_history, quick=500)]
