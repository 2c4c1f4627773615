"""C15: mixing of the surface layers by waves."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import state
import aeolis.bed

PROPERTY = 'C15'
RULE = ('Generated bed columns (layers, fractions, mass per layer) and mixing wave heights, from none to far beyond the thickness of the bed, '
        'and complete model runs under waves without wind. Non-trivial: some cells mix two or more layers of different composition and others do not.')


@st.composite
def columns(draw):
    ny, nx = draw(st.sampled_from([0, 0, 1, 3])), draw(st.integers(3, 6))
    nl, nf = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    sh = (ny + 1, nx + 1)
    th = draw(st.sampled_from([.01, .05, .1, .25, .25]))
    return dict(ny=ny, nx=nx, nl=nl, nf=nf, th=th, mass=draw(grid(sh + (nl, nf), 0., 1.)) + .01,
                # mixing depth in layers
                depth=draw(grid(sh, 0., draw(st.sampled_from([1.5, 3., 8., 60.])))), dry=draw(grid(sh, 0., 1.)), fac=draw(st.sampled_from([.1, .3, 1., 1.])),
                on=draw(st.integers(0, 5)) > 0)


def reference(mass, th, dod, p):
    """cell by cell; every layer has the same thickness"""
    out = mass.copy()
    for j, i in np.ndindex(*dod.shape):
        nl = mass.shape[2]
        n, depth = 0, 0.
        while n < nl and depth + th <= dod[j, i]:
            depth += th
            n += 1
        if n == 0:
            continue
        f = min(1., nl * th / dod[j, i])
        mean = sum(mass[j, i, k] for k in range(n)) / n
        for k in range(n):
            out[j, i, k] = f * mean + (1. - f) * mass[j, i, k]
    return out


def budget(m0, m1, what):
    check(m1.shape == m0.shape, 'shape of the bed mass' + what)
    finite(m1, 'bed mass' + what)
    close(m1.sum(2), m0.sum(2), 'mass per column and fraction' + what, rtol=1e-9, atol=1e-10)
    close(m1.sum(3), m0.sum(3), 'mass per layer' + what, rtol=1e-9, atol=1e-10)
    lo, hi = m0.min(2, keepdims=True), m0.max(2, keepdims=True)
    check(np.all(m1 >= lo - 1e-9 - 1e-9 * lo) and np.all(m1 <= hi + 1e-9 + 1e-9 * hi), 'composition outside the range in the column' + what)


def mixing(c):
    p = state.params(c['nx'], c['ny'], c['nl'], c['nf'], layer_thickness=c['th'], process_mixtoplayer=c['on'], facDOD=c['fac'])
    s = state.state(p)
    s['thlyr'][:] = c['th']
    m0 = c['mass'] / c['mass'].sum(-1, keepdims=True) * 1590. * c['th']
    s['mass'] = m0.copy()
    depth = np.where(c['dry'] > .7, 0., c['depth'])
    if c['fac'] == 1. and c['th'] == .25:                           # edges of layers are represented exactly
        depth = np.where(depth % 1. > .6, np.floor(depth), depth)
    else:
        depth = np.where(np.abs(depth - np.round(depth)) < 1e-6, depth + .01 * (depth > 1e-6), depth)     # not exactly at the edge of a layer
    s['Hsmix'] = depth * c['th'] / c['fac']
    others = {k: np.array(v, copy=True) for k, v in s.items() if isinstance(v, np.ndarray) and k != 'mass'}
    s = aeolis.bed.mixtoplayer(s, p)
    m1 = s['mass'].copy()
    for k, v in others.items():
        close(s[k], v, '%s changed by mixing' % k, rtol=0, atol=0)
    budget(m0, m1, ' after mixing')
    if not c['on']:
        close(m1, m0, 'bed without mixing', rtol=0, atol=0)
        return
    none = depth < 1.
    close(m1[none], m0[none], 'bed where waves do not reach through the surface layer', rtol=1e-12)
    close(m1, reference(m0, c['th'], depth * c['th'], p), 'mass in the bed after mixing', rtol=1e-9, atol=1e-10)
    n = np.minimum(np.floor(depth), c['nl']).astype(int)
    for k in range(c['nl']):
        close(m1[:, :, k][n <= k], m0[:, :, k][n <= k], 'layer %d below the depth of disturbance' % k, rtol=1e-12)
        full = (n > k) & (depth < c['nl'])
        close(m1[:, :, k][full], m1[:, :, 0][full], 'layer %d is not mixed with the surface layer' % k, rtol=1e-9)
    # once mixed, nothing changes any more
    s = aeolis.bed.mixtoplayer(s, p)
    ok = depth <= c['nl']
    close(s['mass'][ok], m1[ok], 'second mixing over the same depth', rtol=1e-9)
    if depth.max() > c['nl']:
        c.label('deeper than the bed')
    c.hit(np.any(n > 1) and np.any(n <= 1) and c['nf'] > 1)


@st.composite
def runs(draw):
    c = draw(sim.setups(steps=(1, 3), features=False, rotated=True))
    ny, nx, nf = c['ny'], c['nx'], c['nf']
    if nf == 1:
        nf = c['nf'] = 2
        c['cfg'].update(grain_size=[.0002, .0004], grain_dist=[.3, .7])
    nl = c['nl'] = draw(st.integers(2, 4))
    th = c['cfg']['layer_thickness']
    m = draw(grid((ny + 1, nx + 1, nl, nf), .02, 1.))
    c['files']['comp.txt'] = (m / m.sum(-1, keepdims=True) * 1590. * th).reshape((-1, nl * nf))
    t0, tn = c['cfg']['tstart'], c['cfg']['tstop']
    c['files']['wind.txt'][:, 1] = 0.
    H = [draw(F(0., 4.)) for _ in range(2)]
    c['files']['wave.txt'] = np.array([[t0, H[0], 6.], [tn + 2 * (tn - t0) + 100., H[1], 8.]])
    c['files']['tide.txt'] = np.array([[t0, draw(F(-1., 1.5))], [tn + 2 * (tn - t0) + 100., draw(F(-1., 1.5))]])
    c['cfg'].update(nlayers=nl, bedcomp_file='comp.txt', process_wave=True, process_tide=True, wave_file='wave.txt', tide_file='tide.txt',
                    process_mixtoplayer=draw(st.integers(0, 4)) > 0, facDOD=draw(st.sampled_from([.1, .03, .5])), gamma=draw(st.sampled_from([.5, .3, 1.])))
    return c


def model(c):
    """in the model, by the waves and water depth of each time step"""
    with tmpdir() as d, quiet():
        m = sim.start(d, c)
        p = m.p
        shape = m.s['mass'].shape
        close(m.s['mass'], c['files']['comp.txt'].reshape(shape), 'initial composition')
        mixed = False
        for k in range(c['nsteps']):
            m0, zb = m.s['mass'].copy(), m.s['zb'].copy()
            m.update()
            s = m.s
            what = ' in step %d' % (k + 1)
            budget(m0, s['mass'], what)
            close(s['zb'], zb, 'bed level' + what, rtol=0, atol=0)
            depth = np.maximum(s['zs'] - s['zb'], 0.)
            check(np.all(s['Hsmix'] <= p['gamma'] * depth + 1e-9), 'mixing waves higher than the depth allows' + what)
            if not p['process_mixtoplayer']:
                close(s['mass'], m0, 'bed without mixing' + what, rtol=0, atol=0)
                continue
            dod = p['facDOD'] * s['Hsmix']
            r = dod / p['layer_thickness']
            sure = (np.abs(r - np.round(r)) > 1e-6) | (r < .5)
            close(s['mass'][sure], reference(m0, p['layer_thickness'], dod, p)[sure], 'mass in the bed' + what, rtol=1e-7, atol=1e-8)
            dry = s['zs'] <= s['zb']
            close(s['mass'][dry], m0[dry], 'dry bed' + what, rtol=1e-12)
            mixed = mixed or np.any(np.abs(s['mass'] - m0) > 1e-6)
        c.hit(mixed)


CHECKS = [Check('mixing', columns(), mixing, quick=800), Check('model', runs(), model, quick=120)]
