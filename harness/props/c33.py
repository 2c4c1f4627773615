"""C33: grid geometry and orientation."""
import copy
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim

PROPERTY = 'C33'
RULE = ('Generated one- and two-dimensional grids (spacing, origin, any orientation) and complete set-ups run on the grid as such and on the '
        'grid turned together with the wind. Non-trivial: orientation not along the axes (geometry), transport in a turned grid (runs).')


def turn(X, Y, a, x0, y0):
    a = np.radians(a)
    return X * np.cos(a) - Y * np.sin(a) + x0, X * np.sin(a) + Y * np.cos(a) + y0


@st.composite
def angles(draw):
    return draw(st.one_of(F(0., 360.), st.sampled_from([0., 90., 180., 270., 45., 135., 225., 315., 359., 1., 91., 181.])))


@st.composite
def grids(draw):
    ny, nx = draw(st.sampled_from([0, 2, 3, 5])), draw(st.integers(3, 12))
    dx, dy = draw(F(.3, 20.)), draw(F(.3, 20.))
    c = dict(ny=ny, nx=nx, dx=dx, dy=dy, a=0., x0=draw(st.sampled_from([0., -30., 1000., 12345.6])), y0=draw(st.sampled_from([0., 7., -4000.])))
    if ny:
        c['a'] = draw(angles())
    else:
        c['steps'] = draw(grid((nx,), .2, 5.))
        c['equal'] = draw(st.booleans())
    c['dir'] = draw(F(0., 360.))
    c['steps_n'] = draw(st.integers(1, 3))
    c['wait'] = draw(st.booleans())
    return c


def geometry(c):
    nx, ny = c['nx'], c['ny']
    if ny:
        X, Y = np.meshgrid(np.arange(nx + 1) * c['dx'], np.arange(ny + 1) * c['dy'])
        X, Y = turn(X, Y, c['a'], c['x0'], c['y0'])
    else:
        X = c['x0'] + np.concatenate(([0], np.cumsum(np.full(nx, c['dx']) if c['equal'] else c['steps'])))
        Y = np.zeros(nx + 1)
    cfg, files = sim.base(nx=nx, ny=ny, dt=10., tstop=100., CFL=1., boundary_lateral='circular', zb=np.zeros(X.shape),
                          wind=np.array([[0., 10., c['dir']], [7200., 10., c['dir']]]))
    files['x.grd'], files['y.grd'] = X, Y
    scale = np.abs(X).max() + np.abs(Y).max()
    with tmpdir() as d, quiet():
        m = sim.model(d, cfg, files)
        s, p = m.s, m.p

        def coordinates(what):
            close(s['x'], np.atleast_2d(X), 'x coordinates' + what, rtol=0, atol=1e-9 * scale)
            close(s['y'], np.atleast_2d(Y), 'y coordinates' + what, rtol=0, atol=1e-9 * scale)
        coordinates('')
        eps = 1e-9 + 1e-12 * scale
        if ny:
            close(s['ds'], c['dx'], 'grid size in s-direction', rtol=0, atol=eps)
            close(s['dn'], c['dy'], 'grid size in n-direction', rtol=0, atol=eps)
            d_a = np.radians(p['alpha'] - c['a'])
            close([np.cos(d_a), np.sin(d_a)], [1., 0.], 'orientation %r of a grid turned by %r' % (p['alpha'], c['a']), rtol=0, atol=1e-6 + eps)
        else:
            close(s['ds'][0, 1:], np.diff(X), 'grid size in s-direction', rtol=0, atol=eps)
            close(s['ds'][0, 0], X[1] - X[0], 'first grid size', rtol=0, atol=eps)
            close(s['dn'], 1., 'width of a transect')
            check(p['alpha'] == 0., 'orientation %r of a transect', p['alpha'])
        close(s['dsdn'], s['ds'] * s['dn'], 'cell area')
        close(s['dsdni'] * s['dsdn'], 1., 'inverse cell area')
        ds, dn = s['ds'].copy(), s['dn'].copy()
        for k in range(c['steps_n']):
            if c['wait'] and k == 0:
                t = m.t
                m.update(-30.)              # only skips time
                check(m.t == t + 30., 'skipped time %r', m.t - t)
            else:
                m.update()
            coordinates(' after %d steps' % (k + 1))
            # wind in grid directions is turned back to the axes afterwards
            if not (c['wait'] and k == 0):
                close(s['uws'], -10. * np.sin(np.radians(c['dir'])), 'eastward wind', rtol=0, atol=.004)
                close(s['uwn'], -10. * np.cos(np.radians(c['dir'])), 'northward wind', rtol=0, atol=.004)
                close(np.cos(np.radians(s['udir'])), np.cos(np.radians(c['dir'])), 'wind direction', rtol=0, atol=4e-4)
                close(np.sin(np.radians(s['udir'])), np.sin(np.radians(c['dir'])), 'wind direction', rtol=0, atol=4e-4)
        close(s['ds'], ds, 'grid size after running', rtol=0, atol=0)
        close(s['dn'], dn, 'grid size after running', rtol=0, atol=0)
    c.hit(c['a'] % 90. != 0.)


@st.composite
def turned(draw):
    c = draw(sim.setups(steps=(1, 3), ny=(2, 3), calm=True, shear=False))
    c['a'] = draw(angles())
    w = c['files']['wind.txt']                 # directions of exactly 0 and 270 degrees are moved by a hundredth of a degree
    w[:, 2] = np.where(w[:, 2] % 90. < .02, w[:, 2] + .123, w[:, 2])
    turn = np.diff(w[:, 2]) % 360.             # no shortest way between opposite directions
    w[1:, 2] = np.where(np.any(np.abs(turn - 180.) < 1.), w[0, 2], w[1:, 2])
    if np.any((w[:, 2] - c['a']) % 90. < .02):
        c['a'] += .217
    c['x0'], c['y0'] = draw(st.sampled_from([(0., 0.), (100., -30.), (5000., 1000.)]))
    return c


VECTORS = [('uws', 'uwn'), ('taus', 'taun'), ('ustars', 'ustarn'), ('taus0', 'taun0'), ('ustars0', 'ustarn0'), ('qs', 'qn')]
SKIP = {'x', 'y', 'udir', 'alfa'} | {k for v in VECTORS for k in v}


def joint(c):
    """the results do not depend on the orientation of the grid if the wind turns with it"""
    e = copy.deepcopy(dict(c))
    e['files']['x.grd'], e['files']['y.grd'] = turn(c['files']['x.grd'], c['files']['y.grd'], c['a'], c['x0'], c['y0'])
    e['files']['wind.txt'][:, 2] = (c['files']['wind.txt'][:, 2] - c['a']) % 360.
    out = []
    with quiet():
        for q in c, e:
            with tmpdir() as d:
                m = sim.start(d, q)
                h = []
                for k in range(c['nsteps']):
                    m.update()
                    h.append((m.t, {k: np.array(v, copy=True) for k, v in m.s.items() if isinstance(v, np.ndarray) and v.dtype.kind == 'f'}))
                out.append(h)
    ca, sa = np.cos(np.radians(c['a'])), np.sin(np.radians(c['a']))
    for k, ((t0, s0), (t1, s1)) in enumerate(zip(*out)):
        what = ' of the turned grid after %d steps' % (k + 1)
        close(t1, t0, 'time' + what, rtol=1e-9)
        for a, b in VECTORS:
            m = 1e-7 + max(np.abs(s0[a]).max(), np.abs(s0[b]).max())
            close(s1[a], s0[a] * ca - s0[b] * sa, a + what, rtol=0, atol=1e-5 * m)
            close(s1[b], s0[a] * sa + s0[b] * ca, b + what, rtol=0, atol=1e-5 * m)
        for a in s0:
            if a not in SKIP:
                m = np.abs(s0[a][np.isfinite(s0[a])]).max() if np.isfinite(s0[a]).any() else 0.
                same = np.isfinite(s0[a])
                check(np.array_equal(same, np.isfinite(s1[a])), 'not finite: ' + a + what)
                close(s1[a][same], s0[a][same], a + what, rtol=1e-5, atol=1e-9 + 1e-6 * m)
        d = np.radians(s1['udir'] - (s0['udir'] - c['a']))
        close(np.cos(d), 1., 'wind direction' + what, rtol=0, atol=1e-6)
    c.hit(np.any(out[0][-1][1]['qs'] != 0) and c['a'] % 360. != 0.)


CHECKS = [Check('geometry', grids(), geometry, quick=250), Check('joint', turned(), joint, quick=150)]
