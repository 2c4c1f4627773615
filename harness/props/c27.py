"""C27: sand fences."""
import copy
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import state
import aeolis.fences as fe

PROPERTY = 'C27'
RULE = ('Generated fences on transects and two-dimensional grids, winds from all directions, burial and scour, and complete runs. '
        'Non-trivial: at least one standing fence and cells within as well as out of its reach.')


def okin(d, h, c1, r0):
    """reduction at distances d downwind of a fence"""
    r = (1. - r0) * np.exp(-np.maximum(d, 0.) * c1 / h)
    return np.where((d >= 0) & (d < 20 * h) & (r >= 1e-5), r, 0.)


def setup(c):
    p = state.params(c['nx'], c['ny'], 2, 1, process_fences=True, fence_file=c['h'].copy(), okin_c1_fence=c['c1'], okin_initialred_fence=c['r0'], dx=c['dx'], dy=c['dx'])
    s = state.state(p)
    s['x'] *= c['dx']
    s['y'] *= c['dx']
    s['ds'][:] = s['dn'][:] = c['dx']
    s['zb'] = c['zb'].copy()
    s = fe.initialize(s, p)
    return p, s


def blow(s, p, u, d):
    s['udir'][:] = d
    s['ustar'][:] = u
    s['ustars'][:] = -u * np.sin(np.radians(d))
    s['ustarn'][:] = -u * np.cos(np.radians(d))
    s['tau'] = p['rhoa'] * s['ustar'] ** 2
    s['taus'] = s['tau'] * s['ustars'] / max(u, 1e-9)
    s['taun'] = s['tau'] * s['ustarn'] / max(u, 1e-9)
    return s


def history(c, s, p, reduction):
    """a sequence of winds and bed level changes; fence heights follow the bed"""
    top = c['zb'] + c['h']
    gone = c['h'] < .1
    some = False
    for dz, u, d in zip(c['dz'], c['u'], c['dirs']):
        s['zb'] = s['zb'] + dz
        blow(s, p, u, d)
        us, un = s['ustars'].copy(), s['ustarn'].copy()
        zb = s['zb'].copy()
        s = fe.update_fences(s, p)
        close(s['zb'], zb, 'bed changed by fences', rtol=0, atol=0)
        raw = top - zb
        edge = (np.abs(raw - .1) < 1e-9) | (np.abs(raw - 1.5) < 1e-9) | (np.abs(top - .1) < 1e-9)
        if edge.any():
            return False
        h = np.where(gone | (raw < .1) | (top < .1), 0., raw)
        gone |= h > 1.5
        h[h > 1.5] = 0.
        close(s['fence_height'], h, 'height of the fences', rtol=1e-9, atol=1e-12)
        for k in 'ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun':
            finite(s[k], k)
        close(s['ustar'], np.hypot(s['ustars'], s['ustarn']), 'shear velocity versus its components', rtol=1e-9, atol=1e-12)
        close(s['tau'], p['rhoa'] * s['ustar'] ** 2, 'shear stress versus shear velocity', rtol=1e-9, atol=1e-12)
        close(s['taus'] * s['ustar'], s['tau'] * s['ustars'], 'direction of the shear stress', rtol=1e-8, atol=1e-12)
        close(s['taun'] * s['ustar'], s['tau'] * s['ustarn'], 'direction of the shear stress', rtol=1e-8, atol=1e-12)
        close(s['ustars'] * un, s['ustarn'] * us, 'direction of the wind shear changed by fences', rtol=0, atol=1e-9)
        check(np.all(s['ustars'] * us + s['ustarn'] * un >= -1e-12), 'wind shear reversed by fences')
        check(np.all(s['ustar'] <= max(u, .01) + 1e-9), 'wind shear increased by fences')
        reduction(s, h, u, d)
        if not h.any():
            close(s['ustar'], max(u, .01) if p['ny'] == 0 else u, 'wind shear without fences', rtol=1e-9)
        else:
            some = some or np.any(s['ustar'] > .99 * u) and np.any(s['ustar'] < .7 * u)
    return some


@st.composite
def steps(draw, c, n, span):
    sh = c['h'].shape
    c['dz'] = [draw(grid(sh, -span, span)) * draw(st.sampled_from([0., 1., 1.])) for _ in range(n)]
    c['u'] = [draw(F(.05, 1.5)) for _ in range(n)]
    return c


@st.composite
def transects(draw):
    nx = draw(st.integers(4, 30))
    h = draw(grid((1, nx + 1), -2., 2.)).clip(0., 1.45)
    c = dict(nx=nx, ny=0, dx=draw(st.sampled_from([1., .5, 3.])), h=h, zb=draw(grid((1, nx + 1), -1., 5.)) * draw(st.sampled_from([0., 1., 1.])) + draw(st.sampled_from([0., 3.])),
             c1=draw(F(.1, 1.)), r0=draw(F(0., 1.)))
    n = draw(st.integers(1, 4))
    c = draw(steps(c, n, .6))
    c['dirs'] = [draw(st.one_of(F(1., 179.), F(181., 359.), F(1., 359.).map(lambda v: v - 360.), st.sampled_from([90., 270., 450.]))) for _ in range(n)]
    c['dirs'] = [v + 1. if v % 180. == 0. else v for v in c['dirs']]
    return c


def transect(c):
    p, s = setup(c)

    def reduction(s, h, u, d):
        x = s['x'][0]
        sign = 1. if -np.sin(np.radians(d)) > 0 else -1.
        red = np.zeros(len(x))
        clear = np.ones(len(x), bool)                      # not exactly at the end of the sheltered zone
        for k in range(len(x)):
            if h[0, k] > 0:
                clear &= np.abs(sign * (x - x[k]) / h[0, k] - 20.) > 1e-6
                red += okin(sign * (x - x[k]), h[0, k], c['c1'], c['r0'])
        close(s['ustar'][0][clear], np.maximum(u * (1. - np.minimum(red, 1.)), .01)[clear], 'wind shear behind fences', rtol=1e-9, atol=1e-9 + 1e-4 * u)
    c.hit(history(c, s, p, reduction))


@st.composite
def planes(draw):
    nx, ny = draw(st.integers(6, 12)), draw(st.integers(6, 12))
    h = np.zeros((ny + 1, nx + 1))
    j, i = draw(st.integers(2, ny - 2)), draw(st.integers(2, nx - 2))
    kind = draw(st.sampled_from(['line', 'row', 'post', 'two']))
    hh = draw(F(.15, 1.4))
    if kind == 'line':
        h[1:-1, i] = hh
    elif kind == 'row':
        h[j, 1:-1] = hh
    else:
        h[j, i] = hh
        if kind == 'two':
            h[draw(st.integers(2, ny - 2)), draw(st.integers(2, nx - 2))] = draw(F(.15, 1.4))
    c = dict(nx=nx, ny=ny, dx=draw(st.sampled_from([2., 4., 8.])), h=h, zb=np.full(h.shape, draw(st.sampled_from([0., 2.]))), c1=draw(F(.1, 1.)), r0=draw(F(0., .9)))
    n = draw(st.integers(1, 2))
    c = draw(steps(c, n, .04))
    c['dirs'] = [draw(st.one_of(F(0., 360.), st.sampled_from([270., 90., 0., 180., 225., -90., 269.9]))) for _ in range(n)]
    return c


def bilinear(x, y, z, xi, yi):
    """on a regular grid, zero outside"""
    fx, fy = (xi - x[0]) / (x[1] - x[0]), (yi - y[0]) / (y[1] - y[0])
    i, j = np.clip(np.floor(fx).astype(int), 0, len(x) - 2), np.clip(np.floor(fy).astype(int), 0, len(y) - 2)
    a, b = fx - i, fy - j
    v = z[j, i] * (1 - a) * (1 - b) + z[j, i + 1] * a * (1 - b) + z[j + 1, i] * (1 - a) * b + z[j + 1, i + 1] * a * b
    return np.where((a < -1e-9) | (a > 1 + 1e-9) | (b < -1e-9) | (b > 1 + 1e-9), 0., v)


def plane(c):
    p, s = setup(c)
    dx = c['dx']
    X, Y = s['x'].copy(), s['y'].copy()

    def reduction(s, h, u, d):
        close(s['x'], X, 'x coordinates', rtol=0, atol=1e-9)
        close(s['y'], Y, 'y coordinates', rtol=0, atol=1e-9)
        dd = d + .00001 if d % 180. == 0 else d
        w = np.array([-np.sin(np.radians(dd)), -np.cos(np.radians(dd))])          # direction the wind blows to
        q = np.array([-w[1], w[0]])
        x0, y0 = X.mean(), Y.mean()
        f = s['ustar'] / u
        # out of reach of every fence nothing changes
        free = np.ones(h.shape, bool)
        for j, i in zip(*np.nonzero(h > 0)):
            along = (X - X[j, i]) * w[0] + (Y - Y[j, i]) * w[1]
            across = (X - X[j, i]) * q[0] + (Y - Y[j, i]) * q[1]
            free &= (along < -3.5 * dx) | (np.abs(across) > 3.5 * dx) | (along > 20 * h[j, i] + 3.5 * dx)
        close(f[free], 1., 'wind shear out of reach of the fences', rtol=0, atol=1e-6)
        # grid in wind direction
        D = np.hypot(X.max() - X.min(), Y.max() - Y.min()) + 200.
        dc = max(dx / 2., .25)
        if any(abs(v / dc - np.round(v / dc)) < 1e-6 for v in (x0 - D / 2, x0 + D / 2, y0 - D / 2, y0 + D / 2)):
            return
        xs = np.arange(np.floor((x0 - D / 2) / dc), np.ceil((x0 + D / 2) / dc)) * dc
        ys = np.arange(np.floor((y0 - D / 2) / dc), np.ceil((y0 + D / 2) / dc)) * dc
        xc, yc = np.meshgrid(xs - x0, ys - y0)
        zc = bilinear(X[0], Y[:, 0], h, x0 + xc * w[0] + yc * q[0], y0 + xc * w[1] + yc * q[1])
        red = np.zeros(zc.shape)
        for j, i in zip(*np.nonzero(zc > 1e-6)):
            if np.any(np.abs((xs - xs[i]) / zc[j, i] - 20.) < 1e-6):
                return
            red[j] += okin(xs - xs[i], zc[j, i], c['c1'], c['r0'])
        mult = 1. - np.minimum(red, 1.)
        want = bilinear(xs, ys, mult, x0 + (X - x0) * w[0] + (Y - y0) * w[1], y0 + (X - x0) * q[0] + (Y - y0) * q[1])
        inner = (slice(2, -2), slice(2, -2))
        close(f[inner], want[inner], 'wind shear around fences for wind from %r' % d, rtol=0, atol=1e-3)
    c.hit(history(c, s, p, reduction))


@st.composite
def models(draw):
    c = draw(sim.setups(steps=(1, 3), ny=(0, 0, 0, 4), rotated=False, features=False, calm=False, stretch=False, solvers=('trunk', 'steadystate')))
    ny, nx = c['ny'], c['nx']
    h = np.zeros((ny + 1, nx + 1))
    h[:, draw(st.integers(0, nx))] = draw(F(.2, 1.3))
    c['files']['fence.txt'] = h if ny else h[0]
    c['files']['none.txt'] = 0. * h if ny else 0. * h[0]
    c['files']['z.grd'] = c['files']['z.grd'] + 3.
    c['cfg'].update(dx=c['files']['x.grd'].ravel()[1], process_fences=True, fence_file='fence.txt')
    c['a'] = draw(st.sampled_from([0., 90., 180., 270.])) if ny else 0.
    w = c['files']['wind.txt']
    w[:, 2] = np.where(w[:, 2] % 90. < .02, w[:, 2] + .123, w[:, 2])
    c['mode'] = draw(st.sampled_from(['none', 'turn', 'fence', 'fence']))
    return c


def steps_of(c, **over):
    out = []
    with tmpdir() as d, quiet():
        m = sim.start(d, c, **over)
        out.append({k: np.array(v, copy=True) for k, v in m.s.items() if isinstance(v, np.ndarray) and v.dtype.kind == 'f'})
        for k in range(c['nsteps']):
            m.update()
            out.append({k: np.array(v, copy=True) for k, v in m.s.items() if isinstance(v, np.ndarray) and v.dtype.kind == 'f'})
    return out


def model(c):
    """in complete runs: fences of no height do nothing, fences only reduce shear and saturated transport"""
    off = steps_of(c, process_fences=False)
    none = steps_of(c, fence_file='none.txt')
    for k, (a, b) in enumerate(zip(off, none)):
        for v in 'ustar', 'Ct', 'zb', 'qs', 'mass':
            close(b[v], a[v], '%s with fences of no height, step %d' % (v, k), rtol=1e-7, atol=1e-10)
    on = steps_of(c)
    h = np.atleast_2d(c['files']['fence.txt'])
    close(on[0]['fence_height'], h, 'initial fence height', rtol=0, atol=0)
    a, b = off[1], on[1]                                        # the bed is still the same in the first step
    check(np.all(b['ustar'] <= a['ustar'] + 1e-9), 'fences increase the wind shear')
    check(np.all(b['Cu'] <= a['Cu'] + 1e-12), 'fences increase the saturated transport')
    ok = h > 0
    if c['ny'] == 0:
        want = np.maximum(.01, a['ustar'][ok] * .32)
        close(b['ustar'][ok], want, 'wind shear at the fence', rtol=1e-9)
    if c['ny'] and c['mode'] == 'turn':
        e = copy.deepcopy(dict(c))
        t = np.radians(c['a'])
        X, Y = c['files']['x.grd'], c['files']['y.grd']
        x0, y0 = X.mean(), Y.mean()                         # the computational grid snaps to multiples of its size: turned around the centre
        e['files']['x.grd'] = x0 + (X - x0) * np.cos(t) - (Y - y0) * np.sin(t)
        e['files']['y.grd'] = y0 + (X - x0) * np.sin(t) + (Y - y0) * np.cos(t)
        e['files']['wind.txt'][:, 2] = (c['files']['wind.txt'][:, 2] - c['a']) % 360.
        tr = steps_of(e)
        close(tr[1]['ustar'], b['ustar'], 'wind shear on the turned grid', rtol=0, atol=1e-4 * a['ustar'].max())
    for q in on[1:]:
        for v in 'ustar', 'Ct', 'zb', 'qs', 'mass', 'fence_height':
            finite(q[v], v)
    c.label(c['mode'])
    c.hit(np.any(b['ustar'] < .9 * a['ustar']))


CHECKS = [Check('transect', transects(), transect, quick=500), Check('plane', planes(), plane, quick=100), Check('model', models(), model, quick=40)]
