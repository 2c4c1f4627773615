"""C10: topographic perturbation of the wind shear, separation bubbles."""
import numpy as np
import scipy.special
import scipy.ndimage
from vlib import st, F, grid, Check, check, close, finite
import state
import aeolis.wind as wd
import aeolis.shear as sh

PROPERTY = 'C10'
RULE = ('Generated topographies (flat, ridges, hills, steep lee slopes, bed levels above and below the reference level), '
        'grid sizes and spacings, wind from all directions in 1D and 2D. Non-trivial: the topography perturbs the shear '
        'stress by more than 1 percent.')


# ----------------------------------------------------------------- 2D

@st.composite
def cases2d(draw, amp=(0., 1.)):
    nx = draw(st.integers(16, 20))
    ny = nx + draw(st.integers(-2, 2))
    return dict(nx=nx, ny=ny, dx=draw(st.sampled_from([1., 1., .5, 2.])), x0=draw(st.sampled_from([0., 0., 1000., -40.])),
                level=draw(F(-5., 5., (0.,))), udir=draw(st.one_of(F(0., 360.), st.sampled_from([0., 90., 180., 270., 360., 225., -90.]))),
                uw=draw(F(2., 25.)), alfa=draw(st.sampled_from([0., 0., 30.])),
                h=draw(F(*amp)), cx=draw(F(.35, .65)), cy=draw(F(.35, .65)), wx=draw(F(.12, .25)), wy=draw(F(.12, .25)),
                L=draw(F(20., 200.)), k=draw(F(1e-4, .01)), l=draw(F(2., 20.)), sep=draw(st.booleans()),
                rough=draw(st.sampled_from(['constant', 'constant', 'mean_grainsize_adaptive'])),
                lateral=draw(F(-1., 1.)))


def hill(c):
    X, Y = np.meshgrid(np.arange(c['nx'] + 1.), np.arange(c['ny'] + 1.))
    return c['h'] * np.exp(-((X - c['cx'] * c['nx']) / (c['wx'] * c['nx'])) ** 2
                           - ((Y - c['cy'] * c['ny']) / (c['wy'] * c['ny'])) ** 2) * c['dx']


def bump(c):
    """smooth, resolved (radius of five cells or more) and contained in the grid"""
    X, Y = np.meshgrid(np.arange(c['nx'] + 1.), np.arange(c['ny'] + 1.))
    rx, ry = (.32 + .8 * (c['wx'] - .12)) * c['nx'], (.32 + .8 * (c['wy'] - .12)) * c['ny']
    r = np.hypot((X - (.45 + (c['cx'] - .35) / 3) * c['nx']) / rx, (Y - (.45 + (c['cy'] - .35) / 3) * c['ny']) / ry)
    return c['h'] * c['dx'] * np.where(r < 1, np.cos(np.pi / 2 * np.minimum(r, 1)) ** 2, 0)


def run2d(c, z, udir=None, sep=False):
    p = state.params(c['nx'], c['ny'], 2, 1, process_shear=True, process_separation=sep, dx=c['dx'], dy=c['dx'],
                     L=c['L'], k=c['k'], l=c['l'], alfa=0., buffer_width=2 * c['dx'], method_roughness=c['rough'])
    s = state.state(p)
    s['x'][:] = np.arange(c['nx'] + 1)[None, :] * c['dx'] + c['x0']
    s['y'][:] = np.arange(c['ny'] + 1)[:, None] * c['dx'] - c['x0']
    s['zb'] = z.copy()
    s['mass'][:] = 1.
    u = c['udir'] if udir is None else udir
    p['wind_file'] = np.array([[0., c['uw'], u], [3600., c['uw'], u]])
    s = wd.initialize(s, p)
    s = wd.interpolate(s, p, 10.)
    before = {k: s[k].copy() for k in ('taus', 'taun', 'tau', 'ustar', 'ustars', 'ustarn', 'x', 'y', 'zb', 'uw', 'tau0', 'ustar0')}
    s = wd.shear(s, p)
    for k in ('x', 'y', 'zb', 'uw', 'tau0', 'ustar0'):
        close(s[k], before[k], '%s changed by the shear computation' % k, rtol=1e-12, atol=1e-9)
    for k in ('taus', 'taun', 'tau', 'ustar', 'ustars', 'ustarn'):
        finite(s[k], k)
    close(s['tau'], np.hypot(s['taus'], s['taun']), 'shear stress versus its components', rtol=1e-9, atol=1e-12)
    close(s['ustar'], np.sqrt(s['tau'] / p['rhoa']), 'shear velocity versus shear stress', rtol=1e-9, atol=1e-12)
    close(s['ustars'] * s['tau'], s['ustar'] * s['taus'], 'direction of the shear velocity', rtol=1e-8, atol=1e-12)
    close(s['ustarn'] * s['tau'], s['ustar'] * s['taun'], 'direction of the shear velocity', rtol=1e-8, atol=1e-12)
    # no stress against the wind
    e = np.array([before['taus'][0, 0], before['taun'][0, 0]])
    t0 = np.hypot(*e)
    e = e / t0
    check(np.all(s['taus'] * e[0] + s['taun'] * e[1] >= -1e-9 * t0), 'shear stress directed against the wind')
    if sep:
        check(np.all(s['hsep'] >= -1e-12), 'separation surface below the bed')
        close(s['zsep'], s['zb'] + s['hsep'], 'separation surface', rtol=1e-12, atol=1e-12)
    return s, before, t0


def flat(c):
    z = np.full((c['ny'] + 1, c['nx'] + 1), c['level'])
    s, b, t0 = run2d(c, z, sep=c['sep'])
    for k in ('taus', 'taun', 'tau'):
        close(s[k], b[k], '%s over a flat bed' % k, rtol=0, atol=1e-7 * t0)
    if c['sep']:
        close(s['hsep'], 0., 'separation over a flat bed', rtol=0, atol=1e-9)
    c.label('oblique' if c['udir'] % 90 else 'aligned')
    c.hit(c['level'] != 0)


def perturbation(c):
    """datum, linearity, mirror and half-turn symmetry of the perturbation over a hill"""
    z = bump(c)
    s, b, t0 = run2d(c, z)
    ds, dn = s['taus'] - b['taus'], s['taun'] - b['taun']
    mag = np.hypot(ds, dn).max()
    s2, _, _ = run2d(c, z + c['level'])
    close(s2['taus'], s['taus'], 'shear stress after shifting the bed vertically', rtol=0, atol=1e-6 * t0 + 1e-6 * mag)
    close(s2['taun'], s['taun'], 'shear stress after shifting the bed vertically', rtol=0, atol=1e-6 * t0 + 1e-6 * mag)
    e = np.array([b['taus'][0, 0], b['taun'][0, 0]]) / t0
    clipped = np.any(s['taus'] * e[0] + s['taun'] * e[1] < .3 * t0)
    if not clipped:
        s3, _, _ = run2d(c, z * .5)
        close(s3['taus'] - b['taus'], .5 * ds, 'perturbation by a hill of half the height', rtol=0, atol=.01 * mag + 1e-9 * t0)
        close(s3['taun'] - b['taun'], .5 * dn, 'perturbation by a hill of half the height', rtol=0, atol=.01 * mag + 1e-9 * t0)
    tol = .1 * mag + 4e-4 * t0               # directions 0 and 270 are nudged by 0.01 degrees
    # mirror in n: wind from 180 - udir
    s4, b4, _ = run2d(c, z[::-1], udir=180. - c['udir'])
    close(s4['taus'][::-1], s['taus'], 'shear stress in the mirrored set-up', rtol=0, atol=tol)
    close(-s4['taun'][::-1], s['taun'], 'shear stress in the mirrored set-up', rtol=0, atol=tol)
    # half turn
    s5, b5, _ = run2d(c, z[::-1, ::-1], udir=c['udir'] + 180.)
    close(-s5['taus'][::-1, ::-1], s['taus'], 'shear stress in the set-up turned by 180 degrees', rtol=0, atol=tol)
    close(-s5['taun'][::-1, ::-1], s['taun'], 'shear stress in the set-up turned by 180 degrees', rtol=0, atol=tol)
    # speed-up over the crest, relative perturbation independent of the wind speed
    j, k = np.unravel_index(np.argmax(z), z.shape)
    if c['h'] > .02:
        check(s['taus'][j, k] * e[0] + s['taun'][j, k] * e[1] > t0, 'no speed-up over the crest of a hill')
    c2 = dict(c, uw=c['uw'] * .5)
    s6, b6, t6 = run2d(c2, z)
    close(s6['taus'] / t6, s['taus'] / t0, 'relative shear stress at half the wind speed', rtol=0, atol=1e-6)
    c.hit(mag > .01 * t0)
    c.label('clipped' if clipped else 'not clipped')


def stopped(c):
    """where the topography would turn the stress against the wind, no stress in wind direction remains; elsewhere it is the linear perturbation"""
    z = bump(dict(c, h=1. + 3. * c['h']))
    f = .02
    a, b, t0 = run2d(c, z * f)
    s, _, _ = run2d(c, z)
    e = np.array([b['taus'][0, 0], b['taun'][0, 0]]) / t0
    want = t0 + ((a['taus'] - b['taus']) * e[0] + (a['taun'] - b['taun']) * e[1]) / f
    got = s['taus'] * e[0] + s['taun'] * e[1]
    lo = scipy.ndimage.minimum_filter(want, 5, mode='nearest')
    hi = scipy.ndimage.maximum_filter(want, 3, mode='nearest')
    inner = np.zeros(want.shape, bool)
    inner[2:-2, 2:-2] = True
    m = np.abs(want - t0).max()
    no = inner & (hi < -.01 * m)
    yes = inner & (lo > .15 * m)
    close(got[no], 0., 'stress in wind direction where the topography stops the wind', rtol=0, atol=1e-3 * t0 + 2e-3 * m)
    close(got[yes], want[yes], 'stress in wind direction versus linear perturbation', rtol=0, atol=.02 * m + 1e-3 * t0)
    c.hit(no.any())


def separation(c):
    """bubbles only arise behind steep lee slopes, and only shelter"""
    z = hill(dict(c, h=c['h'] * .1))
    s, b, t0 = run2d(c, z + c['level'], sep=True)
    n, _, _ = run2d(c, z + c['level'], sep=False)
    close(s['hsep'], 0., 'separation over gentle slopes', rtol=0, atol=1e-9)
    close(s['taus'], n['taus'], 'shear stress without separation', rtol=0, atol=1e-9 * t0)
    # a dune with a steep lee side, aligned with the wind
    X, Y = np.meshgrid(np.arange(c['nx'] + 1.), np.arange(c['ny'] + 1.))
    kb = int(c['nx'] * (.3 + .25 * c['cx']))
    H = (1.6 + c['h'] * 1.4) * c['dx']
    z = np.clip((X - 1) / (kb - 1), 0, 1) * H * (X <= kb)
    s, b, t0 = run2d(c, z + c['level'], udir=270., sep=True)
    n, _, _ = run2d(c, z + c['level'], udir=270., sep=False)
    s2, _, _ = run2d(c, z, udir=270., sep=True)
    close(s2['hsep'], s['hsep'], 'separation bubble after shifting the bed vertically', rtol=0, atol=1e-6 * H)
    close(s2['tau'], s['tau'], 'shear stress after shifting the bed vertically', rtol=0, atol=1e-5 * t0)
    check(s['hsep'].max() > .1 * H, 'no separation bubble behind a steep lee slope')
    check(s['hsep'][:, :kb - 1].max() < 1e-9, 'separation bubble upwind of the brink')
    lee = s['hsep'] > .35 * H                       # well inside the bubble
    check(np.all(s['tau'][lee] < .3 * t0), 'no shelter inside the separation bubble')
    # wind from the other side does not see a lee slope
    w, _, _ = run2d(c, z + c['level'], udir=90., sep=True)
    if H / ((kb - 1) * c['dx']) < .35:
        close(w['hsep'], 0., 'separation bubble upwind of a steep slope', rtol=0, atol=1e-6 * H)
        c.label('gentle windward slope')
    c.hit(lee.any())


# ---------------------------------------------- spectral solution and bubble shear, direct

@st.composite
def spectral_cases(draw):
    ny, nx = draw(st.integers(4, 9)), draw(st.integers(4, 9))
    return dict(z=draw(grid((ny, nx), -.5, .5)), dx=draw(F(.5, 5.)), dy=draw(F(.5, 5.)), L=draw(F(20., 200.)), l=draw(F(2., 20.)),
                z0=draw(F(1e-4, 1e-2)), u0=draw(F(0., 20., (0.,))), hsep=draw(grid((ny, nx), 0., .15)),
                tx=draw(grid((ny, nx), -1., 1.)), ty=draw(grid((ny, nx), -1., 1.)), varz0=draw(st.booleans()))


def spectral(c):
    ny, nx = c['z'].shape
    x, y = np.meshgrid(np.arange(nx) * c['dx'], np.arange(ny) * c['dy'])
    w = sh.WindShear(x, y, c['z'], dx=c['dx'], dy=c['dy'], L=c['L'], l=c['l'], z0=c['z0'], buffer_width=10.)
    w.igrid = dict(x=x, y=y, z=c['z'])
    w.cgrid.update(x=x, y=y, z=c['z'].copy(), taux=c['tx'].copy(), tauy=c['ty'].copy())
    w.x0, w.y0 = x.mean(), y.mean()
    w.compute_shear(c['u0'])
    gx, gy = w.cgrid['dtaux'].copy(), w.cgrid['dtauy'].copy()
    rx, ry = np.zeros((ny, nx)), np.zeros((ny, nx))
    if c['u0'] != 0:
        L, l, z0 = c['L'] / 4., c['l'], c['z0']
        for i in range(5):
            l = 2 * .41 ** 2 * L / np.log(l / z0)
        hm = 1.
        for i in range(5):
            hm = L / np.sqrt(np.log(hm / z0))
        ul = np.log(l / z0) / np.log(hm / z0)
        jj, ii = np.mgrid[0:ny, 0:nx]
        A, B = np.zeros((ny, nx), complex), np.zeros((ny, nx), complex)
        for n in range(ny):
            for m in range(nx):
                mm = m if m < (nx + 1) // 2 else m - nx
                nn = n if n < (ny + 1) // 2 else n - ny
                if mm == 0:
                    continue
                kx, ky = 2 * np.pi * mm / (nx * c['dx']), 2 * np.pi * nn / (ny * c['dy'])
                ph = np.exp(-2j * np.pi * (m * ii / nx + n * jj / ny))
                hs = (c['z'] * ph).sum()
                px = nx / abs(mm)
                f = 1 / (1 + np.exp(-(px - 1) / (1 / np.log(99.))))
                if nn:
                    f *= 1 / (1 + np.exp(-(ny / abs(nn) - 1) / (2 / np.log(99.))))
                hs = hs * f
                k = np.hypot(kx, ky)
                sg = np.sqrt(1j * L * kx * z0 / l)
                K0, K1 = scipy.special.kv(0, 2 * sg), scipy.special.kv(1, 2 * sg)
                a = hs * kx ** 2 / k * 2 / ul ** 2 * (-1 + (2 * np.log(l / z0) + k ** 2 / kx ** 2) * sg * K1 / K0)
                b = hs * kx * ky / k * 2 / ul ** 2 * 2 * np.sqrt(2) * sg * scipy.special.kv(1, 2 * np.sqrt(2) * sg)
                A += a * np.conj(ph)
                B += b * np.conj(ph)
        rx, ry = A.real / (nx * ny), B.real / (nx * ny)
    m = max(np.abs(rx).max(), 1e-12)
    close(gx, rx, 'perturbation in wind direction', rtol=0, atol=1e-8 * m + 1e-10)
    close(gy, ry, 'perturbation across the wind', rtol=0, atol=1e-8 * m + 1e-10)
    w.add_shear()
    t = np.hypot(c['tx'], c['ty'])
    close(w.cgrid['taux'], c['tx'] + t * rx, 'perturbed stress in wind direction', rtol=1e-9, atol=1e-8 * max(m, 1))
    close(w.cgrid['tauy'], c['ty'] + t * ry, 'perturbed stress across the wind', rtol=1e-9, atol=1e-8 * max(m, 1))
    a, b = w.cgrid['taux'].copy(), w.cgrid['tauy'].copy()
    w.separation_shear(c['hsep'])
    f = np.clip(1 - c['hsep'] / .1, 0, 1)
    close(w.cgrid['taux'], a * f, 'stress below the separation surface', rtol=1e-9, atol=1e-12)
    close(w.cgrid['tauy'], b * f, 'stress below the separation surface', rtol=1e-9, atol=1e-12)
    c.hit(m > .01)


# ------------------------------------------------- shape of the separation bubbles, direct

def cubic(z0, slope, drop, l, x):
    """leaves (0, z0) with the given slope and touches z0 - drop horizontally after a length l"""
    a = np.linalg.solve([[l ** 3, l ** 2], [3 * l ** 2, 2 * l]], [-drop - slope * l, -slope])
    return a[0] * x ** 3 + a[1] * x ** 2 + slope * x + z0


def length(drop, slope, c):
    a = slope / c
    return min(max(1.5 * drop / c * (1 + a / 4 + a ** 2 / 8), .1), 200.)


def brinks(slope, mu):
    """first cells of every steep lee slope"""
    steep = slope < -np.tan(np.radians(mu))
    gap = steep.copy()
    gap[1:-1] |= steep[:-2] & steep[2:]
    return [k + 1 for k in range(len(gap) - 1) if not gap[k] and gap[k + 1]]


@st.composite
def dunes(draw):
    nx = draw(st.integers(24, 70))
    ny = draw(st.integers(3, 6))
    dx = draw(st.sampled_from([1., .5, 2.]))
    x = np.arange(nx) * dx
    z = np.zeros((ny, nx))
    for _ in range(draw(st.integers(1, 2))):
        b = draw(st.integers(5, nx - 4))
        h = draw(F(.5, 4.)) * dx
        w = draw(st.integers(3, 15))
        e = draw(st.integers(1, 4))                          # width of the lee slope
        for j in range(ny):
            bj = b + (draw(st.integers(-1, 1)) if draw(st.booleans()) else 0)
            z[j] = np.maximum(z[j], np.interp(np.arange(nx), [bj - w, bj, bj + e], [0., h, 0.]))
    return dict(nx=nx, ny=ny, dx=dx, z=z + draw(grid((ny, nx), 0., .05)), level=draw(F(-3., 3., (0.,))), c=draw(st.sampled_from([.2, .2, .1, .3])), mu=draw(st.sampled_from([30., 30., 20., 25.])),
                smooth=draw(st.booleans()))


def bubbles(c):
    z, dx, nx = c['z'] + c['level'], c['dx'], c['nx']
    x, y = np.meshgrid(np.arange(nx) * dx, np.arange(c['ny']) * dx)
    w = sh.WindShear(x, y, z, dx=dx, dy=dx, L=100., l=10., z0=.001, buffer_width=10.)
    w.cgrid.update(x=x, y=y, z=z.copy(), taux=np.ones(z.shape), tauy=np.zeros(z.shape))
    w.x0, w.y0 = x.mean(), y.mean()
    got = w.separation(c['c'], c['mu'], 0, c['smooth'])
    want = z.copy()
    some = False
    for j in range(c['ny']):
        sl = (z[j, 2:] - z[j, :-2]) / (2 * dx)
        sl = np.concatenate([sl, [sl[-1], sl[-1]]])
        if np.any(np.abs(sl + np.tan(np.radians(c['mu']))) < 1e-9):
            return
        for i in brinks(sl, c['mu']):
            if i < 3:
                c.label('brink at the edge')
                return
            rise = np.nonzero(sl[i + 5:] >= 0)[0]
            drop = z[j, i] - (z[j, i + 5 + rise[0]] if len(rise) else 0.)
            s0 = (z[j, i] - z[j, i - 3]) / (3 * dx)
            l = length(drop, s0, c['c'])
            if abs(l / dx - np.round(l / dx)) < 1e-6:
                return
            n = min(i + int(l / dx) + 1, nx - 1)
            want[j, i:n] = np.maximum(want[j, i:n], cubic(z[j, i], s0, drop, l, np.arange(n - i) * dx))
            some = some or np.any(want[j] > z[j] + .05)
    if c['smooth']:
        want = scipy.ndimage.gaussian_filter1d(want, sigma=.2, axis=0)
        want = np.maximum(want, z)
    close(got, want, 'separation surface', rtol=1e-8, atol=1e-8)
    c.hit(some)


# ----------------------------------------------------------------- 1D

@st.composite
def cases1d(draw):
    nx = draw(st.integers(6, 30))
    return dict(nx=nx, dx=draw(F(.5, 5.)), z=draw(grid((nx + 1,), -.1, .1)), trend=draw(F(-.2, .2)), level=draw(F(-5., 5.)),
                steep=draw(st.sampled_from([0., 0., 1.5, 3.])), brink=draw(st.integers(3, max(4, nx - 2))), ext=draw(st.booleans()),
                udir=draw(st.one_of(F(0.5, 359.5).filter(lambda v: abs(np.sin(np.deg2rad(v))) > .05), st.sampled_from([270., 90., 225.]))),
                uw=draw(F(2., 25.)), sep=draw(st.booleans()))


def run1d(c, z, udir, sep=False):
    p = state.params(c['nx'], 0, 2, 1, process_shear=True, process_separation=sep, dx=c['dx'], dy=c['dx'])
    s = state.state(p)
    s['x'][:] = np.arange(c['nx'] + 1)[None, :] * c['dx']
    s['zb'][0, :] = z
    p['wind_file'] = np.array([[0., c['uw'], udir], [3600., c['uw'], udir]])
    s = wd.initialize(s, p)
    s = wd.interpolate(s, p, 10.)
    b = {k: s[k].copy() for k in ('taus', 'taun', 'tau')}
    s = wd.shear(s, p)
    for k in ('taus', 'taun', 'tau', 'ustar', 'ustars', 'ustarn'):
        finite(s[k], k)
    close(s['zb'][0], z, 'bed changed by the shear computation', rtol=0, atol=0)
    close(s['ustar'], np.sqrt(s['tau'] / p['rhoa']), 'shear velocity versus shear stress', rtol=1e-9, atol=1e-12)
    close(s['taus'] * b['taun'], s['taun'] * b['taus'], 'direction of the shear stress', rtol=1e-8, atol=1e-12)
    close(s['ustars'] * s['tau'], s['ustar'] * s['taus'], 'direction of the shear velocity', rtol=1e-8, atol=1e-12)
    return s, b


def ref1d(c, z, udir):
    flip = -np.sin(np.deg2rad(udir)) < 0
    zz = z[::-1] if flip else z
    dz = np.zeros(len(z))
    dz[1:-1] = (zz[2:] - zz[:-2]) / (2 * c['dx'])
    n = len(z)
    f = np.zeros(n)
    for i in range(n):
        f[i] = 1 + 3 * (dz[i] + sum(dz[m] / (np.pi * (i - m)) for m in range(n) if m != i))
    f = np.maximum(f, .1)
    return f[::-1] if flip else f


def transect(c):
    z = c['z'] + c['trend'] * np.arange(c['nx'] + 1) * c['dx'] * .2
    if c['steep']:
        z = z + c['steep'] * c['dx'] * (np.arange(c['nx'] + 1) <= c['brink'])
    f = ref1d(c, z, c['udir'])
    s, b = run1d(c, z, c['udir'])
    for k in ('tau', 'taus', 'taun'):
        close(s[k][0], b[k][0] * f, '%s over a transect' % k, rtol=1e-8, atol=1e-12)
    s2, _ = run1d(c, z + c['level'], c['udir'])
    close(s2['tau'], s['tau'], 'shear stress after shifting the bed vertically', rtol=1e-6, atol=1e-9)
    s3, _ = run1d(c, z[::-1], 360. - c['udir'])
    close(s3['tau'][0][::-1], s['tau'][0], 'shear stress in the mirrored set-up', rtol=1e-6, atol=1e-9)
    flat, bf = run1d(c, np.full(c['nx'] + 1, c['level']), c['udir'], sep=c['sep'])
    close(flat['tau'], bf['tau'], 'shear stress over a flat transect', rtol=1e-9)
    c.hit(np.abs(f - 1).max() > .01)


@st.composite
def dunes1d(draw):
    nx = draw(st.integers(20, 50))
    dx = draw(F(.5, 3.))
    b = draw(st.integers(6, nx - 6))
    h = draw(F(.8, 3.)) * dx
    w = draw(st.integers(4, 14))
    e = draw(st.integers(1, 2)) if h > 1.5 * dx else 1
    stoss = np.interp(np.arange(nx + 1), [b - w, b, b + e], [0., h, 0.])
    return dict(nx=nx, dx=dx, z=stoss + draw(grid((nx + 1,), 0., .02)) * (np.arange(nx + 1) < b), ext=False, udir=draw(st.one_of(st.sampled_from([270., 90.]), F(225., 315.), F(45., 135.))),
                uw=draw(F(3., 20.)))


def transect_bubble(c):
    """single dune on a floor at the reference level; the height of the brink above the floor and above the reference level are the same"""
    flip = -np.sin(np.deg2rad(c['udir'])) < 0
    z, n = c['z'], c['nx'] + 1
    s, _ = run1d(c, z[::-1] if flip else z, c['udir'], sep=True)
    got = np.atleast_2d(s['zsep'])[0]
    got = got[::-1] if flip else got
    dxa = c['dx'] / abs(np.sin(np.deg2rad(c['udir'])))
    sl = np.empty(n)
    sl[:-1] = np.diff(z) / dxa
    sl[0], sl[-1] = sl[1], sl[-2]
    if np.any(np.abs(sl + np.tan(np.radians(30.))) < 1e-9):
        return
    want = z.copy()
    where = [b - 3 for b in brinks(sl, 30.)]
    if len(where) > 1 or (where and where[0] < 2):
        return
    for i in where:
        rise = np.nonzero(sl[i + 5:] >= 0)[0]
        if not len(rise) or z[i + 5 + rise[0]] != 0.:
            return
        l0, l1 = length(z[i], (z[i - 1] - z[i - 2]) / dxa, .2), length(z[i], 0., .2)
        if min(abs(l / dxa - np.round(l / dxa)) for l in (l0, l1)) < 1e-6:
            return
        e0, e1 = (min(i + int(l / dxa), n - 1) for l in (l0, l1))
        if e1 > e0:
            e1 = e0
        one = np.zeros(n)
        one[i:e1] = cubic(z[i], 0., z[i], l1, np.arange(e1 - i) * c['dx'])
        want[i:e0] = np.maximum(one[i:e0], z[i:e0])
        c.label('one bubble')
    close(got, want, 'separation surface over a transect', rtol=1e-7, atol=1e-7)
    c.hit(len(where) > 0 and np.any(want > z + .05))


def transect_separation(c):
    z = c['z'] * .2 + 2. * c['dx']
    if c['steep']:
        z = z + c['steep'] * c['dx'] * (np.arange(c['nx'] + 1) <= c['brink'])
    s, b = run1d(c, z, c['udir'], sep=True)
    n, _ = run1d(c, z, c['udir'], sep=False)
    check(np.all(s['zsep'] >= s['zb'] - 1e-12), 'separation surface below the bed')
    close(s['hsep'], s['zsep'] - s['zb'], 'height of the separation bubble', rtol=1e-9, atol=1e-12)
    fac = np.clip(1 - 10 * s['hsep'], 0, 1)
    close(s['taus'], n['taus'] * fac, 'shear stress below the separation surface', rtol=1e-8, atol=1e-12)
    close(s['taun'], n['taun'] * fac, 'shear stress below the separation surface', rtol=1e-8, atol=1e-12)
    close(s['tau'], n['tau'] * fac, 'shear stress below the separation surface', rtol=1e-8, atol=1e-12)
    for a, b in (('ustar', 'tau'), ('ustars', 'taus'), ('ustarn', 'taun')):
        # the shear velocity follows the stress that is left below the separation surface
        root = np.sqrt(s['tau'] / 1.225)
        close(s[a], np.where(s['tau'] > 0, root * s[b] / np.where(s['tau'] > 0, s['tau'], 1.), 0.), '%s below the separation surface' % a, rtol=1e-8, atol=1e-10)
    flip = -np.sin(np.deg2rad(c['udir'])) < 0
    zz = z[::-1] if flip else z
    dxa = c['dx'] / abs(np.sin(np.deg2rad(c['udir'])))
    if not np.any(np.diff(zz) / dxa < -np.tan(np.deg2rad(29.9))):
        close(s['hsep'], 0., 'separation over gentle slopes', rtol=0, atol=1e-9)
        c.label('gentle')
    # the mirrored transect with the mirrored wind has the mirrored bubble
    m, _ = run1d(c, z[::-1], 360. - c['udir'], sep=True)
    close(np.atleast_2d(m['hsep'])[0][::-1], np.atleast_2d(s['hsep'])[0], 'separation bubble in the mirrored set-up', rtol=1e-6, atol=1e-8)
    if np.any(s['hsep'] > 1e-6):
        c.label('bubble')
    c.hit(np.any(s['hsep'] > 1e-6))


CHECKS = [Check('spectral', spectral_cases(), spectral, quick=200),
          Check('flat', cases2d(), flat, quick=100),
          Check('perturbation', cases2d((0., .15)), perturbation, quick=120),
          Check('stopped', cases2d(), stopped, quick=80),
          Check('separation', cases2d(), separation, quick=60),
          Check('bubbles', dunes(), bubbles, quick=300),
          Check('transect', cases1d(), transect, quick=150),
          Check('transect_separation', st.one_of(dunes1d().map(lambda c: dict(c, z=5 * c['z'], steep=0.)), cases1d()), transect_separation, quick=300),
          Check('transect_bubble', dunes1d(), transect_bubble, quick=300)]
