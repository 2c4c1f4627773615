"""C26: vegetation."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import state
import aeolis.vegetation as ve
import aeolis.wind

PROPERTY = 'C26'
RULE = ('Generated vegetation covers, winds, burial rates, water levels, growth and germination parameters over several steps. '
        'Non-trivial: vegetation present in part of the cells (shear), or cover changes in part of the cells (growth).')
YEAR = 365.25 * 24 * 3600.


@st.composite
def shear_cases(draw):
    ny = draw(st.sampled_from([0, 0, 2, 4]))
    nx = draw(st.integers(3, 14))
    sh = (ny + 1, nx + 1)
    return dict(ny=ny, nx=nx, rho=draw(grid(sh, 0., 1., 4)), ustar=draw(grid(sh, 0., 1.)), dirs=draw(grid(sh, 0., 6.2831853)),
                gamma=draw(st.one_of(st.just(16.), F(0., 50.))), sigma=draw(st.sampled_from([.8, 0., .3, 2.])),
                hmax=draw(F(.05, 2.)), typ=draw(st.sampled_from(['raupach', 'okin', 'okin'])), udir=draw(F(-360., 360., (0., 90., 270., 180., -180.))),
                c1=draw(F(.1, 1.)), red=draw(F(0., 1.)), dx=draw(st.sampled_from([1., .5, 3.])), none=draw(st.integers(0, 5)) == 0,
                dead=draw(st.booleans()))


def shear_state(c):
    p = state.params(c['nx'], c['ny'], 2, 1, gamma_vegshear=c['gamma'], veg_sigma=c['sigma'], hveg_max=c['hmax'],
                     vegshear_type=c['typ'], okin_c1_veg=c['c1'], okin_initialred_veg=c['red'], process_vegetation=True, veg_file=None)
    s = state.state(p)
    rho = np.zeros(c['rho'].shape) if c['none'] else np.where(c['rho'] > .5, c['rho'], 0.)
    s['rhoveg'] = rho
    s['hveg'] = c['hmax'] * np.sqrt(rho)
    s['x'] *= c['dx']
    s['ds'][:] = c['dx']
    s['ustar'] = c['ustar'].copy()
    s['ustars'] = s['ustar'] * np.cos(c['dirs'])
    s['ustarn'] = s['ustar'] * np.sin(c['dirs'])
    s['tau'] = p['rhoa'] * s['ustar'] ** 2
    s['taus'] = s['tau'] * np.cos(c['dirs'])
    s['taun'] = s['tau'] * np.sin(c['dirs'])
    s['udir'][:] = c['udir']
    return p, s


def gauss(a, sigma):
    """truncated Gaussian smoothing with reflection at the edges"""
    if sigma == 0:
        return a
    r = int(4. * sigma + .5)
    k = np.exp(-.5 * (np.arange(-r, r + 1) / sigma) ** 2)
    k /= k.sum()
    for ax in (0, 1):
        n = a.shape[ax]
        out = np.zeros(a.shape)
        for o, w in zip(range(-r, r + 1), k):
            ix = np.arange(n) + o
            ix = ix % (2 * n)
            ix = np.where(ix >= n, 2 * n - 1 - ix, ix)
            out += w * np.take(a, ix, axis=ax)
        a = out
    return a


def shear(c):
    p, s = shear_state(c)
    u0, us0, un0 = s['ustar'].copy(), s['ustars'].copy(), s['ustarn'].copy()
    rho, h = s['rhoveg'].copy(), s['hveg'].copy()
    s = ve.vegshear(s, p)
    for k in ('ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun'):
        finite(s[k], k)
    okin = c['typ'] == 'okin' and c['ny'] == 0
    if okin:
        to = (c['udir'] + 180.)
        to = to + 360. if to < 0 else to
        to = to - 360. if to > 360 else to
        sign = -1. if 180. <= to <= 360. else 1.
        x = s['x'][0]
        red = np.zeros(x.shape)
        for i in range(x.size):
            if h[0, i] <= 0:
                continue
            for j in range(x.size):
                d = sign * (x[j] - x[i])
                if 0 <= d and d / h[0, i] < 20:
                    r = 1 - (c['red'] + (1 - c['red']) * (1 - np.exp(-d * c['c1'] / h[0, i])))
                    red[j] += r if r >= 1e-5 else 0.
        want = np.maximum(u0 * (1 - np.minimum(red, 1.))[None, :], .01)
    else:
        fac = gauss(1. / np.sqrt(1. + c['gamma'] * rho), c['sigma'])
        want = u0 * fac
        close(s['vegfac'], fac, 'reduction factor of vegetation', rtol=1e-9)
        check(np.all(s['ustar'] <= u0 * (1 + 1e-12)), 'vegetation increases the shear velocity')
    close(s['ustar'], want, 'shear velocity between vegetation', rtol=1e-9, atol=1e-12)
    mov = u0 > 0
    close(s['ustars'][mov], (s['ustar'] * us0 / np.where(mov, u0, 1.))[mov], 'shear velocity in s-direction', rtol=1e-9, atol=1e-12)
    close(s['ustarn'][mov], (s['ustar'] * un0 / np.where(mov, u0, 1.))[mov], 'shear velocity in n-direction', rtol=1e-9, atol=1e-12)
    close(s['tau'][mov], (p['rhoa'] * s['ustar'] ** 2)[mov], 'shear stress between vegetation', rtol=1e-9, atol=1e-12)
    close(np.hypot(s['taus'], s['taun'])[mov], s['tau'][mov], 'components of shear stress', rtol=1e-9, atol=1e-12)
    close((s['taus'] * s['ustarn'])[mov], (s['taun'] * s['ustars'])[mov], 'direction of shear stress', rtol=1e-8, atol=1e-12)
    if c['none'] and not okin:
        close(s['ustar'], u0, 'shear velocity without vegetation', rtol=1e-12)
    check(np.array_equal(s['rhoveg'], rho) and np.array_equal(s['hveg'], h), 'vegetation changed by shear')
    c.label('okin' if okin else 'raupach')
    c.hit(rho.any() and not rho.all() and u0.any())


@st.composite
def grow_cases(draw):
    ny = draw(st.sampled_from([0, 0, 2, 3]))
    nx = draw(st.integers(2, 8))
    sh = (ny + 1, nx + 1)
    n = draw(st.integers(1, 5))
    return dict(ny=ny, nx=nx, n=n, file=draw(grid(sh, -.5, 1., 4)), typ=draw(st.sampled_from(['orig', 'orig', 'duranmoore14'])),
                vver=draw(st.one_of(st.just(0.), F(.1, 20.), F(.1, 20.))), hmax=draw(F(.2, 2.)), vg=draw(F(0., 3.)), opt=draw(F(-1., 1.)),
                dzb=[draw(grid(sh, -6., 6.)) for _ in range(n)], zs=[draw(F(-2., 3.)) for _ in range(n)], depth=draw(st.one_of(st.none(), grid(sh, -.005, .03))), zb=draw(grid(sh, -1., 3.)),
                tide=draw(st.booleans()), zmin=draw(st.sampled_from([-10., 0., 1.])), dts=[draw(st.sampled_from([60., 3600., 86400., 864000.])) for _ in range(n)],
                pconf=draw(st.sampled_from([60., 3600.])), acc=draw(st.sampled_from([1., 10.])), tveg=draw(F(1., 30.)), vgam=draw(F(0., 2.)),
                rmax=draw(F(.2, 1.)), lat=draw(st.one_of(st.none(), grid(sh, 0., 1., 1))), germ=draw(st.sampled_from([0., 0., 1.])), dx=draw(st.sampled_from([1., 2.])), nan=draw(st.integers(0, 9)) == 0)


def growth(c):
    f = c['file'].copy()
    if c['nan']:
        f[0, 0] = np.nan
    p = state.params(c['nx'], c['ny'], 2, 1, veg_file=f, hveg_max=c['hmax'], V_ver=c['vver'], veg_gamma=c['vg'], dzb_opt=c['opt'],
                     veggrowth_type=c['typ'], germinate=c['germ'], lateral=0., process_tide=c['tide'], veg_min_elevation=c['zmin'],
                     accfac=c['acc'], dt=c['pconf'], t_veg=c['tveg'], v_gam=c['vgam'], rhoveg_max=c['rmax'], process_vegetation=True, dx=c['dx'])
    s = state.state(p)
    s['ds'][:] = c['dx']
    s['zb'] = c['zb'].copy()
    s = ve.initialize(s, p)
    rho = np.zeros(f.shape) if c['nan'] else np.maximum(f, 0.)
    h = c['hmax'] * np.sqrt(rho)
    close(s['rhoveg'], rho, 'initial vegetation density')
    close(s['hveg'], h, 'initial vegetation height')
    germ = rho > 0
    lat = np.zeros(rho.shape, bool) if c['lat'] is None else c['lat'] > .5      # cells that plants have spread to before
    s['lateral'][:, :] = lat
    changed = False
    for k in range(c['n']):
        p['dt_opt'] = c['dts'][k]
        s['dzbveg'] = c['dzb'][k].copy()
        s['zs'] = np.full(s['zb'].shape, c['zs'][k]) if c['depth'] is None else c['zb'] + c['depth']
        zs = s['zs'].copy()
        s = ve.germinate(s, p)
        s = ve.grow(s, p)
        # reference; without lateral expansion, germination everywhere (1) or nowhere (0)
        dty = c['dts'][k] * c['acc'] / YEAR
        germ = rho > 0
        if c['germ'] == 1.:
            germ = germ | (c['dzb'][k] >= 0)
        old = rho.copy()
        act = (germ | lat) & (c['vver'] > 0)
        if c['typ'] == 'orig':
            dh = np.where(act, c['vver'] * (1 - h / c['hmax']) - np.abs(c['dzb'][k] - c['opt']) * c['vg'], 0.)
            h = np.clip(h + dh * dty, 0., c['hmax'])
            rho = (h / c['hmax']) ** 2
        else:
            zero = rho <= 0
            rho = np.minimum(rho, c['rmax'])
            dr = np.where(act, (c['rmax'] - rho) / (c['tveg'] / 365) - c['vgam'] / c['hmax'] * np.abs(c['dzb'][k] - c['opt']) * c['vg'], 0.)
            rho = np.maximum(rho + dr * dty, 0.)
            rho[zero] = 0.
            h = c['hmax'] * np.sqrt(rho)
        wet = (c['zb'] + .01 < zs) if c['tide'] else np.zeros(rho.shape, bool)
        gone = wet | (c['zb'] < c['zmin'])
        rho = np.where(gone, 0., rho)
        h = np.where(gone, 0., h)
        germ = germ & (rho != 0) & ~gone
        close(s['rhoveg'], rho, 'vegetation density after step %d' % (k + 1), rtol=1e-9, atol=1e-13)
        close(s['hveg'], h, 'vegetation height after step %d' % (k + 1), rtol=1e-9, atol=1e-13)
        close(s['germinate'], germ, 'germination after step %d' % (k + 1))
        lat = lat & (rho != 0) & ~gone
        close(s['lateral'], lat, 'lateral expansion after step %d' % (k + 1))
        changed = changed or ((rho != old).any() and not gone.all())
    c.label(c['typ'])
    c.hit(changed)


@st.composite
def random_cases(draw):
    return dict(seed=draw(st.integers(0, 2 ** 31)), p=draw(F(.05, .95)), q=draw(F(.05, .95)), years=draw(st.sampled_from([1., .5, .25, 2.])),
                two=draw(st.booleans()), dx=draw(st.sampled_from([1., 2., 4.])), acc=draw(st.sampled_from([1., 12.])), mixed=draw(st.booleans()))


def chance(c):
    """germination and lateral expansion happen with the given yearly probability"""
    n = 63
    ny = n if c['two'] else 0
    nx = n if c['two'] else 4095
    p = state.params(nx, ny, 1, 1, germinate=c['p'], lateral=c['q'], accfac=c['acc'], dx=c['dx'], veg_file=None)
    p['dt_opt'] = c['years'] * YEAR / c['acc']
    s = state.state(p)
    s['ds'][:] = c['dx']
    s['dn'][:] = c['dx']
    r = np.random.RandomState(c['seed'])
    s['rhoveg'] = np.where(r.rand(*s['zb'].shape) < .3, .5, 0.) if c['mixed'] else s['rhoveg']
    s['dzbveg'] = np.where(r.rand(*s['zb'].shape) < .3, -1., 0.)
    veg = s['rhoveg'] > 0
    np.random.seed(c['seed'] + 12345)
    s = ve.germinate(s, p)
    g, lat = s['germinate'], s['lateral']
    check(np.isin(g, (0., 1.)).all() and np.isin(lat, (0., 1.)).all(), 'germination is neither zero nor one')
    check(np.all(g[veg] == 1), 'vegetated cells are not germinated')
    check(not np.any(g[~veg & (s['dzbveg'] < 0)]), 'cells germinated during erosion')
    cand = ~veg & (s['dzbveg'] >= 0)
    N, P = cand.sum(), 1 - (1 - c['p']) ** c['years']
    k = g[cand].sum()
    check(abs(k - N * P) <= 6 * np.sqrt(N * P * (1 - P)) + 1, '%d of %d cells germinated, expected %.1f', k, N, N * P)
    # lateral expansion: cells with denser neighbours only
    v = np.pad(s['rhoveg'], 1, mode='edge')
    cnt = sum((b > s['rhoveg']).astype(int) for b in ((v[1:-1, :-2], v[1:-1, 2:], v[:-2, 1:-1], v[2:, 1:-1])))
    check(not np.any(lat[cnt == 0]), 'lateral expansion without vegetated neighbour')
    Pc = 1 - (1 - (1 - (1 - c['q']) ** c['years'])) ** (1. / c['dx'])
    exp = np.minimum(1., Pc * cnt)
    E, V = exp.sum(), (exp * (1 - exp)).sum()
    check(abs(lat.sum() - E) <= 6 * np.sqrt(V) + 1, '%d cells with lateral expansion, expected %.1f', lat.sum(), E)
    c.hit(0 < k < N)


CHECKS = [Check('shear', shear_cases(), shear, quick=900),
          Check('growth', grow_cases(), growth, quick=900),
          Check('chance', random_cases(), chance, quick=80)]
