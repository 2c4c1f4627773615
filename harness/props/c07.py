"""C07: saturated sediment concentration and grain speed."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import state
import aeolis.transport as tr

PROPERTY = 'C07'
RULE = ('Generated shear velocity, threshold (per fraction, infinite in places), wind and separation-bubble fields for '
        'all transport and grain speed formulations on 1D and 2D grids. Non-trivial: some cell above and some cell '
        'below the threshold of motion.')
METHODS = ['bagnold', 'bagnold_gs', 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen']


@st.composite
def cases(draw, speeds=('windspeed', 'constant', 'duran')):
    ny = draw(st.sampled_from([0, 0, 2, 3]))
    nx = draw(st.integers(2, 6))
    nf = draw(st.integers(1, 3))
    sh = (ny + 1, nx + 1)
    return dict(ny=ny, nx=nx, nf=nf, method=draw(st.sampled_from(METHODS)), speed=draw(st.sampled_from(list(speeds))),
                upper=draw(st.booleans()),
                ustar=draw(grid(sh, 0., 1.2)), ustar0=draw(grid(sh, .05, 1.2)), dir=draw(grid(sh, -3.1, 3.1)),
                wdir=draw(F(-3.1, 3.1)), uw=draw(grid(sh, 1., 25.)), calm=draw(st.booleans()),
                uth=draw(grid(sh + (nf,), .12, .6)), uth0=draw(grid((nf,), .15, .4)), dry=draw(st.booleans()),
                zb=draw(grid(sh, -.3, .3)), flat=draw(st.booleans()), sep=draw(grid(sh, 0., 1.)),
                thick=draw(st.sampled_from([.5, .02, .008])),
                dx=draw(F(.5, 5.)), dy=draw(F(.5, 5.)),
                d=draw(grid((nf,), 150e-6, 800e-6)), accfac=draw(st.sampled_from([1., 1., 10., 3.5])),
                rhoa=draw(F(1., 1.4)), g=draw(st.sampled_from([9.81, 3.7])), C=draw(F(.5, 8.)))


def build(c):
    nf = c['nf']
    m = c['method']
    p = state.params(c['nx'], c['ny'], 2, nf, method_transport=m.upper() if c['upper'] else m,
                     method_grainspeed=c['speed'], accfac=c['accfac'], rhoa=c['rhoa'], g=c['g'],
                     grain_size=np.sort(c['d']))
    p.update(Cb=c['C'], Ck=c['C'] * 1.1, Cl=c['C'] * 1.2, Cdk=c['C'] * 1.3)
    s = state.state(p)
    s['x'][:] = np.arange(c['nx'] + 1)[None, :] * c['dx']
    s['y'][:] = np.arange(c['ny'] + 1)[:, None] * c['dy']
    s['zb'] = np.zeros(c['zb'].shape) if c['flat'] else c['zb'].copy()
    s['zsep'] = s['zb'] + np.where(c['sep'] > .85, c['thick'], 0.)
    uw = c['uw'].copy()
    if c['calm'] and c['speed'] != 'duran':
        uw[0, 0] = 0.
    s['uw'], s['uws'], s['uwn'] = uw, uw * np.cos(c['wdir']), uw * np.sin(c['wdir'])
    s['ustar'] = c['ustar'].copy()
    s['ustars'], s['ustarn'] = c['ustar'] * np.cos(c['dir']), c['ustar'] * np.sin(c['dir'])
    s['ustar0'] = c['ustar0'].copy()
    s['uth'] = c['uth'].copy()
    if c['dry']:
        s['uth'][0, 1, :] = np.inf
    s['uthf'] = s['uth'].copy()
    s['uth0'][:] = np.sort(c['uth0'])
    for k in ('Cu', 'Cuf', 'Cu0'):
        s[k][:] = 7.                       # left-overs of the previous step
    return p, s


def formula(p, us, ut, u, d):
    m = p['method_transport'].lower()
    r = p['rhoa'] / p['g']
    with np.errstate(all='ignore'):
        if m == 'bagnold':
            c = p['Cb'] * r * (us - ut) ** 3 / u
        elif m == 'bagnold_gs':
            c = p['Cb'] * np.sqrt(d / 250e-6) * r * (us - ut) ** 3 / u
        elif m == 'kawamura':
            c = p['Ck'] * r * (us + ut) ** 2 * (us - ut) / u
        elif m == 'lettau':
            c = p['Cl'] * r * us ** 2 * (us - ut) / u
        elif m == 'dk':
            c = p['Cdk'] * r * .8 * ut * (us ** 2 - (.8 * ut) ** 2) / u
        elif m == 'sauermann':
            c = .7 * r * (us ** 2 - ut ** 2)
        else:
            c = p['Cb'] * r * (us ** 3 - ut ** 3) / u
    return np.maximum(c, 0.)


def saturation(c):
    p, s = build(c)
    inp = {k: s[k].copy() for k in ('ustar', 'ustar0', 'uth', 'uth0', 'uw', 'uws', 'uwn', 'zb')}
    s = tr.equilibrium(s, p)
    for k, v in inp.items():
        close(s[k], v, '%s changed by the computation of the saturated concentration' % k, rtol=0, atol=0)
    nf = c['nf']
    us, us0 = s['ustar'][:, :, None], s['ustar0'][:, :, None]
    u = s['u']
    d = p['grain_size'][None, None, :]
    ok = (np.broadcast_to(us, u.shape) != 0) & (u != 0)
    for k, a, t in (('Cu', us, s['uth']), ('Cuf', us, s['uthf']), ('Cu0', us0, s['uth0'])):
        ref = np.where(ok, formula(p, a, t, u, d), 0.) * c['accfac']
        close(s[k], ref, {'Cu': 'saturated concentration', 'Cuf': 'saturated concentration (fluid threshold)',
                          'Cu0': 'undisturbed saturated concentration'}[k] + ' (%s)' % c['method'],
              rtol=1e-9, atol=1e-14)
    check(np.all(s['Cu'][np.broadcast_to(us, u.shape) <= s['uth'] * (.8 if c['method'] == 'dk' else 1.)] == 0),
          'transport below the threshold of motion')
    c.label(c['method'])
    c.label(c['speed'])
    c.hit(np.any(s['Cu'] > 0) and np.any(s['Cu'] == 0))


def grainspeed(c):
    p, s = build(c)
    s = tr.equilibrium(s, p)
    nf = c['nf']
    c.label(c['speed'])
    if c['speed'] == 'windspeed':
        for k, q in (('u', 'uw'), ('us', 'uws'), ('un', 'uwn')):
            close(s[k], np.repeat(s[q][:, :, None], nf, axis=2), 'grain speed %s' % k, rtol=1e-12)
        c.hit(True)
        return
    if c['speed'] == 'constant':
        mov = s['ustar'] != 0
        calm = ~mov & (s['uw'] == 0)
        a = np.where(mov, np.arctan2(s['ustarn'], s['ustars']), np.arctan2(s['uwn'], s['uws']))
        for i in range(nf):
            close(s['us'][:, :, i], np.where(calm, 0, np.cos(a)), 'constant grain speed in s-direction', rtol=1e-9, atol=1e-12)
            close(s['un'][:, :, i], np.where(calm, 0, np.sin(a)), 'constant grain speed in n-direction', rtol=1e-9, atol=1e-12)
            close(s['u'][:, :, i], np.where(calm, 0., 1.), 'constant grain speed', rtol=1e-9)
        c.hit(mov.any())
        return
    # Duran (2007)
    z, dx, dy = s['zb'], c['dx'], c['dy']
    gs, gn = np.zeros(z.shape), np.zeros(z.shape)
    gs[:, 1:-1] = (z[:, 2:] - z[:, :-2]) / (2 * dx)
    if c['ny']:
        gn[1:-1] = (z[2:] - z[:-2]) / (2 * dy)
        gs[:, 0], gs[:, -1] = gs[:, 1], gs[:, -2]
        gn[0], gn[-1] = gn[1], gn[-2]
    g, v = p['g'], p['v']
    sr = p['rhog'] / p['rhoa']
    lv = (v ** 2 / (p['Aa'] ** 2 * g * (sr - 1))) ** (1 / 3.)
    tv = (v / g ** 2) ** (1 / 3.)
    z1 = 35 * lv
    bubble = s['zsep'] > s['zb'] + .01
    for i in range(nf):
        d = p['grain_size'][i]
        al = .17 * d / lv
        S = d / (4 * v) * np.sqrt(g * d * (sr - 1))
        Cd = 4 / 3. * (.95 + np.sqrt(2 * al) * 5.12 / S) ** 2
        uf = np.sqrt(4 / (3 * Cd) * (sr - 1) * g * d)
        ut = s['uth0'][:, :, i]
        zm = 14. / 2.4 * ut * tv
        ueff = ut / p['kappa'] * (np.log(z1 / (d / 20.)) + z1 / zm * (s['ustar'] / ut - 1))
        ueff = np.where(s['ustar'] >= ut, ueff, 0.)
        e = s['ustar'] >= .05
        with np.errstate(all='ignore'):
            es = np.where(e, s['ustars'] / s['ustar'], s['uws'] / s['uw'])
            en = np.where(e, s['ustarn'] / s['ustar'], s['uwn'] / s['uw'])
        A = np.hypot(es + 2 * al * gs, en + 2 * al * gn)
        us = (ueff - uf / (np.sqrt(2 * al) * A)) * es - np.sqrt(2 * al) * uf / A * gs
        un = (ueff - uf / (np.sqrt(2 * al) * A)) * en - np.sqrt(2 * al) * uf / A * gn
        us, un = np.where(bubble, .1 * es, us), np.where(bubble, .1 * en, un)
        close(s['us'][:, :, i], us, 'grain speed in s-direction', rtol=1e-8, atol=1e-10)
        close(s['un'][:, :, i], un, 'grain speed in n-direction', rtol=1e-8, atol=1e-10)
        close(s['u'][:, :, i], np.hypot(us, un), 'grain speed', rtol=1e-8, atol=1e-10)
        c.hit(np.any(ueff > 0) and nf > 1)


def metamorphic(c):
    """stronger wind or a lower threshold never lowers the saturated concentration; acceleration scales it"""
    p, s = build(c)
    mono = c['method'] not in ('dk', 'kawamura')       # these are not monotonic in the threshold
    p2, s2 = build(c)
    f = 1.3
    s2['ustar'] = s['ustar'] * f
    s2['ustars'], s2['ustarn'] = s['ustars'] * f, s['ustarn'] * f
    p['method_grainspeed'] = p2['method_grainspeed'] = 'windspeed'
    a = tr.equilibrium(s, p)['Cu'].copy()
    b = tr.equilibrium(s2, p2)['Cu'].copy()
    check(np.all(b >= a - 1e-15), 'stronger shear lowers the saturated concentration')
    if mono:
        p3, s3 = build(c)
        p3['method_grainspeed'] = 'windspeed'
        s3['uth'] = s3['uth'] * .9
        b = tr.equilibrium(s3, p3)['Cu']
        check(np.all(b >= a - 1e-15), 'lower threshold lowers the saturated concentration')
    p4, s4 = build(c)
    p4['method_grainspeed'] = 'windspeed'
    p4['accfac'] = c['accfac'] * 2
    s4 = tr.equilibrium(s4, p4)
    close(s4['Cu'], 2 * a, 'accelerated saturated concentration', rtol=1e-10)
    p5, s5 = build(c)
    p5['process_transport'] = False
    s5['Cu'][:] = 0.
    s5['Cuf'][:] = 0.
    s5['Cu0'][:] = 0.
    s5 = tr.equilibrium(s5, p5)
    check(not np.any(s5['Cu']), 'saturated concentration computed although transport is off')
    c.hit(np.any(a > 0))


CHECKS = [Check('saturation', cases(), saturation, quick=1200),
          Check('grainspeed', cases(('windspeed', 'constant', 'duran', 'duran', 'duran')), grainspeed, quick=600),
          Check('metamorphic', cases(), metamorphic, quick=300)]
