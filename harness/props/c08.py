"""C08: shear velocity threshold."""
import copy
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, quiet
import state
import aeolis.threshold as th

PROPERTY = 'C08'
RULE = ('Generated grain sizes, moisture, salt, water level, roughness, non-erodible layers and masks with any '
        'combination of threshold processes. Non-trivial: at least two processes besides grain size are active and '
        'change the threshold in some but not all cells.')
MOIST = ['belly_johnson', 'hotta', 'chepil', 'saleh_fryear', 'saleh_fryear_mod', 'shao', 'dong_2002',
         'gregory_darwish', 'cornelis', 'dong_2007']


@st.composite
def cases(draw):
    ny = draw(st.sampled_from([0, 0, 1, 2]))
    nx = draw(st.integers(2, 6))
    nf = draw(st.integers(1, 4))
    sh = (ny + 1, nx + 1)
    b = st.booleans()
    method = draw(st.sampled_from(MOIST + ['dong_2002'] * 2))
    return dict(ny=ny, nx=nx, nf=nf, moisture=draw(st.sampled_from([True, True, False])), salt=draw(b), shelter=draw(b), ne=draw(b), tide=draw(b),
                mask=draw(b), method=method, upper=draw(b),
                d=draw(grid((nf,), 80e-6, draw(st.sampled_from([160e-6, 300e-6, 500e-6, 1200e-6])))), dist=draw(grid((nf,), .05, 1.)),
                moist=draw(grid(sh, 0., draw(st.sampled_from([.02, .12, .5])))),
                saltc=draw(grid(sh, 0., 1.)), csalt=draw(F(0., .04)), mass=draw(grid(sh + (nf,), .01, 30.)),
                ustar=draw(grid(sh, 0., 1.)), zb=draw(grid(sh, -1., 1.)), zs=draw(F(-1., 1.)),
                zne=draw(grid(sh, -1.2, 1.)), mre=draw(grid(sh, .2, 2.)), mim=draw(grid(sh, 0., .5)),
                m=draw(F(.1, .95)), sigma=draw(F(1., 5.)), beta=draw(F(20., 150.)), Aa=draw(F(.06, .12)),
                rhog=draw(F(2000., 2800.)), porosity=draw(F(.3, .5)), resw=draw(F(0., .02)), w15=draw(F(.01, .05)),
                stale=draw(grid(sh + (nf,), 0., 2.)),
                # mean grain size close to the edge of a class, films of water, speeds at the threshold
                edge=draw(st.sampled_from(([] if method == 'dong_2002' else [0.] * 5) + [.135, .15, .2, .25, .4])), side=draw(st.sampled_from([-.01, .01])),
                film=draw(st.sampled_from([None, None, .5, 2.])), tie=draw(st.booleans()))


def build(c):
    nf = c['nf']
    if c['edge']:
        c['d'] = np.sort(c['d'])
        c['d'] = c['d'] * (c['edge'] * 1e-3 * (1 + c['side']) / np.sum(c['d'] * c['dist'] / c['dist'].sum()))
    p = state.params(c['nx'], c['ny'], 2, nf, th_moisture=c['moisture'], th_salt=c['salt'], th_sheltering=c['shelter'],
                     th_nelayer=c['ne'], process_tide=c['tide'],
                     method_moist_threshold=c['method'].upper() if c['upper'] else c['method'],
                     grain_size=np.sort(c['d']), grain_dist=c['dist'] / c['dist'].sum(), csalt=c['csalt'], m=c['m'],
                     sigma=c['sigma'], beta=c['beta'], Aa=c['Aa'], rhog=c['rhog'], porosity=c['porosity'],
                     resw_moist=c['resw'], w1_5=c['w15'])
    s = state.state(p)
    s['uth'] = c['stale'].copy()
    s['moist'] = c['moist'].copy()
    s['salt'][:, :, 0] = c['saltc']
    s['salt'][:, :, 1] = .3
    s['mass'][:, :, 0, :] = c['mass']
    s['mass'][:, :, 1, :] = 1.
    s['ustar'] = c['ustar'].copy()
    s['zb'] = c['zb'].copy()
    s['zs'] = np.maximum(c['zb'], c['zs'])
    if c['film'] is not None:
        s['zs'][:, ::2] = (s['zb'] + c['film'] * p['eps'])[:, ::2]
    if c['tie'] and not (c['moisture'] or c['salt']):
        with quiet():
            s['ustar'][:, ::2] = th.compute({k: copy.deepcopy(v) for k, v in s.items()}, p)['uth0'][:, ::2, 0]
    if c['ne']:
        p['ne_file'] = c['zne'].copy()
    if c['mask']:
        s['threshold_mask'] = c['mre'] + 1j * c['mim']
    return p, s


def reference(c, p, s):
    nf = c['nf']
    ny, nx = c['ny'] + 1, c['nx'] + 1
    out = np.zeros((ny, nx, nf))
    d = p['grain_size']
    u0 = p['Aa'] * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d)
    D = float(np.sum(d * p['grain_dist']))
    fac = p['rhow'] / (p['rhog'] * (1 - p['porosity']))
    shel = False
    for j in range(ny):
        for k in range(nx):
            u = u0.copy()
            if c['moisture']:
                mg = s['moist'][j, k] * fac
                if mg > p['resw_moist'] * fac + .005:
                    w = p['w1_5']
                    me = c['method']
                    g, ra, rg, rw = p['g'], p['rhoa'], p['rhog'], p['rhow']
                    if me == 'belly_johnson':
                        u = u * max(1., 1.8 + .6 * np.log10(100 * mg))
                    elif me == 'hotta':
                        u = u + 7.5 * mg
                    elif me == 'chepil':
                        u = np.sqrt(u ** 2 + .6 * mg ** 2 / (ra * w ** 2))
                    elif me == 'saleh_fryear':
                        u = np.full(nf, .305 + .022 * mg / w + .506 * (mg / w) ** 2)
                    elif me == 'saleh_fryear_mod':
                        u = u + .022 * mg / w + .506 * (mg / w) ** 2
                    elif me == 'shao':
                        u = u * np.exp(22.7 * mg)
                    elif me == 'dong_2002':
                        mm = D * 1000
                        K = 2.15
                        for lim, kk in ((.4, 1.87), (.25, 1.59), (.2, 2.75), (.15, 2.05), (.135, 2.51)):
                            if mm < lim:
                                K = kk
                        u = u * np.sqrt(1 + K * 100 * mg)
                    elif me == 'gregory_darwish':
                        u = u * np.sqrt(1 + mg + 6 / np.pi * 6.12e-5 / (rg * g * D ** 2)
                                        + 738.8 / (rw * g * D) * np.exp(-.1 * mg / w) * max(mg - .5 * w, 0.))
                    elif me == 'cornelis':
                        u = np.full(nf, np.sqrt(.013 * (1 + mg + 1.7e-4 / ((rg - ra) * g * D ** 2)
                                                        * (1 + 3e14 * .075 ** 2 * D / (1e9 * np.exp(-6.5 * mg / w)))
                                                        * (rg - ra) / ra * g * D)))
                    else:
                        u = np.full(nf, .16 * np.sqrt((rg - ra) / ra * g * D) * (1 + 478.2 * mg ** 1.52))
                if mg > .064:
                    u = np.full(nf, np.inf)
            elif c['tide'] and s['zb'][j, k] - s['zs'][j, k] < -p['eps']:
                u = np.full(nf, np.inf)
            if c['salt']:
                u = u * 1.03 * np.exp(.1027 * 1e3 * p['csalt'] * (1 - s['salt'][j, k, 0]))
            if c['shelter']:
                ms = s['mass'][j, k, 0, :]
                gd = ms[s['ustar'][j, k] <= u * (1 + 1e-12)].sum() / ms.sum()
                R = np.sqrt((1 - p['m'] * gd) * (1 + p['m'] * p['beta'] / p['sigma'] * gd))
                u = u * R
                shel = shel or 0 < gd < 1
            if c['mask']:
                u = u * c['mre'][j, k] + c['mim'][j, k]
            if c['ne'] and s['zb'][j, k] <= c['zne'][j, k] + .01:
                u = np.full(nf, np.inf)
            out[j, k] = u
    return u0, out, shel


def threshold(c):
    p, s = build(c)
    u0, ref, shel = reference(c, p, s)
    inp = {k: s[k].copy() for k in ('moist', 'salt', 'mass', 'ustar', 'zb', 'zs')}
    s = th.compute(s, p)
    for k, v in inp.items():
        close(s[k], v, '%s changed by the computation of the threshold' % k, rtol=0, atol=0)
    close(s['uth0'], np.broadcast_to(u0, ref.shape), 'threshold based on grain size', rtol=1e-10)
    close(s['uth'], ref, 'shear velocity threshold', rtol=1e-9, atol=1e-12)
    close(s['uthf'], ref, 'fluid shear velocity threshold', rtol=1e-9, atol=1e-12)
    check(np.all(s['uth'] > 0), 'threshold is not positive')
    if c['ne']:
        close(s['zne'], c['zne'], 'level of the non-erodible layer', rtol=0, atol=0)
    # a second evaluation starts from scratch, and the fluid threshold is a record of its own
    s['uth'][:] = 77.
    close(s['uthf'], ref, 'fluid shear velocity threshold after a change of the threshold', rtol=1e-9, atol=1e-12)
    s = th.compute(s, p)
    close(s['uth'], ref, 'shear velocity threshold when computed again', rtol=1e-9, atol=1e-12)
    n = c['moisture'] + c['salt'] + c['shelter'] + c['ne'] + c['mask']
    if c['moisture']:
        c.label(c['method'])
    if shel:
        c.label('partly sheltered')
    if np.any(np.isinf(ref)):
        c.label('immobile cells')
    c.hit(n >= 2 and np.any(np.isfinite(ref)) and np.ptp(ref[np.isfinite(ref)]) > 0)


def raising(c):
    """water, salt, roughness and hard layers only ever raise the threshold"""
    c['mask'] = False
    if c['method'] in ('saleh_fryear', 'cornelis', 'dong_2007'):   # replace the grain size threshold
        c['method'] = 'belly_johnson'
    c['csalt'] = max(c['csalt'], 0.)
    p, s = build(c)
    s['uth'][:] = 0.
    s = th.compute(s, p)
    m = c['m'] * c['beta'] / c['sigma']
    if c['shelter'] and (1 - c['m']) * (1 + m) < 1:
        c.label('not compared')
        return
    check(np.all(s['uth'] >= s['uth0'] * (1 - 1e-9)), 'a bed property lowers the threshold: %r < %r',
          float(np.min(s['uth'])), float(np.min(s['uth0'])))
    c.hit(c['moisture'] + c['salt'] + c['shelter'] + c['ne'] >= 2)


def given_threshold(c):
    """with the process off or a threshold file, only the hard layer interferes"""
    p, s = build(c)
    if c['tide']:
        p['process_threshold'] = False
    else:
        p['threshold_file'] = c['stale'][:, :, 0] + .1
        s['uth'] = np.repeat(p['threshold_file'][:, :, None], c['nf'], axis=2)
    u = s['uth'].copy()
    s = th.compute(s, p)
    hard = (c['zb'] <= c['zne'] + .01) if c['ne'] else np.zeros(c['zb'].shape, bool)
    close(s['uth'], np.where(hard[:, :, None], np.inf, u), 'given threshold', rtol=0, atol=0)
    close(s['uthf'], s['uth'], 'fluid threshold', rtol=0, atol=0)
    c.hit(c['ne'] and hard.any() and not hard.all())


CHECKS = [Check('threshold', cases(), threshold, quick=1500),
          Check('raising', cases(), raising, quick=400),
          Check('given_threshold', cases(), given_threshold, quick=200)]
