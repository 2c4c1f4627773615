"""C12: water levels, waves and runup."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import state
import aeolis.hydro as hy

PROPERTY = 'C12'
RULE = ('Generated beds, tide and wave series (single and several records, times inside the series), complex masks, external '
        'water levels and waves, with every combination of the tide, wave and runup processes. Non-trivial: both wet and dry '
        'cells and, if waves are on, waves limited by depth in some cell and not in another.')


@st.composite
def series(draw, ncol, lo, hi):
    n = draw(st.integers(2, 4))
    t = np.cumsum([draw(st.sampled_from([0., 100.]))] + [draw(F(10., 2000.)) for _ in range(n - 1)])
    return np.column_stack([t] + [np.array([draw(F(lo[i], hi[i], (lo[i],))) for _ in range(n)]) for i in range(ncol)])


@st.composite
def cases(draw):
    ny = draw(st.sampled_from([0, 0, 2, 3]))
    nx = draw(st.integers(2, 8))
    sh = (ny + 1, nx + 1)

    def mask():
        return (draw(grid(sh, 0., 1.5)) + 1j * draw(grid(sh, -.5, .5))) if draw(st.integers(0, 2)) == 0 else None
    return dict(ny=ny, nx=nx, zb=draw(grid(sh, -4., 3.)), tide=draw(st.sampled_from([True, True, False])),
                wave=draw(st.sampled_from([True, True, False])), runup=draw(st.sampled_from([True, True, False])),
                tide_file=draw(st.one_of(st.none(), series(1, [-2.], [2.]), series(1, [-2.], [2.]))),
                wave_file=draw(st.one_of(st.none(), series(2, [0., 1.], [5., 15.]), series(2, [0., 1.], [5., 15.]))),
                u=draw(F(0., 1., (0., 1.))), slope=draw(st.one_of(st.just(.1), F(.005, .3))), gamma=draw(st.one_of(st.just(.5), F(.2, 1.))),
                mt=mask(), mw=mask(), mr=mask(), stale=draw(grid(sh, 0., 3.)),
                ext_zs=draw(grid(sh, -1., 2.)), ext_hs=draw(grid(sh, 0., 3.)), ext_tp=draw(grid(sh, 1., 15.)))


def build(c, external=()):
    p = state.params(c['nx'], c['ny'], 2, 1, process_tide=c['tide'], process_wave=c['wave'], process_runup=c['runup'],
                     tide_file=None if c['tide_file'] is None else c['tide_file'].copy(),
                     wave_file=None if c['wave_file'] is None else c['wave_file'].copy(),
                     beach_slope=c['slope'], gamma=c['gamma'], external_vars=list(external))
    s = state.state(p)
    s['zb'] = c['zb'].copy()
    for k, m in (('tide', 'mt'), ('wave', 'mw'), ('runup', 'mr')):
        s[k + '_mask'] = 1. if c[m] is None else c[m]
    for k in ('SWL', 'TWL', 'DSWL', 'Hs', 'Tp', 'Hsmix', 'R', 'eta', 'zs'):       # left-overs of the previous step
        s[k] = c['stale'].copy()
    if not (c['wave'] and c['wave_file'] is not None):
        s['Hsmix'][:] = 0.
    if not c['runup']:
        s['R'][:] = 0.
        s['eta'][:] = 0.
    return p, s


def time(c):
    """a time inside all series"""
    r = [f[:, 0] for f in (c['tide_file'], c['wave_file']) if f is not None]
    if not r:
        return 0.
    lo, hi = max(x[0] for x in r), min(x[-1] for x in r)
    if lo > hi:
        return None
    return lo + c['u'] * (hi - lo)


def masked(v, m):
    return v if m is None else v * m.real + m.imag


def stockdon(H, T, b):
    if H <= 0 or T <= 0:
        return 0., 0.
    L = 9.81 * T ** 2 / (2 * np.pi)
    xi = b / np.sqrt(H / L)
    if xi < .3:
        return .043 * np.sqrt(H * L), .02 * np.sqrt(H * L)
    eta = .35 * b * np.sqrt(H * L)
    return 1.1 * (eta + np.sqrt(H * L * (.563 * b ** 2 + .004)) / 2), eta


def levels(c):
    t = time(c)
    if t is None:
        return
    p, s = build(c)
    s = hy.interpolate(s, p, t)
    zb = c['zb']
    check(np.array_equal(s['zb'], zb), 'bed changed')
    swl = np.zeros(zb.shape)
    if c['tide']:
        if c['tide_file'] is not None:
            swl = swl + np.interp(t, c['tide_file'][:, 0], c['tide_file'][:, 1])
        swl = masked(swl, c['mt'])
    close(s['SWL'], swl, 'still water level', rtol=1e-9, atol=1e-9)
    wave = c['wave'] and c['wave_file'] is not None
    hs, tp = np.zeros(zb.shape), np.zeros(zb.shape)
    lim = None
    if wave:
        h0 = np.interp(t, c['wave_file'][:, 0], c['wave_file'][:, 1])
        lim = np.maximum(0., swl - zb) * c['gamma']
        hs = masked(np.minimum(h0, lim), c['mw'])
        tp = masked(np.full(zb.shape, np.interp(t, c['wave_file'][:, 0], c['wave_file'][:, 2])), c['mw'])
    close(s['Hs'], hs, 'wave height', rtol=1e-9, atol=1e-9)
    close(s['Tp'], tp, 'wave period', rtol=1e-9, atol=1e-9)
    twl, dswl = swl, swl
    if c['runup']:
        R, eta = np.zeros(zb.shape), np.zeros(zb.shape)
        for j in range(c['ny'] + 1):
            R[j], eta[j] = stockdon(hs[j, 0], tp[j, 0], c['slope'])
        R, eta = masked(R, c['mr']), masked(eta, c['mr'])
        # at the transition between both formulas rounding decides
        with np.errstate(all='ignore'):
            xi = c['slope'] / np.sqrt(hs[:, 0] / (9.81 * tp[:, 0] ** 2 / (2 * np.pi)))
        if np.any(np.abs(xi - .3) < 1e-9):
            return
        close(s['R'], R, 'runup', rtol=1e-9, atol=1e-9)
        close(s['eta'], eta, 'wave set-up', rtol=1e-9, atol=1e-9)
        twl, dswl = swl + R, swl + eta
        c.label('dissipative' if np.any(xi < .3) else 'reflective')
    close(s['TWL'], twl, 'total water level', rtol=1e-9, atol=1e-9)
    close(s['DSWL'], dswl, 'water level including set-up', rtol=1e-9, atol=1e-9)
    if wave:
        hm = masked(np.minimum(h0, np.maximum(0., twl - zb) * c['gamma']), c['mw'])
        close(s['Hsmix'], hm, 'wave height for mixing', rtol=1e-9, atol=1e-9)
    close(s['zs'], np.maximum(swl, zb), 'water level', rtol=1e-9, atol=1e-9)
    # a second evaluation yields the same
    a = {k: s[k].copy() for k in ('SWL', 'Hs', 'Tp', 'R', 'eta', 'TWL', 'DSWL', 'Hsmix', 'zs')}
    s = hy.interpolate(s, p, t)
    for k, v in a.items():
        close(s[k], v, '%s when computed again' % k, rtol=1e-12, atol=1e-12)
    wet = swl > zb
    c.hit(wet.any() and not wet.all() and (not wave or (np.any(lim > h0) and np.any((lim < h0) & (lim > 0)))))


def external(c):
    """water levels and waves of a coupled model"""
    p, s = build(dict(c, tide=True), ('zs', 'Hs', 'Tp'))
    zb = c['zb']
    s['zs'], s['Hs'], s['Tp'] = c['ext_zs'].copy(), c['ext_hs'].copy(), c['ext_tp'].copy()
    zs = masked(c['ext_zs'], c['mt'])
    wet = zs - zb > 2 * p['eps']
    if np.any(np.abs(zs - zb - 2 * p['eps']) < 1e-9):
        return
    if not wet.any():
        return
    from vlib import quiet
    with quiet():
        s = hy.interpolate(s, p, 0.)
    close(s['SWL'][wet], zs[wet], 'still water level in wet cells', rtol=1e-9, atol=1e-9)
    wj, wi = np.nonzero(wet)
    for j in range(c['ny'] + 1):
        for i in range(c['nx'] + 1):
            if not wet[j, i]:
                d = (wj - j) ** 2 + (wi - i) ** 2
                near = zs[wj[d == d.min()], wi[d == d.min()]]
                check(np.any(np.abs(near - s['SWL'][j, i]) < 1e-9), 'water level of the nearest wet cell: %r not in %r',
                      float(s['SWL'][j, i]), near.tolist())
    close(s['zs'], np.maximum(s['SWL'], zb), 'water level', rtol=1e-9, atol=1e-9)
    hs, tp = masked(c['ext_hs'], c['mw']), masked(c['ext_tp'], c['mw'])
    close(s['Hs'], hs, 'external wave height', rtol=1e-9, atol=1e-9)
    close(s['Tp'], tp, 'external wave period', rtol=1e-9, atol=1e-9)
    close(s['DSWL'], s['SWL'], 'water level including set-up', rtol=1e-9, atol=1e-9)
    if c['runup'] and np.all(tp >= 0):
        R, eta = np.zeros(zb.shape), np.zeros(zb.shape)
        for j in range(c['ny'] + 1):
            for i in range(c['nx'] + 1):
                R[j, i], eta[j, i] = stockdon(hs[j, i], tp[j, i], c['slope'])
        with np.errstate(all='ignore'):
            xi = c['slope'] / np.sqrt(hs / (9.81 * tp ** 2 / (2 * np.pi)))
        edge = np.abs(xi - .3) < 1e-9               # dissipative and reflective formulations
        R = np.where(edge, s['R'], R) if c['mr'] is None else masked(R, c['mr'])
        eta = np.where(edge, s['eta'], eta) if c['mr'] is None else masked(eta, c['mr'])
        close(s['eta'], eta, 'set-up of external waves', rtol=1e-9, atol=1e-9)
        close(s['R'], R, 'runup of external waves', rtol=1e-9, atol=1e-9)
        close(s['TWL'], s['SWL'] + R, 'total water level', rtol=1e-9, atol=1e-9)
    c.hit(not wet.all())


@st.composite
def runup_cases(draw):
    n = draw(st.integers(1, 12))
    b = draw(F(.005, .4))
    H = draw(grid((n,), 0., 6.))
    T = draw(grid((n,), 0., 20.))
    if draw(st.booleans()):                         # exactly at the transition
        T[0] = 1.
        H[0] = (9.81 / (2 * np.pi)) * (b / .3) ** 2
    return dict(b=b, H=H, T=T)


def runup(c):
    """one wave at a time or many: the same, finite, nonnegative and growing with the waves"""
    H, T, b = c['H'], c['T'], c['b']
    ve, vs, vr = hy.calc_runup_stockdon(H.copy(), T.copy(), b)
    for i in range(len(H)):
        e, sg, r = hy.calc_runup_stockdon(float(H[i]), float(T[i]), b)
        if H[i] > 0 and T[i] > 0:
            xi = b / np.sqrt(H[i] / (9.81 * T[i] ** 2 / (2 * np.pi)))
            R, eta = stockdon(H[i], T[i], b)
            if abs(xi - .3) > 1e-9:
                close(r, R, 'runup', rtol=1e-9, atol=1e-12)
                close(e, eta, 'set-up', rtol=1e-9, atol=1e-12)
                close(vr[i], r, 'runup for several waves at once', rtol=1e-9, atol=1e-12)
                close(ve[i], e, 'set-up for several waves at once', rtol=1e-9, atol=1e-12)
                close(vs[i], sg, 'swash for several waves at once', rtol=1e-9, atol=1e-12)
            check(vr[i] > 0 and r > 0, 'waves without runup: H=%g T=%g', H[i], T[i])
            check(r >= e and vr[i] >= ve[i], 'runup lower than set-up')
        else:
            check(r == 0 and e == 0, 'runup without waves')
            close(vr[i], 0., 'runup without waves', rtol=0, atol=1e-12)
    c.hit(np.any((H > 0) & (T > 0)))


CHECKS = [Check('levels', cases(), levels, quick=1500),
          Check('external', cases(), external, quick=500),
          Check('runup', runup_cases(), runup, quick=500)]
