"""C13: soil moisture and salt."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import state
import aeolis.hydro as hy

PROPERTY = 'C13'
RULE = ('Generated histories (several steps) of water levels, groundwater levels, weather, wind and bed levels for the '
        'infiltration method and for the surface moisture method with and without hysteresis. Non-trivial: both wet and dry '
        'cells, and a reversal of the groundwater if hysteresis is on.')


@st.composite
def cases(draw):
    ny = draw(st.sampled_from([0, 0, 2]))
    nx = draw(st.integers(2, 6))
    sh = (ny + 1, nx + 1)
    n = draw(st.integers(1, 6))
    return dict(ny=ny, nx=nx, method=draw(st.sampled_from(['infiltration', 'INFILTRATION', 'surf_moisture', 'surf_moisture', 'Surf_Moisture'])),
                scan=draw(st.booleans()), zb=draw(grid(sh, -1., 2.)), moist=draw(grid(sh, 0., .5)), n=n,
                twl=[draw(F(-1., 1.5)) for _ in range(n)], gw=[draw(grid(sh, -1., 1.)) for _ in range(n + 1)],
                hold=[draw(st.integers(0, 3)) == 0 for _ in range(n)],
                met=np.array([[draw(F(-5., 35.)), draw(F(0., 30.)), draw(F(0., 10., (0.,))), draw(F(95., 105.)), draw(F(20., 100.))] for _ in range(n)]),
                uw=draw(grid(sh, 0., 20.)), dt=draw(st.sampled_from([60., 600., 3600., 10.])), Tdry=draw(st.one_of(st.just(5400.), F(600., 20000.))),
                fc=draw(st.sampled_from([.11, .05, .2])), thick=draw(st.sampled_from([.002, .01])),
                salt=draw(st.booleans()), Tsalt=draw(F(600., 1e5)), salt0=draw(grid(sh, 0., 1.)),
                satw=draw(st.sampled_from([.35, .45])), alfaw=draw(F(-.12, -.05)), alfad=draw(F(-.045, -.02)),
                t0=draw(st.sampled_from([0., 0., 300.])), lay=draw(st.sampled_from([.01, .05])), on=draw(st.integers(0, 5)) > 0, weather=draw(st.integers(0, 3)) > 0)


def build(c):
    surf = c['method'].lower() == 'surf_moisture'
    p = state.params(c['nx'], c['ny'], 2, 1, process_moist=c['on'], method_moist_process=c['method'], process_scanning=c['scan'],
                     process_groundwater=False, Tdry=c['Tdry'], fc=c['fc'], thick_moist=c['thick'], process_salt=c['salt'],
                     Tsalt=c['Tsalt'], satw_moist=c['satw'], alfaw_moist=c['alfaw'], alfad_moist=c['alfad'], tstart=c['t0'],
                     layer_thickness=c['lay'])
    s = state.state(p)
    s['zb'] = c['zb'].copy()
    s['moist'] = c['moist'].copy()
    s['uw'] = c['uw'].copy()
    s['salt'][:, :, 0] = c['salt0']
    s['gw'] = np.minimum(c['gw'][0], s['zb'])
    s['gw_prev'] = s['gw'].copy()
    return p, s


def swr(p, w, h):
    r, st_, a, n, m = (p['res%s_moist' % w], p['sat%s_moist' % w], p['alfa%s_moist' % w], p['n%s_moist' % w], p['m%s_moist' % w])
    return r + (st_ - r) / (1 + abs(a * h) ** n) ** m


class Cell:
    """hysteresis of one cell (Mualem, 1974)"""

    def __init__(self):
        self.sw = self.sd = False       # on a scanning curve
        self.hd = 0.
        self.swm = self.sdm = self.wh = self.dh = 0.
        self.m = 0.

    def start(self, p, h):
        self.m = swr(p, 'w', h)
        self.hd = h

    def step(self, p, wetting, gw, prev, h):
        up, down = gw > prev, gw < prev
        satw, satd, resw = p['satw_moist'], p['satd_moist'], p['resw_moist']
        # groundwater depth at the reversal
        if (not self.sw and wetting and down) or (not self.sd and not wetting and up):
            self.hd = h
        if self.sw and wetting and down:
            w = min((self.swm - self.wh) * (satd - self.wh) / (self.dh - self.wh) + self.wh, satw)
            self.hd = max(1 / p['alfaw_moist'] * (((satw - resw) / max(w - resw, 1e-5)) ** (1 / p['mw_moist']) - 1) ** (1 / p['nw_moist']), 0)
        if self.sd and not wetting and up:
            k = 0
            while True:
                k += 1
                hd = k * .01
                w, d = swr(p, 'w', hd), swr(p, 'd', hd)
                if self.wh + (satw - self.wh) / max(satw - w, 1e-4) * (d - w) - self.sdm <= .01:
                    break
            self.hd = hd
        self.wh, self.dh = swr(p, 'w', h), swr(p, 'd', h)
        w, d = swr(p, 'w', self.hd), swr(p, 'd', self.hd)
        self.swm = max(min(self.wh + (satw - self.wh) / max(satw - w, 1e-4) * (d - w), self.dh), self.wh)
        self.sdm = max(min(self.wh + (w - self.wh) / max(satd - self.wh, 1e-4) * (self.dh - self.wh), self.dh), self.wh)
        if not down:
            if wetting and not self.sw:
                self.m, self.sw, self.sd = self.wh, False, False
            else:
                self.m, self.sw, self.sd = self.swm, self.swm > self.wh, False
        else:
            if not wetting and not self.sd:
                self.m, self.sw, self.sd = self.dh, False, False
            else:
                self.m, self.sd, self.sw = self.sdm, self.sdm < self.dh, False


def penman(p, met, uw):
    T, Q, _, P, U = met
    es = .6108 * np.exp(17.27 * T / (T + 237.3))
    m = 4098. * es / (T + 237.3) ** 2
    gamma = p['cpair'] * P / (.622 * 2.26)
    u2 = .174 / np.log10(p['z'] / 2.) * uw
    return (m * Q + 6.43 * gamma * es * (1 - U / 100) * (1 + .86 * u2)) / (2.26 * (m + gamma))


def history(c):
    p, s = build(c)
    surf = c['method'].lower() == 'surf_moisture' and c['on']
    zb = c['zb']
    sh = zb.shape
    moist, salt = c['moist'].copy(), c['salt0'].copy()
    cells = np.array([[Cell() for _ in range(sh[1])] for _ in range(sh[0])])
    gw = s['gw'].copy()
    prev = gw.copy()
    f = .5 ** (c['dt'] / c['Tdry'])
    t = c['t0']
    rev = False
    seen_wet = seen_dry = False
    swrm = np.zeros(sh)
    for k in range(c['n']):
        wetting = gw > prev
        prev = gw
        gw = gw if c['hold'][k] else np.minimum(c['gw'][k + 1], zb)
        s['wetting'], s['gw_prev'], s['gw'] = wetting.copy(), prev.copy(), gw.copy()
        twl = np.full(sh, c['twl'][k])
        s['TWL'] = twl.copy()
        if surf or c['weather']:                             # without weather there is no rain
            s['meteo'] = dict(zip(('T', 'Q', 'RH', 'P', 'U'), c['met'][k]))
        s = hy.update(s, p, c['dt'], t)
        if not surf:
            wet = twl - zb > p['eps']
            moist = moist if not c['on'] else np.where(wet, p['porosity'], np.clip(moist * f, 0., p['porosity']))
        else:
            wet = twl > zb
            moist = np.where(moist > c['fc'], c['fc'] + (moist - c['fc']) * f, moist)
            net = (c['met'][k][2] / 3600. - penman(p, c['met'][k], c['uw']) / 86400.) / 1000. * c['dt'] / c['thick']
            moist = np.where(wet, p['satd_moist'], np.minimum(np.maximum(moist + net, p['resw_moist']), p['satd_moist']))
            for j in range(sh[0]):
                for i in range(sh[1]):
                    h = max(0., (zb[j, i] - gw[j, i]) * 100)
                    if not c['scan']:
                        swrm[j, i] = swr(p, 'w' if wetting[j, i] else 'd', h)
                    elif k == 0:
                        cells[j, i].start(p, h)
                        swrm[j, i] = cells[j, i].m
                    else:
                        a = cells[j, i]
                        rev = rev or (wetting[j, i] and gw[j, i] < prev[j, i]) or (not wetting[j, i] and gw[j, i] > prev[j, i])
                        a.step(p, bool(wetting[j, i]), gw[j, i], prev[j, i], h)
                        swrm[j, i] = a.m
            close(s['moist_swr'], swrm, 'capillary moisture content in step %d' % k, rtol=1e-7, atol=1e-9)
            moist = np.minimum(np.maximum(moist, swrm), p['satd_moist'])
        if c['salt']:
            salt = np.where(wet, 1., salt * .5 ** (c['dt'] / c['Tsalt']))
            if surf or c['weather']:
                salt = np.minimum(1., salt + c['met'][k][2] / 3600. / 1000. * c['dt'] / c['lay'])
            close(s['salt'][:, :, 0], salt, 'salt content in step %d' % k, rtol=1e-9, atol=1e-12)
        close(s['moist'], moist, 'moisture content in step %d' % k, rtol=1e-7, atol=1e-9)
        check(s['moist'].min() >= 0 and s['moist'].max() <= max(p['porosity'], p['satd_moist']), 'moisture content out of range')
        check(np.array_equal(s['zb'], zb), 'bed changed by moisture')
        seen_wet = seen_wet or wet.any()
        seen_dry = seen_dry or not wet.all()
        t += c['dt']
    if not c['salt']:
        close(s['salt'][:, :, 0], c['salt0'], 'salt content although the process is off', rtol=0, atol=0)
    c.label(c['method'].lower() + (' scanning' if surf and c['scan'] else ''))
    if rev:
        c.label('reversal')
    c.hit(seen_wet and seen_dry and (rev or not (surf and c['scan'])))


def drying(c):
    """infiltration: halves every drying time scale, in any number of steps"""
    c['method'], c['on'] = 'infiltration', True
    p, s = build(c)
    s['moist'] = np.minimum(s['moist'], p['porosity'])
    m0 = s['moist'].copy()
    s['TWL'][:] = -10.
    n = c['n']
    for k in range(n):
        s = hy.update(s, p, c['Tdry'] / n, k * c['Tdry'] / n)
    close(s['moist'], m0 / 2, 'moisture after one drying time scale in %d steps' % n, rtol=1e-9, atol=1e-12)
    p['process_moist'] = False
    m = s['moist'].copy()
    s['TWL'][:] = 10.
    s = hy.update(s, p, 60., 0.)
    close(s['moist'], m, 'moisture although the process is off', rtol=0, atol=0)
    c.hit(n > 1)


CHECKS = [Check('history', cases(), history, quick=500),
          Check('drying', cases(), drying, quick=150)]
