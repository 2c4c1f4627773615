"""C38: every step of a complete run uses the conditions of its time and keeps the state physical."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
from aeolis.model import AeoLiS

PROPERTY = 'C38'
RULE = ('Generated complete set-ups with any combination of processes, run for several steps. Non-trivial: sediment is transported and at '
        'least one of water, vegetation, avalanching, shear, fences, dune erosion or moisture is active.')


def circular(t, f, k):
    """series that start over a second after their end"""
    a, b = f[0, 0], f[-1, 0]
    return np.interp(a + (t - a) % (b - a + 1.) if t > b else t, f[:, 0], f[:, k])


def mask(c, k, v):
    f = c['files'].get(k + '.txt') if k in c['cfg'] else None
    if f is None:
        return v
    f = np.asarray(f).reshape(v.shape)
    return v * f.real + f.imag


def conditions(c):
    cfg, files = c['cfg'], c['files']
    sh = (c['ny'] + 1, c['nx'] + 1)
    moved = False
    with tmpdir() as d, quiet():
        np.random.seed(3)
        m = sim.start(d, c)
        for k in range(c['nsteps'] + 2):
            t, zb = m.t, m.s['zb'].copy()
            m.update()
            s = m.s
            at = ' in step %d at %s s' % (k + 1, t)
            w = files['wind.txt']
            close(s['uw'], circular(t, w, 1), 'wind speed' + at, rtol=1e-9, atol=1e-9)
            swl = np.zeros(sh)
            gw = cfg.get('process_groundwater')             # works with smaller steps of its own
            tq = t if not gw else t + m.dt * .9
            if cfg.get('process_tide'):
                swl = mask(c, 'tide_mask', swl + circular(tq, files['tide.txt'], 1))
            close(s['SWL'], swl, 'still water level' + at, rtol=1e-9, atol=1e-9)
            hs = np.zeros(sh)
            if cfg.get('process_wave'):
                h0, T0 = circular(tq, files['wave.txt'], 1), circular(tq, files['wave.txt'], 2)
                hs = mask(c, 'wave_mask', np.minimum(h0, .5 * np.maximum(swl - zb, 0.)))
                close(s['Tp'], mask(c, 'wave_mask', np.full(sh, T0)), 'wave period' + at, rtol=1e-9, atol=1e-9)
                close(s['Hsmix'], mask(c, 'wave_mask', np.minimum(h0, .5 * np.maximum(s['TWL'] - zb, 0.))), 'mixing wave height' + at, rtol=1e-9, atol=1e-9)
            close(s['Hs'], hs, 'wave height' + at, rtol=1e-9, atol=1e-9)
            on = cfg.get('process_runup', False)
            close(s['TWL'], swl + (s['R'] if on else 0.), 'total water level' + at, rtol=1e-9, atol=1e-9)
            close(s['DSWL'], swl + (s['eta'] if on else 0.), 'water level with set-up' + at, rtol=1e-9, atol=1e-9)
            up = -s['pickup'].sum(-1) / (m.p['rhog'] * (1 - m.p['porosity'])) if cfg.get('process_tide') and cfg.get('process_bedupdate', True) and np.any(s['uw']) else 0.    # water moves with its bed
            close(s['zs'], np.maximum(swl, zb) + up, 'water level' + at, rtol=1e-9, atol=2e-9)
            if cfg.get('meteo_file') and (cfg.get('process_salt') or cfg.get('method_moist_process') == 'surf_moisture'):
                f = files['meteo.txt']
                for j, v in enumerate(('T', 'Q', 'RH', 'P', 'U')):
                    close(s['meteo'][v], circular(tq, f, j + 1), 'weather %s' % v + at, rtol=1e-9, atol=1e-9)
            moved = moved or np.any(s['qs'] != 0)
    c.hit(moved and bool(cfg.get('process_tide') or cfg.get('process_wave')))


def physical(c):
    cfg = c['cfg']
    moved = False
    with tmpdir() as d, quiet():
        np.random.seed(3)
        m = sim.start(d, c)
        s = m.s
        ne = s['zne'].copy() if cfg.get('ne_file') and cfg.get('th_nelayer') else None
        for k in range(c['nsteps']):
            t = m.t
            m.update()
            s, p = m.s, m.p
            at = ' after step %d' % (k + 1)
            for v, dims in AeoLiS.dimensions().items():
                # variables that stand for a grid keep the shape of the grid
                shape = tuple(p[k] + (1 if k in ('nx', 'ny') else 0) for k in dims)
                if v in ('theta_stat', 'theta_dyn'):        # single values for the whole grid
                    continue
                check(np.shape(s[v]) == shape, 'shape of %s%s: %s instead of %s', v, at, np.shape(s[v]), shape)
            check(m.t >= t, 'time runs backwards' + at)
            for v, a in s.items():
                if isinstance(a, np.ndarray) and a.dtype.kind in 'fc':
                    check(v == 'zne' or not np.any(np.isnan(a)), '%s undefined%s', v, at)
                    check(v in ('zne', 'uth', 'uthf', 'uth0', 'zsep') or not np.any(np.isinf(a)), '%s infinite%s', v, at)
            for v in ('Cu', 'Cuf', 'Cu0', 'mass', 'uth', 'uthf', 'uth0', 'ustar', 'ustar0', 'tau', 'uw', 'w_bed', 'moist', 'rhoveg', 'hveg',
                      'vegfac', 'hsep', 'thlyr', 'ds', 'dn', 'dsdn', 'u', 'salt', 'sigma_s'):
                check(np.all(s[v] >= (-5e-6 if v in ('mass', 'w_bed') else -1e-12)), 'negative %s%s: %s', v, at, float(np.min(s[v])))
            check(np.all(s['moist'] <= max(p['porosity'], p['satd_moist'], p['satw_moist']) + 1e-9), 'moisture%s: %s', at, float(s['moist'].max()))
            check(np.all(s['rhoveg'] <= 1 + 1e-9), 'vegetation cover%s', at)
            check(np.all(s['hveg'] <= p['hveg_max'] + 1e-9), 'vegetation height%s', at)
            check(np.all(s['vegfac'] <= 1 + 1e-9), 'vegetation factor%s', at)
            if not cfg.get('process_mixtoplayer') and cfg.get('process_bedupdate', True):
                M = p['rhog'] * (1 - p['porosity']) * s['thlyr']
                close(s['mass'].sum(-1), M, 'mass of the layers' + at, rtol=1e-6)
            if cfg.get('process_groundwater'):
                check(np.all(np.isfinite(s['gw'])), 'groundwater%s', at)
            if ne is not None:
                close(s['zne'], ne, 'non-erodible level' + at, rtol=0, atol=0)
            if cfg.get('process_bedupdate', True) is False and not cfg.get('process_avalanche') and not cfg.get('process_wet_bed_reset') and not cfg.get('process_dune_erosion'):
                close(s['zb'], s['zb0'], 'bed level without bed update' + at, rtol=0, atol=0)
            moved = moved or np.any(s['qs'] != 0)
    for k in cfg:
        if k.startswith('process_') and cfg[k]:
            c.label(k[8:])
    c.hit(moved and any(k.startswith('process_') and cfg[k] for k in cfg))


CHECKS = [Check('conditions', sim.rich(repeat=True), conditions, quick=80), Check('physical', sim.rich(), physical, quick=120)]
