"""C02: bed level bookkeeping of the complete model, step by step."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim

PROPERTY = 'C02'
RULE = ('Generated complete model set-ups (grids, solvers, fractions, layers, masks, tides, waves, vegetation, avalanching, acceleration) run '
        'for several steps. Non-trivial: sediment is exchanged with the bed in at least one step.')
YEAR = 365.25 * 24 * 3600.


def steps(c):
    with tmpdir() as d, quiet():
        m = sim.start(d, c)
        p = m.p
        dens = p['rhog'] * (1. - p['porosity'])
        moved = False
        if 'comp.txt' in c['files']:
            deep = c['files']['comp.txt'].reshape((c['ny'] + 1, c['nx'] + 1, c['nl'], c['nf']))[:, :, -1]
        else:
            deep = np.broadcast_to(np.atleast_1d(c['cfg']['grain_dist']), (c['ny'] + 1, c['nx'] + 1, c['nf']))
        deep = deep / deep.sum(-1, keepdims=True)
        zb_first = m.s['zb'].copy()
        close(zb_first, np.atleast_2d(c['files']['z.grd']), 'initial bed level')
        for k in range(c['nsteps']):
            t, n = m.t, m.get_count('time')
            b = {v: m.s[v].copy() for v in ('zb', 'mass', 'dzbavg', 'zb0')}
            m.update()
            s = m.s
            what = ' in step %d' % (k + 1)
            for v in ('zb', 'mass', 'Ct', 'pickup', 'qs', 'qn', 'zs', 'moist', 'rhoveg', 'ustar', 'uw'):
                finite(s[v], v + what)
            check(m.dt > 0. and m.dt <= p['dt'] * (1 + 1e-12), 'time step %r for %r configured', m.dt, p['dt'])
            close(m.t, t + m.dt * p['accfac'], 'time' + what)
            check(m.get_count('time') == n + 1, 'number of steps is not counted' + what)
            close(s['zb0'], zb_first, 'initial bed level' + what)
            windy = np.any(s['uw'] != 0)
            dz = s['zb'] - b['zb']
            # layers keep their mass; sediment is never negative
            if p['process_mixtoplayer']:        # levels out the layers
                close(s['mass'].sum((-1, -2)), b['mass'].sum((-1, -2)), 'mass of the bed layers' + what, rtol=1e-5, atol=1e-5)
            else:
                close(s['mass'].sum(-1), b['mass'].sum(-1), 'mass of the bed layers' + what, rtol=1e-5, atol=1e-5)
            check(s['mass'].min() >= -5e-6, 'negative mass in the bed %r' + what, float(s['mass'].min()))
            if not windy:
                close(s['zb'], b['zb'], 'bed level without wind' + what, atol=0)
                close(s['mass'].sum(2), b['mass'].sum(2), 'sediment in the bed without wind' + what, rtol=1e-9)
                continue
            moved = moved or np.abs(s['pickup']).max() > 1e-9
            # change of the bed level and its averages
            close(s['dzb'], dz, 'bed level change' + what, atol=1e-15)
            step = m.dt * p['accfac']
            close(s['dzbyear'], dz * YEAR / step, 'yearly bed level change' + what, atol=1e-9)
            w = step / p['avg_time']
            close(s['dzbavg'], w * dz * YEAR / step + (1. - w) * b['dzbavg'], 'average bed level change' + what, atol=1e-9)
            close(s['dzbveg'], s['dzbyear'], 'bed level change for vegetation' + what, atol=1e-9)
            # what leaves an eroding column per fraction is replaced by sediment of the deepest layer
            E = s['pickup'].sum(-1)
            ero = E > 0.
            want = -s['pickup'] + E[:, :, None] * deep
            close((s['mass'].sum(2) - b['mass'].sum(2))[ero], want[ero], 'fractions in eroding columns' + what, rtol=1e-6, atol=2e-5)
            # bed level follows from the exchanged sediment
            if c['cfg'].get('process_avalanche'):
                continue
            want = -s['pickup'].sum(-1) / dens
            if not p['process_bedupdate']:
                want = want * 0.
            zb = b['zb'] + want
            if c['cfg'].get('process_wet_bed_reset'):
                # waterlevel at this time, also raised by the exchange
                zs = s['zs']
                edge = np.abs(zs - zb - .01) < 1e-9
                zb = np.where(zs > zb + .01, zb + (b['zb0'] - zb) * m.dt / p['Tbedreset'], zb)
                zb = np.where(edge, s['zb'], zb)
            tol = 1e-9 + 1e-12 * np.abs(s['pickup']).max()
            close(s['zb'], zb, 'bed level from exchanged sediment' + what, rtol=1e-10, atol=tol)
        c.label('%s/%s' % (p['solver'], p['scheme']))
        c.hit(moved)


CHECKS = [Check('steps', sim.setups(rotated=True, random=True), steps, quick=250)]
