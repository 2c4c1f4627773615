"""C03: transport never exceeds the sediment available in the bed."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import solver as sv
import aeolis.bed

PROPERTY = 'C03'
RULE = ('Generated wind/saturation/bed states with little, no or locally missing sediment, all solvers, schemes and boundaries, '
        'run over several steps including the bed update. Non-trivial: transport is limited by supply in at least one cell.')

LAT = {'trunk': ('circular', 'circular', 'constant'), 'steadystate': ('circular', 'circular', 'constant'),
       'pieter': ('circular', 'flux', 'gradient', 'constant'), 'steadystatepieter': ('circular', 'flux', 'gradient', 'constant')}


@st.composite
def cases(draw, solvers=tuple(LAT)):
    k = draw(st.sampled_from(list(solvers)))
    # extrapolating boundaries, large semi-implicit steps and (default solvers) reversals of the wind allow negative concentrations by design
    safe = ('flux', 'constant') + (('noflux',) if k == 'trunk' else ())
    b = dict(offs=safe) if 'pieter' not in k else {}
    c = draw(sv.solver_cases(k, limited=True, laterals=LAT[k], **b))
    if 'pieter' not in k:
        c['mixed'] = False
        if not c['mixed'] and draw(st.booleans()):
            c['on' if c['sx'] > 0 else 'off'] = 'uniform'           # outflow
    else:                                               # flux boundaries only where sediment comes in
        c['lateral_flux'] = 0.
        if c['mixed'] or c['sx'] < 0:
            c['offshore_flux'] = 0.
        c['onshore_flux'] = 0.
        if c['mixed'] or c['sx'] > 0:
            c['on'] = 'flux' if c['on'] == 'constant' else c['on']
    if k == 'steadystatepieter':
        c['mixed'] = False
    c['dt'] = min(c['dt'], 50. * c['T'])                # the iteration on the weights converges in time
    if c['scheme'] == 'crank_nicolson':
        c['dt'] = min(c['dt'], 1. / (10. / (c['ds'] * c['fs'].min()) + (10. / (c['dn'] * c['fn'].min()) if c['sy'] else 0.)), c['T'])
    c['steps'] = draw(st.integers(1, 3))
    c['missing'] = draw(st.booleans())
    if 'pieter' in k and c['t'] == 0.:
        c['t'] = 60.
    return c


def setup(c):
    m, p, s, l = sv.build(c)
    p['max_iter'] = 20000                           # limits hold up to the convergence of the iteration on the weights
    if c['missing']:                                # single fractions missing in single cells
        gap = np.roll(c['frac'][:, :, 0, :], 1, axis=1) < .3
        s['mass'][:, :, 0, :][gap] = 0.
    if c.get('steps', 1) > 1:                       # the bed update needs a surface layer
        top = s['mass'][:, :, 0, :]
        top[top.sum(-1) < 1e-3] = 1e-3 / p['nfractions']
    l['mass'] = s['mass'].copy()
    return m, p, s, l


def limits(c):
    m, p, s, l = setup(c)
    tol = 2e-6
    limited = False
    for n in range(c['steps']):
        mass = s['mass'].copy()
        before = {k: s[k].copy() for k in ('Ct', 'Cu', 'Cuf', 'mass', 'zb')}
        out = sv.run(m)
        for k in ('Ct', 'pickup', 'w', 'qs', 'qn'):
            finite(out[k], k)
        if n == 0:                                      # the exchange is weighed with the state at the start of the step
            for k, v in zip(('w_init', 'w_air', 'w_bed'), sv.ref_weights(p, s)):
                close(out[k], v, 'weights %s at the start of the step' % k, rtol=1e-9, atol=1e-12)
        check(out['Ct'].min() >= 0., 'negative sediment concentration %r', float(out['Ct'].min()))
        top = mass[:, :, 0, :]
        check(np.all(out['pickup'] <= top + tol), 'more sediment picked up than present in the bed surface: %r kg/m2 above %r',
              float((out['pickup'] - top).max()), float(top.flat[(out['pickup'] - top).argmax()]))
        check(out['w'].min() >= -1e-9, 'negative weight %r', float(out['w'].min()))
        check(out['w'].sum(-1).max() <= 1. + 1e-6, 'weights add up to %r', float(out['w'].sum(-1).max()))
        # exchange with the bed follows from saturation, also if limited
        # (weights of earlier fractions are renormalised once more afterwards)
        want = np.minimum((out['w'] * s['Cu'] - out['Ct']) / p['T'] * m.dt, np.maximum(top, out['pickup']))
        close(out['pickup'][:, :, -1], want[:, :, -1], 'pickup versus adaptation towards saturation', rtol=1e-6, atol=tol)
        # transport is limited only where a fraction ran out
        short = 1. - out['w'].sum(-1) > 1e-6
        ran_out = (top - out['pickup'] <= tol + 1e-6 * top).any(-1)
        nosed = top.sum(-1) <= tol
        bad = short & ~ran_out & ~nosed & (s['Cu'].sum(-1) > 0)
        check(not bad.any(), 'transport limited in %d cells where sediment is left', int(bad.sum()))
        # what a fraction cannot supply is taken over by the following ones
        last = (top - out['pickup'] <= tol + 1e-6 * top)[:, :, -1] | (out['w_init'][:, :, -1] <= 1e-9)
        bad = short & ~last & ~nosed & (s['Cu'][:, :, -1] > 0)
        check(not bad.any(), 'transport limited in %d cells where the last fraction could take over', int(bad.sum()))
        limited = limited or bool(short.any())
        for k, v in before.items():
            check(np.array_equal(v, s[k]), 'the solver modified %s', k)
        if c['steps'] == 1:
            break
        # carry on with the new state, as the model does
        new = dict(s)
        m.l = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in new.items()}
        for k, v in out.items():
            s[k] = v
        m.l['w'] = out['w'].copy()
        m.l['Ct'] = out['Ct'].copy()
        z0, pk = s['zb'].copy(), out['pickup'].copy()
        s = aeolis.bed.update(s, p)
        check(s['mass'].min() >= -5e-6, 'negative mass %r in the bed after the exchange', float(s['mass'].min()))
        close(s['zb'] - z0, -pk.sum(-1) / (p['rhog'] * (1. - p['porosity'])), 'bed level change', rtol=1e-6, atol=1e-12)
        m.s = s
        m.t += m.dt
        m.dt_prev = m.dt
    c.label(c['solver'] + '/' + c['scheme'])
    c.hit(limited)


def nothing(c):
    """no sediment in bed and air, none enters: none is transported"""
    m, p, s, l = setup(c)
    p['offshore_flux'] = p['onshore_flux'] = p['lateral_flux'] = 0.
    p['constant_offshore_flux'] = p['constant_onshore_flux'] = 0.
    s['mass'][:, :, 0, :] = 0.
    for x in (s, l):
        x['Ct'] = np.zeros(s['Ct'].shape)
    l['mass'] = s['mass'].copy()
    if c['scheme'] != 'euler_backward':
        l['Cu'] = l['Cu'] * 0.
        l['Cuf'] = l['Cuf'] * 0.
    out = sv.run(m)
    # (gradient boundaries feed on themselves; in the steady state of a dead-end cell any concentration up to saturation is in balance)
    # (gradient boundaries feed on themselves; in the steady state of a dead-end cell any concentration up to saturation is in balance)
    if 'gradient' in (c['off'], c['on'], c['lat']):
        return
    tol = 2e-6 * (1. + c['nx'] * 2. * max(c['ds'], c['dn']) / (.25 * m.dt)) + .01 * s['Cu'].max()
    check(c['solver'] == 'steadystatepieter' or out['Ct'].max() <= tol,
          'concentration %r out of nothing', float(out['Ct'].max()))
    check(np.abs(out['pickup']).max() <= tol * max(1., m.dt / p['T']), 'pickup %r out of nothing', float(np.abs(out['pickup']).max()))
    c.hit(s['Cu'].max() > 1e-6)


def balance(c):
    """closed domain and little sediment: what the air gains the bed loses"""
    c['off'] = c['on'] = 'flux'
    c['offshore_flux'] = c['onshore_flux'] = 0.
    c['lat'] = 'circular'
    c['scheme'] = 'euler_backward'
    m, p, s, l = setup(c)
    l['Ct'] = s['Ct'].copy()
    out = sv.run(m)
    air = ((out['Ct'] - l['Ct']) * s['dsdn'][:, :, None]).sum()
    bed = (out['pickup'] * s['dsdn'][:, :, None]).sum()
    mag = (np.abs(out['Ct']) * s['dsdn'][:, :, None]).sum() * (1 + m.dt / p['T']) + 1e-9
    close(air, bed, 'sediment gained by the air versus sediment lost by the bed', rtol=0,
          atol=1e-7 * mag + 2e-6 * s['dsdn'].sum() * p['nfractions'])
    c.hit((1. - out['w'].sum(-1) > 1e-6).any())


CHECKS = [Check('limits', cases(), limits, quick=800),
          Check('nothing', cases(), nothing, quick=300),
          Check('closed_balance', cases(('pieter',)), balance, quick=300)]
