"""C05: the finite-volume solvers conserve sediment and solve their balance."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import solver as sv
from props.c04 import initial_w, symmetric, model_cases, in_model

PROPERTY = 'C05'
RULE = ('Generated wind/saturation/bed states with ample sediment, all time schemes and boundary conditions of the '
        'finite-volume solvers; compared with a dense face-by-face reference and with the global sediment balance. '
        'Non-trivial: sediment moves through a face between cells.')


def reference(c, steady=False):
    if c['t'] == 0.:
        c['t'] = 60.
    m, p, s, l = sv.build(c)
    w0 = initial_w(p, s, c['t'])
    Ct, pick, w, info = sv.pieter_reference(p, s, l, w0, m.dt, steady)
    out = sv.run(m)
    if info['minraw'] < -1e-9:
        c.label('not compared')
        return
    scale = max(Ct.max(), l['Ct'].max(), s['Cu'].max(), 1e-9)
    close(out['Ct'], Ct, 'sediment concentration', rtol=1e-6, atol=1e-7 * scale + (2e-6 if Ct.min() < 0 else 0))
    close(out['pickup'], pick, 'pickup', rtol=1e-6, atol=1e-6 * max(np.abs(pick).max(), 1e-9))
    close(out['qs'], out['Ct'] * s['us'], 'transport flux in s-direction', rtol=1e-9, atol=1e-15)
    close(out['qn'], out['Ct'] * s['un'], 'transport flux in n-direction', rtol=1e-9, atol=1e-15)
    c.label(c['scheme'] + '/' + c['lat'])
    c.hit(Ct.max() > 1e-6 and np.ptp(Ct) > 1e-7)


def steady(c):
    reference(c, True)


def balance(c):
    """no sediment enters or leaves other than by the bed (closed domain)"""
    if c['t'] == 0.:
        c['t'] = 60.
    c['off'] = c['on'] = 'flux'
    c['offshore_flux'] = c['onshore_flux'] = 0.
    c['scheme'] = 'euler_backward'
    m, p, s, l = sv.build(c)
    out = sv.run(m)
    air = ((out['Ct'] - l['Ct']) * s['dsdn'][:, :, None]).sum()
    bed = (out['pickup'] * s['dsdn'][:, :, None]).sum()
    mag = (np.abs(out['Ct']) * s['dsdn'][:, :, None]).sum() * (1 + m.dt / p['T']) + 1e-9
    close(air, bed, 'sediment gained by the air versus sediment lost by the bed', rtol=0, atol=1e-7 * mag)
    c.hit(np.ptp(out['Ct']) > 1e-7)


LAT = ('circular', 'circular', 'flux', 'gradient', 'constant')
CHECKS = [
    Check('pieter_reference', sv.solver_cases('pieter', limited=False, laterals=LAT), reference, quick=1000),
    Check('steadystatepieter_reference', sv.solver_cases('steadystatepieter', limited=False, laterals=LAT),
          steady, quick=500),
    Check('in_model', model_cases(('pieter', 'pieter', 'steadystatepieter')), in_model, quick=100),
    Check('closed_balance', sv.solver_cases('pieter', limited=False), balance, quick=500),
    Check('lateral_symmetry', st.one_of(*[sv.solver_cases(k, limited=False).map(lambda c: dict(c, t=60.))
                                          for k in ('pieter', 'steadystatepieter')]), symmetric, quick=300),
]
