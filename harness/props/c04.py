"""C04: the default (non-conservative upwind) transport solvers solve the documented equation."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import solver as sv
import sim
from vlib import tmpdir, quiet

PROPERTY = 'C04'
RULE = ('Generated wind/saturation/bed states on 1D and 2D grids, all time schemes and boundary conditions, one to '
        'three fractions, supply-limited or not; solved by the model and by a dense cell-by-cell reference. '
        'Non-trivial: a case in which sediment moves and at least two cells differ.')


def initial_w(p, s, t):
    if t == 0. and p['bedcomp_file'] is None:
        gd = np.atleast_2d(p['grain_dist'])[0]
        return np.broadcast_to(gd, s['Ct'].shape).copy()
    return sv.ref_weights(p, s)[0]


def compare(c, steady):
    m, p, s, l = sv.build(c)
    if c['fluid']:                                      # saturation from the fluid threshold, partly oversaturated air
        s['Cuf'], l['Cuf'] = s['Cu'] * 1.3, l['Cu'] * .8
        s['Ct'] = l['Ct'] = s['Ct'] * 2.
    old = s['Ct'].copy()
    w0 = initial_w(p, s, c['t'])
    Ct, pick, w, info = sv.trunk_reference(p, s, l, w0, m.dt, steady)
    out = sv.run(m)
    close(s['Ct'], old, 'the solver changed the previous concentration in place')
    if info['minraw'] < -1e-9 or not info['converged'] or info['cond'] > 1e7:
        c.label('not compared')
        return
    scale = max(Ct.max(), l['Ct'].max(), s['Cu'].max(), 1e-12)
    close(out['Ct'], np.where(np.abs(Ct) < 1e-15, 0, Ct), 'sediment concentration', rtol=1e-6,
          atol=2e-6 if Ct.min() < 0 else 1e-12 + 1e-7 * scale + (1e-5 * scale if info['iters'] else 0.))
    flux = max((w * s['Cu']).max(), scale) / p['T'] * m.dt
    close(out['pickup'], pick, 'pickup', rtol=1e-6,
          atol=1e-7 * flux + (2e-6 if info['iters'] else 0.) + (2e-6 * m.dt / p['T'] if Ct.min() < 0 else 0))
    close(out['qs'], out['Ct'] * s['us'], 'transport flux in s-direction', rtol=1e-9, atol=1e-15)
    close(out['qn'], out['Ct'] * s['un'], 'transport flux in n-direction', rtol=1e-9, atol=1e-15)
    if info['iters'] == 0:
        close(out['w'], w, 'weights of the fractions', rtol=1e-9, atol=1e-12)
    else:
        c.label('supply limited')
    c.label(c['scheme'])
    c.label('off=' + c['off'])
    if p['ny']:
        c.label('2D')
    c.hit(Ct.max() > 1e-6 and np.ptp(Ct) > 1e-7)


def trunk(c):
    compare(c, False)


def steadystate(c):
    compare(c, True)


KEEP = ('Ct', 'Cu', 'Cuf', 'w', 'mass')


@st.composite
def model_cases(draw, solvers=('trunk', 'trunk', 'steadystate'), schemes=None):
    c = draw(sim.setups(steps=(2, 5), random=False, solvers=solvers, schemes=schemes))
    c['cfg'].pop('process_mixtoplayer', None)               # changes the bed before sediment is picked up
    c['cfg']['offshore_flux'] = draw(st.sampled_from([0., 0., .5, 1.]))
    c['cfg']['constant_offshore_flux'] = draw(st.sampled_from([0., 0., .01]))
    c['cfg']['bi'] = draw(st.sampled_from([1., 1., .5, .05]))
    return c


def in_model(c):
    """every step of a complete model solves the equation with the states before and the conditions during the step"""
    moving = 0
    with tmpdir() as d, quiet():
        m = sim.start(d, c)
        pieter = 'pieter' in c['cfg']['solver']
        steady = 'steady' in c['cfg']['solver']
        for k in range(c['nsteps']):
            t, l = m.t, {v: np.array(m.s[v], copy=True) for v in KEEP}
            m.update()
            s = {v: (np.array(a, copy=True) if isinstance(a, np.ndarray) else a) for v, a in m.s.items()}
            if not np.any(s['uw']) or (pieter and t == 0.):
                continue
            out = {v: s[v] for v in ('Ct', 'pickup', 'w')}
            s['Ct'], s['mass'] = l['Ct'], l['mass']
            w0 = initial_w(m.p, s, t)
            ref = (sv.pieter_reference if pieter else sv.trunk_reference)(m.p, s, l, w0, m.dt, steady)
            Ct, pick, w, info = ref
            scale = max(Ct.max(), l['Ct'].max(), s['Cu'].max(), 1e-9)
            if info['minraw'] < -1e-9 * max(scale, 1e-3) or not info.get('converged', True) or info.get('cond', 1.) > 1e7:
                c.label('not compared')
                continue
            lim = bool(info.get('iters')) or (pieter and np.any(pick > l['mass'][:, :, 0, :]))
            if lim and pieter:
                c.label('not compared')
                continue
            close(out['Ct'], np.where(np.abs(Ct) < 1e-15, 0, Ct), 'sediment concentration in step %d' % (k + 1), rtol=1e-6,
                  atol=2e-6 if Ct.min() < 0 else 1e-9 + 1e-7 * scale + (1e-5 * scale if lim else 0.))
            flux = max((w * s['Cu']).max(), scale) / m.p['T'] * m.dt
            close(out['pickup'], pick, 'pickup in step %d' % (k + 1), rtol=1e-6,
                  atol=1e-9 + 1e-7 * flux + (2e-6 if lim else 0.) + (2e-6 * m.dt / m.p['T'] if Ct.min() < 0 else 0))
            moving = max(moving, Ct.max())
    c.label(c['cfg']['scheme'])
    c.hit(moving > 1e-6)


def symmetric(c):
    """mirroring in lateral direction, cyclic shift of the rows, permutation of nothing else"""
    m, p, s, l = sv.build(c)
    if c['ny'] == 0:
        return
    out = sv.run(m)
    finite(out['Ct'], 'concentration')
    # mirror
    m2, p2, s2, l2 = sv.build(c)
    for st_ in (s2, l2):
        for k, v in list(st_.items()):
            if isinstance(v, np.ndarray) and v.ndim >= 2:
                st_[k] = v[::-1].copy()
    s2['un'] = -s2['un']
    s2['uwn'] = -s2['uwn']
    out2 = sv.run(m2)
    tol = 2e-7 + 1e-5 * out['Ct'].max()
    close(out2['Ct'][::-1], out['Ct'], 'concentration after mirroring the domain laterally', rtol=1e-6, atol=tol)
    # shift of the rows
    m3, p3, s3, l3 = sv.build(c)
    sh = 1
    for st_ in (s3, l3):
        for k, v in list(st_.items()):
            if isinstance(v, np.ndarray) and v.ndim >= 2:
                st_[k] = np.roll(v, sh, axis=0)
    out3 = sv.run(m3)
    if c['lat'] == 'circular':
        close(np.roll(out3['Ct'], -sh, axis=0), out['Ct'], 'concentration after a lateral cyclic shift',
              rtol=1e-6, atol=tol)
    c.label(c['solver'])
    c.hit(np.any(s['un'] != 0) and out['Ct'].max() > 1e-6)


def alike(c):
    """identical fractions behave as one"""
    c1 = dict(c, nf=1, sat=c['sat'][:, :, :1], lsat=c['lsat'][:, :, :1], Ct=c['Ct'][:, :, :1],
              frac=c['frac'].sum(-1, keepdims=True), gd=np.ones(1), bi=1.)
    nf = c['nf']
    m1, p1, s1, l1 = sv.build(c1)
    o1 = sv.run(m1)
    cn = dict(c1, nf=nf, gd=np.ones(nf) / nf)
    for k in ('sat', 'lsat', 'Ct'):
        cn[k] = np.repeat(c1[k], nf, axis=2)
    cn['frac'] = np.repeat(c1['frac'] / nf, nf, axis=3)
    mn, pn, sn, ln = sv.build(cn)
    for x in (sn, ln):
        for k in ('us', 'un', 'u'):
            x[k] = np.repeat(x[k][:, :, :1], nf, axis=2)
    ln['w'] = l1['w'].repeat(nf, axis=2) / nf
    sn['mass'] = np.repeat(s1['mass'] / nf, nf, axis=3)
    ln['mass'] = sn['mass']
    sn['Ct'] = np.repeat(s1['Ct'] / nf, nf, axis=2)
    ln['Ct'] = sn['Ct'].copy()
    sn['Cu0'] = np.repeat(s1['Cu0'] / nf, nf, axis=2)
    pn['constant_offshore_flux'] /= nf
    pn['constant_onshore_flux'] /= nf
    on = sv.run(mn)
    scale = max(o1['Ct'].max(), c1['sat'].max())
    close(on['Ct'].sum(-1), o1['Ct'].sum(-1), 'total concentration of %d identical fractions' % nf,
          rtol=1e-6, atol=1e-7 * scale + 2e-6 * nf)
    c.hit(nf > 1 and scale > 1e-6)


LAT = ('circular', 'circular', 'constant')
CHECKS = [
    Check('trunk_reference', sv.solver_cases('trunk', laterals=LAT), trunk, quick=1200),
    Check('steadystate_reference', sv.solver_cases('steadystate', laterals=LAT), steadystate, quick=400),
    Check('lateral_symmetry', st.one_of(*[sv.solver_cases(k, limited=False) for k in ('trunk', 'steadystate')]),
          symmetric, quick=500),
    Check('in_model', model_cases(), in_model, quick=100),
    Check('identical_fractions', sv.solver_cases('trunk', limited=False), alike, quick=300),
]
