"""Reference models of the advection solvers, assembled cell by cell as dense
systems from the documented discretisation, plus the generator of solver states."""
import numpy as np
from vlib import st, F, grid
import state
from aeolis.model import AeoLiS


@st.composite
def solver_cases(draw, solver, limited=None, laterals=('circular',), offs=None, ons=None):
    ny = draw(st.sampled_from([0, 0, 2, 3, 4]))
    nx = draw(st.integers(4, 7))
    nf = draw(st.integers(1, 3))
    nl = draw(st.integers(2, 3))
    sh = (ny + 1, nx + 1)
    conservative = 'pieter' in solver
    offs = offs or (('flux', 'constant', 'gradient') if conservative else
                    ('flux', 'constant', 'uniform', 'gradient') + (('noflux',) if solver == 'trunk' else ()))
    ons = ons or offs
    c = dict(ny=ny, nx=nx, nf=nf, nl=nl, solver=solver,
             scheme=draw(st.sampled_from(['euler_forward', 'euler_backward', 'crank_nicolson'])),
             dt=draw(F(0.5, 300.)), T=draw(F(0.5, 5.)), ds=draw(F(0.5, 5.)), dn=draw(F(0.5, 5.)),
             bi=draw(st.sampled_from([1., 1., .5, .1, 0.])),
             off=draw(st.sampled_from(list(offs))), on=draw(st.sampled_from(list(ons))),
             lat=draw(st.sampled_from(list(laterals))),
             offshore_flux=draw(F(0., 1.)), onshore_flux=draw(F(0., 1.)), lateral_flux=draw(F(0., 1.)),
             coff=draw(F(0., .01)), con=draw(F(0., .01)),
             sx=draw(st.sampled_from([1, 1, -1])), sy=draw(st.sampled_from([0, 1, -1])),
             mixed=draw(st.sampled_from([False, False, False, True])),
             t=draw(st.sampled_from([0., 60., 3600.])),
             fluid=draw(st.booleans()), dtp=draw(st.sampled_from([1., 1., 1.7])))
    # stretched grids
    c['fs'] = draw(st.one_of(st.just(np.ones(nx + 1)), grid((nx + 1,), .5, 2.)))
    c['fn'] = draw(st.one_of(st.just(np.ones(ny + 1)), grid((ny + 1,), .5, 2.)))
    c['vs'] = draw(grid(sh, 0.5, 10.))
    c['vn'] = draw(grid(sh, 0., 10.))
    c['sat'] = draw(grid(sh + (nf,), 0., .02))
    c['lsat'] = draw(grid(sh + (nf,), 0., .02))
    c['Ct'] = draw(grid(sh + (nf,), 0., 1.))
    c['frac'] = draw(grid(sh + (nl, nf), 0., 1.))
    c['gd'] = draw(grid((nf,), .1, 1.))
    c['supply'] = draw(grid(sh, 0., 1.))
    if ny == 0 and c['lat'] in ('gradient', 'constant'):
        c['lat'] = 'circular'
    lim = draw(st.booleans()) if limited is None else limited
    c['limited'] = lim
    return c


def build(c):
    """returns (model, params, state, previous state)"""
    ny, nx, nf, nl = c['ny'], c['nx'], c['nf'], c['nl']
    conservative = 'pieter' in c['solver']
    dt = c['dt']
    if c['scheme'] == 'euler_forward':
        # inside the CFL limit and below the adaptation time
        dt = min(dt, .5 / (10. / (c['ds'] * c['fs'].min()) + (10. / (c['dn'] * c['fn'].min()) if c['sy'] else 0.)), .5 * c['T'])
    p = state.params(nx, ny, nl, nf, dt=dt, T=c['T'], bi=c['bi'], scheme=c['scheme'], solver=c['solver'],
                     boundary_offshore=c['off'], boundary_onshore=c['on'], boundary_lateral=c['lat'],
                     offshore_flux=c['offshore_flux'], onshore_flux=c['onshore_flux'],
                     lateral_flux=c['lateral_flux'], constant_offshore_flux=c['coff'],
                     constant_onshore_flux=c['con'])
    p['dt'] = dt * c['dtp']                             # the current step is shorter than the configured one
    p['grain_dist'] = c['gd'].copy()
    s = state.state(p)
    s['ds'][:] = c['ds'] * c['fs'][None, :]
    s['dn'][:] = c['dn'] * c['fn'][:, None]
    s['dsdn'][:] = s['ds'] * s['dn']
    s['dsdni'][:] = 1. / s['dsdn']
    us = c['vs'] * c['sx']
    un = c['vn'] * c['sy'] * .5
    if c['mixed']:
        us = us - 5. * c['sx']
        un = un - 2.5 * c['sy']
        us = np.where(np.abs(us) < .05, .05, us)
    if c['sy']:
        un = np.where(np.abs(un) < .05, .05 * c['sy'], un)
    f = 1. - .2 * np.arange(nf)                         # coarser fractions travel slower
    s['us'] = us[:, :, None] * f
    s['un'] = un[:, :, None] * f
    s['u'] = np.hypot(s['us'], s['un'])
    s['uw'] = np.hypot(us, un)
    s['uws'], s['uwn'] = us, un
    s['Cu'] = c['sat'].copy()
    s['Cuf'] = c['sat'].copy()
    s['Cu0'] = c['lsat'][::-1, ::-1].copy()
    s['Ct'] = c['Ct'] * c['sat'] / nf                   # total saturation stays below one
    M = p['rhog'] * (1 - p['porosity']) * p['layer_thickness']
    fr = c['frac'] + 1e-3
    mass = fr / fr.sum(axis=-1, keepdims=True) * M * 1e3
    if c['limited']:
        top = c['supply'][:, :, None] * c['sat'].max() / c['T'] * dt * 1.5
        mass[:, :, 0, :] = top * fr[:, :, 0, :] / fr[:, :, 0, :].sum(axis=-1, keepdims=True)
    s['mass'] = mass
    l = dict(s)
    l['Cu'] = c['lsat'].copy()
    l['Cuf'] = c['lsat'].copy()
    lw = np.ones(s['Ct'].shape) / nf
    l['w'] = lw
    m = AeoLiS('none')
    m.p, m.s, m.l = p, s, l
    m.t = c['t']
    m.dt = dt
    return m, p, s, l


def run(m):
    return {'euler_forward': m.euler_forward, 'euler_backward': m.euler_backward,
            'crank_nicolson': m.crank_nicolson}[m.p['scheme']]()


def safe_norm(a, fill=0.):
    t = a.sum(axis=-1, keepdims=True)
    return np.where(t != 0, a / np.where(t != 0, t, 1.), fill)


def ref_weights(p, s):
    """documented weighing of the fractions"""
    with np.errstate(all='ignore'):
        w_air = np.where(s['Cu'] > 0, s['Ct'] / np.where(s['Cu'] > 0, s['Cu'], 1), 0.)
    w_bed = safe_norm(s['mass'][:, :, 0, :])
    bi = p['bi']
    w = (1 - bi) * w_air + (1 - np.minimum(1., (1 - bi) * w_air.sum(axis=-1, keepdims=True))) * w_bed
    return safe_norm(w), w_air, w_bed


def renorm(w, i):
    w = w.copy()
    f = w[:, :, :i].sum(axis=2, keepdims=True)
    w[:, :, i:] = safe_norm(w[:, :, i:]) * (1. - f)
    return safe_norm(w, 1. / w.shape[2])


ALPHA = dict(euler_forward=0., euler_backward=1., crank_nicolson=.5)


def trunk_matrix(p, s, i, dt):
    """divergence operator D (per cell and time step) of the upwind scheme: sum of
    what leaves a cell minus what its upwind neighbours send into it"""
    ny, nx = p['ny'], p['nx']
    J, K = ny + 1, nx + 1
    D = np.zeros((J, K, J, K))
    us, un = s['us'][:, :, i], s['un'][:, :, i]
    ws = s['dn'] / s['dsdn'] * dt
    wn = s['ds'] / s['dsdn'] * dt
    for j in range(J):
        for k in range(1, K - 1):
            D[j, k, j, k] += ws[j, k] * abs(us[j, k]) + wn[j, k] * abs(un[j, k])
            if us[j, k] >= 0:
                D[j, k, j, k - 1] -= ws[j, k] * us[j, k - 1]
            else:
                D[j, k, j, k + 1] += ws[j, k] * us[j, k + 1]
            if un[j, k] >= 0:
                D[j, k, (j - 1) % J, k] -= wn[j, k] * un[(j - 1) % J, k]
            else:
                D[j, k, (j + 1) % J, k] += wn[j, k] * un[(j + 1) % J, k]
    return D.reshape((J * K, J * K))


def trunk_reference(p, s, l, w0, dt, steady=False):
    """reference solution of the default solvers; returns Ct, pickup, list of per-fraction infos"""
    ny, nx, nf = p['ny'], p['nx'], p['nfractions']
    J, K = ny + 1, nx + 1
    N = J * K
    a = 1. if steady else ALPHA[p['scheme']]
    Ct = np.zeros((J, K, nf))
    pick = np.zeros((J, K, nf))
    w = w0.copy()
    r = s['Ct'] / np.where(s['Cu'] > 0, s['Cu'], 1.) * (s['Cu'] > 0)
    S = r.sum(axis=-1)
    info = dict(iters=0, minraw=0., converged=True)
    inner = np.zeros((J, K), bool)
    inner[:, 1:-1] = True
    inner = inner.ravel()
    for i in range(nf):
        w = renorm(w, i)
        T = p['T']
        if steady:
            D = trunk_matrix(p, s, i, 1.)
            Ti, A = 1. / T, None
            A = D + np.diag(np.where(inner, Ti, 0.))
            ex = np.zeros(N)
            l0 = np.zeros(N)
        else:
            D = trunk_matrix(p, s, i, dt)
            Ti = dt / T
            A = np.diag(np.where(inner, 1. + a * Ti, 0.)) + a * D
            lC = l['Ct'][:, :, i].ravel()
            lsrc = (l['w'][:, :, i] * (l['Cuf'][:, :, i] * (1 - S) + l['Cu'][:, :, i] * S)).ravel()
            ex = Ti * lsrc - Ti * lC - D @ lC
            l0 = lC
        A4 = A.reshape((J, K, J, K))
        rhs_b = np.zeros((J, K))
        for j in range(J):
            A4[j, 0, j, 0] = 1.
            A4[j, K - 1, j, K - 1] = 1.
            if p['boundary_offshore'] == 'flux':
                rhs_b[j, 0] = p['offshore_flux'] * s['Cu0'][j, 0, i]
            elif p['boundary_offshore'] == 'constant':
                rhs_b[j, 0] = p['constant_offshore_flux'] / s['u'][j, 0, i]
            elif p['boundary_offshore'] == 'uniform':
                A4[j, 0, j, 1] = -1.
            elif p['boundary_offshore'] == 'gradient':
                q = s['ds'][j, 1] / s['ds'][j, 2]
                A4[j, 0, j, 1] = -1. - q
                A4[j, 0, j, 2] = q
            if p['boundary_onshore'] == 'flux':
                rhs_b[j, -1] = p['onshore_flux'] * s['Cu0'][j, -1, i]
            elif p['boundary_onshore'] == 'constant':
                rhs_b[j, -1] = p['constant_onshore_flux'] / s['u'][j, -1, i]
            elif p['boundary_onshore'] == 'uniform':
                A4[j, K - 1, j, K - 2] = -1.
            elif p['boundary_onshore'] == 'gradient':
                q = s['ds'][j, -2] / s['ds'][j, -3]
                A4[j, K - 1, j, K - 2] = -1. - q
                A4[j, K - 1, j, K - 3] = q
        held = np.zeros((J, K), bool)                       # constant lateral boundaries
        if p['boundary_lateral'] == 'constant' and ny > 0:
            for j in (0, J - 1):
                for k in range(K):
                    A4[j, k] = 0.
                    A4[j, k, j, k] = 1.
                    if k in (0, K - 1):                     # corners: what the other boundary prescribes, or nothing
                        continue
                    held[j, k] = True
        mass = s['mass'][:, :, 0, i].ravel()
        Cu = s['Cu'][:, :, i].ravel()
        Cuf = s['Cuf'][:, :, i].ravel()
        Sf = S.ravel()
        for n in range(p['max_iter']):
            wi = w[:, :, i].ravel()
            y = l0 + a * Ti * wi * (Cuf * (1 - Sf) + Cu * Sf) + (1 - a) * ex
            y = np.where(inner, y, rhs_b.ravel())
            y = np.where(held.ravel(), l['Ct'][:, :, i].ravel(), y)
            C = np.linalg.solve(A, y)
            info['minraw'] = min(info['minraw'], C.min())
            pk = (wi * Cu - C) / T * dt
            lim = (pk - mass > p['max_error']) & (wi * Cu > 0)
            if not lim.any():
                pk = np.minimum(pk, mass)
                break
            info['iters'] += 1
            wi = wi.copy()
            wi[lim] = (mass[lim] * T / dt + C[lim]) / Cu[lim]
            w[:, :, i] = wi.reshape((J, K))
        else:
            info['converged'] = False
        Ct[:, :, i] = C.reshape((J, K))
        pick[:, :, i] = pk.reshape((J, K))
    info['cond'] = np.linalg.cond(A)
    return Ct, pick, w, info


def pieter_reference(p, s, l, w0, dt, steady=False):
    """conservative finite volumes with ample sediment in the bed"""
    ny, nx, nf = p['ny'], p['nx'], p['nfractions']
    J, K = ny + 1, nx + 1
    N = J * K
    a = 1. if steady else ALPHA[p['scheme']]
    Ct = np.zeros((J, K, nf))
    w = w0.copy()
    minraw = 0.
    circ = p['boundary_lateral'] == 'circular'
    idx = np.arange(N).reshape((J, K))
    for i in range(nf):
        w = renorm(w, i)
        us, un = s['us'][:, :, i], s['un'][:, :, i]
        D = np.zeros((N, N))            # outflow - inflow through the faces between cells
        sx = np.zeros((N, N))
        ds, dn = s['ds'], s['dn']

        def face(a_, b_, vel, length, rows):
            # flux from cell a_ to cell b_ (positive vel), upwind concentration
            up = a_ if vel >= 0 else b_
            if a_ in rows:
                D[a_, up] += vel * length
            if b_ in rows:
                D[b_, up] -= vel * length
        for j in range(J):
            for k in range(K - 1):
                rows = {idx[j, k], idx[j, k + 1]}
                if k == 0 and p['boundary_offshore'] == 'gradient':
                    rows.discard(idx[j, 0])
                if k == K - 2 and p['boundary_onshore'] == 'gradient':
                    rows.discard(idx[j, K - 1])
                face(idx[j, k], idx[j, k + 1], .5 * (us[j, k] + us[j, k + 1]), dn[j, k], rows)
        for k in range(K):
            for j in range(J - 1):
                rows = {idx[j, k], idx[j + 1, k]}
                if p['boundary_lateral'] == 'gradient':
                    if j == 0:
                        rows.discard(idx[0, k])
                    if j == J - 2:
                        rows.discard(idx[J - 1, k])
                face(idx[j, k], idx[j + 1, k], .5 * (un[j, k] + un[j + 1, k]), ds[j, k], rows)
            if circ and J > 1:
                face(idx[J - 1, k], idx[0, k], .5 * (un[0, k] + un[J - 1, k]), ds[0, k],
                     {idx[J - 1, k], idx[0, k]})
        bnd = np.zeros((J, K))
        if p['boundary_offshore'] == 'flux':
            bnd[:, 0] += dn[:, 0] * us[:, 0] * s['Cu0'][:, 0, i] * p['offshore_flux']
        if p['boundary_onshore'] == 'flux':
            bnd[:, -1] += dn[:, -1] * us[:, -1] * s['Cu0'][:, -1, i] * p['onshore_flux']
        if p['boundary_lateral'] == 'flux':
            bnd[0, :] += ds[0, :] * un[0, :] * s['Cu0'][0, :, i] * p['lateral_flux']
            bnd[-1, :] -= ds[-1, :] * un[-1, :] * s['Cu0'][-1, :, i] * p['lateral_flux']
        V = s['dsdn'].ravel()
        T = p['T']
        lC = l['Ct'][:, :, i].ravel()
        U = (w[:, :, i] * s['Cu'][:, :, i]).ravel()
        lU = (l['w'][:, :, i] * l['Cu'][:, :, i]).ravel()
        # V (C - lC)/dt + a (D C + V C/T) + (1-a)(D lC + V lC/T) = V/T (a U + (1-a) lU) + bnd
        A = a * (D + np.diag(V / T)) + (0. if steady else np.diag(V / dt))
        y = V / T * (a * U + (1 - a) * lU) + bnd.ravel() - (1 - a) * (D @ lC + V * lC / T)
        if not steady:
            y = y + V * lC / dt
        if p['boundary_lateral'] == 'constant':
            for j in (0, J - 1):
                for k in range(K):
                    A[idx[j, k], :] = 0.
                    A[idx[j, k], idx[j, k]] = 1.
                    y[idx[j, k]] = lC[idx[j, k]]
        for col, kind in ((0, p['boundary_offshore']), (K - 1, p['boundary_onshore'])):
            if kind == 'constant':
                for j in range(J):
                    A[idx[j, col], :] = 0.
                    A[idx[j, col], idx[j, col]] = 1.
                    y[idx[j, col]] = lC[idx[j, col]]
                    if steady:
                        q = p['constant_offshore_flux'] if col == 0 else p['constant_onshore_flux']
                        y[idx[j, col]] = q / s['u'][j, col, i]
        C = np.linalg.solve(A, y)
        minraw = min(minraw, C.min())
        Ct[:, :, i] = C.reshape((J, K))
    pick = (w * s['Cu'] - Ct) / p['T'] * dt
    return Ct, pick, w, dict(minraw=minraw)
