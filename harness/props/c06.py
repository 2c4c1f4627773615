"""C06: the weights of the sediment fractions form a distribution that follows the documented weighing."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite
import state
import solver as sv
import aeolis.transport as tr

PROPERTY = 'C06'
RULE = ('Generated concentrations, saturated concentrations and surface compositions (with empty fractions, empty beds, '
        'calm cells and over-saturated air) for one to five fractions. Non-trivial: at least two fractions and a cell in '
        'which both air and bed contribute to the weights.')


@st.composite
def cases(draw):
    ny = draw(st.sampled_from([0, 1, 2]))
    nx = draw(st.integers(2, 5))
    nf = draw(st.integers(1, 5))
    sh = (ny + 1, nx + 1, nf)
    return dict(ny=ny, nx=nx, nf=nf, bi=draw(st.sampled_from([0., .05, .5, .9, 1.])),
                Cu=draw(grid(sh, 0., .05)), r=draw(grid(sh, 0., draw(st.sampled_from([.2, .6, 1.5])))),
                mass=draw(grid(sh, 0., 50.)), empty=draw(grid(sh[:2], 0., 1.)), perm=draw(st.permutations(range(nf))),
                accfac=draw(st.sampled_from([1., 1., 10.])))


def weights(c):
    nf = c['nf']
    p = state.params(c['nx'], c['ny'], 2, nf, bi=c['bi'])
    s = state.state(p)
    s['Cu'] = c['Cu'].copy()
    s['Ct'] = c['Cu'] * c['r'] / (nf if c['r'].max() <= 1 else 1)
    s['mass'][:, :, 0, :] = c['mass'] * (c['empty'] > 0)[:, :, None]
    s['mass'][:, :, 1, :] = 1.
    before = {k: s[k].copy() for k in ('Cu', 'Ct', 'mass')}
    w, wa, wb = tr.compute_weights(s, p)
    for k, v in before.items():
        close(s[k], v, '%s changed by the computation of weights' % k, rtol=0, atol=0)
    rw, ra, rb = sv.ref_weights(p, s)
    close(wa, ra, 'weights in the air', rtol=1e-10, atol=1e-13)
    close(wb, rb, 'weights in the bed', rtol=1e-10, atol=1e-13)
    close(w, rw, 'weights', rtol=1e-9, atol=1e-12)
    tot = w.sum(axis=-1)
    check(np.all((np.abs(tot - 1) < 1e-9) | (tot == 0)), 'weights sum to %s', tot)
    check(w.min() >= 0, 'negative weight %g', w.min())
    empty = s['mass'][:, :, 0, :].sum(axis=-1) == 0
    check(np.all(np.abs(tot[~empty] - 1) < 1e-9), 'weights of a cell with sediment do not add up to one: %s', tot[~empty])
    # order of the fractions is immaterial
    pm = list(c['perm'])
    s2 = dict(s)
    s2['Cu'], s2['Ct'], s2['mass'] = s['Cu'][:, :, pm], s['Ct'][:, :, pm], s['mass'][:, :, :, pm]
    close(tr.compute_weights(s2, p)[0], w[:, :, pm], 'weights after reordering the fractions', rtol=1e-9, atol=1e-12)
    air = (1 - c['bi']) * ra.sum(axis=-1)
    c.hit(nf > 1 and np.any((air > 0) & (air < 1) & ~empty))
    if np.any(air > 1):
        c.label('oversaturated')
    if empty.any():
        c.label('empty bed')


def renormalize(c):
    nf = c['nf']
    w = sv.safe_norm(c['mass'] * (c['empty'] > 0)[:, :, None])
    # the first fraction may have become supply limited
    w[:, :, 0] *= c['empty']
    prev = w
    for i in range(nf):
        out = tr.renormalize_weights(prev.copy(), i)
        close(out, sv.renorm(prev, i), 'renormalised weights at fraction %d' % i, rtol=1e-9, atol=1e-12)
        close(out.sum(axis=-1), 1., 'sum of renormalised weights', rtol=1e-9)
        check(out.min() >= -1e-12, 'negative weight %g', out.min())
        rest = prev[:, :, i:].sum(axis=-1) > 0
        close(out[:, :, :i][rest], prev[:, :, :i][rest], 'weights of already solved fractions', rtol=1e-9, atol=1e-12)
        prev = out
    c.hit(nf > 1 and np.any(c['empty'] < 1))


def fractions_sum(c):
    """total saturated transport does not depend on how a sediment is split into identical fractions"""
    nf = c['nf']
    p1 = state.params(c['nx'], c['ny'], 2, 1, bi=c['bi'])
    pn = state.params(c['nx'], c['ny'], 2, nf, bi=c['bi'])
    s1, sn = state.state(p1), state.state(pn)
    Cu = c['Cu'][:, :, :1]
    share = sv.safe_norm(c['mass'] + 1e-3)
    M = c['mass'].sum(axis=-1, keepdims=True) + 1.
    s1['Cu'], sn['Cu'] = Cu.copy(), np.repeat(Cu, nf, axis=2)
    s1['Ct'] = Cu * np.minimum(c['r'][:, :, :1], 1.)
    sn['Ct'] = s1['Ct'] * share
    s1['mass'][:, :, 0, :] = M
    sn['mass'][:, :, 0, :] = M * share
    w1 = tr.compute_weights(s1, p1)[0]
    wn = tr.compute_weights(sn, pn)[0]
    close((wn * sn['Cu']).sum(axis=-1), (w1 * s1['Cu']).sum(axis=-1), 'total weighed saturation', rtol=1e-9, atol=1e-13)
    close(wn, share, 'weights of identical fractions', rtol=1e-8, atol=1e-10)
    c.hit(nf > 1)


CHECKS = [Check('weights', cases(), weights, quick=1500),
          Check('renormalize', cases(), renormalize, quick=700),
          Check('fractions_sum', cases(), fractions_sum, quick=500)]
