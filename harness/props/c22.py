"""C22: output statistics."""
import os
import numpy as np
import netCDF4
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
from props import c21

PROPERTY = 'C22'
RULE = ('Generated complete runs with requested statistics, and sequences of time steps and requests for statistics with and without clearing them. '
        'Non-trivial: at least one interval of several steps in which a variable with statistics changes.')
STATS = c21.STATS


def stat(name, a):
    """statistic of the samples a (first axis); None if not defined"""
    n = len(a)
    if n == 0:
        return np.zeros(a.shape[1:]) if name in ('avg', 'sum', 'var') else None
    if name == 'avg':
        return np.sum(a, axis=0) / n
    if name == 'sum':
        return np.sum(a, axis=0)
    if name == 'min':
        return np.min(a, axis=0)
    if name == 'max':
        return np.max(a, axis=0)
    if n < 2:
        return np.zeros(a.shape[1:])
    return np.sum((a - np.mean(a, axis=0)) ** 2, axis=0) / (n - 1)


def compare(got, name, a, what, single=False):
    want = stat(name, a)
    if want is None:
        return
    ok = np.all(np.isfinite(a), axis=0)                 # e.g. infinite thresholds have no variance
    got, want = np.where(ok, got, 0.), np.where(ok, want, 0.)
    big = np.max(np.abs(a[:, ok]), initial=0.)
    rtol, atol = (2e-6, 1e-30) if single else (1e-9, 1e-30)
    atol += 1e-10 * big * len(a)
    if name == 'var':
        atol += 1e-11 * big ** 2 * len(a)
        if single:
            atol += 1e-7 * np.nanmax(np.abs(want), initial=0.)
    close(got, want, what, rtol=rtol, atol=atol)


@st.composite
def file_cases(draw):
    c = draw(c21.cases(stats=True))
    cfg = c['cfg']
    if not any(n not in c['vars'] for n in cfg['output_vars']) and not cfg['output_types']:
        if draw(st.booleans()):
            cfg['output_types'] = draw(st.lists(st.sampled_from(STATS), unique=True, min_size=1, max_size=5))
        else:
            cfg['output_vars'] = [v + '_' + draw(st.sampled_from(STATS)) for v in c['vars']]
    return c


def requested(c):
    """{variable: statistics} in the file"""
    out = {}
    for n in c['cfg']['output_vars']:
        v = [v for v in c['vars'] if n == v or n.startswith(v + '_') and n[len(v) + 1:] in STATS]
        v = max(v, key=len)
        out.setdefault(v, set(c['cfg']['output_types'])).update([] if n == v else [n[len(v) + 1:]])
    return out


def in_file(c):
    with tmpdir() as d, quiet():
        os.makedirs('sub')
        m, hist = sim.record_run(d, c, c['vars'])
        active = False
        with netCDF4.Dataset(c['cfg']['output_file'] or 'aeolis.nc') as nc:
            t = np.array(nc.variables['time'][:])
            ix = c21.records(m, hist, c, t)
            close(t, [hist[k][0] for k in ix], 'times in the output file', rtol=1e-12)
            for v, exts in requested(c).items():
                for e in STATS:
                    name = v + '_' + e
                    if e not in exts:
                        check(name not in nc.variables, '%s is written without request', name)
                        continue
                    check(name in nc.variables, '%s is not written', name)
                    a = np.ma.filled(nc.variables[name][:].astype(float), np.nan)
                    for j, k in enumerate(ix):
                        lo = ix[j - 1] + 1 if j else 1
                        x = np.array([np.broadcast_to(c21.scaled(m, v, np.asarray(h[1][v], dtype=float)), a[j].shape) for h in hist[lo:k + 1]]).reshape((k + 1 - lo,) + a[j].shape)
                        compare(a[j], e, x, '%s in record %d of %d steps' % (name, j, k + 1 - lo), single=True)
                        active |= k - lo > 0 and bool(np.any(x != x[0]))
            for v in c['vars']:
                if v not in c['cfg']['output_vars']:
                    check(v not in nc.variables, '%s is written although only its statistics are requested', v)
        c.hit(active)


@st.composite
def ask_cases(draw):
    c = draw(sim.setups(steps=(3, 7), shear=False, calm=False, solvers=('trunk', 'pieter', 'steadystate'), schemes=('euler_backward',)))
    c['cfg']['tstop'] = c['cfg']['tstart'] + 1e7
    names = draw(st.lists(st.sampled_from(['zb', 'Ct', 'mass', 'pickup', 'qs', 'q', 'uw', 'moist', 'Cu', 'theta_dyn', 'w_bed', 'uws', 'taus_u']), unique=True, min_size=1, max_size=4))
    c['names'] = names
    c['cfg']['output_vars'] = [n + '_' + draw(st.sampled_from(STATS)) for n in names]
    c['cfg']['output_types'] = STATS if draw(st.booleans()) else []
    op = st.one_of(st.just(('step',)), st.just(('step',)), st.just(('step',)),
                   st.tuples(st.just('ask'), st.integers(0, 3), st.sampled_from(STATS), st.booleans()),
                   st.tuples(st.just('stat'), st.integers(0, 3), st.sampled_from(STATS)),
                   st.tuples(st.just('plain'), st.integers(0, 3), st.booleans()))
    c['ops'] = draw(st.lists(op, min_size=4, max_size=12))
    return c


def ask(c):
    """statistics asked from a runner cover the time steps since they were cleared; asking them clears them on request"""
    with tmpdir() as d, quiet():
        m = sim.start(d, c, runner=True)
        keep = {n: (STATS if c['cfg']['output_types'] else [x[len(n) + 1:]]) for n, x in zip(c['names'], c['cfg']['output_vars'])}
        log = {n: [] for n in c['names']}
        shape = {n: m.s[n].shape for n in log}
        clear, hit, steps = False, False, 0
        for op in c['ops']:
            if op[0] == 'step':
                if clear:
                    log = {n: [] for n in c['names']}
                    clear = False
                m.update()
                steps += 1
                for n in log:
                    a = np.array(np.broadcast_to(m.s[n], shape[n]), dtype=float)
                    log[n].append(a / m.p['accfac'] if n in ('Ct', 'Cu') else a)
                continue
            n = c['names'][op[1] % len(c['names'])]
            if op[0] == 'plain':
                m.get_var(n, clear=op[2])
                clear = op[2]
                continue
            e = op[2] if op[2] in keep[n] else keep[n][0]
            if op[0] == 'ask':
                got = m.get_var('%s_%s' % (n, e), clear=op[3])
                clear = op[3]
            else:
                got = m.get_statistic(n, e)
            got = np.array(got, dtype=float)
            if len(log[n]):
                a = np.array(log[n])
                compare(got, e, a, '%s_%s over %d steps' % (n, e, len(a)))
                hit |= len(a) > 1 and bool(np.any(a != a[0]))
        c.hit(hit)


CHECKS = [Check('in_file', file_cases(), in_file, quick=150), Check('ask', ask_cases(), ask, quick=150)]
