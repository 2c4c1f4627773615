"""C31: complete runs do not depend on the origin of time, the vertical datum or the numbering of rows."""
import copy
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim

PROPERTY = 'C31'
RULE = ('Generated complete set-ups with all processes, run as such and with time, datum, rows or dimension changed. '
        'Non-trivial: sediment is transported in the run.')


def run(c):
    out = []
    with tmpdir() as d, quiet():
        np.random.seed(5)
        m = sim.start(d, c)
        for k in range(c['nsteps']):
            m.update()
            out.append((m.t, m.dt, {k: np.array(v, copy=True) for k, v in m.s.items() if isinstance(v, np.ndarray) and v.dtype.kind == 'f'}))
    return out


def compare(a, b, what, f=lambda k, v: v, skip=(), rtol=1e-6, atol=1e-9):
    for n, ((t0, d0, x), (t1, d1, y)) in enumerate(zip(a, b)):
        close(d1, d0, 'time step' + what, rtol=rtol)
        for k in x:
            if k in skip:
                continue
            want = f(k, x[k])
            ok = np.isfinite(want)
            check(np.array_equal(ok, np.isfinite(y[k])), 'not finite: %s%s', k, what)
            m = np.abs(want[ok]).max() if ok.any() else 0.
            if k in ('dzbyear', 'dzbveg', 'dhveg'):                              # magnifies rounding
                close(y[k][ok], want[ok], '%s after %d steps%s' % (k, n + 1, what), rtol=1e-3, atol=1e-4 + 1e-5 * m + 3e-3 / d0)   # 1e-10 m per step
                continue
            close(y[k][ok], want[ok], '%s after %d steps%s' % (k, n + 1, what), rtol=rtol, atol=atol + 1e-7 * m)


def steady(c):
    """no interpolation between opposite wind directions: the sense of turning is decided by rounding"""
    w = c['files'].get('wind.txt')
    if w is not None and w.shape[1] > 2:
        d = np.append(w[:, 2], w[0, 2])
        if np.any(np.abs(np.diff(d) % 360. - 180.) < 1.):
            w[1:, 2] = w[0, 2]
    return c


SERIES = ('wind.txt', 'tide.txt', 'wave.txt', 'meteo.txt')


@st.composite
def shifts(draw, force=(), tstarts=(0, 3600), **kw):
    c = steady(draw(sim.rich(steps=(1, 4), random=False, tstarts=tstarts, force=force, **kw)))
    if c['cfg'].get('solver', '').endswith('pieter') and c['cfg']['tstart'] == 0:
        c['shift'] = 0.                                 # these solvers only initialise the weights at a time of zero
        return c
    c['shift'] = draw(st.sampled_from([3600., 86400., 7., 1e6]))
    return c


def time_shift(c):
    e = copy.deepcopy(dict(c))
    for k in SERIES:
        if k in e['files']:
            e['files'][k][:, 0] += c['shift']
    for k in 'tstart', 'tstop':
        e['cfg'][k] = c['cfg'][k] + c['shift']
    a, b = run(c), run(e)
    for (t0, _, _), (t1, _, _) in zip(a, b):
        close(t1, t0 + c['shift'], 'time of the shifted run', rtol=1e-12)
    compare(a, b, ' in the run shifted in time')
    c.hit(np.any(a[-1][2]['qs'] != 0) or np.any(a[-1][2]['gw'] != a[0][2]['gw']))


LEVELS = {'zb', 'zs', 'SWL', 'TWL', 'DSWL', 'zb0', 'zne', 'zsep', 'gw', 'gw_prev', 'zf'}


@st.composite
def datums(draw):
    c = steady(draw(sim.rich(steps=(1, 4), random=False, shear=False, without=('fence', 'gw', 'surf'))))  # top of fences and transmissivity depend on the datum
    c['shift'] = draw(st.sampled_from([1., -2., 100., -37.5, 1024.]))
    if 'tide_mask' in c['cfg']:
        del c['cfg']['tide_mask']                       # multiplies levels
    # levels are relative to the mean of the bed: no tide means a water level of zero
    if not c['cfg'].get('process_tide'):
        c['cfg'].update(process_tide=True, tide_file='tide.txt')
        t0 = c['cfg']['tstart']
        c['files']['tide.txt'] = np.array([[t0, -5.], [t0 + 1e6, -5.]])
    if 'veg_min_elevation' in c['cfg']:
        c['cfg']['veg_min_elevation'] = -10.
    return c


def datum(c):
    e = copy.deepcopy(dict(c))
    D = c['shift']
    for k in 'z.grd', 'ne.txt':
        if k in e['files']:
            e['files'][k] = e['files'][k] + D
    e['files']['tide.txt'][:, 1] += D
    for k in 'veg_min_elevation', 'dune_toe_elevation':
        if k in e['cfg']:
            e['cfg'][k] = c['cfg'][k] + D
    a, b = run(c), run(e)
    none = set() if 'ne.txt' in c['files'] else {'zne'}
    skip = {'gw', 'gw_prev', 'zf', 'zsep'} | none
    compare(a, b, ' in the run with another datum', lambda k, v: v + D if k in LEVELS else v, skip=skip, rtol=1e-5, atol=1e-6)
    c.hit(np.any(a[-1][2]['qs'] != 0))


@st.composite
def rolls(draw):
    c = steady(draw(sim.setups(steps=(1, 4), ny=(2, 3, 4), rotated=True, random=False, shear=False)))
    c['cfg'].pop('process_vegetation', None)            # smooths the cover without wrapping around
    c['cfg'].pop('process_avalanche', None)             # no circular boundaries
    c['roll'] = draw(st.integers(1, c['ny']))
    return c


def roll(c):
    """with circular lateral boundaries it does not matter which row comes first"""
    e = copy.deepcopy(dict(c))
    n, nx = c['ny'] + 1, c['nx'] + 1
    for k, v in e['files'].items():
        if k in SERIES or k in ('x.grd', 'y.grd'):
            continue
        v = np.asarray(v)
        e['files'][k] = np.roll(v.reshape((n, nx) + v.shape[1:]) if k == 'comp.txt' else v, c['roll'], axis=0).reshape(v.shape)
    a, b = run(c), run(e)
    compare(a, b, ' in the run with rows rolled', lambda k, v: np.roll(v, c['roll'], axis=0) if np.shape(v)[:2] == (n, nx) and k not in ('x', 'y') else v)
    c.hit(np.any(a[-1][2]['qs'] != 0) and np.abs(np.diff(a[-1][2]['Ct'], axis=0)).max() > 0)


@st.composite
def uniforms(draw):
    c = steady(draw(sim.setups(steps=(1, 4), ny=(0,), rotated=False, random=False, stretch=False, solvers=('trunk', 'trunk', 'steadystate', 'pieter', 'steadystatepieter'))))
    c['cfg'].pop('process_vegetation', None)            # smoothing over one row and over several rows differs at the edges of the kernel
    c['cfg'].pop('process_avalanche', None)             # leaves the outer rows of a grid alone
    c['rows'] = draw(st.integers(2, 4))
    if c['cfg']['scheme'] == 'euler_forward':
        c['cfg']['scheme'] = 'euler_backward'           # the time step of the explicit scheme depends on both directions
    return c


def uniform(c):
    """a grid without variation across behaves as a transect"""
    e = copy.deepcopy(dict(c))
    n = c['rows'] + 1
    for k, v in c['files'].items():
        if k in SERIES:
            continue
        v = np.asarray(v)
        e['files'][k] = np.tile(v, (n, 1)) if k == 'comp.txt' else np.repeat(v[None, :], n, 0)
    e['files']['y.grd'] = np.repeat(np.arange(n)[:, None] * 2., c['nx'] + 1, 1)
    a, b = run(c), run(e)
    skip = {'x', 'y', 'dn', 'dsdn', 'dsdni', 'qn', 'uwn'}
    compare(a, b, ' of a uniform grid versus a transect', lambda k, v: np.repeat(v, n, 0) if np.ndim(v) and v.shape[0] == 1 else v, skip=skip, rtol=1e-4, atol=1e-7)
    c.hit(np.any(a[-1][2]['qs'] != 0))


CHECKS = [Check('time_shift', shifts(), time_shift, quick=60), Check('water_shift', shifts(force=('gw', 'surf'), tstarts=(0,), features=False), time_shift, quick=40), Check('datum', datums(), datum, quick=60), Check('roll', rolls(), roll, quick=60),
          Check('uniform', uniforms(), uniform, quick=60)]
