"""C40: unknown settings are refused."""
import string
import numpy as np
from vlib import st, F, Check, check, close, quiet, tmpdir
import sim

PROPERTY = 'C40'
RULE = ('Generated set-ups with any combination of processes in which one choice of formulation, solver, scheme, boundary condition or wind convention is '
        'misspelled or unknown, or spelled with other capitals. Non-trivial: the set-up runs with the choice spelled as documented.')

TRANSPORT = ['bagnold', 'bagnold_gs', 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen']
MOIST = ['belly_johnson', 'hotta', 'chepil', 'saleh_fryear', 'saleh_fryear_mod', 'shao', 'dong_2002',
         'gregory_darwish', 'cornelis', 'dong_2007']
SCHEMES = ('euler_backward', 'euler_forward', 'crank_nicolson')
BOUND = ['flux', 'constant', 'gradient', 'uniform', 'circular', 'noflux']
# option: (known names, processes it takes, type of the error if the code promises one)
OPTIONS = {
    'solver': (['trunk', 'pieter', 'steadystate', 'steadystatepieter'], (), None),
    'scheme': (['euler_forward', 'euler_backward', 'crank_nicolson'], (), ValueError),
    'method_transport': (TRANSPORT, (), ValueError),
    'method_grainspeed': (['duran', 'windspeed', 'constant'], (), None),
    'method_roughness': (['constant', 'constant_nikuradse', 'mean_grainsize_initial', 'mean_grainsize_adaptive',
                          'median_grainsize_adaptive', 'vanrijn_strypsteen'], (), None),
    'method_moist_threshold': (MOIST, ('moist',), ValueError),
    'method_moist_process': (['infiltration', 'surf_moisture'], ('moist',), ValueError),
    'boundary_gw': (['no_flow', 'static'], ('gw',), ValueError),
    'boundary_offshore': (BOUND, (), ValueError),
    'boundary_onshore': (BOUND, (), ValueError),
    'boundary_lateral': (BOUND, (), ValueError),
    'wind_convention': (['nautical', 'cartesian'], (), ValueError)}


@st.composite
def cases(draw):
    key = draw(st.sampled_from(sorted(OPTIONS) + ['solver', 'method_moist_threshold']))
    known, force, exc = OPTIONS[key]
    without = [f for f in ('surf',) if 'moist' in force]
    c = draw(sim.rich(steps=(2, 2), calm=False, shear=False, schemes=SCHEMES, without=without, force=force, ny=(2, 3) if key == 'boundary_lateral' else (0, 0, 2)))
    cfg = c['cfg']
    if key == 'method_moist_threshold':
        cfg.pop('threshold_file', None)
        c['files'].pop('uth.txt', None)
    how = draw(st.sampled_from(['letter', 'letter', 'more', 'word', 'circular']))
    w = draw(st.sampled_from(known))
    if how == 'letter':
        i = draw(st.integers(1, len(w) - 1))
        bad = w[:i] + draw(st.sampled_from(string.ascii_lowercase)) + w[i + 1:]
    elif how == 'more':
        bad = w + draw(st.sampled_from(['s', '_2', 'x', '_new']))
    elif how == 'circular' and key in ('boundary_offshore', 'boundary_onshore'):
        bad = 'circular'                                     # announced, but not implemented across the shore
    else:
        bad = draw(st.text(string.ascii_lowercase, min_size=4, max_size=12))
    if bad in known and bad != 'circular' or bad in ('none', 'true', 'false'):
        bad = bad + 'q'
    if bad == 'circular' and key == 'boundary_lateral':
        bad = 'spherical'
    c.update(key=key, bad=bad)
    return c


def go(c, **over):
    with tmpdir() as d, quiet():
        m = sim.start(d, c, **over)
        for i in range(c['nsteps']):
            m.update()
        return {k: np.array(m.s[k]) for k in ('zb', 'mass', 'Ct', 'Cu', 'uth', 'moist', 'gw', 'pickup')}


def unknown(c):
    key, bad = c['key'], c['bad']
    exc = OPTIONS[key][2]
    go(c)
    c.hit(True)
    c.label(key)
    try:
        go(c, **{key: bad})
    except Exception as e:
        if exc is not None:
            check(isinstance(e, (exc, NotImplementedError) if bad == 'circular' else exc),
                  'unknown %s = %s raises %s: %s', key, bad, type(e).__name__, e)
            if bad != 'circular':
                check(bad in str(e), 'the error about %s = %s does not name it: %s', key, bad, e)
        return
    check(False, 'a run with unknown %s = %s is not refused', key, bad)


@st.composite
def spellings(draw):
    key = draw(st.sampled_from(['solver'] * 3 + ['method_transport', 'method_moist_threshold', 'method_moist_process', 'boundary_gw']))
    known, force, _ = OPTIONS[key]
    if key == 'method_moist_process':
        force = draw(st.sampled_from([('moist',), ('surf',)]))
    c = draw(sim.rich(steps=(2, 2), calm=False, shear=False, schemes=SCHEMES, force=force, random=False))
    default = {'boundary_gw': 'no_flow', 'method_moist_process': 'infiltration', 'method_moist_threshold': 'belly_johnson'}
    c.update(key=key, value=c['cfg'].get(key, default.get(key)), style=draw(st.sampled_from(['upper', 'title', 'capitalize', 'swapcase'])))
    return c


def spelling(c):
    """names of formulations and solvers are recognised in any capitals"""
    v = getattr(c['value'], c['style'])()
    a = go(c)
    b = go(c, **{c['key']: v})
    for k in a:
        close(b[k], a[k], '%s with %s = %s' % (k, c['key'], v), rtol=1e-9, atol=1e-12)
    c.label(c['key'])
    c.hit(True)


CHECKS = [Check('unknown', cases(), unknown, quick=350),
          Check('spelling', spellings(), spelling, quick=150)]
