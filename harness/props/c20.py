"""C20: writing the configuration file and reading it back."""
import os
import copy
import glob
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import aeolis.inout
import aeolis.constants
from aeolis.model import AeoLiSRunner

PROPERTY = 'C20'
RULE = ('Generated parameter sets (scalars of every type and magnitude, lists, texts, missing values, grids and time series as separate files) are written, read '
        'and written again; runners with changed parameters. Non-trivial: at least one matrix and one extreme number are written.')
DEFAULT = aeolis.constants.DEFAULT_CONFIG
FILES = [k for k in DEFAULT if k.endswith('_file') and k != 'output_file']
SCALARS = sorted(k for k in DEFAULT if isinstance(DEFAULT[k], float))
FLAGS = sorted(k for k in DEFAULT if isinstance(DEFAULT[k], bool))
INTS = sorted(k for k in DEFAULT if isinstance(DEFAULT[k], int) and not isinstance(DEFAULT[k], bool))
TEXTS = sorted(k for k in DEFAULT if isinstance(DEFAULT[k], str) and k != 'refdate')
NUM = st.one_of(F(-1e3, 1e3), F(0., 1e-5), st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([1e-300, 1e300, 225e-6, .1, 1. / 3., 86400., 0., 1e22, 123456789.123456789]))


@st.composite
def cases(draw):
    c = dict(scal=draw(st.dictionaries(st.sampled_from(SCALARS), NUM, max_size=8)), flag=draw(st.dictionaries(st.sampled_from(FLAGS), st.booleans(), max_size=6)),
             ints=draw(st.dictionaries(st.sampled_from(INTS + ['nlayers']), st.integers(-10 ** 12, 10 ** 12), max_size=4)),
             text=draw(st.dictionaries(st.sampled_from(TEXTS + ['callback']), st.sampled_from(['trunk', 'a_b', 'x.py:f', 'dir/file', 'Nonesuch']), max_size=4)),
             none=draw(st.sets(st.sampled_from(['callback', 'restart', 'wave_mask', 'CFL', 'T']), max_size=3)),
             sizes=draw(st.lists(NUM, min_size=1, max_size=4)), names=draw(st.lists(st.sampled_from(['zb', 'Ct_avg', 'mass', 'w_bed']), min_size=1, max_size=4)),
             types=draw(st.lists(st.sampled_from(['avg', 'min', 'max']), max_size=2)), ext=draw(st.lists(st.sampled_from(['zs', 'Hs']), max_size=2)),
             date=draw(st.sampled_from(['2020-01-01', '2013-05-04 10:20'])), full=draw(st.booleans()), rep=draw(st.booleans()))
    mats = {}
    for k in draw(st.lists(st.sampled_from(FILES), unique=True, max_size=4)):
        sh = draw(st.sampled_from([(4,), (3, 4), (2, 6), (5, 3)]))
        mats[k] = draw(grid(sh, -1e3, 1e3)) * draw(st.sampled_from([1., 1e-8, 1. / 3., 1e8]))
    c['mats'] = mats
    c['asarray'] = draw(st.booleans())
    return c


def params(c):
    p = copy.deepcopy(DEFAULT) if c['full'] else {}
    for k in ('scal', 'flag', 'ints', 'text'):
        p.update(c[k])
    for k in c['none']:
        p[k] = None
    wrap = np.asarray if c['asarray'] else list
    p.update(grain_size=wrap(c['sizes']), grain_dist=wrap(c['sizes'][::-1]), output_vars=wrap(c['names']), output_types=list(c['types']), external_vars=list(c['ext']),
             refdate=c['date'], output_file='out.nc', process_fences=True)
    p.update({k: v.copy() for k, v in c['mats'].items()})
    if 'h' in p and p['h'] is None:
        p['h'] = 10.
    return p


def equal(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        if np.ndim(a) or np.ndim(b):
            return list(np.atleast_1d(a)) == list(np.atleast_1d(b))
        return type(a) is type(b) and a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if np.ndim(a) == 0 and np.ndim(b) == 0:
        return a == b and isinstance(a, int) == isinstance(b, int)
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    return a.shape == b.shape and np.array_equal(a, b)


def roundtrip(c):
    with tmpdir() as d, quiet():
        p = params(c)
        orig = copy.deepcopy(p)
        if c['rep']:
            aeolis.inout.write_configfile('aeolis.txt', {'tide_file': np.zeros((2, 2)), 'dt': 1.})
        aeolis.inout.write_configfile('aeolis.txt', p)
        for k, v in orig.items():
            check(equal(v, p[k]), 'writing the configuration changed %s', k)
        q = aeolis.inout.read_configfile('aeolis.txt', load_defaults=c['full'])
        for k, v in orig.items():
            check(k in q, 'parameter %s is lost', k)
            if k in ('output_types', 'external_vars', 'output_vars', 'grain_size', 'grain_dist') and q[k] is None:
                check(len(v) == 0, 'parameter %s is lost', k)
            elif k in ('output_types', 'external_vars', 'output_vars'):
                check([str(x) for x in np.atleast_1d(q[k])] == [str(x) for x in v], '%s is %r, written as %r', k, q[k], v)
            elif k in c['mats'] or k.startswith('grain_'):
                close(q[k], v, k, rtol=1e-15, atol=0)
                check(np.shape(q[k]) == np.shape(v), 'shape of %s', k)
            else:
                check(equal(q[k], v), '%s is %r, written as %r', k, q[k], v)
        check(set(q) == set(orig), 'parameters differ: %s', sorted(set(q) ^ set(orig)))
        # files are kept as a backup, not lost
        if c['rep'] and 'tide_file' in c['mats']:
            check(os.path.exists('tide.txt~001') and not np.loadtxt('tide.txt~001').any(), 'no backup of the replaced file')
        # once more: same file
        with open('aeolis.txt') as fp:
            first = [l for l in fp if 'Date' not in l]
        aeolis.inout.write_configfile('aeolis2.txt', orig)
        with open('aeolis2.txt') as fp:
            second = [l for l in fp if 'Date' not in l]
        check(first == second, 'configuration differs if it is written again')
        c.hit(len(c['mats']) > 0 and any(abs(v) < 1e-4 or abs(v) > 1e4 for v in list(c['scal'].values()) + c['sizes']))


@st.composite
def runner_cases(draw):
    c = draw(sim.setups(steps=(1, 2), shear=False, solvers=('trunk',)))
    c['new'] = draw(st.dictionaries(st.sampled_from(['T', 'bi', 'Cb', 'kappa']), F(.1, 2.), max_size=3))
    c['newbed'] = draw(st.booleans())
    return c


def runner(c):
    """changed parameters of a runner end up in its configuration file and in the run, the original file in a backup"""
    with tmpdir() as d, quiet():
        path = sim.write_setup(d, c['cfg'], c['files'])
        with open(path) as fp:
            text = fp.read()
        m = AeoLiSRunner(configfile=path)
        new = dict(c['new'])
        zb = np.asarray(c['files']['z.grd']) + 1. / 3.
        if c['newbed']:
            new['bed_file'] = zb
        if new:
            m.set_params(**new)
        m.write_params()
        backups = glob.glob(path + '~*')
        if not new:
            with open(path) as fp:
                check(fp.read() == text, 'configuration file changed without changed parameters')
            check(not backups, 'backup without changed parameters')
            return
        check(len(backups) == 1, '%d backups', len(backups))
        with open(backups[0]) as fp:
            check(fp.read() == text, 'backup differs from the original configuration file')
        m.write_params()
        check(len(glob.glob(path + '~*')) == 1, 'configuration is written again without changes')
        a = aeolis.inout.read_configfile(backups[0])
        b = aeolis.inout.read_configfile(path)
        for k in set(a) | set(b):
            if k in c['new']:
                check(b[k] == c['new'][k], 'parameter %s is %r in the configuration file', k, b[k])
            elif k == 'bed_file' and c['newbed']:
                close(b[k], zb, 'bed in the configuration file', rtol=1e-15)
            else:
                check(equal(a.get(k), b.get(k)) or (np.size(a.get(k)) == 0 and b.get(k) is None), 'parameter %s changed from %r to %r', k, a.get(k), b.get(k))
        m.initialize()
        for k, v in c['new'].items():
            check(m.p[k] == v, 'parameter %s is %r in the run', k, m.p[k])
        c.hit()


CHECKS = [Check('roundtrip', cases(), roundtrip, quick=700), Check('runner', runner_cases(), runner, quick=120)]
