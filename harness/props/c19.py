"""C19: reading the configuration file."""
import os
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import aeolis.inout
import aeolis.constants

PROPERTY = 'C19'
RULE = ('Generated configuration files: typed values rendered in any accepted notation, spacing, comments, order and repetition, with and without '
        'referenced files, and invalid set-ups. Non-trivial: the file sets at least three parameters in different notations / the set-up is invalid.')
DEFAULT = aeolis.constants.DEFAULT_CONFIG
KEYS = sorted(k for k in DEFAULT if k not in ('grain_dist', 'grain_size', 'external_vars', 'refdate', 'output_file', 'h', 'process_fences') and not k.endswith('_file') and not k.endswith('_mask'))
FREE = ['Cs', 'my_param', 'p2', 'X_Y']
WORDS = ['euler_forward', 'trunk', 'None_x', 'Nonesuch', 'TRUE', 'FT', 'f', 't', 'zb', 'a-b', 'e5', 'callback.py:func', 'x/y.txt', '1a', 'T1', '-', '+', 'no.txt', 'v1.2', 'Infinity', '2020-01-01']


def num(draw, kind):
    if kind == 'int':
        v = draw(st.one_of(st.integers(-10 ** 9, 10 ** 9), st.sampled_from([0, 1, -1, 7])))
        return v, str(v)
    v = draw(st.one_of(F(-1e6, 1e6), F(-1e-3, 1e-3), st.sampled_from([0., .5, 225e-6, -1.5e10, 1e-12, 3600.])))
    how = draw(st.sampled_from(['repr', 'fix', 'sci', 'Sci', 'dot']))
    if how == 'fix':
        t = '%.12f' % v
    elif how == 'sci':
        t = '%.9e' % v
    elif how == 'Sci':
        t = '%.9E' % v
    elif how == 'dot':
        t = '%d.' % int(v)
    else:
        t = repr(v)
    return float(t), t


@st.composite
def value(draw):
    """(kind, value, text)"""
    k = draw(st.sampled_from(['bool', 'int', 'float', 'none', 'empty', 'word', 'ints', 'floats', 'words', 'bools']))
    if k == 'bool':
        v = draw(st.booleans())
        return k, v, 'T' if v else 'F'
    if k in ('int', 'float'):
        v, t = num(draw, k)
        return k, v, t
    if k == 'none':
        return k, None, 'None'
    if k == 'empty':
        return k, None, ''
    if k == 'word':
        v = draw(st.sampled_from(WORDS))
        return k, v, v
    n = draw(st.integers(2, 5))
    if k == 'bools':
        items = [(v, 'T' if v else 'F') for v in (draw(st.booleans()) for _ in range(n))]
    elif k == 'words':
        items = [(v, v) for v in (draw(st.sampled_from(WORDS)) for _ in range(n))]
    else:
        items = [num(draw, k[:-1]) for _ in range(n)]
    sep = draw(st.sampled_from([' ', '  ', '\t', ' \t ']))
    return k, [v for v, _ in items], sep.join(t for _, t in items)


@st.composite
def cases(draw):
    keys = draw(st.lists(st.sampled_from(KEYS + FREE), min_size=1, max_size=12))
    lines = []
    for k in keys:
        kind, v, t = draw(value())
        lines.append(dict(key=k, kind=kind, val=v, text=draw(st.sampled_from(['', ' ', '   ', '\t'])) + k + draw(st.sampled_from(['=', ' = ', '   =', '=  ', '\t=\t'])) + t +
                          draw(st.sampled_from(['', '', ' ', '\t', ' % comment', '% 5', '  % a = b', ' %%%']))))
        if draw(st.integers(0, 3)) == 0:
            lines.append(dict(key=None, text=draw(st.sampled_from(['', '   ', '% comment', '  % T = 99', '%%%%%%', 'no equal sign', '%dt = 1', '\t%dt=1', '----']))))
    return dict(lines=lines, defaults=draw(st.booleans()) or True, parse=draw(st.booleans()), eol=draw(st.sampled_from(['\n', '\r\n'])), last=draw(st.booleans()),
                nodef=draw(st.integers(0, 4)) == 0)


def same(got, kind, val, what):
    if isinstance(val, list):
        g = np.asarray(got)
        check(isinstance(got, np.ndarray) and g.shape == (len(val),), '%s is %r instead of a list of %d values', what, got, len(val))
        if kind == 'words':
            check(list(map(str, g)) == val, '%s is %r instead of %r', what, got, val)
        else:
            check(g.dtype.kind == {'ints': 'i', 'floats': 'f', 'bools': 'b'}[kind], '%s has type %s', what, g.dtype)
            close(g, val, what, rtol=0, atol=0)
    else:
        check(type(got) is type(val) and got == val, '%s is %r instead of %r', what, got, val)


def parse(c):
    with tmpdir() as d, quiet():
        text = c['eol'].join(l['text'] for l in c['lines']) + (c['eol'] if c['last'] else '')
        with open('aeolis.txt', 'w', newline='') as fp:
            fp.write(text)
        before = {k: (list(v) if isinstance(v, list) else v) for k, v in DEFAULT.items()}
        p = aeolis.inout.read_configfile('aeolis.txt', parse_files=c['parse'], load_defaults=not c['nodef'])
        want = {}
        for l in c['lines']:
            if l['key']:
                want[l['key']] = (l['kind'], l['val'])
        for k, (kind, v) in want.items():
            check(k in p, 'parameter %s is not read', k)
            same(p[k], kind, v, 'parameter %s from %r' % (k, [l['text'] for l in c['lines'] if l['key'] == k][-1]))
        if c['nodef']:
            check(set(p) == set(want), 'parameters are %s', sorted(set(p) ^ set(want)))
        else:
            for k in KEYS:
                if k not in want:
                    check(k in p and np.array_equal(p[k], DEFAULT[k]) and type(p[k]) is type(DEFAULT[k]), 'default of %s is %r', k, p.get(k))
            check(set(p) == set(DEFAULT) | set(want), 'parameters are %s', sorted(set(p) ^ (set(DEFAULT) | set(want))))
            check(p['output_file'] == 'aeolis.nc', 'default output file is %r', p['output_file'])
            check(np.array_equal(p['h'], p['z']), 'default height of saltation')
            check(p['refdate'] == DEFAULT['refdate'] and p['external_vars'] == [] and p['process_fences'] is False, 'defaults')
            close(p['grain_size'], DEFAULT['grain_size'], 'default grain size')
            close(p['grain_dist'], DEFAULT['grain_dist'], 'default grain size distribution')
        for k, v in before.items():
            check(DEFAULT[k] is v or np.array_equal(DEFAULT[k], v), 'default of %s changed by reading a file', k)
        c.hit(len(want) >= 3 and len({k for k, _ in want.values()}) >= 2)


@st.composite
def special_cases(draw):
    shape = draw(st.sampled_from([(4,), (3, 4), (5, 3), (1,)]))
    return dict(a=draw(grid(shape, -5., 5.)), im=draw(grid(shape, 0., 1.)), cplx=draw(st.booleans()), size=[draw(F(1e-4, 1e-3)) for _ in range(draw(st.integers(1, 3)))],
                dist=[draw(F(.1, 1.)) for _ in range(draw(st.integers(1, 3)))], ext=draw(st.lists(st.sampled_from(['zs', 'Hs', 'Tp', 'zb']), unique=True, max_size=3)),
                date=draw(st.sampled_from(['2020-01-01', '2013-05-04 10:20', '1999-12-31 23:59:59'])), out=draw(st.sampled_from(['', 'x.nc', 'sub/y.nc'])),
                h=draw(st.sampled_from([None, 5., 2])), z=draw(st.sampled_from([10., 4.])), name=draw(st.sampled_from(['run.txt', 'model.cfg', 'deep/case1.txt'])), fences=draw(st.sampled_from(['', 'T', 'F', None])),
                vars=draw(st.lists(st.sampled_from(['zb', 'zs', 'Ct_avg', 'Cu']), min_size=1, max_size=3, unique=True)))


def special(c):
    """referenced files and parameters with derived values"""
    with tmpdir() as d, quiet():
        os.makedirs('deep')
        os.makedirs('sub')
        a = c['a'] + (1j * c['im'] if c['cplx'] else 0)
        sim.write_setup('.', {}, {'grid.txt': a})
        if not c['cplx'] or a.ndim == 1:
            np.savetxt('grid.txt', a, fmt='%.17g' if not c['cplx'] else '%.17g%+.17gj')
        with open(c['name'], 'w') as fp:
            fp.write('tide_mask = grid.txt\nthreshold_file = nofile.txt\ngrain_size = %s\ngrain_dist = %s\n' % (sim.fmt(c['size']), sim.fmt(c['dist'])))
            fp.write('external_vars = %s\nrefdate = %s\noutput_file = %s\nz = %s\n' % (' '.join(c['ext']), c['date'], c['out'], sim.fmt(c['z'])))
            fp.write('output_vars = %s\n' % ' '.join(c['vars']))
            if c['h'] is not None:
                fp.write('h = %s\n' % sim.fmt(c['h']))
            if c['fences'] is not None:
                fp.write('process_fences = %s\n' % c['fences'])
        p = aeolis.inout.read_configfile(c['name'])
        got = np.asarray(p['tide_mask'])
        check(got.dtype.kind == ('c' if c['cplx'] else 'f'), 'values from file are of type %s', got.dtype)
        check(got.size == a.size and np.array_equal(got.ravel(), a.ravel()), 'values from file %r, expected %r', got, a)
        check(p['threshold_file'] == 'nofile.txt', 'name of missing file is %r', p['threshold_file'])
        q = aeolis.inout.read_configfile(c['name'], parse_files=False)
        check(q['tide_mask'] == 'grid.txt', 'file name is %r', q['tide_mask'])
        close(p['grain_size'], c['size'], 'grain size', rtol=0, atol=1e-15)
        close(p['grain_dist'], c['dist'], 'grain size distribution', rtol=0, atol=1e-15)
        check(len(p['grain_size']) == len(c['size']) and len(p['grain_dist']) == len(c['dist']), 'number of fractions')
        check(isinstance(p['external_vars'], list) and [str(x) for x in p['external_vars']] == c['ext'], 'external variables are %r', p['external_vars'])
        check(p['refdate'] == c['date'], 'reference date is %r', p['refdate'])
        check(p['output_file'] == (c['out'] or c['name'].rsplit('.', 1)[0] + '.nc'), 'output file is %r', p['output_file'])
        check(p['h'] == (c['z'] if c['h'] is None else c['h']), 'height h is %r', p['h'])
        check(p['process_fences'] is (c['fences'] == 'T'), 'process_fences is %r', p['process_fences'])
        check([str(x) for x in np.atleast_1d(p['output_vars'])] == c['vars'], 'output variables are %r', p['output_vars'])
        try:
            aeolis.inout.read_configfile('missing.txt')
            check(False, 'missing configuration file accepted')
        except IOError:
            pass
        c.hit()


@st.composite
def invalid_cases(draw):
    return dict(what=draw(st.sampled_from(['none', 'x', 'bed', 'y', 'wind1', 'wind2', 'tide1', 'tide2', 'meteo1', 'meteo2'])), ny=draw(st.sampled_from([0, 2])), n=draw(st.integers(1, 5)), cols=draw(st.integers(1, 8)), flat=draw(st.booleans()))


def invalid(c):
    """invalid set-ups are refused, valid ones are accepted"""
    p = {k: v for k, v in DEFAULT.items()}
    sh = (c['ny'] + 1, 4) if c['ny'] else (4,)
    p.update(nx=3, ny=c['ny'], xgrid_file=np.ones(sh), ygrid_file=np.ones(sh), bed_file=np.ones(sh), wind_file=np.ones((3, 3)), tide_file=np.ones((2, 2)), meteo_file=np.ones((2, 6)))
    bad = True
    w = c['what']
    if w == 'x':
        p['xgrid_file'] = [None, 'x.grd'][c['n'] % 2]
    elif w == 'bed':
        p['bed_file'] = [None, 'z.grd'][c['n'] % 2]
    elif w == 'y':
        p['ygrid_file'] = [None, 'z.grd'][c['n'] % 2]
        bad = c['ny'] > 0
    elif w == 'none':
        bad = False
        for k in ('wind_file', 'tide_file', 'meteo_file'):
            p[k] = [None, p[k]][c['n'] % 2]
    else:
        k, need = dict(wind=('wind_file', 3), tide=('tide_file', 2), meteo=('meteo_file', 6))[w[:-1]]
        if w[-1] == '1':
            p[k] = np.ones(c['cols'] if c['flat'] else (c['n'], c['cols']))
            bad = c['flat'] or c['cols'] < need
        else:
            p[k] = np.ones((c['n'], need - 1))
    with quiet():
        try:
            aeolis.inout.check_configuration(p)
            ok = True
        except ValueError:
            ok = False
    check(ok != bad, '%s set-up is %s (%s)', 'invalid' if bad else 'valid', 'accepted' if ok else 'refused', w)
    c.hit(bad)


CHECKS = [Check('parse', cases(), parse, quick=1200), Check('special', special_cases(), special, quick=300), Check('invalid', invalid_cases(), invalid, quick=200)]
