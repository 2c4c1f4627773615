"""C28: the model starts from the bed, layers and composition of its configuration."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim

PROPERTY = 'C28'
RULE = ('Generated complete set-ups with all ways to describe the bed (one distribution, one per layer, one per cell and layer, layer thickness, '
        'non-erodible layer, masks, threshold map). Non-trivial: more than one fraction, or a map of masks, thresholds or non-erodible levels.')


@st.composite
def cases(draw):
    c = draw(sim.setups(steps=(1, 2), rotated=True, features=False, accfac=False))
    cfg, files = c['cfg'], c['files']
    ny, nx, nl = c['ny'], c['nx'], c['nl']
    nf = draw(st.sampled_from([1, 2, 3, 4]))
    sh = (ny + 1, nx + 1)
    put = (lambda k, v: files.__setitem__(k, v if ny else v[0]))
    kind = c['kind'] = draw(st.sampled_from(['one', 'one', 'layers', 'layers', 'cells', 'cells']))
    if kind == 'layers':
        nf, nl = max(nf, 2), max(nl, 2)
        c['nl'] = cfg['nlayers'] = nl
    c['nf'] = nf
    gs = np.sort([draw(F(150e-6, 1.5e-3)) for _ in range(nf)])
    cfg.update(grain_size=[float(x) for x in gs] if nf > 1 else float(gs[0]), rhog=draw(st.sampled_from([2650., 2000., 2700.])), porosity=draw(st.sampled_from([.4, .3, .55])))
    del cfg['grain_dist']
    cfg['layer_thickness'] = draw(st.sampled_from([cfg['layer_thickness'], .001, .002, .5]))
    if kind == 'layers' and nl > 1 and nf > 1:
        files['dist.txt'] = draw(grid((nl, nf), 0., 5.)) + .01
        cfg['grain_dist'] = 'dist.txt'
    else:
        v = draw(grid((nf,), 0., draw(st.sampled_from([1., 20.])))) + .01
        if draw(st.booleans()):
            v = np.ceil(v).astype(int)
        c['dist'] = v
        cfg['grain_dist'] = [x.item() for x in v] if nf > 1 else v[0].item()
    if kind == 'cells':
        m = draw(grid(sh + (nl, nf), .01, 1.))
        files['comp.txt'] = (m / m.sum(-1, keepdims=True) * cfg['rhog'] * (1 - cfg['porosity']) * cfg['layer_thickness']).reshape((-1, nl * nf))
        cfg['bedcomp_file'] = 'comp.txt'
    if draw(st.booleans()):
        put('ne.txt', np.atleast_2d(files['z.grd']) - draw(grid(sh, 0., 2.)))
        cfg['ne_file'] = 'ne.txt'
    if draw(st.booleans()):
        put('uth.txt', draw(grid(sh, 0., .6)))
        cfg['threshold_file'] = 'uth.txt'
    for k in 'threshold_mask', 'tide_mask', 'wave_mask', 'runup_mask', 'gw_mask':
        if k in DEFAULTS and draw(st.integers(0, 2)) == 0:
            v = draw(grid(sh, 0., 2.))
            if draw(st.booleans()):
                v = v + 1j * draw(grid(sh, -1., 1.))
            put(k + '.txt', v)
            cfg[k] = k + '.txt'
    if draw(st.booleans()):
        put('veg.txt', draw(grid(sh, 0., 1., 3)))
        cfg.update(process_vegetation=True, veg_file='veg.txt')
    return c


import aeolis.constants
DEFAULTS = aeolis.constants.DEFAULT_CONFIG


def initial(c):
    cfg, files = c['cfg'], c['files']
    ny, nx, nl, nf = c['ny'], c['nx'], c['nl'], c['nf']
    sh = (ny + 1, nx + 1)
    get = lambda k: np.asarray(files[k]).reshape(sh)
    with tmpdir() as d, quiet():
        m = sim.start(d, c)
        s, p = m.s, m.p
        check((p['nx'], p['ny']) == (nx, ny), 'grid dimensions %s, %s', p['nx'], p['ny'])
        check((p['nlayers'], p['nfractions']) == (nl, nf), 'layers and fractions %s, %s', p['nlayers'], p['nfractions'])
        for k, shape in (('mass', sh + (nl, nf)), ('thlyr', sh + (nl,)), ('zb', sh), ('uth', sh + (nf,)), ('Ct', sh + (nf,))):
            check(s[k].shape == shape, 'shape of %s %s', k, s[k].shape)
        for k in 'zb', 'zb0':
            close(s[k], get('z.grd'), k, rtol=0, atol=0)
        if 'ne_file' in cfg:
            close(s['zne'], get('ne.txt'), 'non-erodible level', rtol=0, atol=0)
        close(s['thlyr'], cfg['layer_thickness'], 'layer thickness', rtol=0, atol=0)
        M = cfg['rhog'] * (1 - cfg['porosity']) * cfg['layer_thickness']
        if c['kind'] == 'cells':
            want = files['comp.txt'].reshape(sh + (nl, nf))
        elif c['kind'] == 'layers':
            want = np.broadcast_to(files['dist.txt'] / files['dist.txt'].sum(1, keepdims=True) * M, sh + (nl, nf))
        else:
            want = np.broadcast_to(c['dist'] / float(np.sum(c['dist'])) * M, sh + (nl, nf))
        close(s['mass'], want, 'sediment in the bed', rtol=1e-12)
        close(s['mass'].sum(-1), M, 'mass of the layers', rtol=1e-9)
        close(p['grain_size'], np.atleast_1d(cfg['grain_size']), 'grain sizes', rtol=0, atol=0)
        for k in DEFAULTS:
            if k.endswith('_mask'):
                close(np.broadcast_to(s[k], sh), get(k + '.txt') if k in cfg else 1., k, rtol=0, atol=0)
        if 'threshold_file' in cfg:
            close(s['uth'], np.repeat(get('uth.txt')[:, :, None], nf, 2), 'threshold', rtol=0, atol=0)
        if 'veg_file' in cfg:
            close(s['rhoveg'], get('veg.txt'), 'vegetation cover', rtol=0, atol=0)
            close(s['hveg'], p['hveg_max'] * np.sqrt(get('veg.txt')), 'vegetation height', rtol=1e-12)
        else:
            close(s['rhoveg'], 0., 'vegetation', rtol=0, atol=0)
        for k in 'Ct', 'pickup', 'qs', 'qn':
            close(s[k], 0., k + ' at the start', rtol=0, atol=0)
        # nothing of the description of the bed is altered by running the model
        ref = {k: np.array(s[k], copy=True) for k in DEFAULTS if k.endswith('_mask')}
        for k in range(c['nsteps']):
            m.update()
        close(m.s['zb0'], get('z.grd'), 'initial bed level after running', rtol=0, atol=0)
        for k in ref:
            close(m.s[k], ref[k], k + ' after running', rtol=0, atol=0)
        if 'ne_file' in cfg:
            close(m.s['zne'], get('ne.txt'), 'non-erodible level after running', rtol=0, atol=0)
        close(m.s['thlyr'], cfg['layer_thickness'], 'layer thickness after running', rtol=0, atol=0)
    c.label(c['kind'])
    c.hit(nf > 1 or set(cfg) & {'ne_file', 'threshold_file'} or any(k.endswith('_mask') for k in cfg))


@st.composite
def descriptions(draw):
    c = draw(sim.setups(steps=(1, 3), random=False, shear=False))
    cfg = c['cfg']
    if cfg.pop('bedcomp_file', None):
        del c['files']['comp.txt']
    cfg['method_roughness'] = draw(st.sampled_from(['constant', 'mean_grainsize_initial']))
    if cfg.get('process_moist'):
        cfg['method_moist_threshold'] = draw(st.sampled_from(['belly_johnson', 'hotta', 'chepil', 'saleh_fryear', 'saleh_fryear_mod', 'shao', 'dong_2002',
                                                              'gregory_darwish', 'dong_2007']))
    c['factor'] = draw(st.sampled_from([100., 7., .01, 1e3]))
    return c


NAMES = ('zb', 'mass', 'Ct', 'pickup', 'qs', 'qn', 'uth', 'ustar', 'w')


def equivalent(c):
    """the same bed described in different ways gives the same run"""
    nf, nl, n = c['nf'], c['nl'], (c['nx'] + 1) * (c['ny'] + 1)
    dist = np.atleast_1d(c['cfg']['grain_dist'])
    M = 2650. * (1 - .4) * c['cfg']['layer_thickness']
    variants = [('one distribution', {}, {}), ('a distribution that does not add up to one', dict(grain_dist=(dist * c['factor']).tolist() if nf > 1 else c['factor']), {}),
                ('masses per cell and layer', dict(bedcomp_file='comp.txt', rhog=2650., porosity=.4), {'comp.txt': np.tile(dist * M, (n, nl))})]
    if nf > 1 and nl > 1:
        variants.append(('a distribution per layer', dict(grain_dist='dist.txt'), {'dist.txt': np.tile(dist * np.arange(1, nl + 1)[:, None], 1)}))
    first = None
    for what, cfg, files in variants:
        with tmpdir() as d, quiet():
            e = dict(c, cfg=dict(c['cfg'], rhog=2650., porosity=.4, **{k: v for k, v in cfg.items() if k not in ('rhog', 'porosity')}), files=dict(c['files'], **files))
            m = sim.start(d, e)
            out = []
            for k in range(c['nsteps']):
                m.update()
                out.append({k: np.array(m.s[k], copy=True) for k in NAMES})
        if first is None:
            first = out
            continue
        for k, (a, b) in enumerate(zip(first, out)):
            for v in NAMES:
                ok = np.isfinite(a[v])
                check(np.array_equal(ok, np.isfinite(b[v])), '%s not finite in step %d, bed described by %s', v, k + 1, what)
                close(b[v][ok], a[v][ok], '%s in step %d, bed described by %s' % (v, k + 1, what), rtol=1e-7, atol=1e-11 + (1e-8 * np.abs(a[v][ok]).max() if ok.any() else 0.))
    c.hit(nf > 1 and np.any(first[-1]['pickup'] != 0))


CHECKS = [Check('initial', cases(), initial, quick=200), Check('equivalent', descriptions(), equivalent, quick=100)]
