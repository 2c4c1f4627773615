"""Builds model set-ups on disk and runs the real model on them."""
import os
import numpy as np
import vlib
from vlib import st, F, grid
import aeolis.model
from aeolis.model import AeoLiS, AeoLiSRunner


def fmt(v):
    if v is None:
        return 'None'
    if isinstance(v, (bool, np.bool_)):
        return 'T' if v else 'F'
    if isinstance(v, (list, tuple, np.ndarray)):
        return ' '.join(fmt(x) for x in v)
    if isinstance(v, (float, np.floating)):
        s = '%.17f' % v
        return s.rstrip('0') + ('0' if s.rstrip('0').endswith('.') else '') if '.' in s else s
    return str(v)


def write_setup(d, cfg, files, name='aeolis.txt'):
    """files: {fname: array or (re, im)}; cfg: {key: value}"""
    for fname, a in files.items():
        a = np.asarray(a)
        if np.iscomplexobj(a):
            with open(os.path.join(d, fname), 'w') as fp:
                for row in np.atleast_2d(a):
                    fp.write(' '.join('%.17g%+.17gj' % (x.real, x.imag) for x in row) + '\n')
        else:
            np.savetxt(os.path.join(d, fname), a, fmt='%.17g')
    path = os.path.join(d, name)
    with open(path, 'w') as fp:
        fp.write('% generated\n')
        for k, v in cfg.items():
            fp.write('%s = %s\n' % (k, fmt(v)))
    return path


def base(nx=10, ny=0, dx=1., dy=1., zb=None, wind=None, **over):
    """minimal valid set-up as (cfg, files)"""
    x = np.arange(nx + 1) * dx
    if ny > 0:
        X, Y = np.meshgrid(x, np.arange(ny + 1) * dy)
    else:
        X, Y = x, np.zeros(nx + 1)
    if zb is None:
        zb = np.linspace(-1, 1, nx + 1) * np.ones(X.shape)
    if wind is None:
        wind = np.array([[0., 10., 0.], [7200., 10., 0.]])
    files = {'x.grd': X, 'y.grd': Y, 'z.grd': zb, 'wind.txt': wind}
    cfg = dict(xgrid_file='x.grd', ygrid_file='y.grd', bed_file='z.grd', wind_file='wind.txt',
               tstart=0, tstop=600, dt=60, output_times=60, output_file='aeolis.nc')
    cfg.update(over)
    return cfg, files


def model(d, cfg, files, runner=False):
    path = write_setup(d, cfg, files)
    cls = AeoLiSRunner if runner else AeoLiS
    m = cls(configfile=path)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        m.initialize()
    finally:
        os.chdir(cwd)
    return m


# ------------------------------------------------------------ random set-ups

@st.composite
def setups(draw, steps=(2, 6), ny=(0, 0, 0, 2, 3), rotated=False, features=True, output=True, calm=True, random=False,
           solvers=('trunk', 'trunk', 'steadystate', 'pieter', 'steadystatepieter'), schemes=None, accfac=True, tstarts=(0, 0, 3600, 100000), shear=True, stretch=True):
    """a complete valid model set-up as dict(cfg=..., files=..., nsteps=...)"""
    ny = draw(st.sampled_from(list(ny)))
    nx = draw(st.integers(3, 9))
    sh = (ny + 1, nx + 1)
    dx = draw(st.sampled_from([1., .5, 2., 5.]))
    dy = draw(st.sampled_from([1., 2., 3.]))
    nf = draw(st.sampled_from([1, 1, 2, 3]))
    nl = draw(st.sampled_from([1, 2, 3, 3, 4]))
    xs, ys = np.arange(nx + 1) * dx, np.arange(ny + 1) * dy
    stretched = stretch and not ny and draw(st.integers(0, 2)) == 0    # two-dimensional grids are equidistant
    if stretched:
        xs = np.cumsum(dx * draw(grid((nx + 1,), .5, 2.)))
    X, Y = np.meshgrid(xs, ys)
    slope = draw(st.sampled_from([0., .02, .05]))
    zb = -1. + slope * X / 1. + draw(grid(sh, 0., draw(st.sampled_from([0., .1, 1.]))))
    a = 0.
    if rotated and ny:
        a = draw(st.sampled_from([0., 30., 77., 90., 123., 180., 200., 270., 300.]))
        a = np.radians(a)
        X, Y = X * np.cos(a) - Y * np.sin(a) + 10., X * np.sin(a) + Y * np.cos(a) - 5.
    dt = draw(st.sampled_from([60, 10, 3600, 7.5]))
    n = draw(st.integers(*steps))
    t0 = draw(st.sampled_from(list(tstarts)))
    acc = draw(st.sampled_from([1, 1, 1, 4])) if accfac else 1
    span = dt * acc * n
    # wind towards positive s (270 degrees nautical), variable around it or not
    k = draw(st.integers(1, 4))
    onshore = draw(st.booleans())
    dirs = [draw(F(250., 290., (270., 255.))) if onshore else draw(F(0., 360., (0., 90., 180., 270.))) for _ in range(k)]
    dirs = [(v - np.degrees(a)) % 360. for v in dirs]
    spd = [draw(F(6., 22., (10., 15.) + ((0., 0.) if calm else ()))) for _ in range(k)]
    files = {'x.grd': X if ny else X[0], 'y.grd': Y if ny else Y[0], 'z.grd': zb if ny else zb[0],
             'wind.txt': np.array([[t0 + span * i / k, spd[i], dirs[i]] for i in range(k)] + [[t0 + 2. * span, spd[0], dirs[0]]])}
    solver = draw(st.sampled_from(list(solvers)))
    scheme = draw(st.sampled_from(list(schemes or (('euler_backward',) * 3 + ('euler_forward', 'crank_nicolson')))))
    if solver == 'pieter' and scheme == 'crank_nicolson':
        scheme = 'euler_backward'
    gs = np.sort(np.array([draw(F(150e-6, 1.5e-3)) for _ in range(nf)]))
    gd = np.array([draw(F(.05, 1.)) for _ in range(nf)])
    cfg = dict(xgrid_file='x.grd', ygrid_file='y.grd', bed_file='z.grd', wind_file='wind.txt', tstart=t0, tstop=t0 + span - dt * acc / 2., dt=dt,
               accfac=acc, solver=solver, scheme=scheme, CFL=1., nlayers=nl, layer_thickness=draw(st.sampled_from([.01, .05, .1])),
               T=draw(st.sampled_from([1., 1., 5.])), wind_convention='nautical', output_file='out.nc',
               method_transport=draw(st.sampled_from(['bagnold', 'bagnold', 'kawamura', 'lettau'])), boundary_lateral='circular',
               boundary_offshore=draw(st.sampled_from(['constant', 'flux'])), boundary_onshore=draw(st.sampled_from(['flux', 'constant'] + (['gradient', 'gradient', 'gradient'] if onshore else []))))
    cfg['grain_size'] = [float(x) for x in gs] if nf > 1 else float(gs[0])
    cfg['grain_dist'] = [float(x) for x in gd / gd.sum()] if nf > 1 else 1.
    cfg['output_vars'] = ['zb', 'Ct', 'mass', 'pickup', 'qs']
    cfg['output_times'] = dt * acc
    if features:
        on = {f for f in ('tide', 'wave', 'runup', 'moist', 'mix', 'ava', 'veg', 'ne', 'mask', 'uth', 'shear', 'bare', 'nobed', 'reset', 'comp', 'th') if draw(st.integers(0, 3)) == 0}
        if on & {'tide', 'runup', 'reset'}:
            cfg['process_tide'] = True
            files['tide.txt'] = np.array([[t0, draw(F(-1.5, 1.))], [t0 + span / 2., draw(F(-1.5, 1.))], [t0 + 2 * span, 0.]])
            cfg['tide_file'] = 'tide.txt'
        if on & {'wave', 'runup', 'mix'}:
            cfg['process_wave'] = True
            files['wave.txt'] = np.array([[t0, draw(F(0., 3.)), draw(F(2., 10.))], [t0 + 2 * span, draw(F(0., 3.)), draw(F(2., 10.))]])
            cfg['wave_file'] = 'wave.txt'
        if 'runup' in on:
            cfg['process_runup'] = True
        if 'moist' in on:
            cfg.update(process_moist=True, th_moisture=True)
        if 'mix' in on:
            cfg['process_mixtoplayer'] = True
        if 'ava' in on:
            cfg['process_avalanche'] = True
        if 'reset' in on:
            cfg['process_wet_bed_reset'] = True
        if 'veg' in on:
            cfg.update(process_vegetation=True, veg_file='veg.txt', V_ver=draw(st.sampled_from([0., 2.])), veg_min_elevation=-10.)
            if random:
                cfg.update(germinate=.3, lateral=.3)
            v = draw(grid(sh, 0., 1., 3))
            files['veg.txt'] = v if ny else v[0]
        if 'ne' in on:
            cfg.update(ne_file='ne.txt', th_nelayer=True)
            v = zb - draw(grid(sh, 0., .5))
            files['ne.txt'] = v if ny else v[0]
        if 'mask' in on:
            for m in draw(st.sets(st.sampled_from(['threshold_mask', 'tide_mask', 'wave_mask']), min_size=1)):
                v = draw(grid(sh, .5, 2.)) + 1j * draw(grid(sh, 0., .1))
                cfg[m] = m + '.txt'
                files[m + '.txt'] = v if ny else v[0]
        if 'uth' in on:
            cfg['threshold_file'] = 'uth.txt'
            v = draw(grid(sh, 0., .4))
            files['uth.txt'] = v if ny else v[0]
        if 'shear' in on and shear and ny and not stretched:
            cfg['process_shear'] = True
        if 'nobed' in on:
            cfg['process_bedupdate'] = False
        if 'comp' in on:
            m = draw(grid(sh + (nl, nf), .05, 1.))           # every layer has the mass that fits its thickness
            m = m / m.sum(-1, keepdims=True) * 1590. * cfg['layer_thickness']
            files['comp.txt'] = m.reshape((-1, nl * nf))
            cfg['bedcomp_file'] = 'comp.txt'
        if 'th' in on:
            cfg['th_bedslope'] = True
    return dict(cfg=cfg, files=files, nsteps=n, ny=ny, nx=nx, nf=nf, nl=nl)


@st.composite
def rich(draw, steps=(2, 8), repeat=False, without=(), force=(), rotated=True, random=True, **kw):
    """set-ups with any combination of all processes"""
    c = draw(setups(steps=steps, rotated=rotated, random=random, **kw))
    cfg, files = c['cfg'], c['files']
    ny, nx = c['ny'], c['nx']
    sh = (ny + 1, nx + 1)
    t0, span = cfg['tstart'], cfg['dt'] * cfg['accfac'] * c['nsteps']
    put = lambda k, v: files.__setitem__(k, v if ny else v[0])
    on = {f for f in ('fence', 'dune', 'gw', 'surf', 'salt', 'sep', 'veg', 'flux', 'moist', 'zero', 'shelter') if draw(st.integers(0, 3)) == 0} - set(without) | set(force)
    if cfg['dt'] > 60 and set(force) & {'gw', 'surf'}:
        cfg['dt'] = cfg['output_times'] = 60
        cfg['tstop'] = t0 + 60 * cfg['accfac'] * (c['nsteps'] - .5)
    if cfg['dt'] > 60:
        on -= {'gw', 'surf'}                                # explicit groundwater scheme
    dx = float(np.hypot(np.ptp(np.asarray(files['x.grd']).reshape(sh)[0]), np.ptp(np.asarray(files['y.grd']).reshape(sh)[0])) / nx)
    if on & {'dune', 'gw', 'surf'} and draw(st.integers(0, 3)):    # a beach that is partly dry
        ramp = np.linspace(0., 1., nx + 1) * draw(st.sampled_from([3., 1.5, 5.]))
        for k in 'z.grd', 'ne.txt':
            if k in files:
                files[k] = files[k] + ramp
    if on & {'dune', 'gw', 'surf'}:
        if not cfg.get('process_tide'):
            cfg.update(process_tide=True, tide_file='tide.txt')
            files['tide.txt'] = np.array([[t0, draw(F(-1.5, 1.))], [t0 + span / 2., draw(F(-1.5, 1.))], [t0 + 2 * span, 0.]])
        if not cfg.get('process_wave'):
            cfg.update(process_wave=True, wave_file='wave.txt')
            files['wave.txt'] = np.array([[t0, draw(F(0., 3.)), draw(F(2., 10.))], [t0 + 2 * span, draw(F(0., 3.)), draw(F(2., 10.))]])
        cfg['process_runup'] = True
    if 'fence' in on and nx >= 3:
        h = np.zeros(sh)
        h[:, nx // 2] = draw(F(.3, 1.5, (1.,)))
        put('fence.txt', h)
        cfg.update(process_fences=True, fence_file='fence.txt', dx=dx, dy=dx)
    if 'dune' in on:
        cfg.update(process_dune_erosion=True, Cs=draw(st.sampled_from([1e-4, 1e-3])), dune_toe_elevation=draw(F(-1., 1.)))
    if 'gw' in on:
        cfg.update(process_groundwater=True, in_gw=draw(F(-2., 0.)), boundary_gw=draw(st.sampled_from(['no_flow', 'static'])), GW_stat=draw(F(-2., 0.)), tfac_gw=10, K_gw=1e-4)
    if 'surf' in on:
        cfg.update(process_groundwater=True, in_gw=draw(F(-2., 0.)), process_moist=True, method_moist_process='surf_moisture', th_moisture=True,
                   process_scanning=draw(st.booleans()), meteo_file='meteo.txt', tfac_gw=10, K_gw=1e-4)
        files['meteo.txt'] = np.array([[t0 + k * span, draw(F(0., 30.)), draw(F(0., 20.)), draw(F(0., 5., (0.,))), 101.325, draw(F(30., 99.))] for k in range(3)])
    if 'salt' in on:
        cfg.update(process_salt=True, th_salt=draw(st.booleans()))
        if draw(st.booleans()) and 'meteo_file' not in cfg:
            cfg['meteo_file'] = 'meteo.txt'
            files['meteo.txt'] = np.array([[t0 + k * span, 15., 10., draw(F(0., 5., (0.,))), 101.325, 80.] for k in range(3)])
    if 'moist' in on:
        cfg.update(process_moist=True, th_moisture=True, method_moist_threshold=draw(st.sampled_from(
            ['belly_johnson', 'hotta', 'chepil', 'saleh_fryear', 'saleh_fryear_mod', 'shao', 'dong_2002', 'gregory_darwish', 'dong_2007'])))
    if 'shelter' in on:
        cfg['th_sheltering'] = True
    if 'sep' in on and cfg.get('process_shear'):
        cfg['process_separation'] = True
    if 'veg' in on and cfg.get('process_vegetation'):
        cfg['veggrowth_type'] = draw(st.sampled_from(['orig', 'duranmoore14']))
        if not ny:
            cfg['vegshear_type'] = draw(st.sampled_from(['raupach', 'okin']))
    if 'flux' in on:
        cfg.update(boundary_offshore='flux', offshore_flux=draw(st.sampled_from([.5, 1.])))
    cfg['bi'] = draw(st.sampled_from([1., 1., .5, .05]))
    if repeat:
        for f in ('tide.txt', 'wave.txt', 'meteo.txt', 'wind.txt'):
            if f in files and draw(st.booleans()):          # series that end during the run and start over
                files[f] = np.array(files[f], dtype=float)
                files[f][:, 0] = t0 + np.round((files[f][:, 0] - t0) * draw(F(.05, .6)))
    return c


def start(d, c, runner=False, **over):
    cfg = dict(c['cfg'])
    cfg.update(over)
    return model(d, cfg, c['files'], runner=runner)


def record_run(d, c, names, **over):
    """complete run of the model runner; history of (time, copies of grids) after 0, 1, 2, ... steps"""
    cfg = dict(c['cfg'])
    cfg.update(over)
    path = write_setup(d, cfg, c['files'])
    m = AeoLiSRunner(configfile=path)
    hist = []

    def snap(mod):
        hist.append((mod.t, {k: np.array(mod.s[k], copy=True) for k in names}))
    np.random.seed(1)
    m.run(callback=snap)
    snap(m)
    return m, hist


def record_steps(hist, tstart, interval):
    """indices of the states that belong to the output file, following the documented interval"""
    out, last = [], None
    for k, (t, _) in enumerate(hist):
        if k == 0 or t - last >= interval:
            out.append(k)
            last = t
    return out
