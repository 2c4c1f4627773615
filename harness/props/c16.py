"""C16: time stepping."""
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import os

PROPERTY = 'C16'
RULE = ('Generated set-ups and sequences of update calls with default, explicit and skipping time steps, under CFL and bed level change limits, '
        'and complete runs. Non-trivial: the sequence has at least two kinds of steps or a limit is active / the run takes more than two steps.')


@st.composite
def step_cases(draw):
    c = draw(sim.setups(rotated=True, shear=False, solvers=('trunk', 'trunk', 'pieter', 'steadystate'), schemes=('euler_forward', 'euler_forward', 'euler_backward', 'crank_nicolson')))
    c['cfg']['CFL'] = draw(st.sampled_from([1., .5, .1, 0., -1.]))
    if c['cfg']['scheme'] == 'euler_forward' and c['cfg']['CFL'] <= 0.:
        c['cfg']['dt'] = .01
    c['cfg']['max_bedlevel_change'] = draw(st.sampled_from([999., 999., 1e-2, 1e-4, 1e-6]))
    if draw(st.integers(0, 3)) == 0:
        c['files']['wind.txt'][draw(st.integers(0, 1)):, 1] = 0.               # calm
    c['ops'] = draw(st.lists(st.one_of(st.just(-1.), st.just(-1), st.just(0.), st.just(-.5), F(.01, 200.), F(.01, 1.5), F(-7200., -1.001), st.sampled_from([-2., -3600., 1., 30.])), min_size=2, max_size=7))
    return c


STATE = ('zb', 'mass', 'Ct', 'pickup', 'moist', 'rhoveg', 'hveg', 'dzb', 'dzbavg', 'gw', 'x', 'y', 'zb0', 'zs')


def steps(c):
    with tmpdir() as d, quiet():
        m = sim.start(d, c)
        p = m.p
        check(m.get_current_time() == c['cfg']['tstart'] == m.get_start_time(), 'model starts at %r', m.t)
        check(m.get_end_time() == c['cfg']['tstop'], 'model ends at %r', m.get_end_time())
        wt = c['files']['wind.txt']
        kinds, last = set(), None
        nsteps = 0
        for op in c['ops']:
            t = m.t
            b = {k: m.s[k].copy() for k in STATE}
            m.update(op) if op != -1 or isinstance(op, float) else m.update()
            if op < -1:
                kinds.add('skip')
                close(m.t, t + abs(op), 'time after skipping')
                for k in STATE:
                    close(m.s[k], b[k], '%s after skipping' % k, rtol=1e-9, atol=1e-9)
                check(m.get_count('time') == nsteps, 'skipped time counts as time step')
                continue
            nsteps += 1
            check(m.get_count('time') == nsteps, 'number of time steps')
            want = op if op > 0 else c['cfg']['dt']
            tol = 1e-9
            kinds.add('given' if op > 0 else 'default')
            if p['scheme'] == 'euler_forward' and p['CFL'] > 0.:
                # wind speed at the time of the step in both grid directions
                sp = np.interp((t - wt[0, 0]) % (np.ptp(wt[:, 0]) + 1.) + wt[0, 0], wt[:, 0], wt[:, 1]) if t > wt[-1, 0] else np.interp(t, wt[:, 0], wt[:, 1])
                if t > wt[-1, 0]:
                    want = None                     # beyond the series (interpolation: C38)
                else:
                    ang = np.radians(wt[:, 2])
                    dr = np.arctan2(np.interp(t, wt[:, 0], np.sin(ang)), np.interp(t, wt[:, 0], np.cos(ang))) - np.radians(p['alfa'])
                    al = np.radians(p['alpha'])
                    us, un = -sp * np.sin(dr), -sp * np.cos(dr)
                    us, un = us * np.cos(al) + un * np.sin(al), -us * np.sin(al) + un * np.cos(al)
                    ref = np.max(abs(us) / m.s['ds']) + np.max(abs(un) / m.s['dn'])
                    lim = p['CFL'] / ref if ref > 0 else 1.
                    if lim < want:
                        kinds.add('cfl')
                        want = lim
                    # wind directions of exactly 0, 90, ... may be nudged by a hundredth of a degree
                    nudge = 2e-4 * sp * (np.max(1. / m.s['ds']) + np.max(1. / m.s['dn']))
                    tol = 1e-9 + nudge / max(ref, nudge)
            mx = np.abs(b['dzb']).max()
            if want is not None and c['cfg']['max_bedlevel_change'] != 999. and mx > 0 and last:
                lim = last * c['cfg']['max_bedlevel_change'] / mx
                if lim < want:
                    kinds.add('bed')
                    want = lim
            if want is not None:
                close(m.dt, want, 'time step', rtol=tol)
            check(m.dt > 0., 'time step %r', m.dt)
            close(p['dt_opt'], m.dt, 'stored time step')
            close(m.t, t + m.dt * p['accfac'], 'time after step')
            last = m.dt
        for k in kinds:
            c.label(k)
        c.hit(len(kinds) > 1)


@st.composite
def run_cases(draw):
    c = draw(sim.setups(tstarts=(0, 0, 3600, -600), solvers=('trunk',), shear=False, schemes=('euler_backward', 'euler_backward', 'euler_forward')))
    if c['cfg']['scheme'] == 'euler_forward':
        c['cfg']['tstop'] = c['cfg']['tstart'] + 2.
        return c
    c['cfg']['tstop'] = c['cfg']['tstop'] + draw(st.sampled_from([0., 0., 1., c['cfg']['dt'] * c['cfg']['accfac'] / 2.]))
    return c


def run(c):
    """a run covers the whole simulation period, step by step"""
    with tmpdir() as d, quiet():
        path = sim.write_setup(d, c['cfg'], c['files'])
        m = sim.AeoLiSRunner(configfile=path)
        seen = []
        m.run(callback=lambda mod: seen.append((mod.t, mod.dt)))
        close(seen[0][0], c['cfg']['tstart'], 'time of first step')
        check(seen[-1][0] <= c['cfg']['tstop'], 'step at %r after the end %r', seen[-1][0], c['cfg']['tstop'])
        check(m.t > c['cfg']['tstop'], 'run ended at %r before the end %r', m.t, c['cfg']['tstop'])
        ts = np.array([s[0] for s in seen] + [m.t])
        dts = np.array([s[1] for s in seen[1:]] + [m.dt])
        close(np.diff(ts), dts * m.p['accfac'], 'time between steps', rtol=1e-7, atol=1e-9)
        check(np.all(dts <= c['cfg']['dt'] * (1 + 1e-12)), 'time step larger than configured')
        if c['cfg']['scheme'] != 'euler_forward':
            close(dts, c['cfg']['dt'], 'time steps')
        check(m.get_count('time') == len(seen), '%d steps counted, %d taken', m.get_count('time'), len(seen))
        check(os.path.realpath(os.getcwd()) == os.path.realpath(d), 'working directory not restored')
        c.hit(len(seen) > 2)


CHECKS = [Check('steps', step_cases(), steps, quick=250), Check('run', run_cases(), run, quick=60)]
