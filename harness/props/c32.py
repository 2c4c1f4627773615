"""C32: wind time series generator."""
import os
import math
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
from aeolis.model import WindGenerator
import aeolis.console
from typer.testing import CliRunner

PROPERTY = 'C32'
RULE = ('Generated mean and maximum wind speeds, distribution parameters, bins, durations and time steps; the transition matrix, the generated '
        'series, the written file and the command line tool are examined. Non-trivial: more than two bins and more than ten time steps.')


@st.composite
def cases(draw):
    return dict(mean=draw(F(2., 15., (9., 10.))), max=draw(F(16., 45., (30., 20., 25.))), n=draw(st.integers(2, 30)), shape=draw(st.sampled_from([2., 2., 1.5, 3.])),
                scale=draw(st.sampled_from([2., 2., 1.5])), dt=draw(st.sampled_from([60., 600., 3600., 1., 7.5])), steps=draw(st.one_of(st.integers(1, 40), st.integers(1, 400))),
                part=draw(st.sampled_from([0., 0., .5])), seed=draw(st.integers(0, 10 ** 6)), again=draw(st.booleans()))


def weibull(c):
    b = c['max'] / c['n']
    x = (np.arange(c['n']) + .5) * b
    k, s = c['shape'], c['scale'] * c['mean'] / math.sqrt(math.pi)
    f = k / s * (x / s) ** (k - 1.) * np.exp(-(x / s) ** k)
    return b, x, f / f.sum()


def transitions(c):
    """rows of the transition matrix are distributions that decay with distance, their equilibrium is the requested Weibull distribution"""
    with quiet():
        g = WindGenerator(mean_speed=c['mean'], max_speed=c['max'], dt=c['dt'], n_states=c['n'], shape=c['shape'], scale=c['scale'])
    b, x, f = weibull(c)
    n = c['n']
    close(g.bins, x, 'centres of the wind speed bins', rtol=1e-9)
    M = np.asarray(g.MTMcum, dtype=float)
    check(M.shape == (n, n), 'transition matrix has shape %s', M.shape)
    P = np.diff(np.concatenate((np.zeros((n, 1)), M), axis=1), axis=1)
    check(np.all(P >= -1e-15), 'negative transition probability %g', P.min())
    close(M[:, -1], 1., 'sum of the transition probabilities', rtol=1e-9)
    close(f @ P, f, 'distribution after one transition', rtol=1e-4, atol=1e-7)
    # detailed balance, with a common decay away from the diagonal
    close(f[:, None] * P, (f[:, None] * P).T, 'flow between states', rtol=1e-4, atol=1e-8)
    if n > 2:
        d = np.diag(P)
        for i in range(n):
            for j in range(n):
                if d[i] > 1e-9 and d[j] > 1e-9:
                    close(P[i, j] * P[j, i], d[i] * d[j] * 4. ** (-abs(i - j)), 'transitions between %d and %d' % (i, j), rtol=1e-6, atol=1e-14)
    c.hit(n > 2)


def series(c):
    """the series covers the duration with speeds within bounds, reproducibly, and each generation starts anew"""
    with quiet(), tmpdir() as d:
        g = WindGenerator(mean_speed=c['mean'], max_speed=c['max'], dt=c['dt'], n_states=c['n'], shape=c['shape'], scale=c['scale'])
        T = c['dt'] * (c['steps'] - c['part'])
        np.random.seed(c['seed'])
        if c['again']:
            g.generate(duration=T)
            np.random.seed(c['seed'])
        check(g.generate(duration=T) is g, 'generate does not return the generator')
        t, u = g.get_time_series()
        check(len(t) == len(u), '%d times for %d speeds', len(t), len(u))
        close(t, np.arange(len(t)) * c['dt'], 'times', rtol=1e-12)
        check(t[-1] >= T - 1e-6 * c['dt'] and len(t) == 1 + math.ceil(T / c['dt'] - 1e-9), 'series of %d values with step %g for a duration of %g', len(t), c['dt'], T)
        b = c['max'] / c['n']
        check(np.all(u >= 0.) and np.all(u <= c['max'] * (1 + 1e-12)), 'speeds from %g to %g with maximum %g', u.min(), u.max(), c['max'])
        st_ = np.asarray(g.states)
        check(len(st_) == len(u) and np.all((st_ >= 0) & (st_ < c['n'])), 'states outside the bins')
        check(np.all(np.abs(u - g.bins[st_]) <= b / 2. * (1 + 1e-9)), 'speed %g outside bin %g of width %g', *[float(v[np.argmax(np.abs(u - g.bins[st_]))]) for v in (u, g.bins[st_])], b)
        k = len(u) // 2
        close(g[k], u[k], 'single value of the series')
        g.write_time_series('w.txt')
        M = np.loadtxt('w.txt', ndmin=2)
        check(M.shape == (len(t), 3), 'shape of the written series is %s', M.shape)
        close(M[:, 0], t, 'times in the file', rtol=1e-12)
        close(M[:, 1], u, 'speeds in the file', rtol=1e-12)
        close(M[:, 2], 0., 'directions in the file')
        h = WindGenerator(mean_speed=c['mean'], max_speed=c['max'], dt=c['dt'], n_states=c['n'], shape=c['shape'], scale=c['scale'])
        np.random.seed(c['seed'])
        close(h.generate(duration=T).get_time_series()[1], u, 'series generated again from the same seed', rtol=0., atol=0.)
        c.hit(len(u) > 10 and c['n'] > 2)


@st.composite
def long_cases(draw):
    c = draw(cases())
    c.update(n=draw(st.sampled_from([8, 15, 30])), shape=2., scale=2., mean=draw(F(4., 12.)), max=draw(F(25., 40.)))
    return c


def longrun(c):
    """a long series visits the bins as often as the Weibull distribution demands"""
    N = 20000
    with quiet():
        g = WindGenerator(mean_speed=c['mean'], max_speed=c['max'], dt=1., n_states=c['n'])
        np.random.seed(c['seed'])
        u = g.generate(duration=N).get_time_series()[1]
    b, x, f = weibull(dict(c, shape=2., scale=2.))
    M = np.asarray(g.MTMcum)
    P = np.diff(np.concatenate((np.zeros((c['n'], 1)), M), axis=1), axis=1)
    # standard deviation of the mean of the Markov chain, from its autocovariance
    z = np.linalg.solve(np.eye(c['n']) - P + np.ones((c['n'], 1)) * f, x - f @ x)
    var = float(f @ ((x - f @ x) * (2. * z - (x - f @ x)))) + b ** 2 / 12.
    want = float(f @ x)
    sd = math.sqrt(max(var, 1e-12) / N)
    check(abs(np.mean(u) - want) < 6.5 * sd + c['max'] * 3 / N * c['n'] + 1e-3, 'mean speed of a long series is %g, expected %g within %g', np.mean(u), want, 6.5 * sd)
    # cumulative distribution within the bins
    mid = u[u < x[c['n'] // 3] + .5 * b]
    c.hit(len(mid) > 0)


@st.composite
def cli_cases(draw):
    return dict(mean=draw(st.one_of(st.none(), F(3., 12.))), max=draw(st.one_of(st.none(), st.sampled_from([20., 25., 40.]))), T=draw(st.one_of(st.none(), st.integers(1, 20000))),
                dt=draw(st.one_of(st.none(), st.sampled_from([1, 60, 600, 3600]))), name=draw(st.sampled_from(['wind.txt', 'a b.txt', 'sub/w'])), seed=draw(st.integers(0, 1000)))


def cli(c):
    """the command line tool writes the series of the generator with its options"""
    with tmpdir() as d:
        os.makedirs('sub')
        args = ['wind', c['name']]
        for k, o in (('mean', '--mean'), ('max', '--max'), ('T', '--duration'), ('dt', '--timestep')):
            if c[k] is not None:
                args += [o, str(c[k])]
        np.random.seed(c['seed'])
        r = CliRunner().invoke(aeolis.console.aeolis_app, args)
        if r.exception is not None and not isinstance(r.exception, SystemExit):
            raise r.exception
        check(r.exit_code == 0, 'exit status %d: %s', r.exit_code, r.output)
        M = np.loadtxt(c['name'], ndmin=2)
        mean, mx, T, dt = [v if v is not None else w for v, w in zip((c['mean'], c['max'], c['T'], c['dt']), (10., 30., 3600, 60))]
        np.random.seed(c['seed'])
        t, u = WindGenerator(mean_speed=mean, max_speed=mx, dt=dt).generate(duration=T).get_time_series()
        close(M, np.stack((t, u, 0. * u), axis=1), 'file written by the tool', rtol=1e-12)
        for k, v in (('min', u.min()), ('mean', u.mean()), ('max', u.max())):
            line = [x for x in r.output.splitlines() if x.startswith(k) and ':' in x]
            check(len(line) == 1 and abs(float(line[0].split(':')[1].split()[0]) - v) < 6e-4, 'printed %s speed %s, expected %g', k, line, v)
        c.hit(len(u) > 10)


CHECKS = [Check('transitions', cases(), transitions, quick=120), Check('series', cases(), series, quick=150),
          Check('longrun', long_cases(), longrun, quick=40), Check('cli', cli_cases(), cli, quick=50)]
