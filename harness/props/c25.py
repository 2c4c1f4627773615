"""C25: model instances do not influence each other and runs are reproducible."""
import os
import copy
import numpy as np
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import aeolis.constants

PROPERTY = 'C25'
RULE = ('Pairs of generated complete set-ups, stepped in a generated interleaving and alone, in this or another working directory. '
        'Non-trivial: both models step at least twice, alternately, and sediment moves in one of them.')


@st.composite
def cases(draw):
    kw = dict(steps=(2, 4), rotated=True, calm=False)
    a = draw(sim.setups(**kw))
    b = draw(sim.setups(**kw)) if draw(st.integers(0, 2)) else copy.deepcopy(a)
    order = draw(st.permutations([0] * a['nsteps'] + [1] * b['nsteps']))
    runner = draw(st.booleans())
    for c in a, b:
        c['runner'] = runner
        if runner:
            c['cfg'].update(output_vars=['zb', 'Ct', 'qs', 'uw'], output_types=draw(st.permutations(STATS)))
            c['clear'] = draw(st.lists(st.booleans(), min_size=c['nsteps'], max_size=c['nsteps']))
    return dict(a=a, b=b, order=order, later=draw(st.booleans()))


STATS = ['avg', 'sum', 'var', 'min', 'max']


def states(m, step=None, c=None):
    """state variables and, for a runner, output statistics after a step"""
    out = {}
    if step and c and c.get('runner'):
        for v in 'zb', 'Ct', 'qs', 'uw':
            for k in STATS:
                out['%s_%s' % (v, k)] = np.array(m.get_var('%s_%s' % (v, k), clear=c['clear'][step - 1]))
    out.update(grids(m.s))
    return out


def grids(s):
    return {k: np.array(v, copy=True) for k, v in s.items() if isinstance(v, (np.ndarray, float, int)) and np.asarray(v).dtype.kind in 'fibc'}


def same(a, b, what):
    check(set(a) == set(b), '%s: variables %s', what, sorted(set(a) ^ set(b)))
    for k in a:
        close(a[k], b[k], '%s: %s' % (what, k), rtol=0., atol=0.)


def alone(d, c):
    m = sim.start(d, c, runner=c.get('runner', False))
    out = [states(m)]
    for k in range(c['nsteps']):
        m.update()
        out.append(states(m, k + 1, c))
    return out, m.t


def interleaved(c):
    default = copy.deepcopy(aeolis.constants.DEFAULT_CONFIG)
    initial = copy.deepcopy((aeolis.constants.INITIAL_STATE, aeolis.constants.MODEL_STATE))
    with tmpdir() as d, quiet():
        for k in ('a', 'b', 'a1', 'b1'):
            os.makedirs(os.path.join(d, k))
        ref = [alone(os.path.join(d, k), c[k]) for k in 'ab']
        m = [sim.start(os.path.join(d, 'a1'), c['a'], runner=c['a']['runner'])]
        n = [0, 0]
        done = list(c['order'])
        if c['later']:                                # the second model is set up when the first one already runs
            while done and done[0] == 0:
                m[0].update()
                n[0] += 1
                same(states(m[0], n[0], c['a']), ref[0][0][n[0]], 'first model after step %d' % n[0])
                done.pop(0)
        m.append(sim.start(os.path.join(d, 'b1'), c['b'], runner=c['b']['runner']))
        same(states(m[0], n[0], c['a']), ref[0][0][n[0]], 'first model after set-up of the second')
        same(states(m[1]), ref[1][0][0], 'second model after its set-up')
        for i in done:
            other = states(m[1 - i], n[1 - i], c['ba'[i]])
            m[i].update()
            n[i] += 1
            same(states(m[i], n[i], c['ab'[i]]), ref[i][0][n[i]], 'model %d after step %d next to another model' % (i, n[i]))
            same(states(m[1 - i], n[1 - i], c['ba'[i]]), other, 'model %d during a step of the other one' % (1 - i))
        for i in 0, 1:
            check(m[i].t == ref[i][1], 'time of model %d', i)
    check(repr(aeolis.constants.DEFAULT_CONFIG) == repr(default), 'default configuration changed')
    check((aeolis.constants.INITIAL_STATE, aeolis.constants.MODEL_STATE) == initial, 'state definitions changed')
    alt = sum(x != y for x, y in zip(c['order'], c['order'][1:]))
    c.hit(alt > 1 and any(np.any(r[0][-1]['qs'] != 0.) for r in ref))


@st.composite
def seed_cases(draw):
    c = draw(sim.setups(steps=(2, 5), random=True, calm=False))
    v = draw(grid((c['ny'] + 1, c['nx'] + 1), 0., 1., 3))
    c['cfg'].update(process_vegetation=True, veg_file='veg.txt', germinate=draw(st.sampled_from([0., .5, .9])), lateral=draw(st.sampled_from([0., .5])), V_ver=2., veg_min_elevation=-10.,
                    accfac=draw(st.sampled_from([1, 1000])))
    c['files']['veg.txt'] = v if c['ny'] else v[0]
    c['seed'] = draw(st.integers(0, 10 ** 6))
    return c


def reproducible(c):
    """a model with random germination is reproducible from the seed of the random numbers"""
    out = []
    for k in range(2):
        with tmpdir() as d, quiet():
            np.random.seed(c['seed'])
            out.append(alone(d, c))
    for k, (a, b) in enumerate(zip(*[x[0] for x in out])):
        same(a, b, 'second run after %d steps' % k)
    c.hit(c['cfg']['germinate'] > 0)


CHECKS = [Check('interleaved', cases(), interleaved, quick=120), Check('reproducible', seed_cases(), reproducible, quick=50)]
