"""C39: command line interface."""
import os
import filecmp
import numpy as np
import netCDF4
from vlib import st, F, grid, Check, check, close, finite, tmpdir, quiet
import sim
import aeolis.console
from aeolis.model import AeoLiSRunner
from typer.testing import CliRunner

PROPERTY = 'C39'
RULE = ('Generated set-ups run from the command line with callback and restart options from another directory, compared with the model runner; example folders; '
        'invalid calls. Non-trivial: the run has options or starts in another directory than the set-up.')


@st.composite
def cases(draw):
    c = draw(sim.setups(steps=(2, 4), shear=False, calm=False, solvers=('trunk', 'steadystate'), schemes=('euler_backward',), tstarts=(0,)))
    c['callback'] = draw(st.booleans())
    c['restart'] = draw(st.booleans())
    c['where'] = draw(st.sampled_from(['here', 'above', 'absolute']))
    c['order'] = draw(st.booleans())
    return c


def call(args):
    r = CliRunner().invoke(aeolis.console.aeolis_app, args)
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        raise r.exception
    return r


def contents(fname):
    with netCDF4.Dataset(fname) as nc:
        return {k: np.ma.filled(nc.variables[k][:], np.nan) for k in ['time'] + ['zb', 'Ct', 'mass', 'pickup', 'qs']}


def run(c):
    """a run from the command line gives the results of the model runner"""
    cfg = dict(c['cfg'])
    step = cfg['dt'] * cfg['accfac']
    if c['restart']:
        cfg['restart'] = step
    with tmpdir() as d:
        os.makedirs('case')
        path = sim.write_setup('case', cfg, c['files'])
        with open('case/cb.py', 'w') as fp:
            fp.write('def cb(model):\n    model.set_var("zb", model.get_var("zb", clear=False) + .01)\n')
        os.chdir('case')
        with quiet():
            m = AeoLiSRunner(configfile='aeolis.txt')
            m.run(callback='cb.py:cb' if c['callback'] else None)
        opts = ['--callback', 'cb.py:cb'] if c['callback'] else []
        ref = contents('out.nc')
        if c['restart']:
            f = 'out.r%010d' % int(step)
            check(os.path.exists(f), 'no restart file %s', f)
            opts += ['--restart', f]
        os.remove('out.nc')
        name = 'aeolis.txt'
        if c['where'] == 'above':
            os.chdir('..')
            name = 'case/aeolis.txt'
        elif c['where'] == 'absolute':
            os.chdir('..')
            name = os.path.join(d, 'case', 'aeolis.txt')
        cwd = os.getcwd()
        r = call(['run', name] + opts if c['order'] else ['run'] + opts + [name])
        check(r.exit_code == 0, 'exit status %d: %s', r.exit_code, r.output[-300:])
        check(os.path.realpath(os.getcwd()) == os.path.realpath(cwd), 'working directory after the run')
        check('ABSOLUTELY NO WARRANTY' in r.output, 'licence is not printed')
        got = contents(os.path.join(d, 'case', 'out.nc'))
        if c['restart']:
            n = len(ref['time']) - 1
            close(got['time'], ref['time'][-n:], 'times after a restart')
            for k in ref:
                close(got[k], ref[k][-n:], '%s after a restart from the command line' % k, rtol=0., atol=0.)
        else:
            for k in ref:
                close(got[k], ref[k], '%s of a run from the command line' % k, rtol=0., atol=0.)
        check(os.path.exists(os.path.join(d, 'case', 'aeolis.log')), 'no log file')
        c.hit(bool(opts) or c['where'] != 'here')


@st.composite
def other_cases(draw):
    return dict(kind=draw(st.sampled_from(['examples', 'examples', 'missing', 'none', 'option', 'command', 'callback', 'restart'])),
                name=draw(st.from_regex(r'[a-z][a-z0-9_]{0,7}', fullmatch=True)), deep=draw(st.booleans()))


def files(root):
    return sorted(os.path.relpath(os.path.join(p, f), root) for p, _, fs in os.walk(root) for f in fs)


def other(c):
    """examples are copied completely, invalid calls fail"""
    k, name = c['kind'], c['name']
    with tmpdir() as d:
        if k == 'examples':
            dest = name + ('/deeper' if c['deep'] else '')
            r = call(['examples', dest])
            check(r.exit_code == 0, 'exit status %d: %s', r.exit_code, r.output[-300:])
            src = os.path.join(os.path.dirname(aeolis.__file__), 'examples')
            for a, b in (('2D/Parabolic_dune', 'Parabolic_dune'), ('sandengine_small_grids', 'sandengine_small_grids')):
                x, y = os.path.join(src, a), os.path.join(d, dest, 'aeolis-examples', b)
                check(files(x) == files(y), 'files of example %s', b)
                for f in files(x):
                    check(filecmp.cmp(os.path.join(x, f), os.path.join(y, f), shallow=False), 'contents of example file %s', f)
            check(sorted(os.listdir(os.path.join(d, dest))) == ['aeolis-examples'], 'other files next to the examples')
            # once more: an error, and what the user made of the examples stays
            mine = {f: 'changed' for f in files(dest)[::3]}
            for f in mine:
                with open(os.path.join(dest, f), 'w') as fp:
                    fp.write(mine[f])
            with quiet():
                r = CliRunner().invoke(aeolis.console.aeolis_app, ['examples', dest])
            check(r.exit_code != 0, 'examples copied over existing ones')
            for f in mine:
                with open(os.path.join(dest, f)) as fp:
                    check(fp.read() == mine[f], 'example file %s of the user is overwritten', f)
            c.hit()
            return
        path = sim.write_setup(d, *sim.base(nx=4, tstop=60))
        args = {'missing': ['run', name + '.cfg'], 'none': ['run'], 'option': ['run', '--' + name + 'x', 'aeolis.txt'], 'command': ['x' + name],
                'callback': ['run', 'aeolis.txt', '--callback', name + '.py:f'], 'restart': ['run', 'aeolis.txt', '--restart', name + '.r1']}[k]
        with quiet():
            r = CliRunner().invoke(aeolis.console.aeolis_app, args)
        check(r.exit_code != 0, '%s succeeds', ' '.join(args))
        check(not os.path.exists('aeolis.nc') or k == 'restart', 'output after an invalid call')
        c.hit()


CHECKS = [Check('run', cases(), run, quick=60), Check('other', other_cases(), other, quick=30)]
