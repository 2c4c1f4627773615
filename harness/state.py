"""Bare model states (no files): every spatial grid of the right shape plus the
full set of default parameters, as the model itself sets them up."""
import copy
import numpy as np
import vlib
import aeolis.constants
from aeolis.model import AeoLiS, ModelState


def params(nx, ny, nlayers=3, nfractions=1, **over):
    p = copy.deepcopy(aeolis.constants.DEFAULT_CONFIG)
    p.update(nx=nx, ny=ny, nlayers=nlayers, nfractions=nfractions, alpha=0., _time=0., dt_opt=p['dt'])
    p['grain_size'] = np.linspace(200e-6, 600e-6, nfractions)
    p['grain_dist'] = np.ones(nfractions) / nfractions
    p.update(over)
    for k in ('grain_size', 'grain_dist'):
        p[k] = np.asarray(p[k], dtype=float)
    return p


def state(p):
    s = ModelState()
    for var, dims in AeoLiS.dimensions().items():
        shp = tuple(p[d] + (1 if d in ('nx', 'ny') else 0) for d in dims)
        s[var] = np.zeros(shp)
    for k in p:
        if k.endswith('_mask'):
            s[k] = 1.
    ny, nx = p['ny'], p['nx']
    s['x'][:, :] = np.arange(nx + 1)[None, :]
    s['y'][:, :] = np.arange(ny + 1)[:, None]
    for k in ('ds', 'dn', 'dsdn', 'dsdni'):
        s[k][:, :] = 1.
    return s
