"""Shared machinery of the property-based checks.

A property module (harness/props/<id>.py) defines ``PROPERTY``, ``RULE`` and
``CHECKS``, a list of :class:`Check`.  Each check is a Hypothesis strategy that
produces plain data (JSON-able values and numpy arrays) and a function which
runs the real AeoLiS code on it and compares it with an explicit oracle.

* oracle mismatch            -> ``Violation``
* exception raised by aeolis -> ``Violation`` too (every generated case lies in
                               the domain the code accepts)
* any other exception        -> harness error (exit status 2)
"""
import os
import sys
import json
import time
import shutil
import hashlib
import tempfile
import traceback
import contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYVENV_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if REPO not in sys.path:
    sys.path.insert(0, REPO)
if PYVENV_SITE not in sys.path:
    sys.path.append(PYVENV_SITE)      # hypothesis; numpy & co come from the venv

import numpy as np                                                # noqa: E402
import hypothesis                                                 # noqa: E402
import hypothesis.internal.conjecture.engine as _engine           # noqa: E402
from hypothesis import given, settings, HealthCheck, Phase        # noqa: E402
from hypothesis import strategies as st                           # noqa: E402

_engine.MAX_SHRINKING_SECONDS = 45

import logging                                                    # noqa: E402
import warnings                                                   # noqa: E402
warnings.simplefilter('ignore')
np.seterr(all='ignore')
logging.disable(logging.CRITICAL)

import aeolis                                                     # noqa: E402

_root = os.path.realpath(os.path.dirname(os.path.dirname(aeolis.__file__)))
if _root != os.path.realpath(REPO):
    sys.stderr.write('aeolis imported from %s, not %s\n' % (_root, REPO))
    sys.exit(2)


class Violation(Exception):
    """The property does not hold for the generated case."""


class OutOfTime(Exception):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _worst(a, b, tol):
    with np.errstate(all='ignore'):
        d = np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float))
        bad = ~((d <= tol) | (np.asarray(a) == np.asarray(b)) |
                (np.isnan(np.asarray(a, dtype=float)) & np.isnan(np.asarray(b, dtype=float))))
    return bad


def close(a, b, what, rtol=1e-9, atol=1e-12, **info):
    """assert |a-b| <= atol + rtol*|b| elementwise; equal infs/nans are equal"""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            raise Violation('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    with np.errstate(all='ignore'):
        tol = atol + rtol * np.abs(b)
        tol = np.where(np.isfinite(tol), tol, 0.)
    bad = _worst(a, b, tol)
    if np.any(bad):
        ix = tuple(int(i) for i in np.argwhere(bad)[0]) if a.ndim else ()
        raise Violation('%s: got %r, expected %r at index %s (%d of %d values differ)%s' % (
            what, float(a[ix]), float(b[ix]), ix, int(np.sum(bad)), a.size,
            ' %s' % info if info else ''))


def finite(a, what):
    a = np.asarray(a, dtype=float)
    if not np.all(np.isfinite(a)):
        ix = tuple(int(i) for i in np.argwhere(~np.isfinite(a))[0])
        raise Violation('%s: non-finite value %r at %s' % (what, float(a[ix]), ix))


# ---------------------------------------------------------------- strategies

def F(lo, hi, specials=()):
    """floats in [lo, hi], snapped to 10 significant digits, and to zero if negligible, plus special values"""
    eps = 1e-9 * (hi - lo) if lo <= 0. <= hi else 0.
    base = st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64).map(
        lambda v: 0. if abs(v) < eps else min(hi, max(lo, float('%.10g' % v))))
    sp = [v for v in specials]
    if sp:
        return st.one_of(base, st.sampled_from(sp))
    return base


def grid(shape, lo=0., hi=1., snap=8):
    """array of ``shape`` with entries in [lo, hi]

    One byte string is drawn for the whole array: cheap, replayable, shrinks
    towards ``lo``.  One in ``snap`` entries is exactly lo, one exactly hi.
    """
    n = int(np.prod(shape)) if len(shape) else 1

    def build(b):
        v = np.frombuffer(b, dtype='>u2').astype(float)[:n]
        edge = 65535. / snap
        u = np.clip((v - edge) / (65535. - 2 * edge), 0., 1.)
        return np.asarray(lo + (hi - lo) * u).reshape(shape)
    return st.binary(min_size=2 * n, max_size=2 * n).map(build)


# -------------------------------------------------------------- case coding

def encode(v):
    if isinstance(v, np.ndarray):
        return {'__nd__': str(v.dtype), 'shape': list(v.shape),
                'data': [encode(x) for x in v.ravel().tolist()]}
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return encode(v.item())
    if isinstance(v, complex):
        return {'__c__': [repr(v.real), repr(v.imag)]}
    if isinstance(v, float) and not np.isfinite(v):
        return {'__f__': repr(v)}
    if isinstance(v, bytes):
        return {'__b__': v.hex()}
    if isinstance(v, dict):
        return {'__d__': [[encode(k), encode(x)] for k, x in v.items()]}
    if isinstance(v, tuple):
        return {'__t__': [encode(x) for x in v]}
    if isinstance(v, (set, frozenset)):
        return {'__s__': [encode(x) for x in sorted(v, key=repr)]}
    if isinstance(v, list):
        return [encode(x) for x in v]
    return v


def decode(v):
    if isinstance(v, dict):
        if '__nd__' in v:
            return np.array([decode(x) for x in v['data']], dtype=v['__nd__']).reshape(v['shape'])
        if '__c__' in v:
            return complex(float(v['__c__'][0]), float(v['__c__'][1]))
        if '__f__' in v:
            return float(v['__f__'])
        if '__b__' in v:
            return bytes.fromhex(v['__b__'])
        if '__d__' in v:
            return {decode(k): decode(x) for k, x in v['__d__']}
        if '__s__' in v:
            return {decode(x) for x in v['__s__']}
        if '__t__' in v:
            return tuple(decode(x) for x in v['__t__'])
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def brief(v, depth=0):
    """short printable form of a case, for evidence samples"""
    if isinstance(v, np.ndarray):
        if v.size <= 8:
            return [float('%.5g' % x) if isinstance(x, float) else str(x) for x in v.ravel().tolist()]
        return 'array%s min=%.4g max=%.4g mean=%.4g' % (
            v.shape, np.nanmin(v.real), np.nanmax(v.real), np.nanmean(v.real))
    if isinstance(v, dict):
        return {str(k): brief(x, depth + 1) for k, x in list(v.items())[:24]}
    if isinstance(v, (list, tuple)):
        return [brief(x, depth + 1) for x in list(v)[:12]]
    if isinstance(v, float):
        return float('%.6g' % v) if np.isfinite(v) else str(v)
    if isinstance(v, (int, str, bool)) or v is None:
        return v if not isinstance(v, str) else v[:300]
    return str(v)[:120]


class Case(dict):
    """a generated case that also records labels and non-triviality"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.labels = []
        self.nontrivial = False

    def label(self, name):
        self.labels.append(name)

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True


class Check:
    def __init__(self, name, strategy, func, quick=100, thorough=None, rule=None):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.rule = rule


def _from_repo(tb):
    """was the exception raised while code of the tree under test was running?"""
    root = os.path.realpath(REPO) + os.sep
    for fr in traceback.extract_tb(tb):
        f = os.path.realpath(fr.filename)
        if f.startswith(root):
            return True
    return False


def run_one(chk, data):
    """run one case; returns Case.  Raises Violation or another exception."""
    case = Case(data)
    try:
        chk.func(case)
    except Violation:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as exc:
        if _from_repo(exc.__traceback__):
            last = [fr for fr in traceback.extract_tb(exc.__traceback__)
                    if os.path.realpath(fr.filename).startswith(os.path.realpath(REPO) + os.sep)][-1]
            v = Violation('%s raised by the code under test (%s in %s): %s' % (
                type(exc).__name__, last.name, os.path.basename(last.filename), exc))
            raise v from exc
        if not type(exc).__module__.startswith('hypothesis') and not getattr(exc, 'harness', False):
            fr = traceback.extract_tb(exc.__traceback__)[-1]
            raise Violation('output of the code under test cannot be interpreted (%s at %s:%d): %s' % (
                type(exc).__name__, os.path.basename(fr.filename), fr.lineno, exc)) from exc
        raise
    return case


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.per_check = {}

    def add(self, chk, case):
        self.evaluations += 1
        pc = self.per_check.setdefault(chk.name, dict(evaluations=0, nontrivial=0))
        pc['evaluations'] += 1
        for l in case.labels:
            k = '%s/%s' % (chk.name, l)
            self.labels[k] = self.labels.get(k, 0) + 1
        if case.nontrivial:
            h = hashlib.sha1(json.dumps([chk.name, encode(dict(case))], sort_keys=True,
                                        default=str).encode()).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                pc['nontrivial'] += 1
                if pc['nontrivial'] in (1, 7):
                    self.samples.append(dict(check=chk.name, case=brief(dict(case)), labels=case.labels[:8]))


def explore(chk, n, seed, rec, deadline):
    """drive one check with Hypothesis; returns (message, case) on violation"""
    last = {}

    def body(data):
        if 'msg' not in last and time.time() > deadline:
            last['timeout'] = True
            return
        try:
            case = run_one(chk, data)
        except Violation as v:
            last['msg'] = str(v)
            last['data'] = data
            raise
        rec.add(chk, case)

    test = given(chk.strategy)(body)
    h = int(hashlib.sha1(('%s|%s' % (chk.name, seed)).encode()).hexdigest()[:12], 16)
    test = hypothesis.seed(h)(test)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    print_blob=False, report_multiple_bugs=False,
                    phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck))(test)
    try:
        with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn):
            test()
    except Violation:
        return last['msg'], last['data']
    except BaseException as exc:
        if 'msg' in last and type(exc).__name__ in ('FlakyFailure', 'Flaky', 'FlakyReplay', 'FlakyStrategyDefinition'):
            # depends on what ran before in this process (state shared between
            # cases): the failure was observed, so it is reported
            return last['msg'] + ' (depends on earlier cases)', last['data']
        raise
    return None


# ------------------------------------------------------------ known findings

def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return [f for f in json.load(fp)['findings'] if f['property'] == prop]


# ----------------------------------------------------------------- scratch

_scratch = []


def scratch():
    d = tempfile.mkdtemp(prefix='aeolis-verif-')
    _scratch.append(d)
    return d


@contextlib.contextmanager
def tmpdir():
    d = tempfile.mkdtemp(prefix='aeolis-verif-')
    cwd = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
        yield
