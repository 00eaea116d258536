"""
Harness core: laws (executable properties over generated cases), the Hypothesis driver, counters.

A *law* is a strategy that produces a JSON-able case plus a body that runs the real code on the case and
compares it with an oracle. Every random choice is in the case (bulk array data derives from an integer
inside the case), hence a case is a complete, replayable, shrinkable input.
"""
import contextlib
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('DGA_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)  # only for hypothesis (and its pure dependencies); the code's own venv wins

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import strategies as st, settings, given, HealthCheck, Phase  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}
CASE_SECONDS = 180  # a generated case takes well below a second, those that start MPI processes a few seconds


class Violation(AssertionError):
    """the property does not hold for the case"""


class HarnessError(Exception):
    """the check itself cannot work; never reported as a violation"""


class Law:
    def __init__(self, prop, name, strategy, body, quick, thorough, rule, fixed=()):
        self.prop, self.name, self.strategy, self.body = prop, name, strategy, body
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.fixed = list(fixed)


def law(prop, strategy, quick, thorough, rule, fixed=()):
    """register body(case, t) as law `<function name>` of property `prop`"""

    def deco(fun):
        REGISTRY.setdefault(prop, []).append(Law(prop, fun.__name__, strategy, fun, quick, thorough, rule, fixed))
        return fun

    return deco


def load_known():
    out = []
    path = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


AUDIT = os.environ.get('VPBT_AUDIT')  # development: records which comparisons could not have failed


class T:
    """what a law body gets: comparison helpers, classification, scratch space"""

    def __init__(self, law_obj, tier='quick'):
        self.law = law_obj
        self.tier = tier
        self.labels = {}
        self._nontrivial = None
        self._tmp = []
        self.known_ids = {k['id'] for k in load_known() if k.get('status') == 'known' and k['property'] == law_obj.prop}
        self.known_hits = {}

    # -- classification
    def label(self, name, value=True):
        if value:
            self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, cond):
        self._nontrivial = bool(cond) if self._nontrivial is None else (self._nontrivial and bool(cond))

    # -- scratch
    def tmp(self):
        d = tempfile.mkdtemp(prefix='vpbt_', dir=os.environ.get('VPBT_SCRATCH', '/tmp'))
        self._tmp.append(d)
        return d + '/'

    def cleanup(self):
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)
        self._tmp = []

    # -- verdicts
    def check(self, cond, msg):
        if not bool(cond):
            raise Violation(msg)

    def known(self, fid, cond, msg):
        """cond must hold, except that the listed finding `fid` (for exactly this input class) is tolerated."""
        if bool(cond):
            return True
        if fid in self.known_ids:
            self.known_hits[fid] = msg
            return False
        raise Violation(f'[{fid}] {msg}')

    def equal(self, got, want, msg):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f'{msg}: shape {got.shape} != expected {want.shape}')
        self.audit(msg, want.size == 0 or (want.dtype.kind in 'fc' and not np.any(want)))
        if not np.array_equal(got, want):
            bad = np.argwhere(np.atleast_1d(got != want))
            i = tuple(bad[0]) if bad.size else ()
            raise Violation(f'{msg}: differs at {len(bad)} entries, first {i}: got {np.atleast_1d(got)[i]!r} '
                            f'expected {np.atleast_1d(want)[i]!r}')

    def audit(self, msg, vacuous):
        if AUDIT:
            with open(AUDIT, 'a', encoding='utf-8') as f:
                f.write(f'{self.law.prop}\t{self.law.name}\t{msg}\t{int(vacuous)}\n')

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, scale=None):
        """max|got-want| <= rtol*scale + atol, scale = max|want| by default (array-wise, not element-wise)"""
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f'{msg}: shape {got.shape} != expected {want.shape}')
        if want.size == 0:
            return
        if not np.all(np.isfinite(want)):
            raise HarnessError(f'{msg}: oracle not finite')
        if got.dtype == object or not np.all(np.isfinite(got)):
            raise Violation(f'{msg}: result not finite: {got.reshape(-1)[:4]}')
        sc = float(np.max(np.abs(want))) if scale is None else float(scale)
        self.audit(msg, np.max(np.abs(want)) <= rtol * sc + atol)  # a vanishing result would pass as well
        dif = np.abs(got - want)
        err = float(np.max(dif))
        if err > rtol * sc + atol:
            i = tuple(int(x) for x in np.unravel_index(int(np.argmax(dif)), dif.shape)) if dif.ndim else ()
            raise Violation(f'{msg}: max deviation {err:.3e} (scale {sc:.3e}, tolerance {rtol * sc + atol:.3e}) at {i}: '
                            f'got {got[i]!r} expected {want[i]!r}')

    def raises(self, exc, fun, msg):
        try:
            fun()
        except exc:
            return
        except Exception as e:  # noqa
            raise Violation(f'{msg}: raised {type(e).__name__}: {e}') from e
        raise Violation(f'{msg}: nothing was raised')


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


@contextlib.contextmanager
def quiet():
    """the code under test prints; keep the check's stdout for verdicts"""
    import io
    import warnings
    old = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        sys.stdout, sys.stderr = old


def run_case(law_obj, case, tier):
    """one evaluation; returns T, raises Violation/HarnessError"""
    t = T(law_obj, tier)
    if os.environ.get('VPBT_CASE'):  # what is being run, for the parent process: a crash or a hang names its case
        with open(os.environ['VPBT_CASE'], 'w', encoding='utf-8') as f:
            json.dump(case, f, default=str)
    np.random.seed(20240607)
    cwd = os.getcwd()

    def too_long(*_):
        raise Violation(f'no answer within {CASE_SECONDS} s')

    signal.signal(signal.SIGALRM, too_long)
    signal.alarm(CASE_SECONDS)
    try:
        with quiet(), np.errstate(all='ignore'):
            law_obj.body(case, t)
    except (Violation, HarnessError, MemoryError, hypothesis.errors.HypothesisException):
        raise
    except (Exception, SystemExit) as e:  # the code under test must handle every generated (= documented) input
        tb = traceback.format_exc(limit=-6)
        raise Violation(f'unexpected {type(e).__name__}: {e}\n{tb}') from e
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        t.cleanup()
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:  # noqa
            pass
    return t


def run_law(law_obj, tier, seed, budget_shrink=45.0):
    stats = dict(law=law_obj.name, rule=law_obj.rule, evaluations=0, nontrivial=0, distinct_nontrivial=0, labels={},
                 samples=[], violation=None, known={}, regressions=0, error=None)
    seen = set()
    state = dict(best=None, best_key=None, t_fail=None, slow=False)
    cap = float(os.environ.get('VPBT_LAW_SECONDS', '0')) or (240.0 if tier == 'quick' else 5400.0)
    t_start = time.time()

    def account(case, t):
        stats['evaluations'] += 1
        nt = True if t._nontrivial is None else t._nontrivial
        for k, v in t.labels.items():
            stats['labels'][k] = stats['labels'].get(k, 0) + (1 if v else 0)
        stats['known'].update(t.known_hits)
        if nt:
            stats['nontrivial'] += 1
            key = case_key(case)
            if key not in seen:
                seen.add(key)
                if len(stats['samples']) < 3 and (len(seen) in (1, 4, 16)):
                    stats['samples'].append(case)

    # 1. saved regressions, plain replay
    reg = list(law_obj.fixed)
    path = os.path.join(HERE, 'regressions', law_obj.prop + '.jsonl')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    if d['law'] == law_obj.name:
                        reg.append(d['case'])
    for case in reg:
        try:
            account(case, run_case(law_obj, case, tier))
            stats['regressions'] += 1
        except Violation as e:
            stats['violation'] = dict(case=case, message=str(e), source='regression')
            return stats

    # 2. generated search
    n = law_obj.quick if tier == 'quick' else law_obj.thorough
    scale = float(os.environ.get('VPBT_SCALE', '1'))
    n = max(1, int(n * scale))

    def wrapped(case):
        key = None
        if state['t_fail'] is None and time.time() - t_start > cap:
            stats['capped'] = True
            return
        if state['t_fail'] is not None and time.time() - state['t_fail'] > budget_shrink:
            key = case_key(case)
            if key != state['best_key']:
                return
        if state['slow'] and case_key(case) == state['best_key']:
            raise Violation(state['best'][1])  # a hang is not run again for every replay of Hypothesis
        t_case = time.time()
        try:
            t = run_case(law_obj, case, tier)
        except Violation as e:
            if state['t_fail'] is None:
                state['t_fail'] = time.time()
            state['best'], state['best_key'] = (case, str(e)), case_key(case)
            state['slow'] = time.time() - t_case > 20
            raise
        account(case, t)

    if n > 0:
        test = given(law_obj.strategy)(wrapped)
        test = hypothesis.seed(seed * 1000003 + int(hashlib.sha1(law_obj.name.encode()).hexdigest()[:6], 16))(test)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck), print_blob=False,
                        phases=(Phase.explicit, Phase.generate, Phase.shrink))(test)
        try:
            with quiet():
                test()
        except Violation:
            pass
        except BaseExceptionGroup as e:
            if state['best'] is None:
                raise HarnessError(repr(e)) from e
        except hypothesis.errors.HypothesisException as e:
            if state['best'] is None:
                raise HarnessError(f'{type(e).__name__}: {e}') from e
        if state['best'] is not None:
            case, msg = state['best']
            # confirm outside Hypothesis
            try:
                run_case(law_obj, case, tier)
                stats['error'] = f'not reproducible outside the search: {msg}'
            except Violation as e:
                stats['violation'] = dict(case=case, message=str(e), source='search')
    stats['distinct_nontrivial'] = len(seen)
    return stats


# ------------------------------------------------------------------------------------------------------------------
# building blocks for strategies and data

seeds = st.integers(0, 2 ** 32 - 1)


def rng(case_seed, *salt):
    return np.random.default_rng([int(case_seed)] + [int(s) for s in salt])


def cplx(r, shape, scale=1.0):
    return scale * (r.standard_normal(shape) + 1j * r.standard_normal(shape))


def data(seed, shape, kind='complex', salt=0):
    r = rng(seed, salt)
    if kind == 'complex':
        return cplx(r, shape)
    if kind == 'real':
        return r.standard_normal(shape)
    if kind == 'int':
        return r.integers(-50, 50, shape)
    if kind == 'index':  # every entry identifies its own position
        return np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    raise HarnessError(kind)


kinds = st.sampled_from(['index', 'complex', 'real', 'int'])


def case(**kw):
    """strategy of dicts"""
    return st.fixed_dictionaries(kw)


def floats(lo, hi, width=None):
    """finite floats, rounded to 4 digits so that they print and shrink well"""
    return st.integers(int(round(lo * 10000)), int(round(hi * 10000))).map(lambda i: i / 10000.0)
