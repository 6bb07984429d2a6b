"""Small property-based-testing framework on top of Hypothesis.

A check module builds one Check(property id) with several sub-checks.  A
sub-check has a Hypothesis strategy producing ONE json-serialisable case and a
function fn(case, rec) that runs the real code on it and raises Violation when
the property is broken.  run.py drives them; a shrunk failing case becomes the
replay file, which is re-run without Hypothesis.
"""
import collections
import hashlib
import json
import os
import signal
import sys
import traceback
import warnings

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
HOME = os.path.realpath(os.environ.get('VERIF_HOME', os.path.join(os.path.dirname(__file__), '..')))
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for _p in (os.path.join(HOME, 'lib'), HYP):
    if _p not in sys.path:
        sys.path.append(_p)

import numpy as np  # noqa: E402


class Violation(AssertionError):
    """the property does not hold on this case"""


class HarnessError(Exception):
    """the harness (not the code under test) went wrong"""


class Hang(BaseException):
    """a case used far more CPU time than any case can need"""


#: exceptions which, raised while handling a result of the code under test,
#: mean that the result is malformed (wrong shape, type, missing entry...)
MALFORMED = (ValueError, IndexError, TypeError, KeyError, AttributeError,
             ArithmeticError, UnicodeError, AssertionError, StopIteration,
             np.linalg.LinAlgError, RecursionError, SystemExit)
CPU_LIMIT = 120
WALL_LIMIT = 240


class Recorder(object):

    def __init__(self):
        self.evaluations = 0
        self.labels = collections.Counter()
        self.excluded = collections.Counter()
        self.seen = set()
        self.samples = []
        self._nt = False

    def begin(self, case):
        self.evaluations += 1
        self._nt = False

    def end(self, case):
        if self._nt:
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]
            if h not in self.seen:
                self.seen.add(h)
                if len(self.samples) < 2 or (len(self.samples) < 4 and len(self.seen) % 37 == 0):
                    self.samples.append(case)

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def exclude(self, name):
        self.excluded[name] += 1

    def nontrivial(self, cond=True):
        self._nt = self._nt or bool(cond)


Sub = collections.namedtuple('Sub', 'name strategy fn quick thorough big')
Finding = collections.namedtuple('Finding', 'key sub case')


#: quick runs take this many times the cases given with each sub check
QUICK = dict.fromkeys(('C08', 'C22', 'C30', 'C36', 'C37', 'C38', 'C39', 'C40', 'C42'), 2)


class Check(object):

    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = collections.OrderedDict()
        self.findings = []
        self.examples = []

    def sub(self, name, strategy, quick=200, thorough=None, big=()):
        """big: (number of cases, {field: strategy}) entries, run after the others with these fields (dots for fields
        of fields) replaced, for sizes that would be too slow or too rare in every case"""
        def deco(fn):
            assert name not in self.subs
            n = quick * QUICK.get(self.prop, 3)
            self.subs[name] = Sub(name, strategy, fn, n, max(thorough or quick * 20, 2 * n), tuple(big))
            return fn
        return deco

    def finding(self, key, sub, case):
        self.findings.append(Finding(key, sub, case))

    def example(self, sub, case):
        """an explicit regression case, run on every run before generation"""
        self.examples.append((sub, case))


# ---------------------------------------------------------------- assertions
def fail(msg, **data):
    if data:
        msg += ' ' + ', '.join(f'{k}={short(v)}' for k, v in data.items())
    raise Violation(msg)


def short(v, n=400):
    s = repr(v)
    return s if len(s) < n else s[:n] + '...'


def require(cond, msg, **data):
    if not cond:
        fail(msg, **data)


def arr(a, shape, msg):
    """a is numeric and array-like of the given shape -> float array"""
    try:
        b = np.asarray(a)
    except Exception as ex:  # ragged
        fail(f'{msg}: not an array ({ex})')
    if b.dtype.kind not in 'fiub':
        fail(f'{msg}: dtype {b.dtype}')
    if shape is not None and b.shape != tuple(shape):
        fail(f'{msg}: shape {b.shape}, expected {tuple(shape)}')
    return b


def close(a, b, msg, rtol=1e-9, atol=1e-9):
    """|a-b| <= atol + rtol*|b| elementwise; nan matches nan only"""
    b = np.asarray(b, float)
    a = arr(a, b.shape, msg).astype(float)
    with np.errstate(all='ignore'):
        ok = np.abs(a - b) <= atol + rtol * np.abs(b)
        ok |= (a == b) | (np.isnan(a) & np.isnan(b))
    if not np.all(ok):
        i = np.argwhere(~ok)
        k = tuple(i[0])
        fail(f'{msg}: {len(i)} of {b.size} values differ, first at {k}: '
             f'got {float(a[k])!r}, expected {float(b[k])!r}')


def equal(a, b, msg):
    b = np.asarray(b)
    a = np.asarray(a)
    if a.shape != b.shape:
        fail(f'{msg}: shape {a.shape}, expected {b.shape}')
    same = (a == b)
    if b.dtype.kind == 'f' and a.dtype.kind == 'f':
        same |= np.isnan(a) & np.isnan(b)
    if not np.all(same):
        i = np.argwhere(~np.asarray(same))
        k = tuple(i[0])
        fail(f'{msg}: {len(i)} of {b.size} entries differ, first at {k}: '
             f'got {a[k]!r}, expected {b[k]!r}')


def raises(exc, fn, msg):
    try:
        r = fn()
    except exc as ex:
        return ex
    except Hang:
        raise
    except BaseException as ex:
        fail(f'{msg}: raised {type(ex).__name__}({ex}) instead of {exc}')
    fail(f'{msg}: returned {short(r, 100)} instead of raising {exc}')


# ------------------------------------------------------------------- running
def enlarge(strategy, fields):
    """the cases of a strategy with some fields replaced"""
    from hypothesis import strategies as st

    def put(t):
        case, values = json.loads(json.dumps(t[0])), t[1]
        for path, v in values.items():
            c = case
            *head, last = path.split('.')
            for i in head:
                c = c[i]
            c[last] = v
        return case
    return st.tuples(strategy, st.fixed_dictionaries(fields)).map(put)


def from_repo(tb):
    return any(os.path.realpath(f.filename).startswith(os.path.join(REPO, 'raytools') + os.sep)
               for f in traceback.extract_tb(tb))


def evaluate(sub, case, rec):
    """run one case; raises Violation, HarnessError or a Hypothesis control
    exception"""
    def alarm(signum, frame):
        raise Hang()
    rec.begin(case)
    old = signal.signal(signal.SIGPROF, alarm)
    olda = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        np.seterr(all='ignore')
        warnings.simplefilter('ignore')
        sub.fn(case, rec)
    except (Violation, HarnessError, Hang):
        raise
    except BaseException as ex:
        if type(ex).__module__.split('.')[0] == 'hypothesis' or isinstance(ex, KeyboardInterrupt):
            raise
        where = traceback.extract_tb(ex.__traceback__)
        loc = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in where[-4:]]
        if from_repo(ex.__traceback__):
            raise Violation(f'{type(ex).__name__}: {ex} raised by the code under test at {loc}') from ex
        if isinstance(ex, MALFORMED):
            raise Violation(f'malformed result: {type(ex).__name__}: {ex} at {loc}') from ex
        raise HarnessError(f'{type(ex).__name__}: {ex} at {loc}') from ex
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old)
        signal.signal(signal.SIGALRM, olda)
    rec.end(case)


def diversify(runner):
    """Hypothesis follows each new case by up to five variations that repeat parts of it. Do so after every fourth
    new case only, so that most cases are independent of each other (and the kinds of cases evenly covered)."""
    mutate = getattr(runner, 'generate_mutations_from', None)
    if mutate is None or getattr(mutate, 'rare', False):
        return

    def rarely(self, data):
        if self.random.random() < .25:
            mutate(self, data)
    rarely.rare = True
    runner.generate_mutations_from = rarely


def run_sub(check, sub, tier, seed, examples=()):
    """returns dict(result='ok'|'violation'|'error', ...)"""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 45
    diversify(engine.ConjectureRunner)
    rec = Recorder()
    state = dict(case=None, msg=None, history=[])
    n = sub.quick if tier == 'quick' else sub.thorough
    out = dict(result='ok', requested=n)

    def body(case):
        # the case handed on is exactly what a replay file would hold
        case = json.loads(json.dumps(case))
        if len(state['history']) < 20000:
            state['history'].append(case)
        try:
            evaluate(sub, case, rec)
        except Violation as ex:
            state['case'], state['msg'] = case, str(ex)
            raise
        except Hang:
            state['case'], state['msg'] = case, f'no result after {CPU_LIMIT} s of CPU time or {WALL_LIMIT} s'
            raise

    h = int(hashlib.sha256(f'{seed}:{check.prop}:{sub.name}'.encode()).hexdigest()[:12], 16)
    st = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  report_multiple_bugs=False, print_blob=False,
                  phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large,
                                         HealthCheck.large_base_example))
    try:
        for case in examples:
            body(case)
        if n > 0:
            test = given(sub.strategy)(lambda case: body(case))
            hypothesis.seed(h)(st(test))()
        for i, (k, fields) in enumerate(sub.big if n > 0 else ()):
            k = k if tier == 'quick' else 8 * k
            rec.labels['big'] += k
            test = given(enlarge(sub.strategy, fields))(lambda case: body(case))
            hypothesis.seed(h + 1 + i)(settings(st, max_examples=k)(test))()
    except (Violation, Hang):
        out.update(result='violation', case=state['case'], msg=state['msg'])
    except (hypothesis.errors.Flaky, BaseExceptionGroup) as ex:
        if state['case'] is not None:
            # failed once and not when repeated: state leaks between calls
            out.update(result='violation', case=state['case'],
                       msg=state['msg'] + ' (depends on preceding cases)',
                       history=state['history'])
        else:
            out.update(result='error', msg=repr(ex))
    except BaseException as ex:
        out.update(result='error', msg=''.join(traceback.format_exception(ex))[-4000:])
    out.update(evaluations=rec.evaluations, nontrivial=len(rec.seen),
               labels=dict(sorted(rec.labels.items())),
               excluded=dict(sorted(rec.excluded.items())), samples=rec.samples)
    return out
