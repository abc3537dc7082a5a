'''
Core of the property-based checks: what a sub-check is, how one is driven by Hypothesis, how a
failure is shrunk into a replay file, and how the coverage of a run is measured.

Every case is a JSON-able "spec" drawn by a Hypothesis strategy. The oracle `run(spec, ctx)` builds
real objects of the code under test from the spec, so a spec is also a replay that needs no Hypothesis.
'''
import contextlib
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Violation(AssertionError):
    '''The code under test broke the property.'''


class HarnessError(Exception):
    '''The harness could not decide: never reported as a violation.'''


class Undefined(Exception):
    '''The definitions give this input no answer (a vanishing denominator): the case ends, and never counts as non-trivial.'''


class CaseTimeout(BaseException):
    '''A case did not finish in its generous time limit: inconclusive, an error of the check.'''


class Ctx(object):
    '''Collects what a case exercised.'''

    def __init__(self):
        self.tags = set()
        self.is_nontrivial = False

    def tag(self, *names):
        for name in names:
            self.tags.add(str(name))

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True


class Sub(object):
    '''
    One generated check of a property.

    name        unique within the property
    strategy    callable () -> Hypothesis strategy of JSON-able specs (called lazily)
    run         callable (spec, ctx): raises Violation (or any exception of the code) on failure
    quick       number of generated cases in the quick tier (whole sub-check)
    thorough    the same for the thorough tier
    examples    explicit specs which are always executed first
    shards      (quick, thorough): number of processes among which the cases are split
    timeout_violation   a case that exceeds its (very generous) time limit breaks the property, instead of
                        being an error of the check: only where the property says that the code ends
    '''

    def __init__(self, name, strategy, run, quick=200, thorough=4000, examples=(), shards=(1, 8),
                 case_timeout=120, timeout_violation=False):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.examples = list(examples)
        self.shards = shards
        self.case_timeout = case_timeout
        self.timeout_violation = timeout_violation


def require(condition, message, *args):
    if not condition:
        raise Violation(message.format(*args) if args else message)


@contextlib.contextmanager
def must_raise(exceptions, what):
    '''The block has to raise one of the exceptions.'''
    try:
        yield
    except exceptions:
        return
    raise Violation('{}: accepted instead of being rejected'.format(what))


def spec_key(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()


@contextlib.contextmanager
def scratch_dir():
    '''Runs a block inside a new empty directory which is removed afterwards.'''
    base = os.environ.get('VK_SCRATCH') or tempfile.gettempdir()
    path = tempfile.mkdtemp(prefix='vk-', dir=base)
    previous = os.getcwd()
    os.chdir(path)
    try:
        yield path
    finally:
        os.chdir(previous)
        shutil.rmtree(path, ignore_errors=True)


def _alarm(signum, frame):
    raise CaseTimeout('case exceeded its time limit')


class SubRunner(object):
    '''Runs one shard of a sub-check in this process.'''

    def __init__(self, prop, sub, seed, cases, with_examples):
        self.prop = prop
        self.sub = sub
        self.seed = seed
        self.cases = cases
        self.with_examples = with_examples

        self.evaluations = 0
        self.distinct = set()
        self.tags = {}
        self.samples = []
        self.slowest = 0
        self.failing = None     # (spec, message)

    def execute(self, spec):
        ctx = Ctx()
        started = time.time()
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.sub.case_timeout)
        try:
            self.sub.run(spec, ctx)
        except Undefined:
            ctx.is_nontrivial = False
            ctx.tag('undefined')
        except (HarnessError, MemoryError):
            raise
        except CaseTimeout:
            if self.sub.timeout_violation:
                # the property itself says that the code ends, and a case takes milliseconds
                self.failing = (spec, 'did not end within {} s'.format(self.sub.case_timeout))
            raise
        except Exception as exc:
            self.failing = (spec, describe_exception(exc))
            raise
        finally:
            signal.alarm(0)
            self.slowest = max(self.slowest, time.time() - started)
            if self.failing is None:
                self.record(spec, ctx)

    def record(self, spec, ctx):
        self.evaluations += 1
        for tag in ctx.tags:
            self.tags[tag] = self.tags.get(tag, 0) + 1
        if ctx.is_nontrivial:
            key = spec_key(spec)
            if key not in self.distinct:
                self.distinct.add(key)
                if len(self.samples) < 2 or (len(self.samples) < 4 and len(self.distinct) % 37 == 0):
                    self.samples.append(spec)

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase

        if self.with_examples:
            for spec in self.sub.examples:
                try:
                    self.execute(spec)
                except (HarnessError, MemoryError):
                    raise
                except (Exception, CaseTimeout):
                    if self.failing is None:
                        raise
                    return

        sub_seed = int(hashlib.sha1('{}/{}/{}'.format(self.prop, self.sub.name, self.seed)
                                    .encode()).hexdigest()[:12], 16)

        @hypothesis.seed(sub_seed)
        @hypothesis.settings(max_examples=max(1, self.cases), database=None, deadline=None,
                             report_multiple_bugs=False, print_blob=False,
                             phases=(Phase.generate, Phase.shrink),
                             suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large,
                                                    HealthCheck.large_base_example))
        @hypothesis.given(self.sub.strategy())
        def generated(spec):
            # replays go through JSON: what is executed is what is saved
            self.execute(json.loads(json.dumps(spec)))

        if self.cases <= 0:
            return
        try:
            generated()
        except (HarnessError, MemoryError):
            raise
        except CaseTimeout:
            if self.failing is None:
                raise
        except hypothesis.errors.HypothesisException:
            # includes Flaky: a failure that depends on what ran before is still a failure of the code,
            # since cases share no state of the harness
            if self.failing is None:
                raise
        except Exception:
            if self.failing is None:
                raise

    def result(self):
        return dict(sub=self.sub.name, evaluations=self.evaluations, nontrivial=sorted(self.distinct),
                    tags=self.tags, samples=self.samples, failing=self.failing,
                    slowest=round(self.slowest, 2))


def describe_exception(exc):
    text = traceback.format_exception_only(type(exc), exc)[-1].strip()
    frames = traceback.extract_tb(exc.__traceback__)
    where = ''
    for frame in reversed(frames):
        if os.path.sep + 'vk' + os.path.sep not in frame.filename:
            where = ' [at {}:{} {}]'.format(frame.filename, frame.lineno, frame.name)
            break
    if isinstance(exc, Violation):
        where = ''
    return text[:2000] + where


def prepare_environment():
    '''Environment shared by the driver and its workers.'''
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ['CUDA_VISIBLE_DEVICES'] = ''
    os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
    os.environ['KERAS_BACKEND'] = 'tensorflow'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    for name in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[name] = '1'


def now():
    return time.time()


def eprint(*args):
    print(*args, file=sys.stderr, flush=True)
