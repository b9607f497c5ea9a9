"""The engine shared by all checks: drives the properties, counts coverage, shrinks and reports failures.

A check module (vf/checks/cNN.py) defines

    PROPERTY    'C01'
    RULE        how cases are made and what makes one non-trivial
    ASSUMPTIONS list of strings (optional)
    LEVEL       'exploration' (default) or 'fault_enumeration'
    PROPS       list of Prop

A Prop is either *generated* (a Hypothesis strategy producing plain data, and a body judging one case) or
*enumerated* (a function returning all cases of a finite space). A body gets (case, cov) and raises if the case
violates the property. It calls cov.nontrivial() if the case counts by the rule, and cov.label() for statistics.

Every run is a pure function of the code under test, VERIF_SEED and VERIF_TIER. Jobs (property x shard) run in
forked children. Exit codes: 0 all held; 1 with a VIOLATION line; 2 error of the machinery.
"""
import base64
import hashlib
import importlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

CASE_SECONDS = 120          # a single case running longer than this counts as a hang
JOB_SECONDS = 780           # inconclusive if a job runs longer than this (quick tier)
SHRINK_SECONDS = 40
QUICK_FACTOR = 4
ADDRESS_SPACE = 12 << 30


def setup_paths():
    sys.dont_write_bytecode = True
    for p in (os.path.join(REPO, 'segpy-ext', 'segpy_numpy'), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    venv = '/opt/venv/lib/python3.12/site-packages'
    if os.path.isdir(venv) and venv not in sys.path:
        sys.path.append(venv)


class Violation(AssertionError):
    """Raised by bodies for a failed oracle."""


def check(cond, *msg):
    if not cond:
        raise Violation(' '.join(m if isinstance(m, str) else _short(m) for m in msg))


def _short(x, n=400):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...<%d chars>' % len(r)


def check_eq(got, want, *what):
    if not (got == want):
        raise Violation('%s: got %s, expected %s' % (' '.join(map(str, what)), _short(got), _short(want)))


class _Raised:
    def __init__(self, exc):
        self.exc = exc


def raises(types, fn, *what):
    """Require that fn() raises one of types; return the exception."""
    try:
        got = fn()
    except types as e:
        return e
    except Exception as e:
        raise Violation('%s: raised %r instead of %s' % (' '.join(map(str, what)), e, types)) from e
    raise Violation('%s: returned %s instead of raising %s' % (' '.join(map(str, what)), _short(got), types))


class Cov:
    """Per-job coverage counters."""

    known_ids = frozenset()

    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.distinct = set()
        self.samples = []
        self.findings = set()
        self._nt = False

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def finding(self, key, msg):
        """The case shows the defect `key`: tolerated if known-findings.txt lists it, a violation otherwise."""
        if key not in Cov.known_ids:
            raise Violation(msg)
        self.findings.add(key)

    def _begin(self):
        self._nt = False
        self.evaluations += 1

    def _end(self, case):
        if self._nt:
            r = repr(case)
            h = hashlib.blake2b(r.encode('utf8', 'surrogatepass'), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                n = len(self.distinct)
                # logarithmically spaced samples, so that they are not all tiny
                if n & (n - 1) == 0 and n > 4 and len(self.samples) < 12:
                    self.samples.append(r if len(r) < 1200 else r[:1200] + '...')
        elif not self.samples:
            pass


class Prop:
    def __init__(self, name, body, strategy=None, cases=None, quick=300, thorough=None, shards=1, setup=None,
                 rule=None):
        """quick/thorough: number of generated cases per shard (generated properties only)."""
        self.name = name
        self.body = body
        self.strategy = strategy      # callable returning a strategy (built lazily, in the child)
        self.cases = cases            # callable(tier, shard, nshards) -> iterable of cases
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 60
        self.shards = shards
        self.setup = setup            # callable run once in the child


# Stands for the case when the library fails while a job is being set up or its cases are being made.
NO_CASE = 'the library refuses a definition which the check needs'


class Scratch:
    """A scratch directory of the running job; created by the engine and removed by it."""
    path = None


def scratch_dir():
    return tempfile.mkdtemp(dir=Scratch.path)


def rmtree(path):
    base = os.path.realpath(Scratch.path)
    real = os.path.realpath(path)
    assert real.startswith(base + os.sep), real
    shutil.rmtree(real, ignore_errors=True)


def seed_for(*parts):
    h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def refused_by_library(exc):
    """Whether the exception was raised inside the code under test (and not by the harness itself).

    The definitions the harness is built from (header formats, well-formed datasets) are all legitimate uses of the
    library: if the library refuses one while the check or its cases are being set up, that is a violation.
    """
    inside = os.path.realpath(REPO) + os.sep
    tb = exc.__traceback__
    last = None
    while tb is not None:
        filename = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if filename.startswith(inside):
            last = 'library'
        elif filename.startswith(os.path.realpath(VERIF) + os.sep):
            last = 'harness'
        tb = tb.tb_next
    return last == 'library' and not isinstance(exc, (MemoryError, RecursionError))


# ------------------------------------------------------------------------------------------------------ replay files

def save_replay(prop_id, name, case, tb, tier='quick', seed=1):
    directory = os.path.join(VERIF, 'replays')
    os.makedirs(directory, exist_ok=True)
    blob = pickle.dumps(case, protocol=4)
    digest = hashlib.sha1(name.encode() + blob).hexdigest()[:12]
    path = os.path.join(directory, '%s-%s-%s.json' % (prop_id, name, digest))
    with open(path, 'w') as f:
        json.dump(dict(property=prop_id, prop=name, tier=tier, seed=seed, case_repr=repr(case)[:20000],
                       case_pickle=base64.b64encode(blob).decode('ascii'), failure=tb,
                       how='cd /verif && python3-vt run.py %s --replay %s' % (prop_id, path)), f, indent=1)
    return path


# ---------------------------------------------------------------------------------------------------------- children

class _State:
    case = None
    result_path = None


def _write_result(path, result):
    tmp = path + '.tmp'
    with open(tmp, 'wb') as f:
        pickle.dump(result, f, protocol=4)
    os.rename(tmp, path)


def _on_alarm(signum, frame):
    tb = ''.join(traceback.format_stack(frame, 30))
    try:
        _write_result(_State.result_path, dict(status='violation', case=_State.case, hang=True,
                                               tb='no answer after %d s\n%s' % (CASE_SECONDS, tb)))
    finally:
        os._exit(0)


def _run_one(prop, case, cov, fail):
    _State.case = case
    cov._begin()
    signal.alarm(CASE_SECONDS)
    try:
        prop.body(case, cov)
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        fail['case'] = case
        fail['tb'] = traceback.format_exc()
        raise
    finally:
        signal.alarm(0)
    cov._end(case)


def _child(prop, shard, tier, seed, prop_id):
    resource.setrlimit(resource.RLIMIT_AS, (ADDRESS_SPACE, ADDRESS_SPACE))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGALRM, _on_alarm)
    cov = Cov()
    fail = {}

    def failed(exc):
        if fail:
            return dict(status='violation', case=fail['case'], tb=fail['tb'])
        if refused_by_library(exc):
            return dict(status='violation', case=NO_CASE, tb=traceback.format_exc(), shard=shard)
        return dict(status='error', tb=traceback.format_exc())

    t0 = time.time()
    try:
        if prop.setup:
            prop.setup()
    except Exception as e:
        return failed(e)
    if prop.cases is not None:
        try:
            for case in prop.cases(tier, shard, prop.shards):
                _run_one(prop, case, cov, fail)
        except Exception as e:
            return failed(e)
    else:
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
        n = prop.quick * QUICK_FACTOR if tier == 'quick' else prop.thorough

        @hypothesis.seed(seed_for(seed, prop_id, prop.name, shard))
        @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink), print_blob=False,
                  suppress_health_check=list(HealthCheck))
        @given(prop.strategy())
        def test(case):
            _run_one(prop, case, cov, fail)

        try:
            test()
        except BaseException as e:
            return failed(e)
    return dict(status='ok', evaluations=cov.evaluations, labels=cov.labels, distinct=cov.distinct,
                samples=cov.samples, findings=cov.findings, wall=time.time() - t0)


def _spawn(prop, shard, tier, seed, prop_id, result_path, scratch):
    pid = os.fork()
    if pid:
        return pid
    try:
        _State.result_path = result_path
        Scratch.path = scratch
        os.makedirs(scratch)
        os.chmod(os.path.dirname(scratch), 0o711)
        os.chdir(scratch)
        log = os.open(result_path + '.log', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(log, 1)
        os.dup2(log, 2)
        try:
            result = _child(prop, shard, tier, seed, prop_id)
        except BaseException:
            result = dict(status='error', tb=traceback.format_exc())
        try:
            _write_result(result_path, result)
        except Exception:
            result.pop('case', None)
            _write_result(result_path, dict(status='error', tb=traceback.format_exc()))
    finally:
        os._exit(0)


# ------------------------------------------------------------------------------------------------------------ parent

def load_known(prop_id):
    """Entries 'known: property=C18 id=<id> <text>' of known-findings.txt."""
    known = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop_id):
                    rest = line.split(' ', 2)[2].strip()
                    ident, _, text = rest.partition(' ')
                    known[ident[3:]] = text
    return known


def run_check(prop_id, tier, seed, only=None, quiet=False):
    setup_paths()
    t0 = time.time()
    try:
        module = importlib.import_module('vf.checks.' + prop_id.lower())
    except Exception as e:
        if not refused_by_library(e):
            raise
        tb = traceback.format_exc()
        path = save_replay(prop_id, 'import', NO_CASE, tb, tier, seed)
        print(tb[-6000:])
        print('VIOLATION property=%s replay=%s' % (prop_id, path))
        sys.stdout.flush()
        return 1
    level = getattr(module, 'LEVEL', 'exploration')
    props = [p for p in module.PROPS if only is None or p.name == only]
    Cov.known_ids = frozenset(load_known(prop_id))
    nproc = min(int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4, 16)
    base = tempfile.mkdtemp(prefix='vf-%s-' % prop_id)
    queue = [(p, s) for p in props for s in range(p.shards)]
    running = {}
    results = []
    violation = None
    errors = []
    try:
        while (queue or running) and violation is None:
            while queue and len(running) < nproc:
                prop, shard = queue.pop(0)
                stem = os.path.join(base, '%s-%d' % (prop.name, shard))
                pid = _spawn(prop, shard, tier, seed, prop_id, stem + '.result', stem + '.d')
                running[pid] = (prop, shard, stem + '.result', time.time())
            pid, status = os.waitpid(-1, 0)
            if pid not in running:
                continue
            prop, shard, result_path, started = running.pop(pid)
            try:
                with open(result_path, 'rb') as f:
                    result = pickle.load(f)
            except Exception:
                log = ''
                try:
                    with open(result_path + '.log', errors='replace') as f:
                        log = f.read()[-4000:]
                except OSError:
                    pass
                result = dict(status='error', tb='job died with wait status %r\n%s' % (status, log))
            result['prop'] = prop
            result['shard'] = shard
            if result['status'] == 'violation':
                violation = result
            elif result['status'] == 'error':
                errors.append(result)
            else:
                results.append(result)
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        for pid in running:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)

    evaluations = sum(r['evaluations'] for r in results)
    per = {}
    distinct_total = 0
    samples = []
    findings = set()
    for p in props:
        rs = [r for r in results if r['prop'] is p]
        d = set().union(*[r['distinct'] for r in rs]) if rs else set()
        distinct_total += len(d)
        labels = {}
        for r in rs:
            findings |= r['findings']
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
        for r in rs[:1]:
            samples.extend(dict(prop=p.name, case=s) for s in r['samples'][:5])
        per[p.name] = dict(evaluations=sum(r['evaluations'] for r in rs), distinct_nontrivial=len(d),
                           labels=dict(sorted(labels.items())),
                           wall_s=round(max([r['wall'] for r in rs], default=0), 2))
    wall = time.time() - t0
    known = load_known(prop_id)
    evidence = dict(property=prop_id, tier=tier, seed=seed, level=level,
                    coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct_total,
                                  rule=module.RULE, samples=samples, by_property=per,
                                  exhaustive_parts=[p.name for p in props if p.cases is not None
                                                    and getattr(p, 'exhaustive', False)],
                                  known_findings_reproduced=sorted(findings)),
                    assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
                    wall_s=round(wall, 2), violations=1 if violation else 0)
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop_id + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)

    if violation is not None:
        path = save_replay(prop_id, violation['prop'].name, violation['case'], violation['tb'], tier, seed)
        if not quiet:
            print('property %s failed on case:\n%s' % (violation['prop'].name, repr(violation['case'])[:3000]))
            print(violation['tb'][-6000:])
        print('VIOLATION property=%s replay=%s' % (prop_id, path))
        sys.stdout.flush()
        return 1
    if errors:
        for e in errors:
            print('ERROR in %s shard %d:\n%s' % (e['prop'].name, e['shard'], e['tb'][-4000:]))
        return 2
    unknown = findings - set(known)
    if unknown:
        print('ERROR: findings not listed: %r' % unknown)
        return 2
    for ident in sorted(findings):
        print('KNOWN-FINDING: property=%s %s' % (prop_id, known[ident]))
    if not quiet:
        for name, d in per.items():
            print('%-28s %7d cases %7d distinct non-trivial %7.1fs %s' % (
                name, d['evaluations'], d['distinct_nontrivial'], d['wall_s'],
                ' '.join('%s=%s' % kv for kv in d['labels'].items())[:1500]))
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs' % (
        prop_id, tier, seed, evaluations, distinct_total, wall))
    return 0


def replay(prop_id, path):
    setup_paths()
    with open(path) as f:
        data = json.load(f)
    if data['prop'] == 'import' or base64.b64decode(data['case_pickle']) == pickle.dumps(NO_CASE, protocol=4):
        # the failure is one of the set-up: run that again
        rc = run_check(prop_id, data.get('tier', 'quick'), data.get('seed', 1),
                       None if data['prop'] == 'import' else data['prop'])
        return rc
    module = importlib.import_module('vf.checks.' + prop_id.lower())
    Cov.known_ids = frozenset(load_known(prop_id))
    case = pickle.loads(base64.b64decode(data['case_pickle']))
    prop = next(p for p in module.PROPS if p.name == data['prop'])
    base = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        Scratch.path = base
        os.chdir(base)
        if prop.setup:
            prop.setup()
        try:
            prop.body(case, Cov())
        except Exception:
            traceback.print_exc()
            print('VIOLATION property=%s replay=%s' % (prop_id, path))
            return 1
        print('the case passes')
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)
