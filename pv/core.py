"""Shared harness: environment, Hypothesis driver, workers, replay files,
known findings and evidence.

A check module (pv/checks/cNN.py) defines

    PID       the property id
    SUBS      a list of Sub(...) objects

A Sub has a generator (choice source -> case) and an oracle (case -> None, or
raise Violation).  Cases are plain JSON values, so a failing case *is* the
replay file and a replay never goes through Hypothesis.
"""
import contextlib
import hashlib
import importlib.util
import io
import json
import multiprocessing
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
MEM_B = 3 << 30          # address space of one worker
CASE_CPU_S = 60          # user CPU seconds one case may burn before it is called a hang


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself is wrong (or its environment is): never a violation."""


class Inconclusive(Exception):
    """The case could not be decided (a tool budget ran out): skipped."""


class Hang(Exception):
    pass


# ----------------------------------------------------------------------------
# environment
# ----------------------------------------------------------------------------
_SCRATCH = None


def scratch():
    return _SCRATCH


def setup_process():
    """Put this process in a scratch directory with /repo importable."""
    global _SCRATCH
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(6000)
    warnings.simplefilter('ignore')
    _SCRATCH = tempfile.mkdtemp(prefix='pvw.')
    os.chdir(_SCRATCH)
    os.environ.pop('PYVERILOG_IVERILOG', None)
    os.environ['TMPDIR'] = _SCRATCH
    tempfile.tempdir = _SCRATCH
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    site = '/opt/venv/lib/python3.12/site-packages'
    if site not in sys.path:
        sys.path.append(site)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_B, resource.getrlimit(resource.RLIMIT_AS)[1]))


def cleanup_process():
    global _SCRATCH
    if _SCRATCH:
        os.chdir('/')
        shutil.rmtree(_SCRATCH, ignore_errors=True)
        _SCRATCH = None


def _on_alarm(signum, frame):
    raise Hang('case used more than %d s of CPU' % CASE_CPU_S)


_SUT = False


def load_sut():
    """Import pyverilog from REPO and warm the PLY tables once per process.

    PLY looks for its table module inside the pyverilog.vparser package and
    would rebuild it for every parser; the tables built by the first parser of
    this process are offered under that name.  PLY itself checks the grammar
    signature before it uses them.
    """
    global _SUT
    if _SUT:
        return
    import pyverilog
    import pyverilog.vparser
    if not os.path.abspath(pyverilog.__file__).startswith(REPO.rstrip('/') + '/'):
        raise HarnessError('pyverilog imported from %s' % pyverilog.__file__)
    with quiet():
        from pyverilog.vparser.parser import VerilogParser
        d = os.path.join(_SCRATCH, 'tab')
        VerilogParser(outputdir=d, debug=False)
    tab = os.path.join(d, 'parsetab.py')
    name = 'pyverilog.vparser.parsetab'
    if os.path.exists(tab) and name not in sys.modules:
        spec = importlib.util.spec_from_file_location(name, tab)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules[name] = mod
        pyverilog.vparser.parsetab = mod
    _SUT = True


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


_parsers_dir = None


def new_parser():
    from pyverilog.vparser.parser import VerilogParser
    with quiet():
        return VerilogParser(outputdir=os.path.join(_SCRATCH, 'tab'), debug=False)


def write(name, text):
    path = os.path.join(_SCRATCH, name)
    with open(path, 'w') as f:
        f.write(text)
    return path


# ----------------------------------------------------------------------------
# choice source on top of Hypothesis
# ----------------------------------------------------------------------------
class G(object):
    """Every random decision of a generator goes through here, hence through
    Hypothesis, so that shrinking and seeding work."""

    def __init__(self, data):
        self.d = data

    def int(self, lo, hi):
        return self.d.draw_integer(lo, hi)

    def bool(self, p=0.5):
        return self.d.draw_boolean(p)

    def choice(self, seq):
        if len(seq) == 1:
            return seq[0]
        return seq[self.d.draw_integer(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: (weight, value).  The first entry is the simplest one."""
        tot = sum(w for w, _ in pairs)
        x = self.d.draw_integer(0, tot - 1)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise HarnessError('weights')

    def list(self, lo, hi, fn):
        out = []
        while len(out) < hi:
            if len(out) >= lo and not self.bool(0.6):
                break
            with self.span():
                out.append(fn())
        return out

    def perm(self, seq):
        s = list(seq)
        for i in range(len(s) - 1):
            j = self.int(i, len(s) - 1)
            s[i], s[j] = s[j], s[i]
        return s

    @contextlib.contextmanager
    def span(self):
        self.d.start_span(7)
        try:
            yield
        finally:
            self.d.stop_span()


class Sub(object):
    """name, gen(g)->case, oracle(case), quick/thorough case counts,
    nontrivial(case)->bool, labels(case)->list of class labels."""

    def __init__(self, name, gen, oracle, quick, thorough=None,
                 nontrivial=None, labels=None, show=None, cpu=None, strict=False):
        self.name = name
        self.gen = gen
        self.oracle = oracle
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.nontrivial = nontrivial or (lambda c: True)
        self.labels = labels or (lambda c: ())
        self.show = show
        self.strict = strict    # deep recursion is a violation
        self.cpu = cpu          # CPU seconds after which a case counts as undecided (None: as a hang)


def run_here(sub, case):
    """Run one case.  Any exception that is not ours is a violation: the code
    under test crashed (or returned something unusable) on a valid input."""
    signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu or CASE_CPU_S)
    try:
        with quiet():
            sub.oracle(case)
    except (Violation, HarnessError, Inconclusive):
        raise
    except RecursionError if sub.strict else () as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        raise Violation('recursion without end: %s' % traceback.format_exc(limit=6))
    except (Hang, MemoryError, RecursionError, SystemError) if sub.cpu else () as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        raise Inconclusive('too large: ' + traceback.format_exc(limit=-3))
    except Hang as e:
        raise Violation('hang: %s' % e)
    except (MemoryError,):
        raise Violation('memory exhausted')
    except OSError as e:
        if e.errno in (11, 12, 24, 28):     # EAGAIN ENOMEM EMFILE ENOSPC
            raise HarnessError('OS: %s' % e)
        raise Violation('%s\n%s' % (e, traceback.format_exc(limit=-6)))
    except SystemExit as e:
        raise Violation('SystemExit(%s)' % e.code)
    except Exception as e:
        raise Violation('%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-8)))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def run_oracle(sub, case):
    """Cases that may need too much time or memory run in a process of their own."""
    if not sub.cpu:
        return run_here(sub, case)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (sub.cpu + 2, sub.cpu + 2))
            try:
                run_here(sub, case)
                res = ('ok', '', case)
            except Violation as e:
                res = ('violation', str(e), case)
            except Inconclusive as e:
                res = ('inconclusive', str(e), case)
            except BaseException:
                res = ('harness', traceback.format_exc(), case)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(res))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    finally:
        os.waitpid(pid, 0)
    try:
        kind, msg, new = pickle.loads(data)
    except Exception:
        raise Inconclusive('too large: the process of the case ended early')
    case.update(new)
    if kind == 'violation':
        raise Violation(msg)
    if kind == 'inconclusive':
        raise Inconclusive(msg)
    if kind == 'harness':
        raise HarnessError(msg)


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def short(case, n=1500):
    s = case if isinstance(case, str) else json.dumps(case, default=str)
    return s if len(s) <= n else s[:n] + '...[%d chars]' % len(s)


# ----------------------------------------------------------------------------
# worker
# ----------------------------------------------------------------------------
def _hyp():
    import hypothesis
    from hypothesis import settings, Phase, HealthCheck
    from hypothesis.strategies import SearchStrategy
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = int(os.environ.get('VERIF_SHRINK_S', '60'))
    for m, a in ((eng, 'BUFFER_SIZE'),):
        if hasattr(m, a):
            setattr(m, a, 256 * 1024)
    import hypothesis.core as core
    if hasattr(core, 'BUFFER_SIZE'):
        core.BUFFER_SIZE = 256 * 1024
    return hypothesis, settings, Phase, HealthCheck, SearchStrategy


def worker(args):
    (modname, subname, n, seed, deadline) = args
    t0 = time.time()
    out = dict(sub=subname, evals=0, nontrivial=[], labels={}, samples=[],
               fail=None, error=None, inconclusive=0, timeout=False)
    try:
        null = os.open(os.devnull, os.O_WRONLY)     # tools the code under test starts may print
        os.dup2(null, 1)
        os.dup2(null, 2)
        setup_process()
        load_sut()
        mod = __import__(modname, fromlist=['x'])
        sub = [s for s in mod.SUBS if s.name == subname][0]
        hypothesis, settings, Phase, HealthCheck, SearchStrategy = _hyp()

        class Gen(SearchStrategy):
            def do_draw(self, data):
                return sub.gen(G(data))

            def __repr__(self):
                return 'gen'

        state = dict(last=None, msg=None, harness=None)
        seen = set()

        class Budget(Exception):
            pass

        def body(case):
            if state['harness']:
                return
            if case is None:
                hypothesis.reject()
            if state['last'] is None and time.time() > deadline:
                out['timeout'] = True
                return
            counting = state['last'] is None
            if counting:
                out['evals'] += 1
            try:
                run_oracle(sub, case)
            except Inconclusive:
                out['inconclusive'] += 1
                hypothesis.reject()
            except HarnessError:
                state['harness'] = traceback.format_exc() + '\ncase: ' + short(case, 6000)
                return
            except Violation as v:
                state['last'] = case
                state['msg'] = str(v)
                raise AssertionError('violation') from None
            if counting:
                d = digest(case)
                if d not in seen:
                    seen.add(d)
                    if sub.nontrivial(case):
                        out['nontrivial'].append(d)
                        if len(out['samples']) < 2 and len(seen) > 5:
                            out['samples'].append(short(sub.show(case) if sub.show else case))
                    for l in sub.labels(case):
                        out['labels'][l] = out['labels'].get(l, 0) + 1

        test = hypothesis.given(Gen())(body)
        test = settings(max_examples=n, deadline=None, database=None,
                        suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.shrink),
                        report_multiple_bugs=False, print_blob=False,
                        verbosity=hypothesis.Verbosity.quiet)(test)
        test = hypothesis.seed(seed)(test)
        try:
            with quiet():
                test()
        except BaseException:
            if state['last'] is None and not state['harness']:
                out['error'] = traceback.format_exc()
        if state['harness']:
            out['error'] = state['harness']
        elif state['last'] is not None:
            out['fail'] = (state['last'], state['msg'])
    except BaseException:
        out['error'] = traceback.format_exc()
    finally:
        cleanup_process()
    out['wall'] = time.time() - t0
    return out


# ----------------------------------------------------------------------------
# known findings
# ----------------------------------------------------------------------------
def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get('findings', []) if f['property'] == pid]


# ----------------------------------------------------------------------------
# driver
# ----------------------------------------------------------------------------
def main(argv):
    pid = argv[0]
    modname = 'pv.checks.' + pid.lower()
    sys.path.insert(0, VERIF)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if '--replay' in argv:
        return replay(modname, pid, argv[argv.index('--replay') + 1])
    if '--thorough' in argv:
        tier = 'thorough'
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    only = argv[argv.index('--sub') + 1] if '--sub' in argv else None
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', '600' if tier == 'quick' else '3400'))
    deadline = t0 + budget

    # The parent never imports the code under test in a way the workers inherit.
    setup_process()
    try:
        mod = __import__(modname, fromlist=['x'])
        subs = [s for s in mod.SUBS if only in (None, s.name)]
    finally:
        pass

    # 1. known findings: replayed one by one, each in this process group
    violations = []
    errors = []
    kf_lines = []
    ctx = multiprocessing.get_context('fork')
    kfs = known_findings(pid)
    if kfs:
        with ctx.Pool(1, maxtasksperchild=None) as pool:
            for f in kfs:
                r = pool.apply(_replay_known, ((modname, f),))
                if r[0] == 'fails':
                    kf_lines.append('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
                elif r[0] == 'error':
                    errors.append('known finding %s: %s' % (f.get('id'), r[1]))

    # 2. generated search
    jobs = []
    for s in subs:
        n = s.quick if tier == 'quick' else s.thorough
        n = max(1, int(n * scale))
        k = min(NPROC, max(1, n // 20)) if n < NPROC * 20 else NPROC
        for w in range(k):
            h = hashlib.sha256(('%s/%s/%d/%d' % (pid, s.name, seed, w)).encode()).digest()
            per = n // k + (1 if w < n % k else 0)
            jobs.append((modname, s.name, per, int.from_bytes(h[:6], 'big'), deadline))
    results = []
    with ctx.Pool(NPROC, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(worker, jobs)
        hard = deadline + 200
        first_fail = None
        for _ in jobs:
            try:
                r = it.next(timeout=max(1, (min(hard, first_fail + 20) if first_fail else hard) - time.time()))
            except multiprocessing.TimeoutError:
                if not first_fail:
                    errors.append('hard timeout waiting for a worker')
                break
            results.append(r)
            if r['fail'] is not None and first_fail is None:
                first_fail = time.time()      # give the others a moment, then stop
        pool.terminate()

    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': mod.RULE, 'samples': [],
           'by_generator': {}}
    timeouts = 0
    for s in subs:
        rs = [r for r in results if r['sub'] == s.name]
        nt = set()
        lab = {}
        ev = 0
        inc = 0
        for r in rs:
            nt.update(r['nontrivial'])
            ev += r['evals']
            inc += r['inconclusive']
            timeouts += bool(r['timeout'])
            for k, v in r['labels'].items():
                lab[k] = lab.get(k, 0) + v
            if r['error']:
                errors.append('%s: %s' % (s.name, r['error']))
        cov['evaluations'] += ev
        cov['distinct_nontrivial'] += len(nt)
        cov['by_generator'][s.name] = dict(evaluations=ev, distinct_nontrivial=len(nt),
                                           inconclusive=inc, classes=dict(sorted(lab.items())))
        for r in rs[:1]:
            for x in r['samples'][:2]:
                cov['samples'].append({'generator': s.name, 'case': x})
        fails = sorted((r['fail'] for r in rs if r['fail'] is not None),
                       key=lambda f: len(json.dumps(f[0], default=str)))
        for case, msg in fails[:1]:
            violations.append((s.name, case, msg))
    if timeouts:
        cov['stopped_by_time_budget'] = timeouts

    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
              level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if kf_lines:
        ev['coverage']['known_findings'] = kf_lines
    if only is None or not os.path.exists(os.path.join(VERIF, 'evidence', pid + '.json')):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    cleanup_process()

    for l in kf_lines:
        print(l)
    for e in errors:
        print('ERROR property=%s %s' % (pid, e), file=sys.stderr)
    rdir = os.environ.get('VERIF_REPLAY_DIR') or os.path.join(VERIF, 'evidence', 'replays')
    for name, case, msg in violations:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%s.json' % (pid, name, digest(case)))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, sub=name, case=case, message=msg), f, indent=1, default=str)
        print('--- %s/%s: %s' % (pid, name, msg[:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if violations:
        return 1
    if errors:
        return 2
    if not cov['evaluations']:
        print('ERROR no cases ran', file=sys.stderr)
        return 2
    print('OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs'
          % (pid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    return 0


def _replay_known(a):
    modname, f = a
    try:
        setup_process()
        load_sut()
        mod = __import__(modname, fromlist=['x'])
        sub = [s for s in mod.SUBS if s.name == f['sub']][0]
        try:
            run_oracle(sub, f['case'])
        except Violation as v:
            return ('fails', str(v))
        return ('holds', '')
    except BaseException:
        return ('error', traceback.format_exc())
    finally:
        cleanup_process()


def replay(modname, pid, path):
    """Re-run one saved case (no Hypothesis involved)."""
    path = os.path.abspath(path)
    rec = json.load(open(path))
    setup_process()
    try:
        load_sut()
        mod = __import__(modname, fromlist=['x'])
        sub = [s for s in mod.SUBS if s.name == rec['sub']][0]
        try:
            run_oracle(sub, rec['case'])
        except Violation as v:
            print(v)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        except Inconclusive as e:
            print('inconclusive: %s' % e)
            return 0
        print('OK: the case holds now')
        return 0
    finally:
        cleanup_process()
