"""
Runner shared by all checks: seeds, tiers, forked workers, evidence, verdicts & replay.

A check is a module checks/<id>.py with a class Check(BaseCheck). Verdicts are three-valued:
exit 0: held on everything explored; exit 1 with a VIOLATION line: violated, with a replay file;
exit 2: inconclusive (the monitor was not reached, watchdog, or the harness itself failed).
"""
import os, sys, json, time, random, hashlib, signal, traceback, tempfile, resource, pickle, struct, select, gc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
# Less than all of it, for campaigns of mutation only (the check is then inconclusive unless it is a violation)
SCALE = float(os.environ.get('VERIF_SCALE') or 1)
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Violation(Exception):
    """The property is broken; detail is a JSON-serializable dict which says how"""
    def __init__(self, what, /, **detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


class Inconclusive(Exception):
    pass


class Hang(BaseException):
    """CPU budget for a case exhausted. BaseException so that code under test does not swallow it"""


# ---------------------------------------------------------------------------------------------
# The code under test

def import_amara():
    """Import amara3 from REPO's working tree, with nothing written there & no stale parser tables"""
    sys.dont_write_bytecode = True
    if REPO == '/repo':
        base = '/opt/amara3-path'
        ok = os.path.realpath(os.path.join(base, 'amara3')) == os.path.realpath('/repo/pylib')
    else:
        ok = False
    if not ok:
        base = tempfile.mkdtemp(prefix='verif-amara-')
        os.symlink(os.path.join(REPO, 'pylib'), os.path.join(base, 'amara3'))
    sys.path[:] = [p for p in sys.path if p != '/opt/amara3-path']
    sys.path.insert(0, base)
    import warnings
    warnings.simplefilter('ignore')
    import ply.yacc
    orig = ply.yacc.yacc
    def yacc(*args, **kwargs):
        # Always derive the tables from the grammar at hand, & leave no files behind
        kwargs.update(write_tables=False, debug=False, tabmodule='_verif_no_such_tab')
        kwargs.pop('outputdir', None)
        import inspect
        if 'module' not in kwargs and not args:
            # ply looks at the caller's globals; there is one more frame now
            fr = sys._getframe(1)
            import types
            mod = types.ModuleType('_verif_caller'); mod.__dict__.update(fr.f_globals)
            kwargs['module'] = mod
        kwargs.setdefault('errorlog', ply.yacc.NullLogger())
        return orig(*args, **kwargs)
    ply.yacc.yacc = yacc
    try:
        import amara3.uxml, amara3.uxml.parser, amara3.uxml.tree, amara3.uxml.xml, amara3.uxml.writer
        import amara3.uxml.treeiter, amara3.uxml.xmliter, amara3.uxml.treeutil, amara3.uxml.uxpath
        import amara3.uxml.html5, amara3.uxml.html5iter
    finally:
        ply.yacc.yacc = orig
    f = os.path.realpath(amara3.uxml.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise Inconclusive('amara3.uxml comes from %s, not %s' % (f, REPO))
    return amara3


# ---------------------------------------------------------------------------------------------
# Bounded execution: a cheap CPU timer first, & when it goes off the case is run again counting
# logical steps (loop iterations & calls within amara3), which is what the verdict rests on

class StepBudget(BaseException):
    pass


def run_bounded(func, cpu_s=20.0):
    """Run func(); raise Hang if it uses more CPU time than cpu_s"""
    def on_alarm(sig, frame):
        raise Hang()
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_s, 1.0)
    try:
        return func()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def count_steps(func, budget):
    """Run func() under sys.monitoring; returns (steps, finished). Steps are jumps & function starts in amara3 code"""
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, 'verif-steps')
    n = [0]
    marker = os.sep + 'uxml' + os.sep
    def hit(code, *args):
        if marker not in code.co_filename:
            return mon.DISABLE
        n[0] += 1
        if n[0] > budget:
            raise StepBudget()
    ev = mon.events
    for e in (ev.JUMP, ev.BRANCH, ev.PY_START, ev.PY_RESUME):
        mon.register_callback(tool, e, hit)
    mon.set_events(tool, ev.JUMP | ev.BRANCH | ev.PY_START | ev.PY_RESUME)
    mon.restart_events()
    try:
        func()
        return n[0], True
    except StepBudget:
        return n[0], False
    except Hang:
        return n[0], None
    except Exception:
        return n[0], True
    finally:
        mon.set_events(tool, 0)
        for e in (ev.JUMP, ev.BRANCH, ev.PY_START, ev.PY_RESUME):
            mon.register_callback(tool, e, None)
        mon.free_tool_id(tool)


def bounded(func, size, what, cpu_s=10.0, **detail):
    """
    func() with termination as part of the property. size: of the input.
    Hang is only reported if the number of logical steps is out of all proportion
    """
    try:
        return run_bounded(func, cpu_s)
    except Hang:
        pass
    budget = 3000000 + 3000 * size
    def again():
        return run_bounded(func, 200.0)
    out = []
    def kept():
        try: out.append((again(), None))
        except (Hang, StepBudget): raise
        except Exception as ex: out.append((None, ex))
    steps, finished = count_steps(kept, budget)
    if finished is False:
        raise Violation('%s: does not end; %d steps for an input of size %d and counting' % (what, steps, size), **detail)
    if not out: raise Inconclusive('%s: slow, but not endless (%d steps)' % (what, steps))
    # Slow, but it has come to an end
    if out[0][1] is not None: raise out[0][1]
    return out[0][0]


# ---------------------------------------------------------------------------------------------

def in_amara(exc):
    marker = os.sep + 'uxml' + os.sep
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if (marker in fn or fn.endswith('microx')) and not fn.startswith(VERIF + os.sep):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def rng_for(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def fingerprint(x):
    if not isinstance(x, (str, bytes)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogatepass')
    return hashlib.blake2b(x, digest_size=8).digest()


class Stats:
    """What a worker has observed: counters, distinct cases, samples"""
    def __init__(self):
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.sets = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maximum(self, name, n):
        name = 'max_' + name
        self.counters[name] = max(self.counters.get(name, 0), n)

    def see(self, name, x):
        """Remember a distinct x; only the number of them is reported"""
        s = self.sets.setdefault(name, set())
        if len(s) < 2000000:
            s.add(fingerprint(x))

    def case(self, x, nontrivial=True):
        self.count('evaluations')
        if nontrivial:
            self.distinct.add(fingerprint(x))

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def merge(self, other):
        for k, v in other.counters.items():
            if k.startswith('max_'):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.count(k, v)
        self.distinct |= other.distinct
        self.samples += other.samples
        for k, s in other.sets.items():
            self.sets.setdefault(k, set()).update(s)


class BaseCheck:
    id = None
    technique = ''
    rule = ''
    # kind -> number of cases, by tier
    quick = {}
    thorough = {}
    assumptions = []
    # counter -> least value (for the quick tier) without which the run is inconclusive
    required = {}
    # Factor for the numbers of the quick tier, but for kinds which go through a list once
    boost = 1
    fixed = ('chars', 'starts', 'names', 'badchar', 'badstart', 'badname', 'syntax', 'short', 'signature')
    workers = 8
    rlimit_mb = 3000
    # CPU time after which a case is suspected not to end, & steps which confirm it
    case_cpu_s = 60
    case_steps = 60000000
    wall_s = {'quick': 400, 'thorough': 3000}

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.stats = Stats()

    def setup(self):
        """In the parent, ahead of forking"""
        self.amara3 = import_amara()

    def worker_setup(self):
        pass

    def run_case(self, kind, index, rng):
        """Generate & judge one case. Raise Violation if need be"""
        raise NotImplementedError

    def jobs(self):
        plan = self.quick if self.tier == 'quick' else self.thorough
        # Interleave the kinds, in proportion
        jobs = []
        for kind, n in plan.items():
            if self.tier == 'quick' and kind not in self.fixed: n *= self.boost
            n = max(1, round(n * SCALE))
            jobs.extend(((i + 0.5) / n, kind, i) for i in range(n))
        jobs.sort()
        return [(kind, i) for (_, kind, i) in jobs]

    def one(self, kind, index):
        self.current = (kind, index)
        rng = rng_for(self.seed, self.id, kind, index)
        self.stats.count('cases_' + kind)
        try:
            if not self.case_cpu_s:
                return self.run_case(kind, index, rng)
            try:
                return run_bounded(lambda: self.run_case(kind, index, rng), self.case_cpu_s)
            except Hang:
                pass
            rng = rng_for(self.seed, self.id, kind, index)
            out = []
            def kept():
                try: self.run_case(kind, index, rng); out.append(None)
                except (Hang, StepBudget): raise
                except Exception as ex: out.append(ex)
            steps, finished = count_steps(lambda: run_bounded(kept, 200.0), self.case_steps)
            if finished is False:
                raise Violation('does not come to an end: %d steps and counting' % steps)
            if not out: raise Inconclusive('slow, but not endless (%s steps)' % steps)
            # Slow, but it has come to an end
            if out[0] is not None: raise out[0]
            return
        except (Violation, Inconclusive):
            raise
        except Exception as e:
            # An error within the code under test which the check did not expect is a violation, one in the harness is not
            if in_amara(e):
                raise Violation('unexpected exception: %r' % e, traceback=traceback.format_exc())
            # unless it is due to what the code under test returned, which then happens again with the same case
            if not isinstance(e, SHAPE_ERRORS): raise
            first, tb = e, traceback.format_exc()
        try: self.run_case(kind, index, rng_for(self.seed, self.id, kind, index))
        except (Violation, Inconclusive): raise
        except SHAPE_ERRORS as e:
            if type(e) is type(first): raise Violation('what it returned makes no sense to the monitor: %r' % e, traceback=tb)
            raise
        raise first


# Of an oracle walking over what is not what it has to be
SHAPE_ERRORS = (AttributeError, TypeError, LookupError, ValueError, AssertionError, StopIteration)


def _worker(check, jobs, wfd, deadline, stop_path):
    result = {'violation': None, 'error': None, 'stopped': False}
    try:
        if check.rlimit_mb:
            resource.setrlimit(resource.RLIMIT_AS, (check.rlimit_mb << 20, check.rlimit_mb << 20))
        check.worker_setup()
        for n, (kind, index) in enumerate(jobs):
            if time.monotonic() > deadline:
                result['stopped'] = True
                break
            if os.path.exists(stop_path):
                result['stopped'] = True
                break
            try:
                check.one(kind, index)
            except Violation as v:
                open(stop_path, 'w').close()
                result['violation'] = {'kind': kind, 'index': index, 'what': v.what, 'detail': v.detail, 'order': n}
                break
    except Inconclusive as e:
        result['error'] = 'inconclusive: %s (case %s)' % (e, getattr(check, 'current', None))
    except BaseException as e:
        result['error'] = 'case %s: %s' % (getattr(check, 'current', None), traceback.format_exc())
    data = pickle.dumps((result, check.stats))
    try:
        with os.fdopen(wfd, 'wb') as f:
            f.write(data)
    finally:
        os._exit(0)


def jsonable(x):
    if isinstance(x, str):
        return x.encode('utf-8', 'backslashreplace').decode()
    if isinstance(x, bytes):
        return {'bytes': x.hex()}
    if isinstance(x, (int, float, bool)) or x is None:
        return x if x == x and x not in (float('inf'), float('-inf')) else repr(x)
    if isinstance(x, dict):
        return {str(jsonable(k)): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(i) for i in x]
    return repr(x)


def main(check_cls, argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='kind of cases to run')
    ap.add_argument('--workers', type=int)
    args = ap.parse_args(argv)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    t0 = time.monotonic()
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        check = check_cls(rec['tier'], rec['seed'])
        check.setup()
        check.worker_setup()
        try:
            check.one(rec['kind'], rec['index'])
        except Violation as v:
            print(v.what)
            print(json.dumps(jsonable(v.detail), indent=1, ensure_ascii=False))
            print('VIOLATION property=%s replay=%s' % (check.id, args.replay))
            return 1
        print('held')
        return 0

    check = check_cls(args.tier, args.seed)
    try:
        check.setup()
    except Violation as v:
        # Broken to the point it cannot even be set up, in a way the check deems conclusive
        return conclude(check, t0, [({'violation': {'kind': 'setup', 'index': 0, 'what': v.what, 'detail': v.detail, 'order': 0}, 'error': None, 'stopped': False}, check.stats)])
    jobs = check.jobs()
    if args.only:
        jobs = [j for j in jobs if j[0] == args.only]
    nw = args.workers or min(check.workers, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix='verif-run-')
    stop_path = os.path.join(tmp, 'stop')
    deadline = t0 + check.wall_s[args.tier]
    pids, fds = [], {}
    sys.stdout.flush(); sys.stderr.flush()
    gc.collect(); gc.freeze()
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in fds:
                os.close(fd)
            _worker(check, jobs[w::nw], wfd, deadline, stop_path)
        os.close(wfd)
        fds[r] = [pid, b'']
    results = []
    hard = deadline + 120
    open_fds = dict(fds)
    while open_fds:
        left = hard - time.monotonic()
        if left <= 0:
            break
        ready, _, _ = select.select(list(open_fds), [], [], min(left, 5))
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if chunk:
                open_fds[r][1] += chunk
            else:
                os.close(r)
                pid, data = open_fds.pop(r)
                _, status = os.waitpid(pid, 0)
                try:
                    results.append(pickle.loads(data))
                except Exception:
                    results.append(({'violation': None, 'error': 'worker died with status %d' % status, 'stopped': False, 'died': True}, Stats()))
    for r, (pid, data) in open_fds.items():
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        results.append(({'violation': None, 'error': 'watchdog: worker killed', 'stopped': False}, Stats()))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return conclude(check, t0, results)


def known_findings(prop):
    """Ids of the findings listed for the property, with their descriptions"""
    out = {}
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                if line.startswith('known: '):
                    fields = line[len('known: '):].split(None, 2)
                    if fields[0] == 'property=' + prop:
                        out[fields[1][len('id='):]] = fields[2].strip()
    except FileNotFoundError:
        pass
    return out


def conclude(check, t0, results):
    violations, errors, stopped = [], [], 0
    for res, stats in results:
        check.stats.merge(stats)
        if res['violation']:
            violations.append(res['violation'])
        if res['error']:
            errors.append(res['error'])
        stopped += bool(res['stopped'])
    for v in check.finish_all() if hasattr(check, 'finish_all') else ():
        violations.append(v)
    st = check.stats
    # Each finding has its own, very input; anything listed which no check has an input for is a mistake
    if not violations:
        listed = known_findings(check.id)
        for name, what in listed.items():
            func = getattr(check, 'known_' + name.replace('-', '_'), None)
            if func is None:
                errors.append('no such known finding: ' + name)
                continue
            try:
                fails = func()
            except Exception as e:
                errors.append('known finding %s: %r' % (name, e))
                continue
            st.count('known_findings_failing' if fails else 'known_findings_gone')
            if fails: print('KNOWN-FINDING: property=%s %s' % (check.id, what))
    os.makedirs(EVIDENCE, exist_ok=True)
    coverage = {
        'evaluations': st.counters.get('evaluations', 0),
        'distinct_nontrivial': len(st.distinct),
        'rule': check.rule,
        'samples': [jsonable(s) for s in st.samples[:8]] or ['none'],
        'observed': {k: v for k, v in sorted(st.counters.items()) if k != 'evaluations'},
        'distinct_observed': {k: len(s) for k, s in sorted(st.sets.items())},
    }
    ev = {'property': check.id, 'tier': check.tier, 'seed': check.seed, 'level': 'exploration', 'coverage': coverage,
          'assumptions': check.assumptions, 'wall_s': round(time.monotonic() - t0, 2), 'violations': len(violations)}
    with open(os.path.join(EVIDENCE, check.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')
    if violations:
        violations.sort(key=lambda v: v['order'])
        v = violations[0]
        rdir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d-%s-%d.json' % (check.id, check.tier, check.seed, v['kind'], v['index']))
        with open(path, 'w') as f:
            json.dump({'property': check.id, 'tier': check.tier, 'seed': check.seed, 'kind': v['kind'], 'index': v['index'],
                       'what': v['what'], 'detail': jsonable(v['detail'])}, f, indent=1, ensure_ascii=False)
            f.write('\n')
        print(v['what'])
        for k, x in v['detail'].items():
            print('  %s: %s' % (k, str(jsonable(x))[:1500]))
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    if errors:
        print('INCONCLUSIVE property=%s: %s' % (check.id, errors[0]), file=sys.stderr)
        return 2
    scale = 1
    for name, least in check.required.items():
        have = st.counters.get(name, len(st.sets.get(name, ())))
        if have < least * scale:
            print('INCONCLUSIVE property=%s: only %d %s observed (at least %d needed)' % (check.id, have, name, least), file=sys.stderr)
            return 2
    print('%s %s seed=%d: held on %d cases (%d distinct & non-trivial) in %.1f s%s' % (check.id, check.tier, check.seed,
          coverage['evaluations'], coverage['distinct_nontrivial'], time.monotonic() - t0,
          '; stopped by the time limit' if stopped else ''))
    return 0
