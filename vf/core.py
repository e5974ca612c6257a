"""Sub-checks, the shard runner and the driver.

A property is decided by one or more *sub-checks*.  A sub-check is a Hypothesis
strategy producing a case (a plain Python literal) and a pure function deciding
the property for that case against an explicit oracle.
"""
import ast
import collections
import hashlib
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from vf import boot
from vf.boot import HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# Far more than any case needs: what takes that much does not end.
CPU_LIMIT = 60          # seconds of CPU time for a case
MEMORY_LIMIT = 2 << 30  # bytes of address space for a worker


class Violation(Exception):
    """The code under test breaks the property for the current case."""


class Stuck(BaseException):
    """A case has used up its CPU time."""


def _stuck(signum, frame):
    raise Stuck


def watch(asan=False):
    """Prepare this process for the limits on cases."""
    signal.signal(signal.SIGVTALRM, _stuck)
    if not asan:
        _limit(resource.RLIMIT_AS, MEMORY_LIMIT)


def _limit(what, soft):
    hard = resource.getrlimit(what)[1]
    if hard == resource.RLIM_INFINITY or soft <= hard:
        resource.setrlimit(what, (soft, hard))


def fail(fmt, *args):
    raise Violation(fmt % args if args else fmt)


def expect(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, rule='',
                 crashy=False, min_nontrivial=None):
        self.name = name
        self.strategy = strategy      # callable returning a strategy
        self.check = check            # check(case, ctx)
        self.quick = quick            # cases, over all shards
        self.thorough = thorough or quick * 20
        self.rule = rule
        self.crashy = crashy          # log each case before running it


class Known:
    """A recorded finding: a fixed probe that demonstrates a known defect."""
    def __init__(self, name, what, probe):
        self.name, self.what, self.probe = name, what, probe


class Prop:
    def __init__(self, pid, rule, subs, known=(), asan=False, assumptions=()):
        self.pid, self.rule, self.subs = pid, rule, subs
        self.known, self.asan = known, asan
        self.assumptions = list(assumptions)


class Ctx:
    """Collects what a case did."""
    __slots__ = ('is_nontrivial', 'labels', 'evals')

    def __init__(self):
        self.is_nontrivial = False
        self.labels = set()
        self.evals = 0

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, name, flag=True):
        if flag:
            self.labels.add(name)


def load(pid):
    import importlib
    mod = importlib.import_module('vf.checks.' + pid.lower())
    return mod.PROP


def _from_sut(tb):
    for fr, _ in traceback.walk_tb(tb):
        fn = os.path.abspath(fr.f_code.co_filename)
        if fn.startswith(boot.SRC):
            return True
    return False


def run_case(sub, case, ctx):
    """Run the check; turn exceptions out of the code under test into
    violations."""
    # Once the time is up, again and again: the exception may get lost.
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 5)
    if sub.crashy:
        # Loops in C see no exceptions: end the process.
        _limit(resource.RLIMIT_CPU, int(time.process_time()) + 2 * CPU_LIMIT)
    try:
        sub.check(case, ctx)
    except Violation:
        raise
    except (HarnessError, KeyboardInterrupt):
        raise
    except (Stuck, MemoryError) as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        text = ''.join(traceback.format_exception(e)[-6:])
        raise Violation('%s\n%s' % (
            'does not end within %d seconds of CPU time' % CPU_LIMIT
            if isinstance(e, Stuck) else 'needs more than %d GB of memory'
            % (MEMORY_LIMIT >> 30), text)) from None
    except Exception as e:
        if _from_sut(e.__traceback__):
            text = ''.join(traceback.format_exception(e)[-6:])
            raise Violation('unexpected %s from the code under test: %s\n%s'
                            % (type(e).__name__, e, text)) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def h64(text):
    return hashlib.blake2b(text.encode('utf-8', 'surrogatepass'),
                           digest_size=8).hexdigest()


def run_shard(pid, shard, nshards, seed, tier, only=None, crashlog=None,
              scale=1):
    """Run all sub-checks of a property in this process; return a dict."""
    boot.setup()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 30
    prop = load(pid)
    out = {'subs': {}, 'violation': None, 'known': [],
           'rules': {'rule': prop.rule, 'assumptions': prop.assumptions,
                     'subs': {s.name: s.rule for s in prop.subs}}}
    if shard == 0:
        for k in prop.known:
            out['known'].append((k.name, k.what, k.probe()))
    for sub in prop.subs:
        if only and sub.name not in only:
            continue
        total = sub.thorough if tier == 'thorough' else sub.quick
        total = max(1, int(total * scale))
        n = total // nshards + (1 if shard < total % nshards else 0)
        if n == 0:
            continue
        st = {'evaluations': 0, 'nontrivial': 0, 'hashes': set(),
              'samples': [], 'labels': collections.Counter(), 'wall': 0.0,
              'slowest': 0.0}
        out['subs'][sub.name] = st
        last = {}
        t0 = time.time()

        @settings(max_examples=n, database=None, deadline=None,
                  phases=[Phase.generate, Phase.shrink],
                  suppress_health_check=list(HealthCheck),
                  report_multiple_bugs=False, print_blob=False,
                  verbosity=hypothesis.Verbosity.quiet)
        @hypothesis.seed(int(h64('%s/%s/%s/%s' % (seed, shard, pid,
                                                  sub.name)), 16))
        @given(sub.strategy())
        def test(case):
            text = repr(case)
            if crashlog and sub.crashy:
                with open(crashlog, 'w') as f:
                    json.dump({'property': pid, 'sub': sub.name,
                               'case': text}, f)
            ctx = Ctx()
            st['evaluations'] += 1
            used = time.process_time()
            try:
                run_case(sub, case, ctx)
                st['slowest'] = max(st['slowest'], time.process_time() - used)
            except Violation as e:
                last['case'], last['msg'] = text, str(e)
                raise
            for lab in ctx.labels:
                st['labels'][lab] += 1
            if ctx.is_nontrivial:
                h = h64(text)
                if h not in st['hashes']:
                    st['hashes'].add(h)
                    k = len(st['hashes'])
                    if k in (3, 40) and len(text) < 1500:
                        st['samples'].append(text)

        try:
            test()
        except Violation as e:
            out['violation'] = {'property': pid, 'sub': sub.name,
                                'case': last['case'], 'message': last['msg'],
                                'seed': seed, 'shard': shard}
        except hypothesis.errors.Flaky as e:
            # The failure did not repeat: nothing is reported from it as a
            # violation, the check has no answer.
            if last and replay_case(sub, last['case'])[0]:
                out['violation'] = {'property': pid, 'sub': sub.name,
                                    'case': last['case'],
                                    'message': last['msg'],
                                    'seed': seed, 'shard': shard}
            else:
                raise
        st['wall'] = time.time() - t0
        if out['violation']:
            break
    for st in out['subs'].values():
        st['hashes'] = sorted(st['hashes'])
        st['labels'] = dict(st['labels'])
    return out


def replay_case(sub, text):
    """Run one saved case.  Returns (violated, message)."""
    case = ast.literal_eval(text)
    try:
        run_case(sub, case, Ctx())
    except Violation as e:
        return True, str(e)
    return False, ''


# -- driver ---------------------------------------------------------------

def _env(ext, asan=False):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               VERIF_EXT=ext, PYTHONPATH=HERE)
    env.pop('PURE_PYTHON', None)
    if asan:
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'],
                             capture_output=True, text=True).stdout.strip()
        env.update(LD_PRELOAD=lib, PYTHONMALLOC='malloc',
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:'
                   'hard_rss_limit_mb=4000',
                   VERIF_ASAN='1')
    return env


def save_replay(v):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (v['property'],
                                           h64(v['sub'] + v['case'])))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1)
    return path


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--selfcheck', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int, default=8)
    ap.add_argument('--only', action='append')
    ap.add_argument('--scale', type=float, default=None)
    ap.add_argument('--worker')
    args = ap.parse_args(argv)
    if args.worker:
        return worker(json.loads(args.worker))
    if args.selfcheck:
        return selfcheck()
    tmp = tempfile.mkdtemp(prefix='verif-', dir='/tmp')
    try:
        if args.replay:
            return do_replay(args, tmp)
        return do_run(args, tmp)
    except HarnessError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        return 2
    finally:
        boot.cleanup(tmp)


def selfcheck():
    """Everything the checks need is there."""
    tmp = tempfile.mkdtemp(prefix='verif-', dir='/tmp')
    try:
        ext = boot.build_extension(tmp)
        p = _spawn({'selfcheck': True, 'out': os.path.join(tmp, 'out')},
                   _env(ext), None)
        return p.wait(300)
    finally:
        boot.cleanup(tmp)


def worker(job):
    try:
        watch(bool(os.environ.get('VERIF_ASAN')))
        if job.get('selfcheck'):
            boot.setup()
            import hypothesis
            names = sorted(f[:-3] for f in os.listdir(os.path.join(
                HERE, 'vf', 'checks')) if f.startswith('c'))
            for name in names:
                load(name.upper())
            print('%d checks, Hypothesis %s' % (len(names),
                                                hypothesis.__version__))
            return 0
        if job.get('replay'):
            boot.setup()
            with open(job['replay']) as f:
                v = json.load(f)
            prop = load(v['property'])
            sub = [s for s in prop.subs if s.name == v['sub']]
            if not sub:
                raise HarnessError('no such sub-check: ' + v['sub'])
            bad, msg = replay_case(sub[0], v['case'])
            out = {'violated': bad, 'message': msg}
        else:
            out = run_shard(job['pid'], job['shard'], job['nshards'],
                            job['seed'], job['tier'], job.get('only'),
                            job.get('crashlog'),
                            job.get('scale') or 1)
    except BaseException:
        traceback.print_exc()
        return 2
    with open(job['out'], 'w') as f:
        json.dump(out, f)
    return 0


def _spawn(job, env, err):
    return subprocess.Popen(
        [sys.executable, '-B', '-W', 'ignore', os.path.join(HERE, 'run.py'),
         'X', '--worker', json.dumps(job)],
        env=env, stdout=err, stderr=err, start_new_session=True)


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def do_replay(args, tmp):
    with open(args.replay) as f:
        v = json.load(f)
    asan = bool(v.get('asan'))
    env = _env(boot.build_extension(tmp, asan=asan), asan)
    out = os.path.join(tmp, 'replay.out')
    with open(os.path.join(tmp, 'replay.err'), 'w+') as err:
        p = _spawn({'replay': os.path.abspath(args.replay), 'out': out},
                   env, err)
        p.wait(600)
        err.seek(0)
        text = err.read()
    if p.returncode < 0 and v.get('crash'):
        print('crashed with signal %d\n%s' % (-p.returncode, text[-3000:]))
        print('VIOLATION property=%s replay=%s' % (v['property'],
                                                   args.replay))
        return 1
    if p.returncode:
        print(text, file=sys.stderr)
        return 2
    with open(out) as f:
        r = json.load(f)
    if r['violated']:
        print(r['message'])
        print('VIOLATION property=%s replay=%s' % (v['property'],
                                                   args.replay))
        return 1
    print('the property holds for this case')
    return 0


def do_run(args, tmp):
    t0 = time.time()
    pid = args.pid
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        raise HarnessError('VERIF_TIER is %r' % tier)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        raise HarnessError('VERIF_SEED is not an integer')
    limit = 800 if tier == 'quick' else 6 * 3600
    ext = boot.build_extension(tmp)
    env = _env(ext)
    prop_asan = pid in ('C14',)
    jobs = []
    for k in range(args.shards):
        jobs.append(dict(pid=pid, shard=k, nshards=args.shards, seed=seed,
                         tier=tier, only=args.only, scale=args.scale))
    if prop_asan:
        jobs.append(dict(jobs[0], shard=args.shards - 1, seed=seed + 7919,
                         asan=True))
    procs = []
    env_asan = (_env(boot.build_extension(tmp, asan=True), True)
                if prop_asan else None)
    for k, job in enumerate(jobs):
        job['out'] = os.path.join(tmp, 'out%d' % k)
        job['crashlog'] = os.path.join(tmp, 'crash%d' % k)
        err = open(os.path.join(tmp, 'err%d' % k), 'w+')
        procs.append((job, _spawn(job, env_asan if job.get('asan') else env,
                                  err), err))
    errors, violations, results, known = [], [], [], []
    for job, p, err in procs:
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            _kill(p)
            errors.append('timed out: %s' % job)
            continue
        err.seek(0)
        text = err.read()
        err.close()
        if p.returncode < 0 and os.path.exists(job['crashlog']):
            with open(job['crashlog']) as f:
                v = json.load(f)
            v.update(message='%s with signal %d\n%s' % (
                'does not end, stopped' if p.returncode == -signal.SIGXCPU
                else 'crashed', -p.returncode, text[-4000:]), crash=True,
                asan=bool(job.get('asan')), seed=seed, shard=job['shard'])
            violations.append(v)
        elif p.returncode:
            errors.append('worker failed (%s): %s' % (p.returncode, text))
        else:
            with open(job['out']) as f:
                r = json.load(f)
            known += r['known']
            if r['violation']:
                r['violation']['asan'] = bool(job.get('asan'))
                violations.append(r['violation'])
            results.append(r)
    listed = _listed(pid)
    for name, what, msg in known:
        if msg and name in listed:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        elif msg:
            violations.append({'property': pid, 'sub': 'known:' + name,
                               'case': repr(name), 'message': msg})
    _evidence(pid, tier, seed, results, len(violations), time.time() - t0)
    if violations:
        violations.sort(key=lambda v: len(v['case']))
        seen = set()
        for v in violations:
            if v['sub'] in seen:
                continue
            seen.add(v['sub'])
            path = save_replay(v)
            print('sub-check %s, case %s\n%s' % (
                v['sub'], v['case'][:2000], v['message'][:3000]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for e in errors[:2]:
            print('ERROR: ' + e, file=sys.stderr)
        return 2
    return 0


def _listed(pid):
    """Names of the findings recorded for a property."""
    names = set()
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            if line.startswith('known: property=%s ' % pid):
                names.add(line.split()[2])
    return names


def _evidence(pid, tier, seed, results, nviol, wall):
    subs = {}
    for r in results:
        for name, st in r['subs'].items():
            a = subs.setdefault(name, {'evaluations': 0, 'hashes': set(),
                                       'samples': [],
                                       'labels': collections.Counter(),
                                       'cpu_s': 0.0, 'slowest': 0.0})
            a['evaluations'] += st['evaluations']
            a['hashes'].update(st['hashes'])
            a['samples'] += st['samples']
            a['labels'].update(st['labels'])
            a['cpu_s'] += st['wall']
            a['slowest'] = max(a['slowest'], st['slowest'])
    rules = results[0]['rules'] if results else {
        'rule': '(no shard finished)', 'subs': {}, 'assumptions': []}
    cov = {
        'evaluations': sum(a['evaluations'] for a in subs.values()),
        'distinct_nontrivial': sum(len(a['hashes']) for a in subs.values()),
        'rule': rules['rule'],
        'samples': [],
        'subchecks': {},
    }
    for name, a in subs.items():
        cov['subchecks'][name] = {
            'evaluations': a['evaluations'],
            'distinct_nontrivial': len(a['hashes']),
            'rule': rules['subs'].get(name, ''),
            'labels': dict(sorted(a['labels'].items())),
            'cpu_s': round(a['cpu_s'], 2),
            'slowest_case_cpu_s': round(a['slowest'], 2)}
        for s in a['samples'][:2]:
            cov['samples'].append({'subcheck': name, 'case': s})
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': rules['assumptions'],
          'wall_s': round(wall, 2), 'violations': nviol}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
