"""Run context of one check: seeded case scheduling, monitors' counters,
violations, known findings, evidence.

A check is a list of stages.  A stage is a function (ctx, rng) that builds one
case from rng, drives the real library code with it, and lets the monitors and
oracles judge the execution.  Case i of stage s gets its own generator seeded
by (property, stage, VERIF_SEED, i), so a replay needs only those values.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MAXVIOL = 12
QMULT = 8
# how many times more cases a quick run takes, by what its cases cost (about 20 s a check)
EXTRA = dict(P01=6, P02=3, P03=2, P04=2, P05=2, P06=1, P07=2, P08=4, P09=10, P10=3, P11=10, P12=10, P13=8, P14=25, P15=30, P16=10,
             P17=25, P18=8, P19=5, P20=6, P21=20, P22=40, P23=50, P24=8, P25=20, P26=5, P27=25, P28=2, P29=20, P30=3, P31=25, P32=6)


# how often a call is repeated, and the share of the time for that
HIST = {'P32': (1, .8, 19)}


class Violation(Exception):
    """Raised by an oracle: the observed execution breaks the property."""

    def __init__(self, mech, msg):
        super().__init__(msg)
        self.mech = mech
        self.msg = msg


class CaseTimeout(BaseException):
    pass


class Stage:
    def __init__(self, name, func, quick, thorough=None, limit=120):
        self.name = name
        self.func = func
        self.quick = quick * QMULT
        self.own = thorough is not None
        self.thorough = thorough if self.own else self.quick * 12
        self.limit = limit


def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.known = {k['id']: k for k in load_known()
                      if (k['property'] == pid or pid == 'P32') and k['status'] == 'open'}
        self.known_seen = {}
        self.stage = None
        self.case = None
        self.casekey = None
        self.history = None

    # -- what the monitors report -------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def observe(self, *key):
        """One oracle evaluation on one observed execution; key identifies
        the case (hashed for the distinct count)."""
        self.evals += 1
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        new = h not in self.distinct
        self.distinct.add(h)
        if new and (len(self.samples) < 6 or
                    (len(self.samples) < 24 and self.evals % 97 == 0)):
            self.samples.append({'stage': self.stage, 'case': repr(key)[:300]})

    def check(self, cond, mech, msg):
        self.count('assertions')
        if not cond:
            raise Violation(mech, msg() if callable(msg) else msg)

    def eq(self, got, want, mech, what=''):
        self.count('assertions')
        if got != want:
            raise Violation(mech, f'{what}: got {short(got)} want {short(want)}')

    def finding(self, fid):
        """True if fid is a listed open finding of this property."""
        return fid in self.known

    def saw_known(self, fid, detail=''):
        self.known_seen.setdefault(fid, detail)


def short(v, n=400):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


class Capture(io.StringIO):
    pass


@contextlib.contextmanager
def quiet():
    """Capture what the library prints; yields the buffer."""
    buf = Capture()
    with contextlib.redirect_stdout(buf):
        yield buf


def _alarm(*_):
    raise CaseTimeout()


def repo_frame(tb):
    fr = traceback.extract_tb(tb)
    return [f'{os.path.relpath(f.filename, REPO)}:{f.lineno}:{f.name}'
            for f in fr if os.path.abspath(f.filename).startswith(REPO + os.sep)]


def run_case(ctx, stage, i, seed):
    key = f'{ctx.pid}/{stage.name}/{seed}/{i}'
    rng = random.Random(key)
    rng.index = i
    if ctx.history:
        ctx.history.case(key)
    ctx.stage, ctx.case, ctx.casekey = stage.name, i, key
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, stage.limit)       # processor time: a busy machine is no fault
    signal.alarm(4 * stage.limit)
    try:
        stage.func(ctx, rng)
        return None
    except Violation as v:
        return v.mech, v.msg
    except CaseTimeout as e:
        fr = repo_frame(e.__traceback__)
        if not fr:      # an oracle, not the library, ran out of time: no verdict
            ctx.count('cases_without_verdict')
            return None
        return 'no-answer', f'no answer within {stage.limit}s, in {fr[-3:]}'
    except Exception as e:
        fr = repo_frame(e.__traceback__)
        if not fr:      # a result no oracle can make sense of
            fr = [traceback.format_exc(limit=-2)]
        return (f'exception:{type(e).__name__}',
                f'{type(e).__name__}: {e} at {fr[-3:]}')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def write_replay(ctx, stage, i, seed, mech, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    n = len(ctx.violations)
    p = os.path.join(d, f'{ctx.pid}-{ctx.tier}-{seed}-{n}.json')
    with open(p, 'w') as f:
        json.dump({'property': ctx.pid, 'stage': stage.name, 'index': i,
                   'seed': seed, 'mechanism': mech, 'message': msg,
                   'rerun': f'/opt/venv/bin/python {VERIF}/run.py {ctx.pid} --replay {p}'},
                  f, indent=1)
    return p


def worker(ctx, stages, tier, seed, deadline, k, n, pipe):
    """Runs the cases whose number is k modulo n and sends what was observed."""
    out = {'found': [], 'stages': {}, 'incomplete': [], 'error': None}
    home = os.getcwd()
    scratch = tempfile.mkdtemp(prefix='vf-cwd-')
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        os.chdir(scratch)       # a name gone wrong lands here
        from .history import History
        ctx.history = History(ctx, *HIST.get(ctx.pid, (.3, .15)))
        with quiet():
            for si, st in enumerate(stages):
                total = st.quick if tier == 'quick' else st.thorough
                ts, done, nv = time.time(), 0, 0
                for i in range(k, total, n):
                    if time.time() > deadline:
                        out['incomplete'].append(st.name)
                        break
                    res = run_case(ctx, st, i, seed)
                    done += 1
                    if ctx.counters.get('cases_without_verdict', 0) > 3:
                        out['incomplete'].append(st.name)
                        break
                    if res:
                        out['found'].append((si, res[0], res[1], i))
                        nv += 1
                        if nv >= 2:
                            break
                out['stages'][st.name] = (done, time.time() - ts)
                if len(out['found']) >= MAXVIOL:
                    break
    except BaseException:
        out['error'] = traceback.format_exc()
    if ctx.history:
        ctx.history.server.close()
    os.chdir(home)
    shutil.rmtree(scratch, ignore_errors=True)
    for a in ('evals', 'distinct', 'counters', 'samples', 'known_seen'):
        out[a] = getattr(ctx, a)
    pipe.send(out)
    pipe.close()


def run_parallel(ctx, stages, tier, seed, deadline):
    n = int(os.environ.get('VERIF_JOBS', 0)) or min(8, len(os.sched_getaffinity(0)))
    mp = multiprocessing.get_context('fork')
    jobs = []
    sys.stdout.flush()
    for k in range(n):
        r, w = mp.Pipe(False)
        p = mp.Process(target=worker, args=(ctx, stages, tier, seed, deadline, k, n, w))
        p.start()
        w.close()
        jobs.append((p, r))
    incomplete, per, found, errors = set(), {}, [], []
    for p, r in jobs:
        try:
            o = r.recv()
        except EOFError:
            p.join()
            errors.append(f'a worker died (exit {p.exitcode})')
            continue
        p.join()
        if o['error']:
            errors.append('harness error\n' + o['error'])
        ctx.evals += o['evals']
        ctx.distinct |= o['distinct']
        for c, v in o['counters'].items():
            ctx.count(c, v)
        ctx.samples += o['samples']
        for f, d in o['known_seen'].items():
            ctx.known_seen.setdefault(f, d)
        incomplete |= set(o['incomplete'])
        found += o['found']
        for s, (d, wl) in o['stages'].items():
            a = per.setdefault(s, {'cases': 0, 'wall_s': 0})
            a['cases'] += d
            a['wall_s'] = round(max(a['wall_s'], wl), 2)
    if errors and not found:
        raise RuntimeError('\n'.join(errors))
    ctx.samples = ctx.samples[:24]
    ctx.found = [(stages[si], m, msg, i) for si, m, msg, i in sorted(found, key=lambda f: (f[0], f[3]))]
    return sorted(incomplete), per


def run_property(mod, argv):
    pid = mod.PID
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    elif '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    stages = mod.STAGES
    for st in stages:
        st.quick *= EXTRA.get(pid, 1)
        st.thorough = max(st.thorough, st.quick) if st.own else st.quick * 12
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            r = json.load(f)
        st = next(s for s in stages if s.name == r['stage'])
        from .history import History
        ctx.history = History(ctx, 1, 1e9)
        res = run_case(ctx, st, r['index'], r['seed'])
        print('REPRODUCED' if res else 'NOT REPRODUCED', res or '')
        return 1 if res else 0
    only = argv[argv.index('--stage') + 1] if '--stage' in argv else None
    cap = float(os.environ.get('VERIF_CAP', 600 if tier == 'quick' else 3300))
    todo = [st for st in stages if not only or st.name == only]
    incomplete, perstage = run_parallel(ctx, todo, tier, seed, t0 + cap)
    for st, mech, msg, i in ctx.found[:MAXVIOL]:
        path = write_replay(ctx, st, i, seed, mech, msg)
        ctx.violations.append((st.name, mech, msg, path))
        print(f'VIOLATION property={pid} replay={path}\n'
              f'  stage={st.name} mechanism={mech} {msg[:600]}')
    sys.stdout.flush()
    if pid == 'P32':        # findings of the checks whose cases it runs are theirs to report
        ctx.known, ctx.known_seen = {}, {}
    for fid, detail in ctx.known_seen.items():
        print(f'KNOWN-FINDING: property={pid} [{fid}] {ctx.known[fid]["what"]}')
    for fid in ctx.known:
        if fid not in ctx.known_seen and not only:
            print(f'note: listed finding {fid} did not show on this run')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ctx.evals,
            'distinct_nontrivial': len(ctx.distinct),
            'rule': mod.RULE,
            'samples': ctx.samples,
            'stages': perstage,
            'monitor_counters': dict(sorted(ctx.counters.items())),
            'incomplete_stages': incomplete,
            'known_findings_seen': sorted(ctx.known_seen),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(ctx.violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(VERIF, 'evidence', f'{pid}.json'))
    print(f'{pid} {tier} seed={seed}: {ctx.evals} observed executions, '
          f'{len(ctx.distinct)} distinct, {ctx.counters.get("assertions", 0)} assertions, '
          f'{len(ctx.violations)} violations, {ev["wall_s"]}s')
    if ctx.violations:
        return 1
    if incomplete:
        print('note: time cap reached, not all cases ran in', incomplete)
    if ctx.evals == 0:
        print('INCONCLUSIVE: monitors not reached')
        return 3
    return 0
