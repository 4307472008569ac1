"""Core of the simulator: runs, traces, violations, batches, minimisation, replay and evidence.

A *trace* is a JSON object which decides a run completely: the workload, the schedule and the faults. Traces are
generated from one seeded PRNG, and executing a trace is a pure function of the trace and of the code under test.
"""

import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
OUT = os.environ.get('DST_OUT', os.path.join(VERIF, 'out'))
RUN_WALL_LIMIT = 60        # seconds of real time for a single run, only a guard against endless loops
PACKAGE_DIR = os.path.join(os.path.realpath(REPO), 'timeseria') + os.sep


class Violation(Exception):
    """The property does not hold. The signature identifies what failed (stable across seeds and shrinking)."""
    def __init__(self, signature, detail=''):
        super().__init__('{}: {}'.format(signature, detail))
        self.signature = signature
        self.detail = str(detail)[:1500]


class RunTimeout(BaseException):
    """A run did not terminate."""


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""


def expect(condition, signature, detail=''):
    if not condition:
        raise Violation(signature, detail() if callable(detail) else detail)


class Ctx():
    """What is recorded about a run. Recording never influences it."""
    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_seconds = 0.0
        self.steps = 0
        self.nontrivial = False
        self._log = hashlib.sha256()
        self.tail = []

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *what):
        self.states.add(hashlib.blake2b(repr(what).encode(), digest_size=8).hexdigest())

    def log(self, *what):
        line = repr(what)
        self._log.update(line.encode('utf-8', 'backslashreplace'))
        self.tail.append(line[:200])
        if len(self.tail) > 30:
            self.tail.pop(0)

    def step(self, n=1):
        self.steps += n

    def sim_time(self, seconds):
        self.sim_seconds += seconds

    def digest(self):
        return self._log.hexdigest()[:16]


def from_package(exc):
    """If an exception was raised by (or through) the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(PACKAGE_DIR):
            return True
        tb = tb.tb_next
    return False


def call(f, *args, **kwargs):
    """Call into the code under test: ('ok', result) or ('exc', exception)."""
    try:
        return ('ok', f(*args, **kwargs))
    except Exception as e:
        return ('exc', e)


def must(signature, f, *args, **kwargs):
    """Call into the code under test something which has to work."""
    try:
        return f(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:
        raise Violation('{}:unexpected-{}'.format(signature, type(e).__name__), str(e)[:300]) from e


def _alarm(signum, frame):
    raise RunTimeout()


def seed_everything(n):
    random.seed(n)
    try:
        import numpy
        numpy.random.seed(n % (2**32))
    except ImportError:
        pass


def execute(scenario, trace, wall_limit=RUN_WALL_LIMIT):
    """Execute a trace. Returns (violation or None, ctx, harness error or None)."""
    ctx = Ctx()
    violation = None
    error = None
    seed_everything(trace.get('seed', 0))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(wall_limit)
    try:
        scenario.execute(trace, ctx)
    except Violation as v:
        violation = {'signature': v.signature, 'detail': v.detail}
    except RunTimeout:
        violation = {'signature': 'no-termination', 'detail': 'the run did not terminate in {} s'.format(wall_limit)}
    except HarnessError:
        error = traceback.format_exc()
    except Exception as e:
        if from_package(e):
            violation = {'signature': 'unexpected-{}'.format(type(e).__name__), 'detail': str(e)[:500]}
            ctx.log('tb', traceback.format_exc()[-1500:])
        else:
            error = traceback.format_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        scenario.cleanup()
    if violation:
        ctx.log('violation', violation['signature'])
    return violation, ctx, error


class Scenario():
    """Base for the scenarios, one per property."""
    prop = None
    quick_runs = 400
    thorough_runs = 8000
    rule = ''
    real = []
    stubbed = []
    assumptions = []
    measure = ''

    def generate(self, rng, i):
        raise NotImplementedError()

    def directed(self):
        return []

    def execute(self, trace, ctx):
        raise NotImplementedError()

    def cleanup(self):
        pass

    def prepare(self):
        pass

    # Keys of the trace holding lists of which every sub-list is a legal trace as well
    shrinkable = ['ops', 'faults']

    def simplify(self, trace):
        """Yield simpler variants of a trace."""
        return iter(())


def rng_for(seed, prop, i):
    return random.Random('{}|{}|{}'.format(seed, prop, i))


def make_trace(scenario, seed, i):
    trace = scenario.generate(rng_for(seed, scenario.prop, i), i)
    trace['seed'] = int(hashlib.sha256('{}|{}|{}'.format(seed, scenario.prop, i).encode()).hexdigest()[:8], 16)
    # Traces must survive being written as JSON
    return json.loads(json.dumps(trace))


#======================
#  Batches
#======================

def _worker(scenario, seed, indexes, directed, deadline, pipe):
    result = {'runs': 0, 'faults': {}, 'probes': {}, 'states': set(), 'sim_seconds': 0.0, 'steps': 0, 'nontrivial': set(),
              'violations': [], 'errors': [], 'digests': {}, 'samples': [], 'skipped': 0}
    seen = {}
    try:
        for item in list(directed) + list(indexes):
            if deadline and time.monotonic() > deadline:
                result['skipped'] += 1
                continue
            if isinstance(item, dict):
                trace, key = item, 'directed-{}'.format(item.get('name', '?'))
            else:
                try:
                    trace, key = make_trace(scenario, seed, item), item
                except Exception:
                    result['errors'].append((item, traceback.format_exc()))
                    continue
            violation, ctx, error = execute(scenario, trace)
            result['runs'] += 1
            result['digests'][key] = ctx.digest()
            result['states'] |= ctx.states
            result['sim_seconds'] += ctx.sim_seconds
            result['steps'] += ctx.steps
            if ctx.nontrivial:
                result['nontrivial'].add(ctx.digest())
                if len(result['samples']) < 1 and not isinstance(item, dict):
                    result['samples'].append(trace)
            for k, v in ctx.faults.items():
                result['faults'][k] = result['faults'].get(k, 0) + v
            for k, v in ctx.probes.items():
                result['probes'][k] = result['probes'].get(k, 0) + v
            if error:
                if len(result['errors']) < 3:
                    result['errors'].append((key, error))
            if violation:
                n = seen.get(violation['signature'], 0)
                seen[violation['signature']] = n + 1
                if n < 2:
                    result['violations'].append((key, violation, trace))
    except BaseException:
        result['errors'].append(('worker', traceback.format_exc()))
    pipe.send(result)
    pipe.close()


def run_batch(scenario, seed, runs, workers=8, directed=True, first=0, wall=None):
    """Run a batch over forked workers (the partition does not influence any of the runs)."""
    import multiprocessing
    mp = multiprocessing.get_context('fork')
    dtraces = []
    if directed:
        for d in scenario.directed():
            d = json.loads(json.dumps(d))
            d.setdefault('seed', 0)
            dtraces.append(d)
    deadline = time.monotonic() + wall if wall else None
    procs = []
    for w in range(workers):
        recv, send = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(scenario, seed, range(first + w, first + runs, workers), dtraces[w::workers], deadline, send))
        p.start()
        send.close()
        procs.append((p, recv))
    total = {'runs': 0, 'faults': {}, 'probes': {}, 'states': set(), 'sim_seconds': 0.0, 'steps': 0, 'nontrivial': set(),
             'violations': [], 'errors': [], 'digests': {}, 'samples': [], 'skipped': 0}
    for p, recv in procs:
        try:
            r = recv.recv()
        except EOFError:
            p.join()
            total['errors'].append(('worker', 'a worker died (exit code {})'.format(p.exitcode)))
            continue
        p.join()
        for k in ('runs', 'sim_seconds', 'steps', 'skipped'):
            total[k] += r[k]
        for k in ('faults', 'probes'):
            for kk, v in r[k].items():
                total[k][kk] = total[k].get(kk, 0) + v
        total['states'] |= r['states']
        total['nontrivial'] |= r['nontrivial']
        total['violations'] += r['violations']
        total['errors'] += r['errors']
        total['digests'].update(r['digests'])
        total['samples'] += r['samples']
    total['violations'].sort(key=lambda v: (isinstance(v[0], str), str(v[0]).zfill(12)))
    return total


#======================
#  Minimisation
#======================

def _fails(scenario, trace, signature):
    violation, _, _ = execute(scenario, trace, wall_limit=20 if signature != 'no-termination' else 30)
    return violation is not None and violation['signature'] == signature


def minimise(scenario, trace, signature, budget_s=60, max_runs=1500):
    """Minimise a failing trace, keeping the same violation."""
    if 'finding' in trace:
        return trace, 0
    end = time.monotonic() + budget_s
    count = [0]

    def fails(t):
        count[0] += 1
        if count[0] > max_runs or time.monotonic() > end:
            return False
        try:
            return _fails(scenario, t, signature)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            return False

    if signature == 'no-termination':
        budget_s, max_runs = 90, 6

    changed = True
    while changed and count[0] < max_runs and time.monotonic() < end:
        changed = False
        for key in scenario.shrinkable:
            if not isinstance(trace.get(key), list):
                continue
            # ddmin
            n = 2
            while len(trace[key]) >= 1:
                items = trace[key]
                size = max(1, len(items) // n)
                reduced = False
                for start in range(0, len(items), size):
                    candidate = dict(trace)
                    candidate[key] = items[:start] + items[start+size:]
                    if fails(candidate):
                        trace = candidate
                        reduced = True
                        changed = True
                        n = max(2, n - 1)
                        break
                if not reduced:
                    if size == 1:
                        break
                    n = min(len(items), n * 2)
        for candidate in scenario.simplify(trace):
            if fails(candidate):
                trace = candidate
                changed = True
                break
    return trace, count[0]


#======================
#  Known findings
#======================

def known_findings(prop):
    """The listed findings: signature -> what fails."""
    findings = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known: property={} '.format(prop)):
                    rest = line.split(' ', 2)[2].strip()
                    assert rest.startswith('signature=')
                    signature, what = rest[len('signature='):].split(' ', 1)
                    findings[signature] = what
    return findings


def write_replay(scenario, seed, key, violation, trace, original_size, out=OUT):
    os.makedirs(os.path.join(out, 'replays'), exist_ok=True)
    name = '{}-{}.json'.format(scenario.prop, hashlib.sha256(json.dumps([trace, violation['signature']], sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(out, 'replays', name)
    with open(path, 'w') as f:
        json.dump({'property': scenario.prop, 'seed': seed, 'run': key, 'signature': violation['signature'], 'detail': violation['detail'],
                   'original_size': original_size, 'minimised_size': len(json.dumps(trace)), 'trace': trace}, f, indent=1)
    return path
