"""P17: the same inputs give the same results in every process, whatever its environment and what it did before."""

import contextlib
import datetime
import hashlib
import io
import json
import os
import subprocess
import sys
import time

from ..core import HarnessError, Scenario, VERIF, expect
from ..lib import *
from ..simfs import SimFS
from ..store import environment
from ..zoo import *
from .p02 import QUERIES as ASKS, ask

# How the other processes differ from this one
REPLICAS = [
    {'PYTHONHASHSEED': '1', 'TZ': 'Asia/Kolkata', 'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'},
    {'PYTHONHASHSEED': '31337', 'TZ': 'America/New_York', 'LC_ALL': 'C.utf8', 'PYTHONOPTIMIZE': '1'},
]
STEPS = ['ask', 'ask', 'ask', 'resample', 'aggregate', 'aggregate', 'operation', 'operation', 'several', 'fit', 'fit', 'fit', 'cross', 'save', 'csv', 'json', 'df', 'select', 'merge', 'auto_fit', 'inspect', 'events']


def text(x):
    """Everything is to be the same, also the order of labels and keys."""
    if isinstance(x, Series):
        return json.dumps([[item_snapshot(item), list(item.data.keys()) if hasattr(item, 'data') and isinstance(item.data, dict) else None, list(getattr(item, 'data_indexes', {}).keys()), str(item)] for item in x] + [str(x), str(x.tz) if hasattr(x, 'tz') else None], default=str)
    if isinstance(x, dict):
        return json.dumps({str(k): text(v) for k, v in x.items()})
    return json.dumps(value(x), default=str)


def attempt(f):
    try:
        return text(f())
    except Exception as e:
        return 'exc:{}:{}'.format(type(e).__name__, str(e))


def do(workload, root):
    """A list of what came out of every step."""
    out = []
    pool = [build(spec) for spec in workload['series']]
    step = workload['series'][0]['step']
    for number, op in enumerate(workload['ops']):
        name, a = op['op'], op['a']
        series = pool[op['s'] % len(pool)]
        labels = series.data_labels()
        result = None
        if name == 'ask':
            out.append(json.dumps(ask(series, ASKS[a % len(ASKS)], a), default=str))
            continue
        elif name == 'resample':
            f = lambda: series.resample(step * (a % 4 + 1))
        elif name == 'aggregate':
            ops = [[operations.avg], [operations.min, operations.max], [operations.sum, operations.avg, operations.min], None][a % 4]
            unit = (step * (a % 3 + 2)) if a % 2 else ('1h', '1D')[a % 4 // 2]
            f = lambda: series.aggregate(unit, operations=ops) if ops else series.aggregate(unit)
        elif name == 'operation':
            f = lambda: (series.normalize, series.derivative, series.integral, series.diff, series.csum, lambda: series.mavg(window=3), lambda: series.rescale(2.5), lambda: series.as_tz('Europe/Rome'), lambda: series.filter(labels[-1]), series.summary)[a % 10]()
        elif name == 'several':
            turned = labels[a % len(labels):] + labels[:a % len(labels)]
            f = lambda: (lambda: series.filter(*turned), lambda: series.filter(*turned[:2]), lambda: series.rescale({label: 2.5 for label in turned}), lambda: series.offset({label: k for k, label in enumerate(turned)}),
                         lambda: series.normalize(source_range={label: [-50, 100 + k] for k, label in enumerate(turned)}), lambda: series.min(), lambda: series.avg())[a % 7]()
        elif name in ('fit', 'cross', 'auto_fit', 'events'):
            model = op['model']
            reset_counters()
            instance = make(model)
            if name == 'cross':
                f = lambda: instance.cross_validate(series, rounds=a % 3 + 2, **{'fit_' + k: v for k, v in model['fit'].items()})
            elif name == 'auto_fit':
                f = lambda: answers((instance.fit(series), instance)[1], model['family'], series, steps=(1, 3))
            elif name == 'events':
                f = lambda: instance.mark_events(fit(instance, model, series).apply(series), index_treshold=0.3)
            else:
                def f():
                    fit(instance, model, series)
                    path = os.path.join(root, 'model{}'.format(number))
                    instance.save(path)
                    loaded = FAMILIES[model['family']].load(path)
                    return {'answers': answers(instance, model['family'], series, steps=(1, 2)), 'loaded': answers(loaded, model['family'], pool[0], steps=(1,))}
        elif name == 'save':
            def f():
                path = os.path.join(root, 'series{}.csv'.format(number))
                series.save(path)
                with open(path, 'rb') as stored:
                    content = stored.read().decode('utf-8', 'surrogateescape')
                # The date on which it was stored is there on purpose
                content = '\n'.join(line for line in content.split('\n') if not line.startswith('# Generated'))
                return {'content': content, 'loaded': text(TimeSeries.load(path))}
        elif name == 'csv':
            def f():
                path = os.path.join(root, 'raw{}.csv'.format(number))
                with open(path, 'w', encoding='utf-8') as raw:
                    raw.write('{},{}\n'.format(('epoch', 'timestamp', 'epoch', 'time')[a % 4], ','.join(labels)))
                    for item in series:
                        stamp = item.t
                        if a % 2:
                            stamp = datetime.datetime.fromtimestamp(item.t, tz=datetime.timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ' if a % 4 == 1 else '%Y-%m-%d %H:%M:%S')
                        raw.write('{},{}\n'.format(stamp, ','.join(str(item.data[label]) for label in labels)))
                kwargs = [{}, {'tz': 'Europe/Rome'}, {'encoding': 'utf-8'}, {'items_type': 'points'}][a % 4]
                return storages.CSVFileStorage(path, **kwargs).get()
        elif name == 'json':
            f = lambda: {'json': series.to_json(), 'back': text(TimeSeries.from_json(series.to_json()))}
        elif name == 'df':
            f = lambda: {'df': series.to_df().to_csv(), 'back': text(TimeSeries.from_df(series.to_df()))}
        elif name == 'select':
            f = lambda: [str(x) for x in series.select('{}={}'.format(labels[0], series[a % len(series)].data[labels[0]]))]
        elif name == 'merge':
            f = lambda: series.merge(pool[(op['s'] + 1) % len(pool)])
        elif name == 'inspect':
            def f():
                written = io.StringIO()
                with contextlib.redirect_stdout(written):
                    series.inspect()
                return written.getvalue()
        else:
            raise HarnessError(name)
        out.append(attempt(f))
    return out


def answer(request):
    """What comes out of the workload, after whatever was done before, in the given environment."""
    fs = SimFS()
    try:
        import random as random_module
        random_module.seed(request['rng'])
        SimParallel.rng = random_module.Random(request['rng']) if request['rng'] else None
        numpy.random.seed(request['rng'])
        with environment(fs, clock=request['clock']), fs:
            os.mkdir(os.path.join(fs.root, 'before'))
            for number, before in enumerate(request['before']):
                lines = before.get('interrupt')
                root = os.path.join(fs.root, 'before', str(number))
                os.mkdir(root)
                if lines is not None:
                    sched.interrupted(lambda: do(before, root), lines, KeyboardInterrupt)
                else:
                    do(before, root)
            root = os.path.join(fs.root, 'now')
            os.mkdir(root)
            return {'answer': do(request['workload'], root)}
    finally:
        SimParallel.rng = None
        fs.destroy()


class Replica():
    """The other end of a process."""

    def __init__(self, env):
        full = dict(os.environ)
        full.pop('LANG', None)
        full.update(env)
        self.pid = os.getpid()
        self.process = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'dst.replica'], cwd=VERIF, env=full, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, encoding='utf-8')
        if self.process.stdout.readline().strip() != 'ready':
            raise HarnessError('a replica did not start')

    def ask(self, request):
        self.process.stdin.write(json.dumps(request) + '\n')
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            raise HarnessError('a replica died')
        return json.loads(line)


class P17(Scenario):
    prop = 'P17'
    quick_runs = 700
    thorough_runs = 15000
    rule = 'a run is non-trivial if the other process did something else before, or has another clock; runs are distinct by the digest of their history'
    measure = 'distinct (process, step, kind of result, something done before, interrupted) tuples'
    real = ['timeseria.datastructures', 'timeseria.operations', 'timeseria.transformations', 'timeseria.storages', 'timeseria.models', 'scipy, fitter, pandas', 'the interpreter (three processes with different hash seeds, time zones, locales and optimisation levels)']
    stubbed = ['clock', 'state of the random number generators', 'completion order of the jobs of the distribution fitter', 'what was done before in the process, and its interruptions', 'raw files and directory operations']
    assumptions = ['neural networks, Prophet and ARIMA models are left out']
    shrinkable = ['ops', 'before']

    replicas = {}

    def generate(self, rng, i):
        period = rng.choice((3, 4))
        labels = rng.choice((['value'], ['a', 'b'], ['value', 'temp in', 'Umidità', 'z']))
        series = []
        for _ in range(2):
            series.append(observed_edges(season(rng, n=rng.randint(14, 40), period=period, loss=rng.choice((None, 0, 0.15)), labels=labels, unit=series[0].get('unit', '') if series else None, step=series[0]['step'] if series else None, index=rng.choice((None, None, 'anomaly')))))

        def op():
            name = rng.choice(STEPS)
            families = {'events': ('paad', 'parad'), 'auto_fit': ('paf', 'par', 'paad', 'lir'), 'cross': ('paf', 'par', 'uf')}.get(name, ('paf', 'par', 'paad', 'parad', 'uf', 'ur', 'lstm', 'lstmad'))
            model = rnd_model(rng, labels=len(labels), period=period, families=families)
            if rng.random() < 0.3 and model['family'] in DETECTORS:
                model['fit'].pop('error_distribution', None)
                if rng.random() < 0.5:
                    model['fit']['error_distributions'] = ['norm', 'gennorm', 'cauchy', 'uniform']
                    model['fit']['error_distribution'] = 'auto'
            return {'op': name, 's': rng.randint(0, 1), 'a': rng.randint(0, 40), 'model': model}
        before = []
        for _ in range(rng.choice((0, 1, 1, 2))):
            other = {'series': [observed_edges(season(rng, n=rng.randint(10, 24), period=period, labels=rng.choice((labels, ['value'])), loss=rng.choice((None, 0.2)), tz=rng.choice(TIMEZONES)))], 'ops': [op() for _ in range(rng.randint(1, 3))]}
            if rng.random() < 0.4:
                other['interrupt'] = rng.randint(0, 20000)
            before.append(other)
        return {'series': series, 'ops': [op() for _ in range(rng.choice((2, 4, 6)))], 'before': before, 'rng': rng.randint(1, 10**6), 'clock': rng.choice((0.0, 1446073200.0, 1600000000.5, 4102444800.0)), 'replica': rng.randint(0, len(REPLICAS) - 1)}

    def replica(self, k):
        known = self.replicas.get(k)
        if known is None or known.pid != os.getpid():
            known = self.replicas[k] = Replica(REPLICAS[k])
        return known

    def execute(self, trace, ctx):
        workload = {'series': trace['series'], 'ops': trace['ops']}
        here = answer({'workload': workload, 'before': [], 'rng': 0, 'clock': 1700000000.0})['answer']
        there = self.replica(trace['replica']).ask({'workload': workload, 'before': trace['before'], 'rng': trace['rng'], 'clock': trace['clock']})
        if 'error' in there:
            raise HarnessError(there['error'])
        for fault in ('hash_seed', 'time_zone', 'locale', 'random_state', 'completion_order'):
            ctx.fault(fault)
        if trace['clock'] != 1700000000.0:
            ctx.fault('clock_jump')
        for before in trace['before']:
            ctx.fault('interrupt' if 'interrupt' in before else 'previous_history')
        for op, x, y in zip(trace['ops'], here, there['answer']):
            ctx.step()
            ctx.log(op['op'], hashlib.sha256(x.encode('utf-8', 'surrogateescape')).hexdigest())
            ctx.probe('{}:{}'.format(op['op'], 'exc' if x.startswith('exc') else 'ok'))
            ctx.state(trace['replica'], op['op'], op['model']['family'] if op['op'] in ('fit', 'cross', 'auto_fit', 'events') else op['a'] % 10, x[:3] == 'exc', len(trace['before']), any('interrupt' in b for b in trace['before']))
            if x != y:
                k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                expect(False, 'not-reproducible:{}'.format(op['op']), '{!r} here vs {!r} in process {}'.format(x[max(0, k-60):k+60], y[max(0, k-60):k+60], REPLICAS[trace['replica']]))
        ctx.sim_time(abs(trace['clock'] - 1700000000.0))
        ctx.nontrivial = True


SCENARIO = P17()
