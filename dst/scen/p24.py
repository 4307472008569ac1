"""P24: forecasters based on neural networks learn from, and predict on, exactly what they are given (and nothing else)."""

import datetime
import math
import random
import statistics

import pytz

from .. import net, sched
from ..core import Scenario, Violation, call, expect, must
from ..lib import *
from ..store import *
from .p02 import clone

net.install()

from timeseria.models.forecasters import LSTMForecaster
from timeseria.models.anomaly_detectors import LSTMAnomalyDetector
from timeseria.exceptions import NotFittedError

UNITS = {1: '1s', 10: '10s', 600: '10m', 900: '15m', 1800: '30m', 3600: '1h'}
CHANGES = {'Europe/Rome': 1459000800, 'America/New_York': 1478390400, 'Australia/Lord_Howe': 1475330400, 'Pacific/Chatham': 1475330400, 'Asia/Kolkata': 1459000800, 'UTC': 1459000800}
METRICS = {'MSE': 'mean_squared_error', 'MAE': 'mean_absolute_error', 'MAPE': 'mean_absolute_percentage_error', 'MSLE': 'mean_squared_logarithmic_error'}


class Reference():
    """What a completed fit has to have learnt."""

    def __init__(self, signal, fit, features, window, neurons, before=None, loss=None):
        self.signal, self.features, self.window, self.fit = signal, features, window, fit
        self.labels = signal.labels
        self.targets = self.labels if fit['target'] == 'all' else [fit['target']] if isinstance(fit['target'], str) else fit['target']
        self.context = [label for label in self.labels if label not in self.targets] if fit['context'] else None
        a, b = fit['range']
        self.low = self.high = None
        if fit['normalize']:
            self.low = {label: min(signal.data(k)[label] for k in range(a, b)) for label in self.labels}
            self.high = {label: max(signal.data(k)[label] for k in range(a, b)) for label in self.labels}
        X, Y = [], []
        for k in range(a + window, b):
            if fit['limit'] is not None and any((signal.loss(j) or 0) >= fit['limit'] for j in range(k - window, k + 1)):
                continue
            data = self.scaled(signal.data(k))
            X.append(self.rows(k, {label: data[label] for label in self.context} if self.context is not None else None))
            Y.append([data[label] for label in self.targets])
        self.samples = len(X)
        ridge = net.ridge(METRICS[fit['metric']] if neurons else None, fit['epochs'], neurons)
        self.learnt, self.carried = {}, None
        if X:
            self.learnt[''] = net.Regression().train(X, Y, ridge)
            if before is not None and before.state is not None:
                # The network of the previous fits used again, still minimizing what the first one did
                try:
                    self.learnt['carried-over'] = net.Regression(before.state).train(X, Y, net.ridge(loss, fit['epochs'], neurons) if loss else ridge)
                except ValueError:
                    self.learnt['carried-over'] = None

    def scaled(self, data):
        if self.low is None:
            return dict(data)
        return {label: (v - self.low[label]) / (self.high[label] - self.low[label]) for label, v in data.items()}

    def rows(self, k, context=None):
        """The input for predicting the k-th item: a row for each item in the window, and one for the context."""
        items = [(j, self.scaled(self.signal.data(j))) for j in range(k - self.window, k)]
        if context is not None:
            items.append((k, context))
        rows = []
        for n, (j, data) in enumerate(items):
            row = []
            if 'values' in self.features:
                row += [data.get(label, 0.0) for label in self.labels]
            if 'diffs' in self.features:
                first, second = max(n - 1, 0), min(n + 1, len(items) - 1)
                for label in self.labels:
                    x, y = items[first][1].get(label), items[second][1].get(label)
                    row.append(0.0 if x is None or y is None else (y - x) / (second - first) or 1)
            if 'hours' in self.features:
                row.append(self.signal.local(j).hour / 24)
            rows.append(row)
        return rows

    def predict(self, k, context=None, knowing=False):
        """What is to be predicted for the k-th item, in all the ways it could go wrong (the right one is ''). Context as data, not scaled."""
        contexts = {'': None}
        if self.context is not None:
            contexts[''] = {label: self.scaled(context)[label] for label in self.context}
            if knowing:
                contexts['knowing-the-answer'] = self.scaled(context)
        out = {}
        for way, learnt in self.learnt.items():
            for other, given in contexts.items():
                if learnt is None:
                    continue
                values = [float(v) for v in learnt.predict([self.rows(k, given)]).astype('float32')[0]]
                if self.low is not None:
                    values = [v * (self.high[label] - self.low[label]) + self.low[label] for label, v in zip(self.targets, values)]
                out['+'.join(filter(None, (way, other)))] = {label: float(v) for label, v in zip(self.targets, values)}
        return out


class Signal():
    """The observed signal, by position."""

    def __init__(self, trace):
        self.trace = trace
        self.labels = sorted(trace['labels'])
        self.zone = pytz.timezone(trace['tz'])
        if trace['kind'] == '1D':
            self.starts = calendar_starts(trace['tz'], 2019, trace['month'], 1, '1D', trace['n'] + 2)
        rng = random.Random(trace['salt'])
        self.values = []
        for k in range(trace['n']):
            data = {}
            for label in self.labels:
                shape = trace['shapes'][label]
                data[label] = round(shape['level'] + shape['width'] * math.sin(k / shape['pace'] + shape['phase']) + rng.uniform(-1, 1) * shape['noise'], 4)
            self.values.append(data)

    def at(self, k):
        if self.trace['kind'] == '1D':
            return self.starts[k]
        return self.trace['start'] + k * self.trace['step']

    def local(self, k):
        return datetime.datetime.fromtimestamp(self.at(k), tz=pytz.UTC).astimezone(self.zone)

    def data(self, k):
        return self.values[k]

    def loss(self, k):
        return self.trace['losses'].get(str(k))

    def item(self, k, data=None):
        spec = {'t': self.at(k), 'd': dict(self.data(k) if data is None else data)}
        if str(k) in self.trace['losses']:
            spec['x'] = {'data_loss': self.loss(k)}
        unit = {'points': None, 'slots': UNITS[self.trace['step']]}.get(self.trace['kind'], self.trace['kind'])
        return build_item(spec, unit, self.trace['tz'])

    def series(self, a, b, how='copy'):
        if how == 'copy':
            result = TimeSeries()
            for k in range(a, b):
                result.append(self.item(k))
            return result
        whole = self.series(0, self.trace['n'])
        return whole.view(from_i=a, to_i=b) if how == 'view' else whole[a:b]


class P24(Scenario):
    prop = 'P24'
    quick_runs = 3000
    thorough_runs = 80000
    rule = 'a run is non-trivial if a forecaster was used after another fit, a fault, a save and load, with context, or with data losses; runs are distinct by the digest of the predictions'
    measure = 'distinct (kind of series, features, labels, window, normalisation, context, data loss, operation) tuples'
    real = ['timeseria.models.forecasters (LSTM)', 'timeseria.models.base (Keras)', 'timeseria.models.anomaly_detectors (LSTM)', 'timeseria.datastructures', 'timeseria.utilities']
    stubbed = ['Keras (a network learning a regularised linear regression, deterministic)', 'the sensors', 'resources (failing at a given call)', 'interruptions and failed allocations (raised at any line of the package)',
               'raw files (disk errors)', 'locale, time zone and clock of the process']
    assumptions = ['labels which are never constant', 'labelled data']
    shrinkable = ['ops']

    def generate(self, rng, i):
        kind = rng.choice(('points', 'points', 'slots', 'slots', '1D'))
        tz = rng.choice(TIMEZONES)
        labels = rng.choice((['value'], ['a', 'b'], ['a', 'b'], ['temp in', 'Umidità', 'c']))
        step = rng.choice((600, 900, 1800, 3600, 1, 10))
        n = rng.randint(24, 44)
        start = rng.choice((0, -3600 * 10, 1446073200, 1600000000 - 1600000000 % 3600, CHANGES[tz] - rng.randint(1, n) * step))
        start -= start % 3600
        context = len(labels) > 1 and rng.random() < 0.4
        window = rng.choice((1, 2, 3, 3, 5))
        features = rng.choice((['values'], ['values'], ['values', 'diffs'], ['values', 'hours'], ['diffs'], ['hours', 'values', 'diffs']))
        if window == 1 and 'diffs' in features:
            window = 2
        losses = {}
        if rng.random() < 0.5:
            for k in range(n):
                if rng.random() < 0.9:
                    losses[str(k)] = rng.choice((0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, None, 0.3, 0.6, 0.3, 1, 1))
        trace = {'kind': kind, 'tz': tz, 'labels': labels, 'step': step, 'n': n, 'start': start, 'month': rng.randint(1, 12), 'salt': rng.randint(0, 10**6), 'losses': losses,
                 'shapes': {label: {'level': rng.choice((0, 20, 100, -40)), 'width': rng.choice((1, 5, 30)), 'pace': rng.choice((1.3, 3, 10)), 'phase': round(rng.random() * 6, 2), 'noise': rng.choice((0.05, 0.5, 2))} for label in labels},
                 'window': window, 'features': features, 'neurons': rng.choice((16, 128)), 'external': rng.random() < 0.2}
        ops = [self.fitting(rng, trace, context)]
        ops[0].pop('fault', None)
        for _ in range(rng.randint(2, 7)):
            name = rng.choice(('predict', 'predict', 'forecast', 'apply', 'apply', 'evaluate', 'evaluate', 'fit', 'save', 'validate', 'detect', 'short', 'wrong'))
            if name == 'fit':
                op = self.fitting(rng, trace, context if rng.random() < 0.8 else not context and len(labels) > 1)
            else:
                op = {'op': name, 'to': rng.randint(max(window, 2), n - 1), 'how': rng.choice(('copy', 'view', 'slice')), 'from': rng.choice((0, 0, 1, 5)), 'steps': rng.choice((1, 1, 2, 3)), 'inplace': rng.random() < 0.4, 'at': round(rng.random(), 4),
                      'metrics': rng.choice((None, None, ['MSE'], ['RMSE', 'MAE'], ['HAE', 'MAE'])), 'shift': rng.choice((0, 0, 3.5)), 'rounds': rng.choice((2, 3, 4)), 'results': rng.random() < 0.3,
                      'full': rng.random() < 0.03, 'env': {'encoding': rng.choice((None, 'ascii', 'utf-8')), 'tz': rng.choice((None, 'America/New_York', 'Asia/Kolkata')), 'clock': rng.choice((None, 0, 4102444800.5))}}
                if name == 'detect':
                    op['context'] = context and rng.random() < 0.5
                if rng.random() < 0.15:
                    op['fault'] = rng.choice(('failure', 'interrupt', 'allocation'))
            ops.append(op)
        trace['ops'] = ops
        return trace

    def fitting(self, rng, trace, context):
        labels = trace['labels']
        a = rng.choice((0, 0, rng.randint(0, 6)))
        target = 'all'
        if context or (len(labels) > 1 and rng.random() < 0.2):
            target = rng.choice((labels[0], labels[-1], rng.sample(labels, len(labels) - 1)))
        op = {'op': 'fit', 'range': [a, rng.randint(a + trace['window'] + 12, trace['n'])], 'normalize': rng.random() < 0.75, 'target': target, 'context': bool(context), 'limit': rng.choice((1.0, 1.0, 0.5, None)),
              'epochs': rng.choice((30, 30, 5)), 'metric': rng.choice(('MSE', 'MSE', 'MAE', 'MAPE', 'MSLE')), 'how': rng.choice(('copy', 'view', 'slice')), 'at': round(rng.random(), 4)}
        if rng.random() < 0.2:
            op['fault'] = rng.choice(('failure', 'interrupt', 'allocation'))
        return op

    def simplify(self, trace):
        if trace['losses']:
            yield dict(trace, losses={})
        for k, op in enumerate(trace['ops']):
            for key, simple in (('fault', None), ('full', False), ('shift', 0), ('steps', 1), ('how', 'copy'), ('results', False), ('metrics', None)):
                if op.get(key, simple) != simple:
                    yield dict(trace, ops=trace['ops'][:k] + [dict(op, **{key: simple})] + trace['ops'][k + 1:])

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    def new(self, trace):
        return LSTMForecaster(window=trace['window'], features=list(trace['features']), neurons=trace['neurons'], keras_model=self.external(trace) if trace['external'] else None)

    def external(self, trace):
        network = net.Sequential()
        network.compile(loss=None)
        return network

    def agree(self, what, got, wanted):
        """Compare with what is right, taking note if it is wrong in one of the ways which are already known."""
        for way in sorted(wanted):
            if set(got) == set(wanted[way]) and all(close(got[label], wanted[way][label], 1e-6) for label in got):
                if way:
                    self.ways.setdefault(way, '{}: {} instead of {}'.format(what, got, wanted['']))
                return way
        raise Violation(what + ':data', '{} instead of {}'.format(got, wanted['']))

    def fit_arguments(self, op):
        return {'epochs': op['epochs'], 'normalize': op['normalize'], 'target': op['target'], 'with_context': op['context'], 'minimize_error_metric': op['metric'], 'data_loss_limit': op['limit']}

    def execute(self, trace, ctx):
        net.reset_failures()
        self.ways = {}
        signal = Signal(trace)
        model = self.new(trace)
        reference, network, used = None, None, False
        neurons = 0 if trace['external'] else trace['neurons']
        for number, op in enumerate(trace['ops']):
            ctx.step()
            name = op['op']
            net.reset_failures()
            ctx.state(trace['kind'], trace['features'], len(trace['labels']), trace['window'], reference.fit['normalize'] if reference else None, reference is not None and reference.context is not None, bool(trace['losses']), name)
            if name == 'fit':
                if trace['external'] and used:
                    # An external network cannot but be the same
                    continue
                series = signal.series(*op['range'], how=op['how'])
                before, state = snapshot(series), network.learnt if network else None
                following = Reference(signal, op, trace['features'], trace['window'], neurons, state, network.loss if network else None)
                arguments = self.fit_arguments(op)
                net.last.pop('trained', None)
                if op.get('fault'):
                    kind, exc = self.faulted(op, lambda: model.fit(series, **arguments), ctx)
                else:
                    kind, exc = call(model.fit, series, **arguments)
                used = True
                network = net.last.get('trained', network)
                expect(snapshot(series) == before, 'fit:series-changed', lambda: first_difference(before, snapshot(series)))
                ctx.log(number, 'fit', kind, following.samples)
                if kind == 'exc':
                    if not op.get('fault') and following.samples:
                        expect('carried-over' in following.learnt and following.learnt['carried-over'] is None and isinstance(exc, ValueError), 'fit:unexpected-{}'.format(type(exc).__name__), repr(exc))
                        self.ways.setdefault('carried-over', 'fit: {!r}'.format(exc))
                    if not model.fitted:
                        reference = None
                        self.unfitted(signal, model, trace)
                        if network is not None:
                            ctx.nontrivial = True
                    elif op.get('fault'):
                        # Interrupted after being completed or before being started: it is known which one from what it answers
                        if reference is not None:
                            kind, got = call(model.predict, signal.series(0, trace['n'] - 1), **self.with_context(reference, signal.data(trace['n'] - 1)))
                            if kind == 'ok' and any(set(got) == set(w) and all(close(got[label], w[label], 1e-6) for label in got) for w in reference.predict(trace['n'] - 1, signal.data(trace['n'] - 1)).values()):
                                continue
                        reference = following
                else:
                    expect(following.samples, 'fit:on-nothing')
                    if number:
                        ctx.nontrivial = True
                    reference = following
                continue
            if reference is None:
                self.unfitted(signal, model, trace)
                continue
            if reference.context is not None or trace['losses']:
                ctx.nontrivial = True
            loaded = getattr(self, 'do_' + name)(trace, op, signal, model, reference, ctx, number)
            if loaded is not None:
                model, network = loaded
                ctx.nontrivial = True
        ctx.sim_time(abs(signal.at(trace['n'] - 1) - signal.at(0)))
        net.reset_failures()
        for way in sorted(self.ways):
            if '+' not in way:
                raise Violation(way, self.ways[way])

    def with_context(self, reference, data, full=False):
        if reference.context is None:
            return {}
        return {'context_data': dict(data) if full else {label: data[label] for label in reference.context}}

    def unfitted(self, signal, model, trace):
        series = signal.series(0, trace['n'])
        for what in ('predict', 'apply', 'evaluate'):
            kind, exc = call(getattr(model, what), series)
            expect(kind == 'exc' and isinstance(exc, NotFittedError), what + ':not-fitted-but-usable', repr(exc))

    def faulted(self, op, f, ctx):
        if op['fault'] == 'failure':
            net.reset_failures(int(op['at'] * 3), [OSError, MemoryError, KeyboardInterrupt][int(op['at'] * 1000) % 3])
            try:
                kind, exc = 'ok', f()
            except (KeyboardInterrupt, MemoryError, Exception) as e:
                kind, exc = 'exc', e
            net.reset_failures()
            if kind == 'exc':
                ctx.fault('failing_network')
        else:
            where, (kind, exc) = sched.interrupted(f, int(op['at'] * op['at'] * 4000), KeyboardInterrupt if op['fault'] == 'interrupt' else MemoryError)
            if where:
                ctx.fault('interruption' if op['fault'] == 'interrupt' else 'failed_allocation')
        return kind, exc

    def attempt(self, op, f, series, ctx):
        """Something going wrong in the meanwhile changes nothing."""
        if op.get('fault'):
            before = snapshot(series)
            self.faulted(op, f, ctx)
            expect(snapshot(series) == before, 'faulted:series-changed', lambda: first_difference(before, snapshot(series)))
            ctx.nontrivial = True

    def do_predict(self, trace, op, signal, model, reference, ctx, number):
        k = op['to']
        series = signal.series(max(0, min(op['from'], k - max(trace['window'], 2))), k, op['how'])
        before = snapshot(series)
        data = {label: v + op['shift'] for label, v in signal.data(k).items()}
        full = op['full'] and reference.context is not None
        context = self.with_context(reference, data, full)
        given = {key: dict(value) for key, value in context.items()}
        self.attempt(op, lambda: model.predict(series, **context), series, ctx)
        got = must('predict', model.predict, series, **context)
        self.agree('predict', got, reference.predict(k, data, knowing=full))
        expect(snapshot(series) == before, 'predict:series-changed', lambda: first_difference(before, snapshot(series)))
        expect(context == given, 'predict:context-changed', lambda: '{} vs {}'.format(context, given))
        if reference.context is not None:
            kind, exc = call(model.predict, series)
            expect(kind == 'exc', 'predict:without-context', repr(exc))
        else:
            kind, exc = call(model.predict, series, context_data=dict(data))
            expect(kind == 'exc', 'predict:unexpected-context', repr(exc))
        ctx.log(number, 'predict', sorted((label, round(float(v), 6)) for label, v in got.items()))

    def item(self, what, trace, signal, got, k, data):
        """A forecast item: what it has to be."""
        unit = trace['kind'] != 'points'
        expect(isinstance(got, DataTimeSlot if unit else DataTimePoint), what + ':type', lambda: type(got).__name__)
        t, end = (got.start.t, got.end.t) if unit else (got.t, None)
        expect(close(t, signal.at(k), 1e-12) and (not unit or close(end, signal.at(k + 1), 1e-12)), what + ':times', lambda: '{} instead of {}'.format(got, signal.at(k)))
        expect(str(got.tz) == trace['tz'], what + ':time-zone', lambda: str(got.tz))
        self.agree(what, got.data, data)

    def do_forecast(self, trace, op, signal, model, reference, ctx, number):
        k = op['to']
        series = signal.series(0, k, op['how'])
        before = snapshot(series)
        data = {label: v + op['shift'] for label, v in signal.data(k).items()}
        context = self.with_context(reference, data)
        if reference.context is None and set(reference.targets) != set(trace['labels']):
            kind, exc = call(model.forecast, series)
            expect(kind == 'exc' and isinstance(exc, ValueError), 'forecast:of-some-labels', repr(exc))
            return
        self.attempt(op, lambda: model.forecast(series, **context), series, ctx)
        got = must('forecast', model.forecast, series, **context)
        wanted = reference.predict(k, data)
        for way in wanted:
            wanted[way].update(context.get('context_data', {}))
        self.item('forecast', trace, signal, got, k, wanted)
        expect(snapshot(series) == before, 'forecast:series-changed', lambda: first_difference(before, snapshot(series)))
        ctx.log(number, 'forecast', sorted((label, round(float(v), 6)) for label, v in got.data.items()))

    def do_apply(self, trace, op, signal, model, reference, ctx, number):
        k = op['to']
        series = signal.series(0, k)
        before = snapshot(series)
        data = {label: v + op['shift'] for label, v in signal.data(k).items()}
        context = self.with_context(reference, data)
        steps = 1 if context else min(op['steps'], trace['n'] - k)
        if reference.context is None and set(reference.targets) != set(trace['labels']):
            kind, exc = call(model.apply, series, steps=steps, inplace=op['inplace'])
            expect(kind == 'exc' and isinstance(exc, ValueError), 'apply:of-some-labels', repr(exc))
            expect(snapshot(series) == before, 'apply:refused-but-changed', lambda: first_difference(before, snapshot(series)))
            return
        self.attempt(op, lambda: model.apply(series, steps=steps, **context), series, ctx)
        got = must('apply', model.apply, series, steps=steps, inplace=op['inplace'], **context)
        if op['inplace']:
            expect(got is None, 'in-place:returned', repr(got))
            got = series
        else:
            expect(snapshot(series) == before, 'apply:series-changed', lambda: first_difference(before, snapshot(series)))
        expect(len(got) == k + steps, 'apply:items', lambda: '{} vs {} + {}'.format(len(got), k, steps))
        # Each one from the ones before, including the ones just forecast
        backup = [dict(signal.values[j]) for j in range(trace['n'])]
        try:
            for j in range(steps):
                wanted = reference.predict(k + j, data)
                for way in wanted:
                    wanted[way].update(context.get('context_data', {}))
                self.item('apply', trace, signal, got[k + j], k + j, wanted)
                expect(got[k + j].data_indexes.get('forecast') == 1, 'apply:index', lambda: str(got[k + j].data_indexes))
                signal.values[k + j] = {label: float(v) for label, v in got[k + j].data.items()}
        finally:
            signal.values = backup
        for j in range(k):
            wanted = signal.item(j)
            wanted.data_indexes['forecast'] = 0
            diff = first_difference(item_snapshot(wanted), item_snapshot(got[j]))
            expect(diff is None, 'apply:items-changed', lambda: '#{}: {}'.format(j, diff))
        ctx.log(number, 'apply', [round(float(v), 6) for item in list(got)[k:] for _, v in sorted(item.data.items())])

    def scores(self, signal, reference, a, b, way, metrics, knowing):
        out = {}
        predicted = {k: reference.predict(k, signal.data(k), knowing=knowing).get(way) for k in range(a + reference.window, b)}
        for label in reference.targets:
            errors = [abs(signal.data(k)[label] - predicted[k][label]) for k in predicted]
            relative = [abs(e / signal.data(k)[label]) if signal.data(k)[label] else 0 for e, k in zip(errors, predicted)]
            for metric in metrics:
                out['{}_{}'.format(label, metric)] = {'MSE': lambda: sum(e * e for e in errors) / len(errors), 'RMSE': lambda: math.sqrt(sum(e * e for e in errors) / len(errors)), 'MAE': lambda: sum(errors) / len(errors),
                                                      'HAE': lambda: max(errors), 'MAPE': lambda: sum(relative) / len(relative)}[metric]()
        return out, predicted

    def ways_of(self, reference, knowing):
        ways = [way for way in reference.learnt if reference.learnt[way] is not None]
        return ways + (['+'.join(filter(None, (way, 'knowing-the-answer'))) for way in ways] if knowing else [])

    def metrics(self, op, reference):
        if op['metrics']:
            return op['metrics']
        metric = reference.fit['metric']
        return [metric] if metric != 'MSLE' else ['RMSE', 'MAE']

    def do_evaluate(self, trace, op, signal, model, reference, ctx, number):
        a, b = max(0, min(op['from'], op['to'] - trace['window'] - 1)), op['to'] + 1
        if b - a <= trace['window']:
            return
        series = signal.series(a, b, op['how'])
        metrics = self.metrics(op, reference)
        if 'MAPE' in metrics and any(v == 0 for k in range(a, b) for v in signal.data(k).values()):
            return
        before = snapshot(series)
        arguments = {} if op['metrics'] is None else {'error_metrics': list(op['metrics'])}
        if op['results']:
            arguments['return_results_series'] = True
        self.attempt(op, lambda: model.evaluate(series, **arguments), series, ctx)
        got = must('evaluate', model.evaluate, series, **arguments)
        expect(snapshot(series) == before, 'evaluate:series-changed', lambda: first_difference(before, snapshot(series)))
        results = got.pop('series', None)
        knowing = reference.context is not None
        wanted, predicted = {}, {}
        for way in self.ways_of(reference, knowing):
            wanted[way], predicted[way] = self.scores(signal, reference, a, b, way, metrics, knowing)
        way = self.agree('evaluate', got, wanted)
        # (the scores of different predictions can be the same by chance)
        alike = [way] + [other for other in sorted(wanted) if all(close(got[key], wanted[other][key], 1e-6) for key in got)]
        if op['results']:
            expect(len(results) == b - a - trace['window'], 'evaluate:results', lambda: str(len(results)))
            for item, k in zip(results, range(a + trace['window'], b)):
                expect(close(item.start.t if isinstance(item, DataTimeSlot) else item.t, signal.at(k), 1e-12), 'evaluate:results-times')
                for label in reference.targets:
                    expect(close(item.data[label], signal.data(k)[label]), 'evaluate:results-actual', lambda: '{} vs {}'.format(item.data, signal.data(k)))
                    alike = [other for other in alike if close(item.data[label + '_pred'], predicted[other][k][label], 1e-6)]
                    expect(alike, 'evaluate:results-data', lambda: '{} vs {}'.format(item.data, predicted[way][k]))
        ctx.log(number, 'evaluate', sorted((label, round(float(v), 6)) for label, v in got.items()))

    def do_validate(self, trace, op, signal, model, reference, ctx, number):
        """Cross validation, on a new forecaster."""
        if trace['external']:
            return
        n, rounds = trace['n'], op['rounds']
        size = n // rounds
        fit = dict(reference.fit)
        folds = []
        for r in range(rounds):
            a, b = r * size, (r + 1) * size
            if a == n - b:
                n = n - 1 if n % rounds else n
            if a == n - b:
                return
            folds.append((a, b, (0, a) if a > n - b else (b, n)))
        folds = [(a, b, (0, a) if a > n - b else (b, n)) for a, b, _ in folds]
        metrics = self.metrics(op, reference)
        if size <= trace['window'] or ('MAPE' in metrics and any(v == 0 for k in range(n) for v in signal.data(k).values())):
            return
        series = signal.series(0, n)
        before = snapshot(series)
        kwargs = {'fit_' + key: value for key, value in self.fit_arguments(fit).items()}
        if op['metrics'] is not None:
            kwargs['evaluate_error_metrics'] = list(op['metrics'])
        state, scores = net.Regression(), {}
        knowing = reference.context is not None
        for a, b, chunk in folds:
            following = Reference(signal, dict(fit, range=list(chunk)), trace['features'], trace['window'], trace['neurons'], state)
            if not following.samples:
                return
            if state.state is None:
                following.learnt['carried-over'] = following.learnt['']
            state = following.learnt['carried-over']
            for way in self.ways_of(following, knowing):
                for key, value in self.scores(signal, following, a, b, way, metrics, knowing)[0].items():
                    scores.setdefault(way, {}).setdefault(key, []).append(value)
        other = self.new(trace)
        if op.get('fault'):
            self.attempt(op, lambda: other.cross_validate(series, rounds=rounds, **kwargs), series, ctx)
            if other.fitted:
                expect(False, 'validate:left-fitted')
            other = self.new(trace)
        got = must('validate', other.cross_validate, series, rounds=rounds, **kwargs)
        expect(not other.fitted, 'validate:left-fitted')
        expect(snapshot(series) == before, 'validate:series-changed', lambda: first_difference(before, snapshot(series)))
        wanted = {}
        for way in scores:
            wanted[way] = {}
            for key, values in scores[way].items():
                wanted[way][key + '_avg'] = sum(values) / len(values)
                wanted[way][key + '_stdev'] = statistics.stdev(values)
        self.agree('validate', got, wanted)
        ctx.probe('cross validations')
        ctx.log(number, 'validate', sorted((key, round(float(v), 6)) for key, v in got.items()))

    def do_detect(self, trace, op, signal, model, reference, ctx, number):
        """The anomaly detector: it has to compare with what the forecaster predicts not knowing the item."""
        n, window = trace['n'], trace['window']
        fit = dict(reference.fit, range=[0, n], target='all', context=False)
        series = signal.series(0, n)
        before = snapshot(series)
        arguments = {key: value for key, value in self.fit_arguments(fit).items() if key not in ('target', 'with_context')}
        detector = LSTMAnomalyDetector(window=window, features=list(trace['features']), neurons=trace['neurons'])
        learnt = {}
        if op['context']:
            for label in trace['labels']:
                learnt[label] = Reference(signal, dict(fit, target=label, context=True), trace['features'], window, trace['neurons'])
        else:
            whole = Reference(signal, fit, trace['features'], window, trace['neurons'])
            learnt = {label: whole for label in trace['labels']}
        if not learnt[trace['labels'][0]].samples:
            return
        errors = {'error_metric': 'E', 'error_distribution': 'norm', 'with_context': op['context']}
        if op.get('fault'):
            self.attempt(op, lambda: detector.fit(series, **errors, **arguments), series, ctx)
        must('detector-fit', detector.fit, series, **errors, **arguments)
        kwargs = {'index_bounds': ['avg_err', 'max_err'], 'index_type': 'lin'}
        self.attempt(op, lambda: detector.apply(series, **kwargs), series, ctx)
        got = must('detector-apply', detector.apply, series, details=True, **kwargs)
        expect(snapshot(series) == before, 'detector:series-changed', lambda: first_difference(before, snapshot(series)))
        expect(len(got) == n - window - 1, 'detector:items', lambda: '{} vs {}'.format(len(got), n - window - 1))
        for item, k in zip(got, range(window + 1, n)):
            expect(close(item.start.t if isinstance(item, DataTimeSlot) else item.t, signal.at(k), 1e-12), 'detector:times', lambda: '#{}: {}'.format(k, item))
            if any((signal.loss(j) or 0) >= 1 for j in range(k - window, k + 1)):
                expect('anomaly' not in item.data_indexes, 'detector:judged-lost', lambda: '#{}: {}'.format(k, item))
                continue
            expect('anomaly' in item.data_indexes, 'detector:not-judged', lambda: '#{}: {}'.format(k, item))
            wanted = {}
            for label in trace['labels']:
                for way, data in learnt[label].predict(k, signal.data(k), knowing=op['context']).items():
                    wanted.setdefault(way, {})[label] = data[label]
            self.agree('detector', {label: item.data[label + '_pred'] for label in trace['labels']}, wanted)
        ctx.probe('anomaly detectors')
        ctx.log(number, 'detect', [round(float(item.data_indexes.get('anomaly', -1)), 6) for item in got])

    def do_save(self, trace, op, signal, model, reference, ctx, number):
        fs = self.fs = getattr(self, 'fs', None) or SimFS(ctx)
        fs.wipe()
        fs.known_names = {'model'}
        path = os.path.join(fs.root, 'model')
        fs.reset()
        if op.get('fault'):
            with fs:
                model.save(path)
            total = fs.count
            fs.wipe()
            fs.reset([{'kind': 'enospc' if op['fault'] == 'failure' else 'eio_write', 'at': op['at'], 'part': 0.5, 'times': 1}], total)
            with fs:
                kind, exc = call(model.save, path)
            if kind == 'exc':
                expect(fs.fired, 'save:failed-without-faults', repr(exc))
                expect(not os.path.lexists(path), 'save:left-behind', lambda: '{} after {!r}'.format(os.listdir(path), exc))
            fs.wipe()
            fs.reset()
        with fs:
            with environment(fs, ctx=ctx, **op['env']):
                must('save', model.save, path)
            with environment(fs, ctx=ctx, **{'encoding': None, 'tz': None, 'clock': None}):
                loaded = must('load', LSTMForecaster.load, path)
        expect(loaded.window == model.window and loaded.id == model.id, 'load:differs')
        k = trace['n'] - 1
        for who in (model, loaded):
            got = must('predict', who.predict, signal.series(0, k), **self.with_context(reference, signal.data(k)))
            self.agree('loaded' if who is loaded else 'saved', got, reference.predict(k, signal.data(k)))
        ctx.log(number, 'save', sorted((label, round(float(v), 6)) for label, v in got.items()))
        return loaded, net.last['loaded']

    def do_short(self, trace, op, signal, model, reference, ctx, number):
        if trace['window'] < 3:
            return
        series = signal.series(0, trace['window'] - 1)
        before = snapshot(series)
        for what in ('predict', 'forecast', 'apply'):
            kind, exc = call(getattr(model, what), series, **self.with_context(reference, signal.data(trace['window'])))
            expect(kind == 'exc', what + ':too-short', repr(exc))
        expect(snapshot(series) == before, 'too-short:series-changed')

    def do_wrong(self, trace, op, signal, model, reference, ctx, number):
        """Data which is not like the one the model was fitted on is refused."""
        other = TimeSeries()
        for k in range(trace['window'] + 3):
            if op['at'] < 0.5:
                other.append(signal.item(k, dict(signal.data(k), other=1.0)))
            else:
                other.append(build_item({'t': k * 7200, 'd': dict(signal.data(k))}, '2h' if trace['kind'] != 'points' else None, trace['tz']))
        before = snapshot(other)
        for what in ('predict', 'forecast', 'apply', 'evaluate'):
            kind, exc = call(getattr(model, what), other, **(self.with_context(reference, signal.data(0)) if what != 'evaluate' else {}))
            expect(kind == 'exc', what + ':other-data', repr(exc))
        expect(snapshot(other) == before, 'other-data:series-changed')


SCENARIO = P24()
