"""P19: models are evaluated and cross validated only on what they did not know, and exactly on that, even if it goes wrong halfway."""

import math
import statistics

from .. import sched
from ..core import Scenario, call, expect, must
from ..lib import *
from ..zoo import *
from .p02 import clone
from timeseria.models.forecasters import Forecaster
from timeseria.models.reconstructors import Reconstructor

METRICS = ['MSE', 'RMSE', 'MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE']


class RecordingForecaster(UserForecaster):
    """Writes down what it was fitted on, and what it knew for each prediction."""

    fits = []
    known = []
    counter = Counter()

    @Forecaster.fit_function
    def fit(self, series, weight=0.5, verbose=False):
        self.counter()
        self.fits.append(('fit', [item.t for item in series]))
        self.data['window'] = 2
        self.data['weight'] = weight
        self.data['means'] = {label: sum(item.data[label] for item in series) / len(series) for label in series.data_labels()}

    @Forecaster.predict_function
    def predict(self, series, steps=1):
        self.counter()
        known = [item.t for item in series]
        self.known.append((known, len(series), series[-1].t))
        if steps > 1:
            raise NotImplementedError('One step at a time')
        weight = self.data['weight']
        return {label: self.data['means'][label] * weight + series[-1].data[label] * (1 - weight) for label in self.data['data_labels']}


class UpdatingForecaster(RecordingForecaster):
    """One which can be fitted on more data later on."""

    def fit_update(self, series, weight=0.5):
        self.counter()
        self.fits.append(('update', [item.t for item in series]))
        for label in series.data_labels():
            self.data['means'][label] = (self.data['means'][label] + sum(item.data[label] for item in series) / len(series)) / 2


class RecordingReconstructor(UserReconstructor):
    fits = []
    known = []
    counter = Counter()

    @Reconstructor.fit_function
    def fit(self, series, weight=1, verbose=False):
        self.counter()
        self.fits.append(('fit', [item.t for item in series]))
        self.data['weight'] = weight
        self.data['means'] = {label: sum(item.data[label] for item in series) / len(series) for label in series.data_labels()}

    @Reconstructor.predict_function
    def predict(self, series, from_i, to_i):
        self.counter()
        self.known.append((from_i, to_i, series[from_i].t, series[to_i].t))
        return {label: [self.data['means'][label] * self.data['weight'] + k for k in range(from_i, to_i + 1)] for label in series.data_labels()}


MODELS = {'rf': RecordingForecaster, 'upf': UpdatingForecaster, 'rr': RecordingReconstructor, 'paf': PeriodicAverageForecaster, 'par': PeriodicAverageReconstructor, 'lir': LinearInterpolationReconstructor}
RECORDING = ('rf', 'upf', 'rr')


def reset(fail_at=None):
    for cls in (RecordingForecaster, UpdatingForecaster, RecordingReconstructor):
        cls.counter = Counter()
        cls.counter.fail_at = fail_at
        cls.fits = []
        cls.known = []


class P19(Scenario):
    prop = 'P19'
    quick_runs = 2100
    thorough_runs = 40000
    rule = 'a run is non-trivial if a model was cross validated, or evaluated on data with losses or after a failed attempt; runs are distinct by the digest of the scores'
    measure = 'distinct (model, what was asked, number of rounds or steps, metrics, length, fault) tuples'
    real = ['timeseria.models.base', 'timeseria.models.forecasters', 'timeseria.models.reconstructors', 'timeseria.datastructures', 'timeseria.utilities']
    stubbed = ['user-defined models writing down what they know', 'resources (failing at a given call)', 'interruptions and failed allocations (raised at any line of the package)']
    assumptions = ['items not filling a round are never used for validation', 'predictions are positive for logarithmic errors, and actual values are not zero for percentage ones']
    shrinkable = ['ops']

    def generate(self, rng, i):
        family = rng.choice(('rf', 'rf', 'upf', 'rr', 'paf', 'par', 'lir'))
        forecaster = family in ('rf', 'upf', 'paf')
        period = rng.choice((2, 3, 4))
        labels = rng.choice((['value'], ['a', 'b'], ['a', 'b', 'c'])) if forecaster else ['value']
        series = season(rng, n=rng.randint(period * 6, 60), period=period, labels=labels, loss=None if forecaster else rng.choice((None, 0.1, 0.3)), level=100)
        history = season(rng, n=period * 4, period=period, labels=labels, unit='unit' in series, step=series['step'], loss=0, level=100, tz=series['tz'], start=series['items'][0]['t'])
        fit = {'periodicity': period} if family in ('paf', 'par') else {'weight': round(rng.random(), 2)} if family in RECORDING else {}
        ops = []
        for _ in range(rng.randint(1, 3)):
            op = {'op': rng.choice(('evaluate', 'validate', 'validate') if family != 'lir' else ('evaluate',)), 'at': round(rng.random(), 4)}
            if forecaster:
                op['metrics'] = rng.choice((None, sorted(rng.sample(METRICS, rng.randint(1, 4)))))
                op['punctual'] = rng.choice((None, ['E'], ['PE', 'LE']))
                op['results'] = rng.random() < 0.4
            else:
                op['metrics'] = rng.choice((None, ['RMSE'], ['MAE', 'MAPE']))
                op['steps'] = rng.choice((None, 1, 2, 3, [1, 3]))
                op['limit'] = rng.choice((None, None, 3))
                op['details'] = rng.random() < 0.5
                op['th'] = rng.choice((None, 0.5))
            op['rounds'] = rng.choice((None, 2, 3, 4, 5))
            if rng.random() < 0.25:
                op['fault'] = rng.choice(('failure', 'failure', 'interrupt', 'allocation'))
            ops.append(op)
        return {'family': family, 'labels': labels, 'series': series, 'history': history, 'fit': fit, 'ops': ops, 'period': period}

    #==========================
    #  Reference model
    #==========================

    def score(self, metric, actual, predicted):
        e = [abs(a - p) for a, p in zip(actual, predicted)]
        if metric in ('MSE', 'RMSE'):
            mse = sum(x * x for x in e) / len(e)
            return mse if metric == 'MSE' else math.sqrt(mse)
        if metric.endswith('PE'):
            e = [x / abs(a) for x, a in zip(e, actual)]
        if metric.endswith('LE'):
            e = [abs(math.log(a / p)) for a, p in zip(actual, predicted)]
        return max(e) if metric.startswith('H') else sum(e) / len(e)

    def predict_one(self, model, items):
        series = TimeSeries()
        for item in items:
            series.append(clone(item))
        predicted = model.predict(series)
        return predicted[0] if isinstance(predicted, list) else predicted

    def evaluate_forecaster(self, trace, op, model, series):
        """(scores, what was predicted for each item after the window)."""
        window = model.window
        items = list(series)
        predicted = [self.predict_one(model, items[:i]) for i in range(window, len(items))]
        scores = {}
        for label in trace['labels']:
            actual = [item.data[label] for item in items[window:]]
            for metric in op['metrics'] or ['RMSE', 'MAE']:
                scores['{}_{}'.format(label, metric)] = self.score(metric, actual, [p[label] for p in predicted])
        return scores, predicted

    def evaluate_reconstructor(self, trace, op, model, series):
        th = op['th'] if op['th'] is not None else 1.0
        label = trace['labels'][0]
        window = model.window
        n = len(series)
        lost = [item.data_loss is not None and item.data_loss >= th for item in series]
        steps = op['steps']
        if steps is None:
            steps = [1, trace['period']] if trace['family'] == 'par' else [1, 2, 3]
        elif not isinstance(steps, list):
            steps = list(range(1, steps + 1))
        scores, calls = {}, []
        for m in steps:
            actual, predicted = [], []
            samples = 0
            for i in range(window, n - m - window):
                if op['limit'] is not None and samples >= op['limit']:
                    break
                if any(lost[i - window:i + m + window]):
                    continue
                samples += 1
                calls.append((i, i + m - 1, series[i].t, series[i + m - 1].t))
                prediction = model.predict(series, i, i + m - 1)
                predicted += prediction[label] if isinstance(prediction, dict) else [x[label] for x in prediction]
                actual += [series[j].data[label] for j in range(i, i + m)]
            if not samples:
                return None, calls
            for metric in op['metrics'] or ['RMSE', 'MAE']:
                scores['{}_{}_steps'.format(metric, m)] = self.score(metric, actual, predicted)
        totals = {metric: sum(scores['{}_{}_steps'.format(metric, m)] for m in set(steps)) / len(set(steps)) for metric in op['metrics'] or ['RMSE', 'MAE']}
        return dict(scores, **totals) if op['details'] else totals, calls

    #==========================
    #  Execution
    #==========================

    def same_scores(self, what, got, wanted):
        expect(isinstance(got, dict) and set(got) == set(wanted), what + ':metrics', lambda: '{} vs {}'.format(sorted(got), sorted(wanted)))
        for k in wanted:
            expect(close(got[k], wanted[k], 1e-7), what + ':scores', lambda: '{}: {} vs {}'.format(k, got[k], wanted[k]))

    def arguments(self, op, forecaster, family):
        arguments = {}
        if op['metrics'] is not None:
            arguments['error_metrics' if forecaster else 'metrics'] = op['metrics']
        if not forecaster:
            if op['steps'] is not None:
                arguments['steps'] = op['steps']
            if op['limit'] is not None:
                arguments['limit'] = op['limit']
            if op['details']:
                arguments['details'] = True
            if op['th'] is not None:
                arguments['data_loss_threshold'] = op['th']
        return arguments

    def execute(self, trace, ctx):
        family = trace['family']
        forecaster = family in ('rf', 'upf', 'paf')
        series = build(trace['series'])
        history = build(trace['history'])
        before = snapshot(series)
        ctx.sim_time((len(series) + len(history)) * trace['series']['step'])
        for number, op in enumerate(trace['ops']):
            ctx.step()
            reset()
            model = MODELS[family]()
            twin = MODELS[family]()
            arguments = self.arguments(op, forecaster, family)
            ctx.state(family, op['op'], op['rounds'], op['metrics'], op.get('steps'), len(series) // 10, op.get('fault'))
            if op['op'] == 'evaluate':
                if family != 'lir':
                    must('fit', model.fit, history, **trace['fit'])
                    must('fit', twin.fit, history, **trace['fit'])
                self.evaluation(trace, op, model, twin, series, arguments, ctx, forecaster, number)
            else:
                self.validation(trace, op, model, series, arguments, ctx, forecaster, number)
            expect(snapshot(series) == before, op['op'] + ':source-changed', lambda: first_difference(before, snapshot(series)))
        reset()

    def attempt(self, what, op, f, model, ctx, fitted):
        """Something goes wrong halfway: the model is as it was before."""
        fault = op['fault']
        if fault == 'failure':
            if not hasattr(model, 'counter'):
                return
            reset()
            call(f)
            calls = model.counter.calls
            reset(fail_at=int(op['at'] * calls))
            kind, exc = call(f)
            failed = isinstance(exc, OSError) if kind == 'exc' else False
            reset()
            if not failed:
                return
            ctx.fault('failing_call')
        else:
            lines, _ = sched.count_lines(f)
            where, _ = sched.interrupted(f, int(op['at'] * lines), KeyboardInterrupt if fault == 'interrupt' else MemoryError)
            if not where:
                return
            ctx.fault('interruption' if fault == 'interrupt' else 'failed_allocation')
        ctx.nontrivial = True
        expect(model.fitted == fitted, what + ':fitted-after-failure', str(model.fitted))

    def evaluation(self, trace, op, model, twin, series, arguments, ctx, forecaster, number):
        family = trace['family']
        if forecaster and op['punctual']:
            arguments['punctual_error_metrics'] = op['punctual']
        if forecaster and op['results']:
            arguments['return_results_series'] = True
        if op.get('fault') and family != 'lir':
            self.attempt('evaluate', op, lambda: model.evaluate(series, **arguments), model, ctx, True)
        if forecaster:
            wanted, predicted = self.evaluate_forecaster(trace, op, twin, series)
        else:
            wanted, calls = self.evaluate_reconstructor(trace, op, twin, series)
        reset()
        kind, got = call(model.evaluate, series, **arguments)
        if wanted is None:
            expect(kind == 'exc', 'evaluate:not-refused', repr(got))
            return
        expect(kind == 'ok', 'evaluate:unexpected-{}'.format(type(got).__name__), repr(got))
        results = got.pop('series', None)
        self.same_scores('evaluate', got, wanted)
        ctx.log(number, sorted((k, round(v, 9)) for k, v in got.items()))
        if any(item.data_loss for item in series):
            ctx.nontrivial = True
        if forecaster:
            window = twin.window
            if family in RECORDING:
                times = [item.t for item in series]
                known = sorted(k for k, _, _ in model.known)
                expect(known == sorted([times[:i] for i in range(window, len(times))] * len(trace['labels'])), 'evaluate:known', lambda: 'knew {}'.format([len(k) for k in known]))
                expect(all(size == len(k) and last == k[-1] for k, size, last in model.known), 'evaluate:known-more')
            if op['results']:
                expect(isinstance(results, TimeSeries) and len(results) == len(series) - window, 'evaluate:results-series')
                for i, item in enumerate(results):
                    actual = series[i + window].data
                    expect(item.t == series[i + window].t, 'evaluate:results-times')
                    for label in trace['labels']:
                        a, p = actual[label], predicted[i][label]
                        expect(item.data[label] == a and close(item.data[label + '_pred'], p, 1e-9), 'evaluate:results-values', lambda: '{} vs {}'.format(item.data, predicted[i]))
                        extra = {'E': a - p, 'PE': (a - p) / a, 'LE': math.log(a / p) if a / p > 0 else None}
                        for name in op['punctual'] or []:
                            expect(close(item.data['{}_{}'.format(label, name)], extra[name], 1e-7), 'evaluate:results-errors', lambda: '{} {}'.format(name, item.data))
                        if 'MAE' in (op['metrics'] or ['MAE']):
                            expect(close(item.data[label + '_AE'], abs(a - p), 1e-7), 'evaluate:results-errors', lambda: 'AE {}'.format(item.data))
                        if 'MAPE' in (op['metrics'] or []):
                            expect(close(item.data[label + '_APE'], abs((a - p) / a), 1e-7), 'evaluate:results-errors', lambda: 'APE {}'.format(item.data))
        elif family in RECORDING:
            expect(model.known == calls, 'evaluate:gaps', lambda: '{} vs {}'.format([k[:2] for k in model.known], [c[:2] for c in calls]))
        # And again
        kind, again = call(model.evaluate, series, **arguments)
        expect(kind == 'ok', 'evaluate:again', repr(again))
        again.pop('series', None)
        expect(again == got, 'evaluate:again-differs', lambda: '{} vs {}'.format(again, got))

    def validation(self, trace, op, model, series, arguments, ctx, forecaster, number):
        family = trace['family']
        rounds = op['rounds'] or 10
        n = len(series)
        size = n // rounds
        kwargs = {'fit_' + k: v for k, v in trace['fit'].items()}
        kwargs.update({'evaluate_' + k: v for k, v in arguments.items()})
        if op['rounds'] is not None:
            kwargs['rounds'] = op['rounds']

        def copy(a, b):
            result = TimeSeries()
            for k in range(a, b):
                result.append(clone(series[k]))
            return result

        # What fresh models get, round by round
        scores, folds, refused = [], [], False
        for r in range(rounds):
            a, b = r * size, (r + 1) * size
            if a >= n - b:
                chunk, other = (0, a), (b, n)
            else:
                chunk, other = (b, n), (0, a)
            if a == n - b:
                ctx.probe('equal chunks')
            fresh = MODELS[family]()
            kind, exc = call(lambda: fresh.fit(copy(*chunk), **trace['fit']))
            if kind == 'exc':
                refused = True
                break
            updated = False
            if family == 'upf' and other[1] - other[0] >= fresh.window:
                fresh.fit_update(copy(*other), **trace['fit'])
                updated = True
            kind, score = call(lambda: (self.evaluate_forecaster if forecaster else self.evaluate_reconstructor)(trace, op, fresh, copy(a, b))[0])
            if kind == 'exc' or score is None:
                refused = True
                break
            scores.append(score)
            folds.append((a, b, chunk, other if updated else None))
        reset()
        if size <= model.window if family != 'paf' else size <= trace['period']:
            # Rounds which cannot even be evaluated
            return
        if op.get('fault'):
            self.attempt('cross-validate', op, lambda: model.cross_validate(series, **kwargs), model, ctx, False)
        reset()
        kind, got = call(model.cross_validate, series, **kwargs)
        expect(not model.fitted, 'cross-validate:left-fitted')
        if family == 'paf' and any(r * size == n - (r + 1) * size for r in range(rounds)):
            # Which one of the two equal chunks is used makes a difference
            return
        if refused:
            expect(kind == 'exc', 'cross-validate:not-refused', repr(got))
            return
        expect(kind == 'ok', 'cross-validate:unexpected-{}'.format(type(got).__name__), repr(got))
        ctx.nontrivial = True
        ctx.probe('cross validations')
        ctx.log(number, sorted((k, round(v, 9)) for k, v in got.items()))
        times = [item.t for item in series]
        if family in RECORDING:
            # Nothing known when fitting is then evaluated, and everything (but the items not filling a round) is evaluated once
            wanted = []
            for a, b, chunk, other in folds:
                wanted.append(('fit', times[slice(*chunk)]))
                if other:
                    wanted.append(('update', times[slice(*other)]))
            ambiguous = any(a == n - b for a, b, _, _ in folds)
            if ambiguous:
                expect(len([f for f in model.fits if f[0] == 'fit']) == rounds, 'cross-validate:fits')
            else:
                expect(model.fits == wanted, 'cross-validate:fits', lambda: '{} vs {}'.format([(k, v[:1], len(v)) for k, v in model.fits], [(k, v[:1], len(v)) for k, v in wanted]))
            if forecaster:
                window = model.window
                known = [k for k, _, _ in model.known]
                wanted = [times[a:i] for a, b, _, _ in folds for _ in trace['labels'] for i in range(a + window, b)]
                expect(sorted(known) == sorted(wanted), 'cross-validate:known', lambda: '{} vs {}'.format(sorted((k[0], len(k)) for k in known), sorted((k[0], len(k)) for k in wanted)))
                expect(all(size == len(k) and last == k[-1] for k, size, last in model.known), 'cross-validate:known-more')
        if any(a == n - b for a, b, _, _ in folds):
            return
        wanted = {}
        for metric in scores[0]:
            values = [score[metric] for score in scores]
            wanted[metric + '_avg'] = sum(values) / len(values)
            wanted[metric + '_stdev'] = statistics.stdev(values)
        self.same_scores('cross-validate', got, wanted)


SCENARIO = P19()
