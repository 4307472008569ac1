"""P18: anomaly detection judges every item which can be judged, from what was predicted for it, whatever went missing around it and whenever it is done."""

import math
import statistics

from .. import sched
from ..core import Scenario, call, expect, must
from ..lib import *
from ..zoo import *
from .p02 import clone
from timeseria.models.anomaly_detectors import AnomalyDetector, ModelBasedAnomalyDetector

UNITS = {1: '1s', 10: '10s', 600: '10m', 900: '15m', 3600: '1h'}


class UserForecasterDetector(ModelBasedAnomalyDetector):
    """A user-defined detector, based on a user-defined model."""
    model_class = UserForecaster


class UserReconstructorDetector(ModelBasedAnomalyDetector):
    """A user-defined detector, based on a user-defined model."""
    model_class = UserReconstructor


KINDS = {'paad': (PeriodicAverageAnomalyDetector, PeriodicAverageForecaster), 'parad': (PeriodicAverageReconstructorAnomalyDetector, PeriodicAverageReconstructor),
         'ufd': (UserForecasterDetector, UserForecaster), 'urd': (UserReconstructorDetector, UserReconstructor)}


class P18(Scenario):
    prop = 'P18'
    quick_runs = 2500
    thorough_runs = 50000
    rule = 'a run is non-trivial if some items were judged while others could not, or events were marked; runs are distinct by the digest of the anomaly indexes'
    measure = 'distinct (detector, error metric, bounds, kind of index, layout of what could be judged and of what was anomalous, way of asking, fault) tuples'
    real = ['timeseria.models.anomaly_detectors', 'timeseria.models.forecasters', 'timeseria.models.reconstructors', 'timeseria.models.base', 'timeseria.utilities', 'timeseria.datastructures', 'fitter and scipy']
    stubbed = ['the sensors', 'user-defined models', 'the executor fitting distributions', 'interruptions and failed allocations (raised at any line of the package)']
    assumptions = ['predictions are the ones of the model of the detector on its own (see P14 and P20)', 'signed errors are not judged more precisely than the bias of the model', 'no actual value is zero with percentage errors', 'no context', 'errors fitted with a normal distribution']
    shrinkable = ['ops', 'items']

    def generate(self, rng, i):
        if rng.random() < 0.3:
            return self.generate_events(rng)
        kind = rng.choice(('paad', 'paad', 'parad', 'ufd', 'urd'))
        labels = ['value'] if kind == 'parad' else rng.choice((['value'], ['value'], ['a', 'b'], ['a', 'b', 'c']))
        period = rng.choice((2, 3, 4))
        step = rng.choice((600, 900, 3600, 1, 10))
        tz = rng.choice(TIMEZONES)
        slots = rng.random() < 0.4
        start = rng.choice((0, 1446073200 - 1446073200 % 3600, 1600000000 - 1600000000 % 3600))
        shapes = {label: [round(rng.uniform(-3, 3), 3) for _ in range(period)] for label in labels}
        level = rng.choice((60, 100))
        metric = rng.choice(('E', 'AE', 'PE', 'APE'))
        value = lambda label, k: round(level + shapes[label][k % period] + rng.uniform(-1, 1), 4)
        n = period * 3 + rng.randint(8, 20)
        history = [{'t': start + k * step, 'd': {label: value(label, k) for label in labels}} for k in range(n)]
        shift = rng.randint(0, 100)
        items = []
        p = rng.choice((0, 0.1, 0.25))
        spikes = rng.choice((0, 0.1, 0.2))
        lost = 0
        losses = rng.random() < 0.8
        for k in range(rng.randint(period * 2 + 3, 40)):
            item = {'t': start + (k + shift) * step, 'd': {label: value(label, k + shift) for label in labels}}
            if rng.random() < spikes:
                label = rng.choice(labels)
                item['d'][label] = round(item['d'][label] + rng.choice((-1, 1)) * rng.choice((0.7, 1.5, 3, 10, 40)), 4)
                item['spike'] = True
            if losses:
                if lost or rng.random() < p:
                    lost = lost - 1 if lost else rng.choice((0, 0, 1, 3))
                    item['x'] = {'data_loss': rng.choice((1, 1, 1, 0.6))}
                elif rng.random() < 0.9:
                    item['x'] = {'data_loss': rng.choice((0, 0, 0.3))}
            if rng.random() < 0.3:
                item.setdefault('x', {})['battery'] = 0.5
            items.append(item)
        fit = {'error_metric': metric, 'error_distribution': 'norm'}
        if rng.random() < 0.2:
            fit['store_errors'] = False
        if kind in ('paad', 'parad'):
            fit['periodicity'] = period
        init = {}
        if kind in ('ufd', 'urd') and rng.random() < 0.5:
            fit['weight'] = round(rng.random(), 2)
        ops = []
        for _ in range(rng.randint(1, 4)):
            op = {'op': rng.choice(('apply', 'apply', 'apply', 'until', 'until', 'preprocessed', 'wrong')), 'bounds': rng.choice((None, None, ['avg_err', 'max_err'], ['1_sigma', '3_sigma'], ['max_err', '6sig'], [0.5, 2.5] if metric in ('E', 'AE') else [0.005, 0.025])),
                  'type': rng.choice((None, None, 'log', 'lin')), 'strategy': rng.choice((None, 'max', 'min', 'avg')), 'th': rng.choice((None, None, 1.0, 0.5)), 'cut': rng.choice((None, None, None, 0.5)),
                  'at': round(rng.random(), 4)}
            if rng.random() < 0.2:
                op['details'] = rng.choice((True, ['pred'], ['adh', 'err'], ['err', 'pred']))
            if rng.random() < 0.15:
                op['fault'] = rng.choice(('interrupt', 'allocation'))
            if rng.random() < 0.4:
                op['events'] = {'min_persistence': rng.choice((1, 2, 3)), 'max_gap': rng.choice((0, 1, 2, 3)), 'index_treshold': rng.choice((1.0, 0.5))}
            ops.append(op)
        return {'kind': kind, 'tz': tz, 'unit': UNITS[step] if slots else None, 'step': step, 'labels': labels, 'history': history, 'items': items, 'fit': fit, 'init': init, 'ops': ops}

    def generate_events(self, rng):
        items = []
        state = 0
        for k in range(rng.randint(1, 30)):
            if rng.random() < 0.35:
                state = rng.choice((0, 0, 1, 0.6, None))
            item = {'t': 600 * k, 'd': {'value': float(k)}, 'x': {}}
            if state is not None:
                item['x']['anomaly'] = state
            if rng.random() < 0.3:
                item['x']['data_loss'] = 0.5
            items.append(item)
        ops = []
        for _ in range(rng.randint(1, 4)):
            op = {'op': 'events', 'events': {}, 'replace': rng.random() < 0.3, 'inplace': rng.random() < 0.3, 'at': round(rng.random(), 4)}
            if rng.random() < 0.8:
                op['events'] = {'min_persistence': rng.choice((0, 1, 2, 3, 5)), 'max_gap': rng.choice((0, 1, 2, 3)), 'index_treshold': rng.choice((1.0, 0.5, 0.6))}
            if rng.random() < 0.15:
                op['fault'] = rng.choice(('interrupt', 'allocation'))
            ops.append(op)
        return {'kind': 'events', 'tz': rng.choice(TIMEZONES), 'unit': rng.choice((None, '10m')), 'items': items, 'ops': ops}

    #==========================
    #  Events
    #==========================

    def expected_events(self, indexes, min_persistence=2, max_gap=2, index_treshold=1.0):
        """Groups of anomalous items not further than the gap, if persistent enough."""
        at = [i for i, x in enumerate(indexes) if x is not None and x >= index_treshold]
        groups = []
        for i in at:
            if groups and i - groups[-1][1] - 1 <= max_gap:
                groups[-1][1] = i
            else:
                groups.append([i, i])
        marks = [0] * len(indexes)
        for a, b in groups:
            if b - a + 1 >= min_persistence:
                marks[a:b+1] = [1] * (b - a + 1)
        return marks

    def events(self, series, ctx, arguments, replace=False, inplace=False, fault=None, at=0):
        before = snapshot(series)
        source = [(item_snapshot(item), dict(item.data_indexes)) for item in series]
        marks = self.expected_events([x.get('anomaly') for _, x in source], **arguments)
        if fault:
            lines, _ = sched.count_lines(lambda: AnomalyDetector.mark_events(series, replace_index=replace, **arguments))
            where, _ = sched.interrupted(lambda: AnomalyDetector.mark_events(series, replace_index=replace, **arguments), int(at * lines), KeyboardInterrupt if fault == 'interrupt' else MemoryError)
            if where:
                ctx.fault('interruption' if fault == 'interrupt' else 'failed_allocation')
            expect(snapshot(series) == before, 'events:faulted-source-changed', lambda: first_difference(before, snapshot(series)))
        result = must('events', AnomalyDetector.mark_events, series, replace_index=replace, inplace=inplace, **arguments)
        if inplace:
            result = series
        else:
            expect(snapshot(series) == before, 'events:source-changed', lambda: first_difference(before, snapshot(series)))
        expect(len(result) == len(source), 'events:items')
        for k, item in enumerate(result):
            wanted = dict(source[k][1])
            if replace:
                wanted.pop('anomaly_event', None)
            wanted['anomaly' if replace else 'anomaly_event'] = marks[k]
            expect(item.data_indexes == wanted, 'events:marks', lambda: '#{} of {}: {} instead of {} ({})'.format(k, len(source), item.data_indexes, wanted, arguments))
            snap = item_snapshot(item)
            expect({x: v for x, v in snap.items() if x != 'indexes'} == {x: v for x, v in source[k][0].items() if x != 'indexes'}, 'events:item-changed', lambda: '#{}: {}'.format(k, item))
        if any(marks):
            ctx.nontrivial = True
            ctx.probe('events marked')
        ctx.state('events', sorted(arguments.items()), replace, inplace, fault, ''.join(str(m) for m in marks)[:14])
        ctx.log('events', marks)
        return result

    #==========================
    #  Detection
    #==========================

    def error(self, metric, actual, predicted):
        e = actual - predicted
        if metric.endswith('PE'):
            e = e / actual
        return abs(e) if metric.startswith('A') else e

    def predictions(self, trace, model, series, window):
        """What is predicted for each item which has enough of the others around it: {position: data}"""
        out = {}
        reconstructor = trace['kind'] in ('parad', 'urd')
        for i in range(window + 1, len(series)):
            if reconstructor:
                if i > len(series) - window - 1:
                    break
                data = model.predict(series, i, i)
                out[i] = {label: data[label][0] for label in trace['labels']}
            else:
                prefix = TimeSeries()
                for item in list(series)[:i]:
                    prefix.append(clone(item))
                data = model.predict(prefix, steps=1)
                out[i] = dict(data[0] if isinstance(data, list) else data)
        return out

    def bounds(self, op, errors):
        values = []
        for bound in op['bounds'] or ['avg_err', 'max_err']:
            if bound == 'avg_err':
                bound = sum(abs(e) for e in errors) / len(errors)
            elif bound == 'max_err':
                bound = max(abs(e) for e in errors)
            elif isinstance(bound, str):
                bound = float(bound.replace('_sigma', '').replace('sig', '')) * statistics.stdev(errors)
            values.append(bound)
        return values

    def index_range(self, op, trace, x, errors):
        """Where the anomaly index of an error has to be (by how much a signed error exceeds the bias of the model is a matter of definition)."""
        start, end = self.bounds(op, errors)
        loc = sum(errors) / len(errors)
        if not start < end:
            return 0, 1
        absolute = trace['fit']['error_metric'].startswith('A')
        if absolute:
            low = high = x
        else:
            low, high = abs(x) - abs(loc), abs(x) + 2 * abs(loc)
        scale = math.sqrt(sum((e - loc) ** 2 for e in errors) / len(errors))

        def index(v, lower):
            if v <= start:
                return 0
            if v >= end:
                return 1
            if start < loc:
                return 0 if lower else 1
            y = lambda z: math.exp(-((z - loc) / scale) ** 2 / 2)
            if op['type'] == 'lin':
                return 1 - (y(v) - y(end)) / (y(start) - y(end))
            return (math.log10(y(v)) - math.log10(y(start))) / (math.log10(y(end)) - math.log10(y(start)))

        low, high = index(low, True), index(high, False)
        if start < loc and absolute and start < x < end:
            # Bounds below the location of the distribution: not monotone
            return 0, 1
        if op['cut'] is not None:
            low, high = [0 if v < op['cut'] - 1e-9 else 1 for v in (low - 2e-9, high + 2e-9)]
        return low, high

    def execute(self, trace, ctx):
        SimParallel.rng = None
        if trace['kind'] == 'events':
            ctx.sim_time(len(trace['items']) * 600)
            series = build(trace)
            for op in trace['ops']:
                ctx.step()
                if not len(series):
                    return
                result = self.events(series, ctx, op['events'], op['replace'], op['inplace'], op.get('fault'), op['at'])
            return
        reset_counters()
        labels, metric = trace['labels'], trace['fit']['error_metric']
        history = build(dict(trace, items=trace['history']))
        detector_class, model_class = KINDS[trace['kind']]
        fit_arguments = {k: v for k, v in trace['fit'].items() if k not in ('error_metric', 'error_distribution', 'store_errors')}
        detector = detector_class()
        must('fit', detector.fit, history, **trace['fit'])
        model = model_class()
        must('fit-model', model.fit, history, **fit_arguments)
        window = model.window
        predicted = self.predictions(trace, model, history, window)
        errors = {label: [self.error(metric, history[i].data[label], predicted[i][label]) for i in sorted(predicted)] for label in labels}

        specs = [{k: v for k, v in item.items() if k != 'spike'} for item in trace['items']]
        if len(specs) < 3:
            return
        for item in trace['items']:
            if item.get('x', {}).get('data_loss') == 1:
                ctx.fault('data_loss')
            if item.get('spike'):
                ctx.fault('anomaly')
        ctx.sim_time((len(specs) + len(history)) * trace['step'])
        reconstructor = trace['kind'] in ('parad', 'urd')

        for number, op in enumerate(trace['ops']):
            ctx.step()
            n = len(specs)
            if op['op'] == 'until':
                n = 3 + int(op['at'] * (n - 3))
            series = build(dict(trace, items=specs[:n]))
            if len(series) <= window + 1:
                continue
            before = snapshot(series)
            if op['op'] == 'wrong':
                other = build(dict(trace, items=[dict(s, d=dict(s['d'], other=1.0)) for s in specs]))
                kind, exc = call(detector.apply, other)
                expect(kind == 'exc', 'other-labels:not-refused', repr(exc))
                continue
            th = 1.0 if op['th'] is None else op['th']
            lost = [s.get('x', {}).get('data_loss') is not None and s['x']['data_loss'] >= th for s in specs[:n]]
            kwargs = {}
            for name, key in (('bounds', 'index_bounds'), ('type', 'index_type'), ('strategy', 'multivariate_index_strategy'), ('th', 'data_loss_threshold'), ('cut', 'threshold')):
                if op[name] is not None:
                    kwargs[key] = list(op[name]) if isinstance(op[name], list) else op[name]
            details = op.get('details')
            shown = ['adh', 'err', 'pred'] if details is True else details or []
            if details:
                kwargs['details'] = details
            predicted = self.predictions(trace, model, series, window)
            if op['op'] == 'preprocessed':
                series = must('preprocess', detector.preprocess, series)
                expect(snapshot(series) == before, 'preprocess:changed', lambda: first_difference(before, snapshot(series)))
            if op.get('fault'):
                lines, _ = sched.count_lines(lambda: detector.apply(series, **kwargs))
                where, _ = sched.interrupted(lambda: detector.apply(series, **kwargs), int(op['at'] * lines), KeyboardInterrupt if op['fault'] == 'interrupt' else MemoryError)
                if where:
                    ctx.fault('interruption' if op['fault'] == 'interrupt' else 'failed_allocation')
            if op['type'] != 'lin':
                # Bounds where the distribution vanishes are refused
                kind, result = call(detector.apply, series, **kwargs)
                if kind == 'exc' and isinstance(result, ValueError) and 'math domain' in str(result):
                    ctx.probe('bounds refused')
                    continue
            result = must('apply', detector.apply, series, **kwargs)
            expect(snapshot(series) == before, 'apply:source-changed', lambda: first_difference(before, snapshot(series)))
            expect(not kwargs.get('index_bounds') or kwargs['index_bounds'] == op['bounds'], 'apply:bounds-changed', str(kwargs))

            # Every item which has enough of the others around it, in order, as it was
            positions = sorted(predicted)
            expect(len(result) == len(positions), 'apply:items', lambda: '{} instead of {}'.format(len(result), len(positions)))
            layout = ''
            found = []
            for i, item in zip(positions, result):
                was = series[i]
                expect(item.t == was.t and isinstance(item, type(was)) and str(item.tz) == trace['tz'], 'apply:item', lambda: '#{}: {}'.format(i, item))
                expect(item is not was and item.data is not was.data, 'apply:shared-item', lambda: '#{}'.format(i))
                expect({k: v for k, v in item.data.items() if k in labels} == was.data, 'apply:data', lambda: '#{}: {} vs {}'.format(i, item.data, was.data))
                expect({k: v for k, v in item.data_indexes.items() if k != 'anomaly'} == was.data_indexes, 'apply:indexes', lambda: '#{}: {} vs {}'.format(i, item.data_indexes, was.data_indexes))
                around = list(range(i - window, i + 1)) + (list(range(i + 1, i + window + 1)) if reconstructor else [])
                index = item.data_indexes.get('anomaly')
                expect(set(item.data) == set(labels) | {'{}_{}'.format(label, detail) for label in labels for detail in shown}, 'apply:details-labels', lambda: '#{}: {}'.format(i, item.data))
                if any(lost[j] for j in around):
                    expect('anomaly' not in item.data_indexes, 'apply:judged-with-missing-data', lambda: '#{}: {}'.format(i, item.data_indexes))
                    layout += '?'
                    found.append(None)
                    expect(all(v is None for k, v in item.data.items() if k not in labels), 'apply:details-of-missing-data', lambda: '#{}: {}'.format(i, item.data))
                    continue
                expect(index is not None, 'apply:not-judged', lambda: '#{}: {}'.format(i, item.data_indexes))
                ranges = [self.index_range(op, trace, self.error(metric, was.data[label], predicted[i][label]), errors[label]) for label in labels]
                strategy = {'min': min, 'avg': lambda v: sum(v) / len(v)}.get(op['strategy'], max)
                low, high = strategy([r[0] for r in ranges]), strategy([r[1] for r in ranges])
                expect(low - 1e-6 <= index <= high + 1e-6, 'apply:index', lambda: '#{}: {} instead of {}..{} (errors {})'.format(i, index, low, high, {label: self.error(metric, was.data[label], predicted[i][label]) for label in labels}))
                for label in labels:
                    if 'pred' in shown:
                        expect(close(item.data[label + '_pred'], predicted[i][label], 1e-9), 'apply:details', lambda: '#{}: {} vs {}'.format(i, item.data, predicted[i]))
                    error = self.error(metric, was.data[label], predicted[i][label])
                    loc = sum(errors[label]) / len(errors[label])
                    if 'err' in shown:
                        # On the right side of the distribution, if not there already
                        expect(abs(abs(item.data[label + '_err']) - abs(error)) <= 2 * abs(loc) + 1e-6, 'apply:details-error', lambda: '#{}: {} vs {}'.format(i, item.data, error))
                    if 'adh' in shown:
                        scale = math.sqrt(sum((e - loc) ** 2 for e in errors[label]) / len(errors[label]))
                        adherences = [math.exp(-((e - loc) / scale) ** 2 / 2) for e in ((error,) if metric.startswith('A') else (error, abs(error) - abs(loc), abs(error) + 2 * abs(loc)))] if scale else []
                        expect(not scale or min(adherences) - 1e-6 <= item.data[label + '_adh'] <= (1 if not metric.startswith('A') and abs(error) <= 2 * abs(loc) else max(adherences)) + 1e-6, 'apply:details-adherence',
                               lambda: '#{}: {} instead of {}'.format(i, item.data, adherences))
                layout += '0' if index == 0 else '1' if index >= 1 else '.'
                found.append(index)
            if '?' in layout and len(set(layout)) > 1:
                ctx.nontrivial = True
                ctx.probe('judged with missing data around')
            if '1' in layout:
                ctx.probe('anomalies found')
            ctx.log(number, [None if x is None else round(float(x), 6) for x in found])
            ctx.state(trace['kind'], metric, op['bounds'], op['type'], layout[:8], op['op'], op.get('fault'))
            if op.get('events') and len(result):
                self.events(result, ctx, op['events'])
        reset_counters()


SCENARIO = P18()
