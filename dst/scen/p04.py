"""P04: whatever goes missing on the way, resampled and aggregated values are the ones of the signal as it was observed."""

from ..core import call, expect, Violation
from ..lib import *
from .. import feed
from .p03 import P03
from timeseria.interpolators import LinearInterpolator, UniformInterpolator
from timeseria.transformations import Resampler, Aggregator
from timeseria.operations import avg, min as op_min, max as op_max, sum as op_sum


def spread(series):
    """A user-defined operation."""
    values = [dict(item.data) for item in series]
    return {label: max(x[label] for x in values) - min(x[label] for x in values) for label in values[0]}


def pairs(series):
    """A user-defined operation, going through the series while going through it."""
    result = {label: 0.0 for label in series.data_labels()}
    for x in series:
        for y in series:
            for label in result:
                result[label] += abs(x.data[label] - y.data[label])
    return result


def zone(series):
    """A user-defined operation, interested in the local time."""
    zones = set(str(item.tz) for item in series)
    return {label: len(zones) for label in series.data_labels()}


class P04(P03):
    prop = 'P04'
    rule = 'a run is non-trivial if some value had to be computed with missing data; runs are distinct by the digest of their results'
    measure = 'distinct (transformation, interval over unit, readings in the interval up to 6, losses rounded to 1/8) tuples'
    MODES = ('resample', 'resample', 'aggregate', 'aggregate', 'calendar')
    quick_runs = 7500

    def generate(self, rng, i):
        trace = super().generate(rng, i)
        trace['ops'] = rng.sample(['avg', 'min', 'max', 'sum', 'spread', 'pairs', 'zone'], rng.randint(1, 6))
        trace['uniform'] = rng.random() < 0.2
        trace['by_name'] = rng.random() < 0.3
        trace['fill'] = rng.choice((None, None, None, -999, 0))
        trace['at'] = [[round(rng.uniform(-0.15, 1.15), 4), rng.random() < 0.4] for _ in range(rng.choice((0, 0, 2, 5)))]
        return trace

    def run_transformation(self, trace, series, kwargs, operations=None):
        unit = self.unit(trace)
        args = {'interpolator_class': UniformInterpolator} if trace['uniform'] else {}
        if trace['mode'] == 'resample':
            return Resampler(unit, **args).process(series, **kwargs)
        kwargs = dict(kwargs)
        if trace['fill'] is not None:
            kwargs['fill_with'] = trace['fill']
        operations = [{'avg': avg, 'min': op_min, 'max': op_max, 'sum': op_sum, 'spread': spread, 'pairs': pairs, 'zone': zone}[name] for name in trace['ops']]
        if trace['by_name']:
            operations = [name if name in ('avg', 'min', 'max', 'sum') else operation for name, operation in zip(trace['ops'], operations)]
        return Aggregator(unit, operations=operations, **args).process(series, **kwargs)

    def expected_values(self, ts, values, v, a, b, R, name, uniform=False):
        """The values on which the operations not supporting weights work on."""
        inside = [i for i, t in enumerate(ts) if a <= t < b]
        if not inside:
            loss, average = feed.loss_and_average(ts, values, v, a, b, R, uniform)
            return [average]
        out = []
        for k, i in enumerate(inside):
            if k:
                j = inside[k-1]
                lo, hi = R[j][1], R[i][0]
                if lo < hi:
                    m = (lo + hi) / 2
                    out.append(values[j] + (values[i] - values[j]) * (0.5 if uniform else (m - ts[j]) / (ts[i] - ts[j])))
            out.append(values[i])
        return out

    def execute(self, trace, ctx):
        ready = self.setup(trace, ctx)
        if not ready:
            ctx.probe('too-few-readings')
            return
        readings, ts, v, series, kwargs = ready
        before = snapshot(series)
        out = self.transform(trace, series, kwargs, ts, ctx)
        R = feed.regions(ts, v)
        u = trace['unit'] if not isinstance(trace['unit'], str) else None
        slots = trace['mode'] != 'resample'
        resampling_labels = sorted(trace['labels'])
        for i, item in enumerate(out):
            a, b = self.interval(item, u)
            inside = sum(1 for t in ts if a <= t < b)
            expected_labels = resampling_labels if not slots else sorted('{}_{}'.format(label, name) for label in trace['labels'] for name in trace['ops'])
            expect(sorted(item.data) == expected_labels, 'wrong-labels', lambda: '{} vs {}'.format(sorted(item.data), expected_labels))
            for label in trace['labels']:
                values = [r['d'][label] for r in readings]
                loss, average = feed.loss_and_average(ts, values, v, a, b, R, trace['uniform'])
                if a < R[0][0] < b:
                    # Before the first reading there is nothing to interpolate from
                    _, average = feed.loss_and_average(ts, values, v, R[0][0], b, R, trace['uniform'])
                if slots and trace['fill'] is not None and abs(loss - 1) < 1e-9 and item.data_loss == 1:
                    for name in trace['ops']:
                        got = item.data['{}_{}'.format(label, name)]
                        expect(got == trace['fill'], 'not-filled:{}'.format(name), lambda: 'slot #{}: {}'.format(i, got))
                    ctx.probe('filled')
                    continue
                if not slots:
                    self.compare('resample', i, item, a, b, item.data[label], average)
                else:
                    on = None
                    for name in trace['ops']:
                        got = item.data['{}_{}'.format(label, name)]
                        if name == 'avg':
                            want = average
                        else:
                            on = on or self.expected_values(ts, values, v, a, b, R, name, trace['uniform'])
                            want = {'min': min, 'max': max, 'sum': sum, 'spread': lambda x: max(x) - min(x), 'pairs': lambda x: sum(abs(i - j) for i in x for j in x), 'zone': lambda x: 1}[name](on)
                        self.compare(name, i, item, a, b, got, want)
                ctx.log(i, a, b, round(average, 5))
                if loss > 1e-6:
                    ctx.nontrivial = True
                ctx.state(trace['mode'], round((u or 0) / v, 2), min(inside, 6), round(loss * 8))
            if trace['index']:
                self.check_index(trace, readings, ts, v, a, b, R, item, i)
        for fraction, given in trace['at']:
            self.interpolate(trace, readings, ts, series, ts[0] + (ts[-1] - ts[0]) * fraction, given, ctx)
        diff = first_difference(before, snapshot(series))
        expect(diff is None, 'source-changed', lambda: diff)
        ctx.probe('items', len(out))

    def interpolate(self, trace, readings, ts, series, at, given, ctx):
        """At a single instant."""
        interpolator = (UniformInterpolator if trace['uniform'] else LinearInterpolator)(series)
        if at in ts:
            return
        before = [i for i, t in enumerate(ts) if t < at]
        if not before or len(before) == len(ts):
            result = call(interpolator.evaluate, at, *([0, len(ts) - 1] if given else []))
            expect(result[0] == 'exc', 'interpolated-outside', lambda: 'got {} at {} for readings from {} to {}'.format(result[1], at, ts[0], ts[-1]))
            return
        k = before[-1]
        result = call(interpolator.evaluate, at, **({'prev_i': k, 'next_i': k + 1} if given else {}))
        expect(result[0] == 'ok', 'not-interpolated', lambda: '{} at {} for readings from {} to {}'.format(result[1], at, ts[0], ts[-1]))
        for label in trace['labels']:
            a, b = readings[k]['d'][label], readings[k + 1]['d'][label]
            want = a + (b - a) * (0.5 if trace['uniform'] else (at - ts[k]) / (ts[k + 1] - ts[k]))
            expect(close(result[1][label], want, 1e-6), 'wrong-interpolation', lambda: '{} instead of {} at {}'.format(result[1][label], want, at))
        ctx.probe('interpolated')

    def compare(self, name, i, item, a, b, got, want):
        expect(close(got, want, 1e-6), 'wrong-value:{}'.format(name), lambda: 'item #{} ({}..{}, data loss {}): {} instead of {}'.format(i, a, b, item.data_loss, got, want))

    def check_index(self, trace, readings, ts, v, a, b, R, item, i):
        """Other indexes are averaged over the readings which have them."""
        name = trace['index']
        if not any(r.get('x', {}).get(name) is not None for r in readings):
            return
        total = weights = 0
        for s, e, k, _ in feed.pieces(ts, [0.0] * len(ts), v, a, b, R):
            if k is not None and readings[k].get('x', {}).get(name) is not None:
                total += readings[k]['x'][name] * (e - s)
                weights += e - s
        got = item.data_indexes.get(name)
        if weights < 1e-7 * (b - a):
            expect(got is None or weights > 0, 'wrong-index', lambda: 'item #{}: {} instead of none'.format(i, got))
        else:
            expect(close(got, total / weights, 1e-5), 'wrong-index', lambda: 'item #{}: {} instead of {}'.format(i, got, total / weights))


SCENARIO = P04()
