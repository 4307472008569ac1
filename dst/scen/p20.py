"""P20: forecasts continue the series they are applied to, consistently, at whatever moment of its life they are made."""

import datetime
import math

import pytz

from .. import sched
from ..core import Scenario, call, expect, must
from ..lib import *
from ..zoo import *
from .p02 import clone

UNITS = {1: '1s', 10: '10s', 600: '10m', 900: '15m', 1800: '30m', 3600: '1h'}
CHANGES = {'Europe/Rome': 1459000800, 'America/New_York': 1478390400, 'Australia/Lord_Howe': 1475330400, 'Pacific/Chatham': 1475330400, 'Asia/Kolkata': 1459000800, 'UTC': 1459000800}


class Clock():
    """The times of a signal, by position, and the phases of its period at them."""

    def __init__(self, trace):
        self.trace = trace
        self.kind = trace['kind']
        self.tz = trace['tz']
        if self.kind in ('1D', '1M'):
            self.starts = calendar_starts(self.tz, trace['year'], trace['month'], 1, self.kind, trace['positions'] + 1)

    def at(self, k):
        if self.kind in ('1D', '1M'):
            return self.starts[k]
        return self.trace['start'] + k * self.trace['step']

    def phase(self, k, label=None):
        if self.trace.get('periods'):
            return k % self.trace['periods'][label]
        if not self.trace['fit'].get('dst_affected') or self.kind in ('1D', '1M'):
            return k % self.trace['period']
        zone = pytz.timezone(self.tz)
        t = self.at(k)
        local = datetime.datetime.fromtimestamp(t, tz=pytz.UTC).astimezone(zone)
        return int((t + local.dst().total_seconds()) // self.trace['step']) % self.trace['period']

    def value(self, label, k):
        return self.trace['shapes'][label][self.phase(k, label)]


def only(series, label):
    """A series with a label only."""
    result = TimeSeries()
    for item in series:
        item = clone(item)
        for other in list(item.data):
            if other != label:
                del item.data[other]
        result.append(item)
    return result


class P20(Scenario):
    prop = 'P20'
    quick_runs = 7000
    thorough_runs = 100000
    rule = 'a run is non-trivial if a series was forecast after it was extended, or more than one step ahead, or on the result of another forecast; runs are distinct by the digest of their forecasts'
    measure = 'distinct (model, kind of series, time zone, across a daylight saving time change, way of asking, number of steps) tuples'
    real = ['timeseria.models.forecasters', 'timeseria.models.base', 'timeseria.datastructures', 'timeseria.units', 'timeseria.utilities']
    stubbed = ['the sensors (exactly periodic signals, or with noise)', 'a user-defined forecaster', 'resources (failing at a given call)', 'interruptions and failed allocations (raised at any line of the package)']
    assumptions = ['a forecaster is fitted on data with all the phases of the period', 'the last item of the window is not necessarily used', 'no context data']
    shrinkable = ['ops']

    def generate(self, rng, i):
        family = rng.choice(('paf', 'paf', 'paf', 'uf'))
        kind = rng.choice(('points', 'points', 'slots', 'slots', '1D', '1M'))
        tz = rng.choice(TIMEZONES)
        step = rng.choice((600, 900, 1800, 3600, 1, 10))
        period = rng.choice((2, 3, 4, 7))
        dst = kind in ('points', 'slots') and tz != 'Australia/Lord_Howe' and rng.random() < 0.4 or kind in ('points', 'slots') and step <= 1800 and rng.random() < 0.2
        if dst:
            period = rng.choice((24, 4, 6)) if step == 3600 else rng.choice((48, 24, 8)) if step == 1800 else period
        labels = rng.choice((['value'], ['a', 'b'], ['temp in', 'Umidità', 'c']))
        positions = period * 4 + rng.randint(0, period) + 60
        start = rng.choice((0, 1446073200, 1600000000 - 1600000000 % 3600))
        if dst:
            start = CHANGES[tz] - rng.randint(1, positions) * step
        start -= start % 3600
        if not dst and rng.random() < 0.3:
            start += rng.choice((-86400 * 40, -3600 * period * 3, -step, 0)) + rng.randint(0, step - 1)     # Around the epoch, and anyhow aligned
        fit = {}
        if family == 'paf':
            fit = {'periodicity': period}
            if dst:
                fit['dst_affected'] = True
            if rng.random() < 0.3:
                fit['data_loss_limit'] = rng.choice((0.5, 1.0))
        else:
            fit = {'weight': round(rng.random(), 2)}
        split = period * 3 + rng.randint(0, period)
        trace = {'family': family, 'kind': kind, 'tz': tz, 'step': step, 'period': period, 'labels': labels, 'start': start, 'positions': positions, 'fit': fit,
                 'year': rng.choice((2015, 2019)), 'month': rng.randint(1, 12), 'split': split, 'live_from': rng.randint(0, positions - 45), 'live_n': rng.randint(2, 12) + period,
                 'init': {'window': rng.choice((1, 2, period, period + 2))} if family == 'paf' and rng.random() < 0.4 else {},
                 'noise': rng.choice((0, 0, 0, 0.5)), 'shift': {label: rng.choice((0, 0, 7.5, -30)) for label in labels},
                 'shapes': {label: [round(rng.uniform(-3, 3) + 50, 3) for _ in range(period)] for label in labels},
                 'loss': rng.choice((0, 0, 0.1, 0.3)), 'salt': rng.randint(0, 10**6)}
        if family == 'paf' and not dst and rng.random() < 0.2:
            # Each label with its own period, to be detected
            trace['periods'] = {label: rng.choice((4, 5, 6, 8)) for label in labels}
            trace['period'] = period = max(trace['periods'].values())
            fit.pop('data_loss_limit', None)
            fit['periodicity'] = 'auto'
            trace.update(loss=0, noise=0, init={}, split=120, positions=200, live_from=rng.randint(0, 120))
            trace['shapes'] = {label: [round(50 + 5 * math.sin(6.283185307 * (j + 0.3) / p), 6) for j in range(p)] for label, p in trace['periods'].items()}
        ops = []
        for _ in range(rng.randint(1, 7)):
            op = {'op': rng.choice(('extend', 'extend', 'forecast', 'apply', 'apply', 'apply', 'predict', 'chain', 'prefix', 'recent', 'shift', 'short', 'wrong')), 'n': rng.choice((1, 1, 2, 3, 5, 8)), 'inplace': rng.random() < 0.35, 'at': round(rng.random(), 4)}
            if rng.random() < 0.12:
                op['fault'] = rng.choice(('failure', 'interrupt', 'allocation'))
            ops.append(op)
        trace['ops'] = ops
        return trace

    def item(self, trace, clock, k, data, indexes=None):
        spec = {'t': clock.at(k), 'd': data}
        if indexes:
            spec['x'] = indexes
        unit = {'points': None, 'slots': UNITS[trace['step']]}.get(trace['kind'], trace['kind'])
        return build_item(spec, unit, trace['tz'])

    def execute(self, trace, ctx):
        import random
        rng = random.Random(trace['salt'])
        reset_counters()
        clock = Clock(trace)
        family, labels, period = trace['family'], trace['labels'], trace['period']
        noise = lambda: rng.uniform(-1, 1) * trace['noise']
        slots = trace['kind'] != 'points'

        # The history, where what is mostly lost has wrong values if the model is expected to discard it
        limit = trace['fit'].get('data_loss_limit', 1.0)
        history = TimeSeries()
        observed = set()
        totals = {label: 0.0 for label in labels}
        for k in range(trace['split']):
            data = {label: clock.value(label, k) + noise() for label in labels}
            loss = None
            if rng.random() < trace['loss']:
                loss = rng.choice((1, 0.6, 0.2))
                ctx.fault('data_loss')
            if loss is not None and loss >= limit and family == 'paf':
                data = {label: rng.uniform(-1000, 1000) for label in labels}
            else:
                observed.add(k % period if trace.get('periods') else clock.phase(k))
            for label in labels:
                totals[label] += data[label]
            history.append(self.item(trace, clock, k, data, {'data_loss': loss} if loss is not None or trace['salt'] % 3 == 0 else {}))
        if family == 'paf' and len(observed) < period:
            ctx.probe('phases never observed')
            return

        model = FAMILIES[family](**trace['init'])
        must('fit', model.fit, history, **trace['fit'])
        if trace.get('periods'):
            # What is forecast for a label does not depend on the others
            for label in labels:
                alone = FAMILIES[family]()
                must('fit-alone', alone.fit, only(history, label), **trace['fit'])
                for a, b in zip(must('predict-alone', alone.predict, only(history, label), steps=period + 1), must('predict', model.predict, history, steps=period + 1)):
                    expect(close(a[label], b[label], 1e-6), 'label:depends-on-the-others', lambda: '{}: {} vs {}'.format(label, a, b))
            if any(alone_period != trace['periods'][label] for label, alone_period in model.data['periodicities'].items()):
                ctx.probe('other period detected')
                return
            ctx.probe('periods detected')
        ctx.sim_time(abs(clock.at(trace['split']) - clock.at(0)))
        window = trace['init'].get('window', period) if family == 'paf' else 2
        means = {label: totals[label] / trace['split'] for label in labels}

        # The live series: at another level, and with the same period
        first = trace['live_from']
        live = TimeSeries()
        position = first

        def extend(n):
            nonlocal position
            for _ in range(n):
                if position >= trace['positions'] - 20:
                    return
                data = {label: clock.value(label, position) + trace['shift'][label] + noise() for label in labels}
                live.append(self.item(trace, clock, position, data, {'data_loss': 0} if trace['salt'] % 2 else {}))
                position += 1

        extend(max(trace['live_n'], window, 3))
        if len(live) < max(window, 3):
            return

        def following(series, n):
            """What has to come next: [(t, end, data or None if not known)]."""
            last = {label: series[-1].data[label] for label in labels}
            out = []
            for j in range(n):
                k = position + j
                data = None
                if family == 'uf':
                    w = trace['fit'].get('weight', 0.5)
                    last = {label: means[label] * w + last[label] * (1 - w) for label in labels}
                    data = dict(last)
                elif not trace['noise']:
                    data = {label: clock.value(label, k) + trace['shift'][label] for label in labels}
                out.append((clock.at(k), clock.at(k + 1), data))
            return out

        def check(what, items, wanted):
            expect(len(items) == len(wanted), what + ':steps', lambda: '{} vs {}'.format(len(items), len(wanted)))
            for j, (item, (t, end, data)) in enumerate(zip(items, wanted)):
                expect(isinstance(item, DataTimeSlot if slots else DataTimePoint), what + ':type', lambda: type(item).__name__)
                if slots:
                    expect(close(item.start.t, t, 1e-12) and close(item.end.t, end, 1e-12), what + ':times', lambda: '#{}: {} instead of [{},{}]'.format(j, item, t, end))
                    expect(str(item.unit) == str(live[0].unit), what + ':unit', lambda: '{} vs {}'.format(item.unit, live[0].unit))
                else:
                    expect(close(item.t, t, 1e-12), what + ':times', lambda: '#{}: {} instead of {}'.format(j, item, t))
                expect(str(item.tz) == trace['tz'], what + ':time-zone', lambda: '#{}: {}'.format(j, item.tz))
                expect(set(item.data) == set(labels), what + ':labels', lambda: '#{}: {}'.format(j, item.data))
                if data is not None:
                    expect(close_data(item.data, data, 1e-6), what + ':data', lambda: '#{}: {} instead of {}'.format(j, item.data, data))

        def copy_of(series):
            result = TimeSeries()
            for item in series:
                result.append(clone(item))
            return result

        def forecast(what, series, n):
            """As a list of items, however it is asked."""
            if family == 'uf' and n > 1:
                return list(must(what, model.apply, series, steps=n))[len(series):]
            result = must(what, model.forecast, series, steps=n)
            return result if isinstance(result, list) else [result]

        extended = False
        for number, op in enumerate(trace['ops']):
            ctx.step()
            name, n = op['op'], op['n']
            across = len(set(x.dt.utcoffset() for x in (live[0].start if slots else live[0], live[-1].start if slots else live[-1]))) > 1
            ctx.state(family, trace['kind'], trace['tz'], across, name, n)
            before = snapshot(live)
            if name == 'extend':
                extend(n)
                extended = True
                continue
            if name == 'forecast':
                check('forecast', forecast('forecast', live, n), following(live, n))
            elif name == 'predict':
                if family == 'uf':
                    n = 1
                predicted = must('predict', model.predict, live, steps=n)
                predicted = predicted if isinstance(predicted, list) else [predicted]
                expect(len(predicted) == n, 'predict:steps')
                for j, (got, (_, _, data)) in enumerate(zip(predicted, following(live, n))):
                    expect(set(got) == set(labels), 'predict:labels', lambda: str(got))
                    expect(data is None or close_data(got, data, 1e-6), 'predict:data', lambda: '#{}: {} instead of {}'.format(j, got, data))
            elif name in ('apply', 'chain'):
                target = copy_of(live)
                if op.get('fault'):
                    self.faulted(family, model, target, n, op, ctx)
                total = n if name == 'apply' else n + 1 + int(op['at'] * 3)
                wanted = following(live, total)
                got = must('apply', model.apply, target, steps=n, inplace=op['inplace'])
                if op['inplace']:
                    expect(got is None, 'in-place:returned', repr(got))
                    got = target
                else:
                    expect(snapshot(target) == before, 'apply:source-changed', lambda: first_difference(before, snapshot(target)))
                self.marked('apply', got, live, n)
                check('apply', list(got)[len(live):], wanted[:n])
                plain = forecast('forecast', live, n)
                expect(all(close_data(a.data, b.data, 1e-9) for a, b in zip(plain, list(got)[len(live):])), 'apply:differs-from-forecast', lambda: '{} vs {}'.format(plain, list(got)[len(live):]))
                if name == 'chain':
                    more = must('chain', model.apply, got, steps=total - n)
                    expect(len(more) == len(live) + total, 'chain:items')
                    check('chain', list(more)[len(live):], wanted)
                ctx.log(number, name, [[round(v, 6) for _, v in sorted(item.data.items())] for item in list(got)[len(live):]])
                if extended or n > 1 or name == 'chain':
                    ctx.nontrivial = True
            elif name == 'prefix':
                longer = forecast('prefix', live, n + 1 + int(op['at'] * 4))
                shorter = forecast('prefix', live, n)
                for j, (a, b) in enumerate(zip(shorter, longer)):
                    expect(a.t == b.t and close_data(a.data, b.data, 1e-9), 'prefix:differs', lambda: '#{}: {} vs {}'.format(j, a, b))
            elif name == 'recent':
                # Only the window matters
                keep = min(len(live), max(window + 1, 3) + int(op['at'] * 3))
                if len(live) == window:
                    continue
                recent = TimeSeries()
                for item in list(live)[-keep:]:
                    recent.append(clone(item))
                for j, (a, b) in enumerate(zip(forecast('recent', live, n), forecast('recent', recent, n))):
                    expect(a.t == b.t and close_data(a.data, b.data, 1e-9), 'recent:differs', lambda: '#{}: {} vs {}'.format(j, a, b))
            elif name == 'shift':
                if family == 'uf':
                    continue
                higher = copy_of(live)
                for item in higher:
                    for label in labels:
                        item.data[label] += 11.5
                for j, (a, b) in enumerate(zip(forecast('shift', live, n), forecast('shift', higher, n))):
                    expect(a.t == b.t and close_data({label: v + 11.5 for label, v in a.data.items()}, b.data, 1e-6), 'shift:differs', lambda: '#{}: {} vs {}'.format(j, a, b))
            elif name == 'short':
                if family == 'uf' or window < 4:
                    continue
                short = TimeSeries()
                for item in list(live)[-(window - 1):]:
                    short.append(clone(item))
                was = snapshot(short)
                kind, exc = call(model.apply, short, steps=n)
                expect(kind == 'exc', 'short:not-refused', repr(exc))
                expect(snapshot(short) == was, 'short:changed')
            elif name == 'wrong':
                self.wrong(trace, clock, model, live, op, ctx)
            expect(snapshot(live) == before, name + ':source-changed', lambda: first_difference(before, snapshot(live)))
        reset_counters()

    def marked(self, what, got, live, n):
        expect(len(got) == len(live) + n, what + ':items', lambda: '{} vs {} + {}'.format(len(got), len(live), n))
        expect(str(got.tz) == str(live.tz) and str(got.resolution) == str(live.resolution), what + ':series', lambda: '{} {}'.format(got.tz, got.resolution))
        for k in range(len(live)):
            a, b = got[k], live[k]
            expect(a.data_indexes.get('forecast') == 0, what + ':forecast-index', lambda: '#{}: {}'.format(k, a.data_indexes))
            expect({x: v for x, v in a.data_indexes.items() if x != 'forecast'} == b.data_indexes and a.data == b.data and a.t == b.t and str(a.tz) == str(b.tz), what + ':items-changed', lambda: '#{}: {} vs {}'.format(k, a, b))
        for k in range(len(live), len(got)):
            expect(got[k].data_indexes.get('forecast') == 1, what + ':forecast-index', lambda: '#{}: {}'.format(k, got[k].data_indexes))

    def faulted(self, family, model, target, n, op, ctx):
        before = snapshot(target)
        if op['fault'] == 'failure':
            if family != 'uf':
                return
            UserForecaster.counter.calls = 0
            UserForecaster.counter.fail_at = int(op['at'] * n)
            kind, _ = call(model.apply, target, steps=n)
            reset_counters()
            if kind == 'exc':
                ctx.fault('failing_call')
        else:
            lines, _ = sched.count_lines(lambda: model.apply(target, steps=n))
            where, _ = sched.interrupted(lambda: model.apply(target, steps=n), int(op['at'] * lines), KeyboardInterrupt if op['fault'] == 'interrupt' else MemoryError)
            if where:
                ctx.fault('interruption' if op['fault'] == 'interrupt' else 'failed_allocation')
        expect(snapshot(target) == before, 'faulted:source-changed', lambda: first_difference(before, snapshot(target)))

    def wrong(self, trace, clock, model, live, op, ctx):
        """Data which is not like the one the model was fitted on is refused."""
        other = TimeSeries()
        what = 'labels' if op['at'] < 0.5 else 'resolution'
        if what == 'labels':
            for item in live:
                item = clone(item)
                item.data['other'] = 1.0
                other.append(item)
        else:
            for k, item in enumerate(live):
                other.append(build_item({'t': k * 7200, 'd': dict(item.data)}, '2h' if trace['kind'] != 'points' else None, trace['tz']))
        before = snapshot(other)
        kind, exc = call(model.apply, other, steps=op['n'], inplace=op['inplace'])
        expect(kind == 'exc', 'other-{}:not-refused'.format(what), repr(exc))
        expect(snapshot(other) == before, 'other-{}:changed'.format(what), lambda: first_difference(before, snapshot(other)))
        ctx.probe('other {} refused'.format(what))


SCENARIO = P20()
