"""P14: reconstructing changes only what was lost, from what was observed around it, whenever and however many times it is done."""

import datetime

import pytz

from .. import sched
from ..core import Scenario, call, expect, must
from ..feed import deliver, generate, series_of
from ..lib import *
from ..zoo import *
from .p02 import clone

INDEX = 'battery'


def phase(t, step, period, tz, dst_affected):
    """The position in the period of an item, on the local time (if affected by the daylight saving time) or not."""
    if step in ('1D', '1M'):
        local = datetime.datetime.fromtimestamp(t, tz=pytz.UTC).astimezone(pytz.timezone(tz))
        return (local.toordinal() if step == '1D' else local.year * 12 + local.month) % period
    if dst_affected:
        dst = pytz.timezone(tz).normalize(datetime.datetime.fromtimestamp(t, tz=pytz.UTC).astimezone(pytz.timezone(tz))).dst()
        t = t + dst.total_seconds()
    return int(t // step) % period


class P14(Scenario):
    prop = 'P14'
    quick_runs = 6000
    thorough_runs = 150000
    rule = 'a run is non-trivial if at least one gap was reconstructed; runs are distinct by the digest of what was reconstructed'
    measure = 'distinct (model, kind of series, layout of the gaps, threshold, in place or not, fault) tuples'
    real = ['timeseria.models.reconstructors', 'timeseria.models.base', 'timeseria.interpolators', 'timeseria.transformations', 'timeseria.datastructures', 'timeseria.utilities']
    stubbed = ['the sensors and the network', 'a user-defined reconstructor', 'resources (failing at a given call)', 'interruptions and failed allocations (raised at any line of the package)']
    assumptions = ['gaps touching the ends of the series are refused, as they have no other side', 'a reconstructor is fitted on data with all the phases of the period']
    shrinkable = ['ops', 'items', 'readings']

    def generate(self, rng, i):
        family = rng.choice(('lir', 'lir', 'par', 'par', 'par', 'ur'))
        labels = ['value'] if family == 'par' else rng.choice((['value'], ['a', 'b'], ['temp in', 'Umidità', 'c']))
        period = rng.choice((3, 4, 6, 24))
        step = rng.choice((600, 900, 3600, 1800, 60, 12))
        tz = rng.choice(TIMEZONES)
        dst = rng.random() < 0.3
        start = rng.choice((0, 1446073200, 1600000000 - 1600000000 % 3600, -5 * 86400, -7 * 86400 + 1234))
        pipeline = rng.random() < 0.25
        history = season(rng, n=period * 3 + rng.randint(0, period), period=period, labels=labels, unit=rng.random() < 0.5, tz=tz, loss=rng.choice((0, 0.1, 0.3)), start=start, step=step)
        trace = {'family': family, 'labels': labels, 'period': period, 'step': step, 'tz': tz, 'history': history, 'readings': [], 'items': [],
                 'init': {}, 'fit': {}, 'pipeline': None}
        if family == 'par':
            trace['fit'] = {'periodicity': rng.choice((period, period, period, 2)), 'dst_affected': dst, 'offset_method': rng.choice(('average', 'extremes'))}
            if rng.random() < 0.4:
                trace['fit']['data_loss_limit'] = rng.choice((0.5, 1.0, None))
        elif family == 'ur':
            trace['fit'] = {'weight': round(rng.random(), 2)}
        live_start = start + step * rng.choice((0, len(history['items']), 1000))
        if dst and rng.random() < 0.6:
            # Across a daylight saving time change
            live_start = rng.choice((1459000800, 1477782000, 1475900000 - 1475900000 % 3600, 1459600000 - 1459600000 % 3600))
        if pipeline:
            interval = rng.choice((step // 6, step // 3, step // 2))
            trace['pipeline'] = {'interval': interval, 'slots': 'unit' in history}
            trace['readings'] = generate(rng, n=rng.randint(20, 120), interval=interval, start=live_start, labels=labels, index=rng.choice((None, INDEX)))
        else:
            live = season(rng, n=rng.randint(4, 40), period=period, labels=labels, unit='unit' in history, tz=tz, loss=rng.choice((0.1, 0.3, 0.5)), start=0, index=rng.choice((None, INDEX)), step=step)
            for k, item in enumerate(live['items']):
                item['t'] = live_start + k * step
                if rng.random() < 0.05:
                    item['x'].pop('data_loss')
            if rng.random() < 0.85:
                observed_edges(live)
            trace['items'] = live['items']
        if not pipeline and rng.random() < 0.2:
            # Days and months, which have different lengths
            trace['step'] = unit = rng.choice(('1D', '1D', '1M'))
            n = len(history['items'])
            starts = calendar_starts(tz, rng.choice((2015, 2019)), rng.randint(1, 12), 1, unit, n * 2 + len(trace['items']))
            offset = rng.randint(0, n * 2)
            for item, t in zip(history['items'], starts):
                item['t'] = t
            for item, t in zip(trace['items'], starts[offset:]):
                item['t'] = t
            history['unit'] = unit
            trace['fit'].pop('dst_affected', None)
        ops = []
        for _ in range(rng.randint(1, 5)):
            op = {'op': rng.choice(('apply', 'apply', 'apply', 'until', 'until', 'twice', 'wrong')), 'th': rng.choice((None, None, 1.0, 0.5, 0.25, 0.9)), 'inplace': rng.random() < 0.4, 'at': round(rng.random(), 4)}
            if rng.random() < 0.15:
                op['fault'] = rng.choice(('failure', 'interrupt', 'allocation'))
            ops.append(op)
        trace['ops'] = ops
        return trace

    def live(self, trace, ctx):
        if trace['pipeline'] is None:
            spec = dict(trace['history'], items=trace['items'])
            ctx.fault('data_loss', sum(1 for item in trace['items'] if item.get('x', {}).get('data_loss') == 1))
            return build(spec)
        got = deliver(trace['readings'], ctx)
        if len(got) < 3:
            return None
        readings = series_of(got, trace['tz'])
        if trace['pipeline']['slots']:
            kind, series = call(readings.aggregate, trace['history']['unit'])
        else:
            kind, series = call(readings.resample, trace['step'])
        if kind == 'exc':
            return None
        if trace['pipeline']['slots']:
            for label in trace['labels']:
                series.rename_data_label(label + '_avg', label)
        return series

    def averages(self, trace):
        """What a periodic average reconstructor has to learn from the history."""
        limit = trace['fit'].get('data_loss_limit', 1.0)
        period = trace['fit']['periodicity']
        groups = {}
        for item in trace['history']['items']:
            loss = item.get('x', {}).get('data_loss')
            if limit is not None and loss is not None and loss >= limit:
                continue
            groups.setdefault(phase(item['t'], trace['step'], period, trace['tz'], trace['fit'].get('dst_affected')), []).append(item['d']['value'])
        return {k: sum(v) / len(v) for k, v in groups.items()}

    def expected(self, trace, items, th):
        """The items, reconstructed: or None if they have to be refused. Items are (t, data, indexes)."""
        n = len(items)
        lost = [x.get('data_loss') is not None and x['data_loss'] >= th for _, _, x in items]
        result = []
        i = 0
        while i < n:
            t, data, indexes = items[i]
            if not lost[i]:
                result.append((t, dict(data), dict(indexes, data_reconstructed=0)))
                i += 1
                continue
            j = i
            while j + 1 < n and lost[j+1]:
                j += 1
            if trace['family'] != 'ur' and (i == 0 or j == n - 1):
                return None
            for k in range(i, j + 1):
                t = items[k][0]
                if trace['family'] == 'lir':
                    (pt, pd, _), (nt, nd, _) = items[i-1], items[j+1]
                    data = {label: pd[label] + (nd[label] - pd[label]) * (t - pt) / (nt - pt) for label in pd}
                elif trace['family'] == 'ur':
                    data = {label: self.means[label] * trace['fit'].get('weight', 1) for label in items[k][1]}
                else:
                    where = lambda q: phase(items[q][0], trace['step'], trace['fit']['periodicity'], trace['tz'], trace['fit'].get('dst_affected'))
                    needed = [where(q) for q in [i-1, j+1] + list(range(i, j+1))]
                    if any(x not in self.learned for x in needed):
                        return 'unknown'
                    offset = sum(items[q][1]['value'] - self.learned[where(q)] for q in (i-1, j+1)) / 2
                    data = {'value': self.learned[where(k)] + offset}
                result.append((t, data, dict(items[k][2], data_reconstructed=1)))
            i = j + 1
        return result

    def execute(self, trace, ctx):
        family = trace['family']
        reset_counters()
        history = build(trace['history'])
        series = self.live(trace, ctx)
        if series is None or len(series) < 3:
            return
        ctx.sim_time(series[-1].t - series[0].t)
        model = FAMILIES[family]()
        if family != 'lir':
            kind, exc = call(model.fit, history, **trace['fit'])
            if kind == 'exc':
                if family == 'par' and len(self.averages(trace)) == 0:
                    return
                expect(False, 'fit:unexpected-{}'.format(type(exc).__name__), str(exc))
        self.means = {label: sum(x['d'][label] for x in trace['history']['items']) / len(trace['history']['items']) for label in trace['labels']}
        self.learned = self.averages(trace) if family == 'par' else None
        source = [((item.start.t if isinstance(item, TimeSlot) else item.t), dict(item.data), dict(item.data_indexes)) for item in series]
        slots = isinstance(series[0], TimeSlot)
        tz = str(series.tz)
        expect(tz == trace['tz'], 'time-zone-of-the-live-series', tz)

        def fresh(n=None):
            copy = TimeSeries()
            for item in series[0:n or len(series)]:
                copy.append(clone(item))
            return copy

        def check(what, got, wanted, of):
            expect(isinstance(got, TimeSeries), what + ':not-a-series', type(got).__name__)
            expect(len(got) == len(wanted), what + ':items', lambda: '{} vs {}'.format(len(got), len(wanted)))
            expect(str(got.tz) == tz, what + ':time-zone', str(got.tz))
            expect(str(got.resolution) == str(of.resolution), what + ':resolution', lambda: '{} vs {}'.format(got.resolution, of.resolution))
            for k, (t, data, indexes) in enumerate(wanted):
                item = got[k]
                expect(isinstance(item, TimeSlot) == slots and (item.start.t if slots else item.t) == t and str(item.tz) == str(of[k].tz), what + ':item', lambda: '#{}: {}'.format(k, item))
                if slots:
                    expect(item.end.t == of[k].end.t and str(item.unit) == str(of[k].unit), what + ':slot', lambda: '#{}: {}'.format(k, item))
                touched = indexes['data_reconstructed'] == 1
                kind = 'reconstructed' if touched else 'observed'
                expect(set(item.data) == set(data), what + ':{}-labels'.format(kind), lambda: '#{}: {} vs {}'.format(k, item.data, data))
                if touched:
                    expect(close_data(item.data, data, 1e-6), what + ':reconstructed-data', lambda: '#{}: {} vs {}'.format(k, item.data, data))
                else:
                    expect(item.data == data, what + ':observed-data', lambda: '#{}: {} vs {}'.format(k, item.data, data))
                expect(item.data_indexes == indexes, what + ':{}-indexes'.format(kind), lambda: '#{}: {} vs {}'.format(k, item.data_indexes, indexes))

        for number, op in enumerate(trace['ops']):
            ctx.step()
            name = op['op']
            th = op['th'] if op['th'] is not None else 1.0
            kwargs = {} if op['th'] is None else {'data_loss_threshold': op['th']}
            n = len(series)
            if name == 'until':
                # Online: what was there at some moment
                n = 3 + int(op['at'] * (n - 3))
            wanted = self.expected(trace, source[:n], th)
            if wanted == 'unknown':
                ctx.probe('phase never observed')
                continue
            if name == 'wrong':
                self.wrong(trace, model, fresh, ctx, op)
                continue
            target = fresh(n)
            before = snapshot(target)
            layout = ''.join('.' if w[2]['data_reconstructed'] == 0 else 'x' for w in wanted)[:12] if wanted else 'refused'
            ctx.state(family, slots, layout, op['th'], op['inplace'], op.get('fault'))
            lost = bool(wanted) and any(w[2]['data_reconstructed'] for w in wanted)
            if op.get('fault'):
                self.faulted(family, model, target, before, kwargs, op, ctx, wanted)
                target = fresh(n)
            if wanted is None:
                kind, exc = call(model.apply, target, **kwargs)
                expect(kind == 'exc' and isinstance(exc, ValueError), 'gap-at-the-ends:not-refused', lambda: '{} {}'.format(kind, exc))
                expect(snapshot(target) == before, 'gap-at-the-ends:changed', lambda: first_difference(before, snapshot(target)))
                ctx.probe('gap at the ends refused')
                continue
            result = must('apply', model.apply, target, inplace=op['inplace'], **kwargs)
            if op['inplace']:
                expect(result is None, 'in-place:returned', repr(result))
                got = target
            else:
                expect(snapshot(target) == before, 'apply:source-changed', lambda: first_difference(before, snapshot(target)))
                got = result
                expect(all(a is not b and a.data is not b.data for a, b in zip(got, target)), 'apply:shared-items')
            check('in-place' if op['inplace'] else 'apply', got, wanted, series)
            ctx.log(number, name, [[round(v, 6) for _, v in sorted(item.data.items())] for item in got])
            if lost:
                ctx.nontrivial = True
                ctx.probe('gaps reconstructed')
            if name == 'twice':
                # What was reconstructed is still lost, and reconstructing it again gives the same
                again = must('again', model.apply, got, **kwargs)
                check('again', again, wanted, series)
        reset_counters()

    def faulted(self, family, model, target, before, kwargs, op, ctx, wanted):
        """The reconstruction is interrupted: the source is as it was, and trying again works (checked by the caller)."""
        reset = False
        if op['fault'] == 'failure':
            if family != 'ur':
                return
            UserReconstructor.counter.calls = 0
            UserReconstructor.counter.fail_at = 0
            kind, exc = call(model.apply, target, **kwargs)
            reset_counters()
            if kind == 'exc':
                ctx.fault('failing_call')
        else:
            error = KeyboardInterrupt if op['fault'] == 'interrupt' else MemoryError
            lines, _ = sched.count_lines(lambda: model.apply(target, **kwargs))
            if not lines:
                return
            at = int(op['at'] * lines)
            where, _ = sched.interrupted(lambda: model.apply(target, **kwargs), at, error)
            if where:
                ctx.fault('interruption' if op['fault'] == 'interrupt' else 'failed_allocation')
        expect(snapshot(target) == before, 'faulted:source-changed', lambda: first_difference(before, snapshot(target)))

    def wrong(self, trace, model, fresh, ctx, op):
        """Data which is not like the one the model was fitted on is refused."""
        if trace['family'] == 'lir':
            return
        target = fresh()
        other = TimeSeries()
        if op['at'] < 0.5:
            for item in target:
                item = clone(item)
                item.data['other'] = 1.0
                other.append(item)
            what = 'labels'
        else:
            for item in target:
                start = item.start.t if isinstance(item, TimeSlot) else item.t
                spec = {'t': len(other) * 7200 if trace['step'] in ('1D', '1M') else start * 2, 'd': dict(item.data), 'x': dict(item.data_indexes)}
                other.append(build_item(spec, {'10m': '20m', '15m': '30m', '1h': '2h', '30m': '1h', '1m': '2m', '12s': '24s'}.get(trace['history']['unit'], '2h') if isinstance(item, TimeSlot) else None, trace['tz']))
            what = 'resolution'
        before = snapshot(other)
        kind, exc = call(model.apply, other, inplace=op['inplace'])
        expect(kind == 'exc', 'other-{}:not-refused'.format(what), repr(exc))
        expect(snapshot(other) == before, 'other-{}:changed'.format(what), lambda: first_difference(before, snapshot(other)))
        ctx.probe('other {} refused'.format(what))


SCENARIO = P14()
