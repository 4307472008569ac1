"""P03: resampling and aggregating never lose track of missing data: contiguous intervals, each with its true data loss."""

import datetime
import pytz

from ..core import Scenario, call, expect
from ..lib import *
from .. import feed
from timeseria.transformations import Resampler, Aggregator


class P03(Scenario):
    prop = 'P03'
    quick_runs = 7500
    thorough_runs = 100000
    rule = 'a run is non-trivial if some data was missing (a data loss strictly between zero and one, or a full one, was expected somewhere); runs are distinct by the digest of their results'
    measure = 'distinct (transformation, kind of unit, interval over unit, losses rounded to 1/8) tuples'
    real = ['timeseria.transformations', 'timeseria.datastructures', 'timeseria.operations', 'timeseria.interpolators', 'timeseria.utilities', 'timeseria.units']
    stubbed = ['sensors, their clocks and the network']
    assumptions = ['the sampling interval is given, or is the interval between the strict majority of the readings', 'numbers are compared with a tolerance of 1e-6']
    shrinkable = ['readings']

    MODES = ('resample', 'resample', 'aggregate', 'aggregate', 'calendar', 'chain', 'prefix')

    def generate(self, rng, i):
        mode = rng.choice(self.MODES)
        trace = {'mode': mode, 'tz': rng.choice(TIMEZONES), 'labels': rng.choice((['v'], ['v', 'w']))}
        if mode == 'calendar':
            v = rng.choice((900, 1800, 3600, 7200))
            unit = rng.choice(('1D', '1D', '1D', '1M', '1W', '1Y'))
            if unit in ('1M', '1W'):
                v = rng.choice((6 * 3600, 86400))
            if unit == '1Y':
                v = 86400 * rng.choice((2, 7, 10))
            days = {'1D': 1, '2D': 2, '1M': 31, '1W': 7, '1Y': 366}[unit]
            n = int(rng.uniform(1.5, 5 if unit != '1Y' else 2.5) * days * 86400 / v)
            # Around the changes of the daylight saving time
            start = rng.choice((1443315600, 1445644800, 1458950400, 1459123200, 1425772800, 1446336000, 1427846400)) - rng.randint(0, 2) * 86400 + rng.choice((0, 0, 700))
        else:
            v = rng.choice((30, 60, 90, 600))
            unit = v * rng.choice((1, 2, 4, 5, 10)) if rng.random() < 0.8 else rng.choice((60, 120, 300, 600))
            n = rng.randint(4, 60) if rng.random() < 0.92 else rng.randint(150, 400)
            start = rng.choice((0, 1000, 3599, 1443315600)) + rng.choice((0, 0, 7, 30, 0.25))
            if mode != 'chain' and rng.random() < 0.2:
                v = rng.choice((600, 900, 1800, 3600))
                unit = rng.choice((3600, 7200, 10800, 21600)) if rng.random() < 0.8 else 1800
                start = rng.choice((1443315600, 1445644800, 1458950400, 1425772800)) - rng.randint(0, 86400)
                trace['text'] = True
        if mode in ('resample', 'aggregate', 'calendar') and rng.random() < 0.25:
            trace['bounds'] = [rng.choice((None, -1, 0, 1, 2, 3)), rng.choice((None, 1, 2, 3, 5, 8)), rng.choice(('t', 'dt'))]
            if mode != 'calendar' and rng.random() < 0.25:
                # Around the epoch, which is as good as any other time
                start = -unit * rng.choice((1, 2, 3, 5)) + rng.choice((0, 0, 7, -0.25))
        trace['forced'] = rng.choice((0, 0.25, 1)) if rng.random() < 0.05 else None
        trace['moved'] = rng.choice(TIMEZONES) if rng.random() < 0.15 else None
        trace.update(v=v, unit=unit, auto=rng.random() < 0.4, index=rng.choice((None, 'anomaly')), outer=rng.choice((2, 3, 4, 1, 1.5, 0.5, 0.4, 0.3)), cut=round(rng.random(), 3))
        # Delivered readings only are in place
        trace['readings'] = feed.generate(rng, n=n, interval=v, start=start, labels=trace['labels'], index=trace['index'])
        return trace

    # Shared with P04
    def setup(self, trace, ctx):
        readings = feed.deliver(trace['readings'], ctx, trace['tz'])
        if len(readings) < 3:
            return None
        ts = [r['t'] for r in readings]
        v = trace['v']
        auto = trace['auto']
        if auto:
            steps = [b - a for a, b in zip(ts, ts[1:])]
            mode = max(set(steps), key=steps.count)
            if steps.count(mode) * 2 <= len(steps) or len(set(steps)) > 0.9 * len(steps):
                auto = False
            else:
                v = mode
        if ts[-1] - ts[0] > 20000 * v:
            return None
        if trace.get('moved'):
            # Collected on another time zone
            series = feed.series_of(readings, trace['moved'])
            series.change_tz(trace['tz'])
        else:
            series = feed.series_of(readings, trace['tz'])
        ctx.sim_time(ts[-1] - ts[0])
        self.limits = {}
        kwargs = {} if auto else {'validity': v}
        kwargs.update(self.bounds(trace, ts))
        ctx.probe('auto' if auto else 'explicit')
        return readings, ts, v, series, kwargs

    def unit(self, trace):
        """The unit, possibly as a string."""
        unit = trace['unit']
        if trace.get('text'):
            return '{}h'.format(unit // 3600) if unit % 3600 == 0 else '{}m'.format(unit // 60)
        return unit

    def bounds(self, trace, ts):
        """The explicit start and end, if any, always on the edge of an interval and not before the first reading."""
        if not trace.get('bounds'):
            return {}
        unit = trace['unit']
        k, m, how = trace['bounds']
        if isinstance(unit, str):
            edges = self.first_edges(ts, unit, trace['tz'])
            before = [e for e in edges if e < ts[0]]
            edges = [e for e in edges if e >= ts[0]]
        else:
            first = -(-ts[0] // unit) * unit
            before = [first - unit] if first != ts[0] else []
            edges = [first + unit * i for i in range(int((ts[-1] - ts[0]) / unit) + 15)]
        zone = pytz.timezone(trace['tz'] if isinstance(unit, str) else 'UTC')
        bounds = {}
        if k == -1:
            # The interval in which the first reading is
            k = None
            if before:
                bounds['start'] = before[-1]
        if k is not None and k < len(edges):
            bounds['start'] = edges[k]
        if m is not None and (k or 0) + m < len(edges):
            bounds['end'] = edges[(k or 0) + m]
        self.limits = dict(bounds)
        return {name: t if how == 't' else datetime.datetime.fromtimestamp(t, tz=zone) for name, t in bounds.items()}

    def run_transformation(self, trace, series, kwargs, operations=None):
        unit = self.unit(trace)
        if trace['mode'] in ('resample', 'chain'):
            return Resampler(unit).process(series, **kwargs)
        args = {'operations': operations} if operations else {}
        return Aggregator(unit, **args).process(series, **kwargs)

    def interval(self, item, u=None):
        if isinstance(item, TimeSlot):
            return item.start.t, item.end.t
        return item.t - u / 2, item.t + u / 2

    def first_edges(self, ts, unit, tz):
        """The edges of the calendar slots, independently computed."""
        zone = pytz.timezone(tz)
        d = datetime.datetime.fromtimestamp(ts[0], tz=zone)
        n = int((ts[-1] - ts[0]) / 86400 / {'D': 1, 'W': 7, 'M': 28, 'Y': 365}[unit[-1]]) + 5
        if unit[-1] == 'W':
            d -= datetime.timedelta(days=d.weekday())
            return calendar_starts(tz, d.year, d.month, d.day, '7D', n)
        return calendar_starts(tz, d.year, d.month if unit[-1] != 'Y' else 1, d.day if unit[-1] == 'D' else 1, '1' + unit[-1], n)

    def check_bounds(self, trace, ts, out, ctx):
        """With a start and/or an end there are all and only the intervals between them (or up to the last reading)."""
        unit = trace['unit']
        edges = self.first_edges(ts, unit, trace['tz']) if isinstance(unit, str) else None
        got = [self.interval(item, unit if not isinstance(unit, str) else None) for item in out]
        start, end = self.limits.get('start'), self.limits.get('end')
        ctx.probe('bounded')
        if got and start is not None:
            expect(abs(got[0][0] - start) < 1e-6, 'wrong-first', lambda: 'first from {}, start {}'.format(got[0][0], start))
        if got and end is not None:
            expect(got[-1][0] < end - 1e-6, 'past-the-end', lambda: 'last {}, end {}'.format(got[-1], end))
        if start is None and got:
            start = got[0][0]
            expect(-1e-6 - (unit / 2 if trace['mode'] == 'resample' else 0) <= start - ts[0], 'wrong-first', lambda: 'first from {}, first reading at {}'.format(start, ts[0]))
        if start is None:
            return
        # Go through what is expected
        k = 0
        a = start
        while True:
            if edges and a not in edges[:-1]:
                break
            b = edges[edges.index(a) + 1] if edges else a + unit
            if b > ts[-1] + 1e-6 or (end is not None and b > end + 1e-6):
                break
            expect(k < len(got), 'missing-intervals', lambda: '{} items with the last reading at {}, bounds {}'.format(len(got), ts[-1], self.limits))
            expect(abs(got[k][0] - a) < 1e-6 and abs(got[k][1] - b) < 1e-6, 'wrong-tiling', lambda: 'item #{} covers {}, expected {}..{}'.format(k, got[k], a, b))
            k += 1
            a = b
        # An interval can be only partly before the end, if not aligned with it
        expect(len(got) == k or (not edges and len(got) == k + 1 and (abs(b - ts[-1]) < 1e-6 or (end is not None and b > end and b <= ts[-1] + 1e-6))), 'unfinished-interval', lambda: '{} items instead of {}, up to {}, last reading at {}'.format(len(got), k, got[-1], ts[-1]))

    def check_tiling(self, trace, ts, out, ctx):
        unit, mode = trace['unit'], trace['mode']
        if trace.get('bounds') and self.limits:
            return self.check_bounds(trace, ts, out, ctx)
        if mode == 'calendar':
            edges = [e for e in self.first_edges(ts, unit, trace['tz']) if e >= ts[0]]
            if len(out):
                if unit == '2D':
                    expect(out[0].start.t in edges, 'wrong-first', lambda: '{} vs {}'.format(out[0].start, edges[:3]))
                    k = edges.index(out[0].start.t)
                    expect(k <= 1, 'wrong-first', lambda: 'starts at {} with the first reading at {}'.format(out[0].start.t, ts[0]))
                    edges = edges[k::2]
                for i, item in enumerate(out):
                    expect((item.start.t, item.end.t) == (edges[i], edges[i+1]), 'wrong-tiling', lambda: 'slot #{} is {}..{}, expected {}..{}'.format(i, item.start.t, item.end.t, edges[i], edges[i+1]))
                expect(ts[-1] >= out[-1].end.t, 'unfinished-interval', lambda: 'last slot ends at {}, last reading at {}'.format(out[-1].end.t, ts[-1]))
                expect(ts[-1] < edges[len(out)+1] if len(edges) > len(out) + 1 else True, 'missing-intervals', lambda: '{} slots up to {}, last reading at {}'.format(len(out), out[-1].end.t, ts[-1]))
            else:
                limit = 5 if unit == '2D' else 2
                expect(len([e for e in edges if e <= ts[-1]]) < limit, 'missing-intervals', lambda: 'no slots with readings from {} to {} over {}'.format(ts[0], ts[-1], edges[:3]))
            return
        u = unit
        slots = mode != 'resample' and mode != 'chain'
        if not len(out):
            expect(ts[-1] - ts[0] < 2 * u, 'missing-intervals', lambda: 'nothing with readings from {} to {} and a unit of {}'.format(ts[0], ts[-1], u))
            return
        first = self.interval(out[0], u)
        for i, item in enumerate(out):
            a, b = self.interval(item, u)
            expect(abs(a - (first[0] + i * u)) < 1e-6 and abs(b - a - u) < 1e-6, 'wrong-tiling', lambda: 'item #{} covers {}..{}, expected {} from {}'.format(i, a, b, u, first[0] + i * u))
        last = self.interval(out[-1], u)
        if slots:
            expect(0 <= first[0] - ts[0] < u, 'wrong-first', lambda: 'first slot from {}, first reading at {}'.format(first[0], ts[0]))
        else:
            expect(-u / 2 - 1e-6 <= first[0] - ts[0] < u + 1e-6, 'wrong-first', lambda: 'first point for {}, first reading at {}'.format(first, ts[0]))
        expect(ts[-1] >= last[1] - 1e-6, 'unfinished-interval', lambda: 'last item up to {}, last reading at {}'.format(last[1], ts[-1]))
        expect(ts[-1] - last[1] < u + 1e-6, 'missing-intervals', lambda: 'last item up to {}, last reading at {}'.format(last[1], ts[-1]))

    def transform(self, trace, series, kwargs, ts, ctx, **args):
        result = call(self.run_transformation, trace, series, kwargs, **args)
        if result[0] == 'exc':
            raise Violation('failed:{}:{}'.format(trace['mode'], type(result[1]).__name__), str(result[1])[:300])
        return result[1]

    def execute(self, trace, ctx):
        ready = self.setup(trace, ctx)
        if not ready:
            ctx.probe('too-few-readings')
            return
        readings, ts, v, series, kwargs = ready
        if trace.get('forced') is not None:
            forced = self.transform(trace, series, dict(kwargs, force_data_loss=trace['forced']), ts, ctx)
            expect(all(x.data_loss == trace['forced'] for x in forced), 'not-forced', lambda: '{} instead of {}'.format([x.data_loss for x in forced], trace['forced']))
        out = self.transform(trace, series, kwargs, ts, ctx)
        ctx.log(len(out), [(self.interval(x, trace['unit'] if not isinstance(trace['unit'], str) else None)[0], round(x.data_loss, 6)) for x in out])
        self.check_tiling(trace, ts, out, ctx)
        R = feed.regions(ts, v)
        values = [0.0] * len(ts)
        u = trace['unit'] if not isinstance(trace['unit'], str) else None
        for i, item in enumerate(out):
            a, b = self.interval(item, u)
            loss, _ = feed.loss_and_average(ts, values, v, a, b, R)
            expect(item.data_loss is not None, 'no-data-loss', i)
            expect(close(item.data_loss, loss, 1e-6), 'wrong-data-loss:{}'.format(trace['mode']), lambda: 'item #{} of {} ({}..{}): {} instead of {}'.format(i, len(out), a, b, item.data_loss, loss))
            expect(-1e-6 <= item.data_loss <= 1 + 1e-6, 'data-loss-out-of-range', item.data_loss)
            expect(str(item.tz) == trace['tz'], 'wrong-timezone', lambda: '{} vs {}'.format(item.tz, trace['tz']))
            if loss > 1e-6:
                ctx.nontrivial = True
                ctx.probe('partial-loss' if loss < 1 - 1e-6 else 'full-loss')
            ctx.state(trace['mode'], str(trace['unit'])[-1], round((u or 0) / v, 2), round(loss * 8))
        if trace['mode'] == 'prefix' and len(out):
            # More data arriving does not change what was already complete
            k = max(2, int(trace['cut'] * len(readings)))
            prefix = feed.series_of(readings[:k], trace['tz'])
            result = call(self.run_transformation, trace, prefix, {'validity': v})
            full = self.run_transformation(trace, series, {'validity': v})
            if result[0] == 'ok':
                part = result[1]
                if len(part):
                    expect(len(part) <= len(full), 'prefix-longer', lambda: '{} vs {}'.format(len(part), len(full)))
                    for i in range(len(part)):
                        diff = same_item(part[i], full[i], indexes=False) or (None if close(part[i].data_loss, full[i].data_loss) else 'data losses differ')
                        if diff and ts[k-1] - v / 2 < part[i].end.t:
                            continue    # The last reading available was within half interval from the end of the slot
                        expect(not diff, 'prefix-differs', lambda: 'slot #{} with the first {} readings out of {}: {}'.format(i, k, len(readings), diff))
        if trace['mode'] == 'chain' and len(out) >= 2:
            self.check_chain(trace, out, u, ctx)

    def check_chain(self, trace, resampled, u, ctx):
        """Aggregating what was resampled accounts for the losses of both."""
        outer = u * trace['outer']
        if outer != int(outer):
            outer = u
        losses = [x.data_loss for x in resampled]
        ts = [x.t for x in resampled]
        if len(ts) < 3:
            return
        slots = (Aggregator if trace['cut'] < 0.6 else Resampler)(outer).process(resampled)
        for i, slot in enumerate(slots):
            a, b = self.interval(slot, outer)
            expected = 0
            covered = 0
            for t, loss in zip(ts, losses):
                s, e = max(t - u / 2, a), min(t + u / 2, b)
                if e > s:
                    covered += e - s
                    expected += loss * (e - s)
            expected = (expected + (b - a) - covered) / (b - a)
            expect(close(slot.data_loss, expected, 1e-6), 'wrong-data-loss:chained', lambda: 'slot #{} ({}..{}): {} instead of {}'.format(i, a, b, slot.data_loss, expected))
            ctx.state('chain', trace['outer'], round(expected * 8))
        diff = [x.data_loss for x in resampled] != losses
        expect(not diff, 'source-changed', 'the resampled series changed by aggregating it')


SCENARIO = P03()
