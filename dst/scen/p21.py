"""P21: operations agree with their definitions, in any chain, on whatever several lossy sensors deliver."""

import datetime

from ..core import HarnessError, Scenario, call, expect
from ..lib import *
from .. import feed

SCALARS = ['min', 'max', 'avg', 'sum']
CHAIN = ['derivative', 'derivative', 'diff', 'integral', 'csum', 'normalize', 'rescale', 'offset', 'mavg', 'filter', 'slice', 'slice', 'merge', 'merge', 'merge', 'undo']
ASKS = SCALARS + ['get', 'select', 'ends']
INPLACE = ['derivative', 'integral', 'csum', 'normalize', 'rescale', 'offset']


class Refused(Exception):
    """The reference model says there is no answer."""


class Maybe(Exception):
    """It can be refused, or it gives this."""


class Unspecified(Exception):
    """There are no expectations."""


class Ref():
    """A series as the reference model sees it."""

    def __init__(self, items, kind, tz, unit=None, scale=1.0):
        self.items = items          # {'t', 'e', 'd': dict or list, 'x': dict}
        self.kind = kind
        self.tz = tz
        self.unit = unit
        self.scale = scale

    def __len__(self):
        return len(self.items)

    def like(self, items, scale=None):
        return Ref(items, self.kind, self.tz, self.unit, scale or self.scale)

    @property
    def keyed(self):
        return isinstance(self.items[0]['d'], dict)

    @property
    def labels(self):
        d = self.items[0]['d']
        return sorted(d) if isinstance(d, dict) else [str(i) for i in range(len(d))]

    def get(self, i, label):
        d = self.items[i]['d']
        return d[label] if isinstance(d, dict) else d[int(label)]

    @property
    def step(self):
        """The interval between the items: seconds, 'variable', 'calendar' or None."""
        if self.unit:
            return FIXED_UNITS.get(self.unit, self.unit[:-1] if self.unit.endswith('s') else 'calendar')
        if len(self) < 2:
            return None
        steps = [b['t'] - a['t'] for a, b in zip(self.items, self.items[1:])]
        return steps[0] if all(s == steps[0] for s in steps) else 'variable'

    def seconds(self):
        step = self.step
        if step in ('calendar', None):
            raise Unspecified()
        return float(step) if step != 'variable' else step

    def made(self, values, postfix=None, first=0, indexes=True, before=()):
        """A series with values {label: [value for each item]}, and the labels with a postfix."""
        items = list(before)
        for k, item in enumerate(self.items[first:]):
            if self.keyed:
                d = {label + ('_' + postfix if postfix else ''): values[label][k] for label in self.labels}
            else:
                d = [values[label][k] for label in self.labels]
            items.append({'t': item['t'], 'e': item['e'], 'd': d, 'x': dict(item['x']) if indexes else {}})
        return self.like(items)

    # Operations
    def derivative(self, normalize=True):
        if len(self) < 2:
            raise Refused()
        step = self.seconds() if normalize else 1.0
        n = len(self)
        values = {}
        for label in self.labels:
            slopes = []
            for i in range(n - 1):
                distance = step
                if step == 'variable':
                    distance = self.items[i+1]['t'] - self.items[i]['t']
                slopes.append((self.get(i+1, label) - self.get(i, label)) / distance)
            values[label] = [slopes[0]] + [(slopes[i-1] + slopes[i]) / 2 for i in range(1, n - 1)] + [slopes[-1]]
        return self.made(values, 'derivative' if normalize else 'diff')

    def diff(self):
        if len(self) < 2 or self.step == 'variable':
            raise Refused()
        return self.made({label: [self.get(i, label) - self.get(i-1, label) for i in range(1, len(self))] for label in self.labels}, 'diff', first=1)

    def integral(self, c=0, offset=None, postfix='integral'):
        step = self.seconds()
        if step == 'variable' and offset:
            raise Unspecified()
        values = {}
        for label in self.labels:
            total = (offset or c)[label] if isinstance(offset or c, dict) else (offset or c)
            slope = self.get(0, label)
            values[label] = [total]
            for i in range(1, len(self)):
                if i > 1:
                    # What comes after an item is such that the average with what came before is the value of the item
                    slope = 2 * self.get(i-1, label) - slope
                total += slope * (step if step != 'variable' else self.items[i]['t'] - self.items[i-1]['t'])
                values[label].append(total)
        return self.made(values, postfix, before=self.before(offset, postfix))

    def csum(self, offset=None):
        if self.step == 'variable':
            raise Refused()
        values = {}
        for label in self.labels:
            total = offset[label] if isinstance(offset, dict) else (offset or 0)
            values[label] = []
            for i in range(len(self)):
                total += self.get(i, label)
                values[label].append(total)
        return self.made(values, 'csum', before=self.before(offset, 'csum'))

    def before(self, offset, postfix):
        """The item an offset starts from, if any."""
        if not offset:
            return []
        if self.step in ('calendar', None):
            raise Unspecified()
        step = float(self.step)
        values = {label: offset[label] if isinstance(offset, dict) else offset for label in self.labels}
        d = {'{}_{}'.format(label, postfix): values[label] for label in values} if self.keyed else [values[label] for label in self.labels]
        first = self.items[0]
        return [{'t': first['t'] - step, 'e': first['t'] if first['e'] is not None else None, 'd': d, 'x': {'data_loss': 0}}]

    def normalize(self, to=(0, 1), source=None):
        values = {}
        scale = self.scale
        for label in self.labels:
            all_values = [self.get(i, label) for i in range(len(self))]
            low, high = source[label] if source else (min(all_values), max(all_values))
            if high - low <= 1e-5 * self.scale:
                # Constant, if not for the roundings
                raise Unspecified()
            # Roundings are amplified as well
            scale = max(scale, self.scale / (high - low) * max(1, abs(to[1] - to[0])))
            values[label] = [(v - low) / (high - low) * (to[1] - to[0]) + to[0] for v in all_values]
        result = self.made(values)
        result.scale = scale
        return result

    def rescale(self, by):
        return self.made({label: [self.get(i, label) * (by.get(label, 1) if isinstance(by, dict) else by) for i in range(len(self))] for label in self.labels})

    def offset(self, by):
        return self.made({label: [self.get(i, label) + (by.get(label, 0) if isinstance(by, dict) else by) for i in range(len(self))] for label in self.labels})

    def mavg(self, window):
        if len(self) < window:
            return self.like([])
        values = {label: [sum(self.get(j, label) for j in range(i - window + 1, i + 1)) / window for i in range(window - 1, len(self))] for label in self.labels}
        return self.made(values, 'mavg_{}'.format(window), first=window - 1, indexes=False)

    def filter(self, labels):
        if not self.keyed or any(label not in self.labels for label in labels):
            raise Refused()
        return self.like([dict(item, d={label: item['d'][label] for label in labels}) for item in self.items])

    def slice(self, how, a, b):
        if how == 'i':
            positions = range(len(self))[slice(a if a is None or a >= 0 else max(0, len(self) + a), b if b is None or b >= 0 else max(0, len(self) + b))]
            return self.like([self.items[i] for i in positions])
        return self.like([item for item in self.items if (a is None or item['t'] >= a) and (b is None or (item['e'] <= b if item['e'] is not None else item['t'] < b))])

    def scalar(self, name):
        result = {}
        for label in self.labels:
            values = [self.get(i, label) for i in range(len(self))]
            result[label] = {'min': min, 'max': max, 'sum': sum, 'avg': lambda v: sum(v) / len(v)}[name](values)
        return result


def merged(refs):
    """What the sensors said when all of them were there."""
    if any(not len(ref) for ref in refs):
        raise Refused()
    if any(not ref.keyed for ref in refs) or len({(ref.kind, ref.unit) for ref in refs}) > 1:
        raise Unspecified()
    steps = [ref.step for ref in refs]
    if 'variable' in steps or len(set(steps) - {None}) > 1:
        raise Refused()
    start = max(ref.items[0]['t'] for ref in refs)
    end = min(ref.items[-1]['t'] for ref in refs)
    if start > end:
        raise Refused()
    if any(all(item['t'] != start for item in ref.items) for ref in refs):
        raise Refused()
    items = []
    times = sorted({item['t'] for ref in refs for item in ref.items if start <= item['t'] <= end})
    common = [t for t in times if all(any(item['t'] == t for item in ref.items) for ref in refs)]
    if any(t < common[-1] for t in times if t not in common):
        # Calendar units on different time zones
        raise Refused()
    for t in common:
        there = [next(item for item in ref.items if item['t'] == t) for ref in refs]
        d, x = {}, {}
        for key, result in (('d', d), ('x', x)):
            found = {}
            for item in there:
                for label, v in item[key].items():
                    if v is not None:
                        found.setdefault(label, []).append(v)
            result.update({label: sum(v) / len(v) for label, v in found.items()})
        items.append({'t': t, 'e': there[0]['e'], 'd': d, 'x': x})
    result = refs[0].like(items, scale=max(ref.scale for ref in refs))
    if len(set(steps)) > 1 or times != common:
        # A single item has no resolution, or a last one which is not aligned: can be refused
        raise Maybe(result)
    return result


class P21(Scenario):
    prop = 'P21'
    quick_runs = 24000
    thorough_runs = 300000
    rule = 'a run is non-trivial if at least three operations in a row had a result to be compared, or if series from several sensors were merged; runs are distinct by the digest of their results'
    measure = 'distinct (operation, in place, kind of series, kind of data, resolution, depth of the chain, outcome) tuples'
    real = ['timeseria.operations', 'timeseria.datastructures', 'timeseria.units', 'timeseria.transformations (for preparing part of the series)']
    stubbed = ['sensors, their clocks and the network']
    assumptions = ['numbers are compared with a tolerance of 1e-7 of the largest one involved', 'no expectations for time-normalised operations on calendar units or single points, for the normalisation of constants, and for merging data without labels']
    shrinkable = ['ops', 'sensors']

    def generate(self, rng, i):
        v = rng.choice((1, 1, 30, 60, 600, 3600))
        kind = rng.choice(('raw', 'raw', 'raw', 'list', 'resampled', 'slots', 'fixed', 'days'))
        start = rng.choice((0, 1000, -7200, 1443315600, 1600000020))
        tz = rng.choice(TIMEZONES[:2] if kind == 'days' else TIMEZONES)
        sensors = []
        lossless = rng.random() < 0.4
        labels = rng.choice((['v'], ['v', 'w'], ['a', 'B', 'c d']))
        for k in range(rng.choice((1, 2, 2, 3))):
            mine = labels if rng.random() < 0.5 else rng.choice((['v'], ['x{}'.format(k)], ['v', 'x{}'.format(k)]))
            n = rng.randint(1, 5) if rng.random() < 0.2 else rng.randint(5, 24)
            sensor = {'tz': tz if rng.random() < 0.8 else rng.choice(TIMEZONES + ['Africa/Lagos', 'Europe/Berlin', 'Europe/London'] * (kind == 'days')), 'labels': mine,
                      'readings': feed.generate(rng, n=n, interval=v, start=start + v * rng.choice((0, 0, 1, 2, 5, 30)) + (v / 2 if rng.random() < (0.25 if v == 1 else 0.05) else 0), labels=mine, index=rng.choice((None, None, 'anomaly')), jitter=kind not in ('slots', 'fixed', 'days') and rng.random() < 0.1, faults=not lossless, decimals=0)}
            sensors.append(sensor)
        ops = []
        for _ in range(rng.randint(2, 9)):
            name = rng.choice(CHAIN) if rng.random() < 0.8 else rng.choice(ASKS)
            op = {'op': name, 's': rng.choice((-1, -1, -1, 0, 1, 2, 3, 4)), 'o': [rng.randint(0, 6) for _ in range(rng.choice((1, 1, 2)))], 'a': rng.randint(-6, 26), 'b': rng.randint(-6, 26),
                  'x': rng.choice((0, 1, 2, -3, 0.5, 10)), 'y': rng.choice((1, 5, -2.5, 100)), 'm': rng.randint(0, 5)}
            if name in INPLACE and rng.random() < 0.25:
                op['inplace'] = True
            ops.append(op)
        return {'v': v, 'kind': kind, 'sensors': sensors, 'ops': ops, 'unit': v * rng.choice((1, 1, 2, 3))}

    def collect(self, trace, sensor, ctx):
        kind, tz = trace['kind'], sensor['tz']
        readings = feed.deliver(sensor['readings'], ctx, tz)
        if not readings:
            return None
        ctx.sim_time(readings[-1]['t'] - readings[0]['t'])
        unit = None
        if kind in ('raw', 'resampled', 'slots'):
            series = feed.series_of(readings, tz)
            if kind != 'raw':
                if len(readings) < 3:
                    return None
                result = call((transformations.Resampler if kind == 'resampled' else transformations.Aggregator)(trace['unit']).process, series, validity=trace['v'])
                if result[0] == 'exc' or not len(result[1]):
                    return None
                series = result[1]
                unit = '{}s'.format(int(trace['unit'])) if kind == 'slots' else None
        elif kind == 'list':
            series = TimeSeries()
            for reading in readings:
                series.append(DataTimePoint(t=reading['t'], data=[reading['d'][label] for label in sensor['labels']], data_indexes=dict(reading.get('x', {})), tz=tz))
        else:
            # Slots which are contiguous by construction
            series = TimeSeries()
            starts = None
            if kind == 'days':
                unit = '1D'
                year = 2015 + int(sensor['readings'][0]['t'] // 3600) % 2
                starts = calendar_starts(tz, year, 3, 20, '1D', len(readings) + 1)
            else:
                unit = {60: '1m', 600: '10m', 3600: '1h'}.get(trace['v'], '{}s'.format(trace['v']))
                first = readings[0]['t']
                starts = [first + trace['v'] * k for k in range(len(readings) + 1)]
            for k, reading in enumerate(readings):
                series.append(DataTimeSlot(start=TimePoint(t=starts[k], tz=tz), unit=TimeUnit(unit), data=dict(reading['d']), data_indexes=dict(reading.get('x', {}))))
        items = []
        scale = 1.0
        for item in series:
            slot = isinstance(item, TimeSlot)
            items.append({'t': item.start.t if slot else item.t, 'e': item.end.t if slot else None, 'd': copy.deepcopy(item.data), 'x': dict(item.data_indexes)})
            scale = max([scale] + [abs(v) for _, v in data_items(item.data)])
        return [series, Ref(items, 'slots' if unit else 'points', tz, unit, scale), 0]

    # The operation as (what to call on the series, what to call on the model)
    def operation(self, op, series, ref, others):
        name, x, y, m = op['op'], op['x'], op['y'], op['m']
        labels = ref.labels
        inplace = op.get('inplace')
        extra = {'inplace': True} if inplace else {}
        each = {label: y + k for k, label in enumerate(labels)}
        if name in SCALARS:
            if m % 2:
                label = labels[op['a'] % len(labels)]
                return lambda s: {label: getattr(s, name)(data_label=label)}, lambda: {label: ref.scalar(name)[label]}
            return lambda s: getattr(s, name)(), lambda: ref.scalar(name)
        if name == 'derivative':
            if m == 0:
                return lambda s: s.derivative(normalize=False, **extra), lambda: ref.derivative(normalize=False)
            return lambda s: s.derivative(**extra), ref.derivative
        if name == 'diff':
            return lambda s: s.diff(), ref.diff
        if name == 'integral':
            kwargs = ({}, {'c': y}, {'c': each}, {'offset': y}, {'offset': each}, {})[m if not inplace else m % 3]
            return lambda s: s.integral(**kwargs, **extra), lambda: ref.integral(**kwargs)
        if name == 'csum':
            kwargs = ({}, {'offset': y}, {'offset': each})[m % 3 if not inplace else 0]
            return lambda s: s.csum(**kwargs, **extra), lambda: ref.csum(**kwargs)
        if name == 'normalize':
            to = ([0, 1], [0, 1], [y, y + 7], [-1, 1], (0, 1), [1, 0])[m]
            source = {label: [x - 5 - k, x + 40] for k, label in enumerate(labels)} if op['a'] % 3 == 0 else None
            return lambda s: s.normalize(range=to, source_range=source, **extra), lambda: ref.normalize(to, source)
        if name in ('rescale', 'offset'):
            by = (x, y, each, {labels[-1]: x})[m % 4]
            return lambda s: getattr(s, name)(by, **extra), lambda: getattr(ref, name)(by)
        if name == 'mavg':
            return lambda s: s.mavg(abs(op['a']) % 7 + 1), lambda: ref.mavg(abs(op['a']) % 7 + 1)
        if name == 'filter':
            turned = labels[op['a'] % len(labels):] + labels[:op['a'] % len(labels)]
            chosen = (turned[:1], turned, turned[:2], turned[:1] + ['missing'])[m % 4]
            if chosen == turned[:1] and m % 2:
                return lambda s: s[chosen[0]], lambda: ref.filter(chosen)
            return lambda s: s.filter(*chosen), lambda: ref.filter(chosen)
        if name == 'slice':
            n = len(ref)
            a, b = op['a'] if op['a'] < 24 else None, op['b'] if op['b'] < 24 else None
            if m < 2:
                if a is not None and a < 0 and m:
                    a = -a
                return (lambda s: s.slice(from_i=a, to_i=b)) if m or (a is None and b is None) else (lambda s: s[a:b]), lambda: ref.slice('i', a, b)
            # Times around the items
            times = [t for item in ref.items for t in (item['t'], item['t'] + x / 4, item['t'] - x / 4)]
            a, b = (None if k is None else times[k % len(times)] for k in (a, b))
            if m == 5 and not (a is None and b is None):
                zone = pytz.timezone(ref.tz)
                dts = [None if t is None else datetime.datetime.fromtimestamp(t, tz=pytz.UTC).astimezone(zone) for t in (a, b)]
                return (lambda s: s[dts[0]:dts[1]]) if op['o'][0] % 2 else (lambda s: s.slice(from_dt=dts[0], to_dt=dts[1])), lambda: ref.slice('t', a, b)
            return lambda s: s.slice(from_t=a, to_t=b), lambda: ref.slice('t', a, b)
        if name == 'get':
            if m < 3:
                def pick():
                    if not -len(ref) <= op['a'] < len(ref):
                        raise Refused()
                    return ref.like([ref.items[op['a']]])
                return (lambda s: [s.get(at_i=op['a'])]) if m else (lambda s: [s[op['a']]]), pick
            t = ref.items[op['a'] % len(ref)]['t'] + (0 if m < 5 else 0.125)

            def pick():
                found = [item for item in ref.items if item['t'] == t]
                if not found:
                    raise Refused()
                return ref.like(found)
            if m == 4:
                dt = datetime.datetime.fromtimestamp(t, tz=pytz.UTC).astimezone(pytz.timezone('Asia/Tokyo'))
                return lambda s: [s.get(at_dt=dt)], pick
            return lambda s: [s.get(at_t=t)], pick
        if name == 'select':
            label = labels[op['a'] % len(labels)]
            # What is there exactly
            there = [item.data[label if ref.keyed else int(label)] for item in series]
            wanted = there[op['b'] % len(ref)] if m else 12345.678
            text = '{}={}'.format(label if m % 2 else '"{}"'.format(label), repr(float(wanted)))
            return lambda s: s.select(text) or [], lambda: ref.like([item for i, item in enumerate(ref.items) if there[i] == wanted])
        if name == 'ends':
            n = abs(op['a']) if m else 0
            if m == 5:
                return lambda s: s.contents(), lambda: ref.like(list(ref.items))
            if m % 2:
                return lambda s: s.head(n), lambda: ref.like(ref.items[:n])
            return lambda s: s.tail(n), lambda: ref.like(ref.items[len(ref)-n:] if n < len(ref) else list(ref.items))
        if name == 'merge':
            return lambda s: operations.merge(s, *[other[0] for other in others]) if len(others) > 1 or m % 2 else s.merge(others[0][0]), lambda: merged([ref] + [other[1] for other in others])
        raise HarnessError(name)

    def compare(self, name, got, ref, before, ctx, number, op):
        """If what was got is what the model says."""
        where = lambda what: 'op #{} {}: {}'.format(number, op, what)
        expect(len(got) == len(ref), 'wrong-length:{}'.format(name), lambda: where('{} items instead of {}'.format(len(got), len(ref))))
        scale = max([ref.scale, before.scale] + [abs(v) for item in ref.items for _, v in data_items(item['d'])])
        if name in ('derivative', 'integral', 'merge'):
            scale = max(scale, *[abs(v) for item in ref.items for _, v in data_items(item['d'])]) if len(ref) else scale
        ref.scale = scale
        for k, (item, expected) in enumerate(zip(got, ref.items)):
            slot = isinstance(item, TimeSlot)
            expect(slot == (ref.kind == 'slots') and isinstance(item, (DataTimePoint, DataTimeSlot)), 'wrong-type:{}'.format(name), lambda: where(type(item)))
            at = (item.start.t, item.end.t) if slot else (item.t, None)
            expect(abs(at[0] - expected['t']) < 1e-6 and (not slot or abs(at[1] - expected['e']) < 1e-6), 'wrong-time:{}'.format(name), lambda: where('item #{}: {} instead of {}'.format(k, at, (expected['t'], expected['e']))))
            expect(str(item.tz) == ref.tz, 'wrong-timezone:{}'.format(name), lambda: where('item #{}: {} instead of {}'.format(k, item.tz, ref.tz)))
            expect(type(item.data) is type(expected['d']), 'wrong-data-type:{}'.format(name), lambda: where(item.data))
            a, b = data_items(item.data), data_items(expected['d'])
            expect([label for label, _ in a] == [label for label, _ in b], 'wrong-labels:{}'.format(name), lambda: where('item #{}: {} instead of {}'.format(k, item.data, expected['d'])))
            expect(all(abs(p - q) <= 1e-7 * scale for (_, p), (_, q) in zip(a, b)), 'wrong-data:{}'.format(name), lambda: where('item #{}: {} instead of {}'.format(k, item.data, expected['d'])))
            p, q = [{label: v for label, v in x.items() if v is not None or name != 'merge'} for x in (item.data_indexes, expected['x'])]
            expect(set(p) == set(q) and all(close(p[label], q[label]) for label in p), 'wrong-indexes:{}'.format(name), lambda: where('item #{}: {} instead of {}'.format(k, item.data_indexes, expected['x'])))

    def in_place(self, op, ref, result):
        """The model after an operation in place."""
        items = []
        for item, new in zip(ref.items, result.items):
            d = dict(item['d'], **new['d']) if isinstance(item['d'], dict) else new['d']
            items.append(dict(item, d=d))
        return ref.like(items, scale=result.scale)

    def undo(self, series, ref, op, where):
        """Summing up undoes differences, and integrating undoes derivatives."""
        first = {label: ref.get(0, label) for label in ref.labels}
        if op['m'] % 2 and ref.step not in ('variable', None, 'calendar') and len(ref) > 2:
            offsets = {label + '_diff' if ref.keyed else label: v for label, v in first.items()}
            same = series.diff().csum(offset=offsets) if all(v for v in offsets.values()) else None
            postfix = '_diff_csum'
        elif ref.step not in (None, 'calendar') and len(ref) > 1:
            same = series.derivative().integral(c={label + '_derivative' if ref.keyed else label: v for label, v in first.items()})
            postfix = '_derivative_integral'
        else:
            return None
        if same is None:
            return None
        expect(len(same) == len(ref), 'not-undone', lambda: where('{} items instead of {}'.format(len(same), len(ref))))
        for k, item in enumerate(same):
            for label in ref.labels:
                got = item.data[label + postfix] if ref.keyed else item.data[int(label)]
                expect(abs(got - ref.get(k, label)) <= 1e-6 * ref.scale, 'not-undone:{}'.format(postfix[1:]), lambda: where('item #{} {}: {} instead of {}'.format(k, label, got, ref.get(k, label))))
        return postfix

    def execute(self, trace, ctx):
        pool = [entry for entry in (self.collect(trace, sensor, ctx) for sensor in trace['sensors']) if entry]
        if not pool:
            ctx.probe('nothing-collected')
            return
        compared = 0
        for number, op in enumerate(trace['ops']):
            ctx.step()
            name = op['op']
            series, ref, depth = pool[op['s'] % len(pool)]
            if not len(ref) or ref.scale > 1e9:
                continue
            others = [pool[o % len(pool)] for o in op['o']]
            where = lambda what: 'op #{} {}: {}'.format(number, op, what)
            if name == 'undo':
                done = self.undo(series, ref, op, where)
                ctx.log(number, name, done)
                ctx.probe('undo:{}'.format(done))
                continue
            f, model = self.operation(op, series, ref, others)
            target = series
            if op.get('inplace'):
                target = series.duplicate()
            kind, got = call(f, target)
            try:
                expected = model()
                outcome = 'ok'
            except Refused:
                outcome = 'refused'
            except Maybe as e:
                outcome = 'maybe'
                expected = e.args[0]
            except Unspecified:
                outcome = 'unspecified'
            ctx.log(number, name, outcome, kind)
            ctx.probe('{}{}:{}'.format(name, ':inplace' if op.get('inplace') else '', outcome))
            ctx.state(name, op.get('inplace'), trace['kind'], ref.keyed, str(ref.step)[:5] if isinstance(ref.step, str) else None, min(depth, 4), outcome, op['m'])
            if outcome == 'unspecified':
                continue
            if outcome == 'refused':
                if kind == 'ok':
                    expect(not len(got), 'not-refused:{}'.format(name), lambda: where('got {}'.format([str(item) for item in got][:3])))
                continue
            if outcome == 'maybe' and kind == 'exc':
                continue
            expect(kind == 'ok', 'failed:{}'.format(name), lambda: where('{}: {}'.format(type(got).__name__, got)))
            if name in SCALARS:
                expect(set(got) == set(expected), 'wrong-labels:{}'.format(name), lambda: where('{} instead of {}'.format(got, expected)))
                expect(all(abs(got[label] - expected[label]) <= 1e-7 * max(1, ref.scale * len(ref)) for label in expected), 'wrong-data:{}'.format(name), lambda: where('{} instead of {}'.format(got, expected)))
                ctx.log(sorted((label, round(float(v), 4)) for label, v in got.items()))
                continue
            if op.get('inplace'):
                expected = self.in_place(op, ref, expected)
                got = target
            self.compare(name, got, expected, ref, ctx, number, op)
            compared += 1
            ctx.log([sorted((label, round(float(v), 3)) for label, v in data_items(item.data)) for item in got][:6])
            if name in ('get', 'select', 'ends'):
                continue
            expect(isinstance(got, TimeSeries), 'not-a-series:{}'.format(name), lambda: where(type(got)))
            if name == 'merge' and len({id(entry[0]) for entry in [pool[op['s'] % len(pool)]] + others}) > 1 and len(expected):
                ctx.nontrivial = True
                ctx.probe('merged-sensors')
            if len(pool) < 9:
                pool.append([got, expected, depth + 1])
            if depth >= 2:
                ctx.nontrivial = True


SCENARIO = P21()
