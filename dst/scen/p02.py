"""P02: what a series tells about itself depends only on the items it holds, not on how it got there or what was asked before."""

from ..core import Scenario, call, expect
from ..lib import *
import datetime
import shutil
import tempfile
from ..simfs import scratch_base
import pytz


def rebuild(series, explicit_tz=None):
    """A fresh series with the same items, rebuilt from their values."""
    fresh = TimeSeries(tz=explicit_tz) if explicit_tz else TimeSeries()
    for item in [series[i] for i in range(len(series))]:
        fresh.append(clone(item))
    return fresh


def clone(item):
    kwargs = {}
    if hasattr(item, 'data'):
        kwargs = {'data': copy.deepcopy(item.data), 'data_indexes': dict(item.data_indexes)}
    if isinstance(item, TimeSlot):
        return item.__class__(start=TimePoint(t=item.start.t, tz=str(item.tz)), unit=TimeUnit(str(item.unit)), **kwargs)
    return item.__class__(t=item.t, tz=str(item.tz), **kwargs)


QUERIES = ['resolution', 'tz', 'data_labels', 'guess', 'guess_confidence', 'str', 'min', 'max', 'avg', 'sum', 'index', 'derivative', 'integral',
           'diff', 'mavg', 'resample', 'aggregate', 'to_json', 'head', 'tail', 'slice', 'get', 'duplicate', 'filter', 'normalize', 'view', 'csum', 'at', 'at', 'between', 'contains', 'next', 'summary', 'to_df', 'stored', 'stored']


def ask(series, query, arg):
    n = len(series)
    if query == 'resolution':
        return outcome(lambda: str(series.resolution))
    if query == 'tz':
        return outcome(lambda: str(series.tz))
    if query == 'data_labels':
        return outcome(series.data_labels)
    if query == 'guess':
        return outcome(lambda: str(series.guess_resolution()))
    if query == 'guess_confidence':
        return outcome(lambda: sorted((k, str(v)) for k, v in series.guess_resolution(confidence=True).items()))
    if query == 'str':
        return outcome(lambda: str(series))
    if query in ('min', 'max', 'avg', 'sum', 'derivative', 'integral', 'diff', 'normalize', 'csum'):
        if not n:
            return None
        return outcome(getattr(series, query))
    if query == 'mavg':
        return outcome(lambda: series.mavg(window=2)) if n > 2 else None
    if query == 'index':
        return outcome(lambda: series.index(series[arg % n])) if n else None
    if query == 'get':
        return outcome(lambda: item_snapshot(series[arg % n])) if n else None
    if query == 'resample':
        if n < 3 or not isinstance(series[0], TimePoint) or series[-1].t - series[0].t > 40 * 600:
            return None
        return outcome(lambda: series.resample(600))
    if query == 'aggregate':
        if n < 3 or series[-1].t - series[0].t > 40 * 3600:
            return None
        return outcome(lambda: series.aggregate('1h'))
    if query == 'to_json':
        return outcome(series.to_json)
    if query == 'head':
        return outcome(lambda: [item_snapshot(x) for x in series.head(arg % 4 + 1)])
    if query == 'tail':
        return outcome(lambda: [item_snapshot(x) for x in series.tail(arg % 4 + 1)])
    if query == 'slice':
        return outcome(lambda: series.slice(from_i=min(1, n - 1), to_i=n)) if n else None
    if query == 'duplicate':
        return outcome(series.duplicate)
    if query == 'filter':
        return outcome(lambda: series.filter(series.data_labels()[0])) if n else None
    if query in ('at', 'between', 'contains', 'next'):
        # By time: times which are there, times which are not, and times which were there before
        if n < 2:
            return None
        slots = isinstance(series[0], TimeSlot)
        if not slots and not isinstance(series[0], TimePoint):
            return None
        begin = lambda k: series[k].start.t if slots else series[k].t
        times = [begin(k) for k in range(n)]
        times = times + [times[-1] + (times[-1] - times[-2]) * k for k in (1, 2)] + [times[0] - (times[1] - times[0]), times[arg % (n - 1)] + 0.5 * (times[1] - times[0])]
        results = []
        for k, t in enumerate(times):
            dt = datetime.datetime.fromtimestamp(t, tz=pytz.UTC)
            if query == 'at':
                results.append(outcome(lambda: item_snapshot(series.get(at_t=t))))
                if t == int(t):
                    results.append(outcome(lambda: item_snapshot(series[dt])))
            elif query == 'between':
                other = times[(k + arg) % len(times)]
                results.append(outcome(lambda: [item_snapshot(x) for x in (series.slice(from_t=t, to_t=other) if arg % 2 else series.slice(from_dt=dt, to_dt=datetime.datetime.fromtimestamp(other, tz=pytz.UTC)))]))
            elif query == 'contains':
                results.append([any(item_snapshot(x) == item_snapshot(series[k % n]) for x in series), series[k % n] in series, outcome(lambda: series.index(series[k % n]))])
            else:
                results.append(outcome(lambda: [item_snapshot(x) for x in (series.slice(from_t=t) if arg % 2 else series.slice(to_t=t))]))
        return results
    if query == 'summary':
        return [outcome(lambda: repr(series)), outcome(lambda: len(series)), outcome(lambda: bool(series)), outcome(lambda: [item_snapshot(x) for x in reversed(series)]), outcome(series.data_indexes if hasattr(series, 'data_indexes') else lambda: None)]
    if query == 'to_df':
        return outcome(lambda: [[str(c), str(column.dtype), [str(t) for t in column.index], [repr(v) for v in column]] for c, column in series.to_df().items()]) if n else None
    if query == 'stored':
        # What would be written, but the date
        if not n:
            return None
        folder = tempfile.mkdtemp(prefix='dst-', dir=scratch_base())
        try:
            stored = outcome(series.save, os.path.join(folder, 'series.csv'))
            if stored[0] == 'exc':
                return stored
            with open(os.path.join(folder, 'series.csv'), 'rb') as f:
                return [line.decode() for line in f.read().split(b'\n') if not line.startswith(b'#')]
        finally:
            shutil.rmtree(folder, ignore_errors=True)
    if query == 'view':
        return outcome(lambda: [item_snapshot(x) for x in series.view(0, n)]) if n else None


class P02(Scenario):
    prop = 'P02'
    quick_runs = 4800
    thorough_runs = 100000
    rule = 'a run is non-trivial if the series changed at least once after having been queried; runs are distinct by the digest of their history'
    measure = 'distinct (kind of series, last change, number of items up to 6, kind of resolution, query) tuples'
    real = ['timeseria.datastructures', 'timeseria.operations', 'timeseria.transformations', 'timeseria.utilities', 'timeseria.units']
    stubbed = ['the client issuing the operations']
    assumptions = ['items do not share their data with each other', 'a slot series keeps its time zone even once emptied', 'calendar slots are not moved to other time zones']

    def generate(self, rng, i):
        kind = rng.choice(('points', 'points', 'points', 'points-list', 'slots', 'calendar'))
        tz = rng.choice(TIMEZONES)
        labels = rng.sample(['a', 'b', 'c'], rng.randint(1, 3))
        unit = {'slots': rng.choice(('1h', '10m')), 'calendar': '1D'}.get(kind)
        step = rng.choice((60, 600, 600, 3600, 0.5))
        n = rng.randint(2, 8)
        mixed_tz = kind.startswith('points') and rng.random() < 0.25
        items = []
        if kind == 'calendar':
            starts = calendar_starts(tz, 2015, rng.choice((3, 10)), 24, unit, n + 4)
        elif unit:
            starts = [1446073200 + k * {'1h': 3600, '10m': 600}[unit] for k in range(n + 4)]
        else:
            starts, t = [], rng.choice((0, 1446073200, 1e9))
            irregular = rng.choice((0, 1, 1, 2))
            if rng.random() < 0.08:
                n, irregular = rng.randint(20, 30), 3
            elif rng.random() < 0.02:
                n = rng.randint(101, 140)
            for k in range(n + 4):
                starts.append(t)
                if irregular == 3:
                    t += rng.choice((k + 1, 0.1 + k / 1000, step + k * 7))
                else:
                    t += step * (rng.choice((1, 1, 1, 2, 3, 7)) if irregular else 1) * (1 + round(rng.uniform(-0.05, 0.05), 3) if irregular == 2 else 1)
        for t in starts:
            item = {'t': t, 'd': [rnd_value(rng) for _ in labels] if kind == 'points-list' else {label: rnd_value(rng) for label in labels}}
            if rng.random() < 0.4:
                item['x'] = {'data_loss': round(rng.random(), 3)}
                if rng.random() < 0.4:
                    item['x']['anomaly'] = round(rng.random(), 3)
            if mixed_tz and rng.random() < 0.5:
                item['tz'] = rng.choice(TIMEZONES)
            items.append(item)
        ops = []
        later = items[n:]
        warm = rng.random() < 0.8
        for item in items[:n]:
            if not unit and rng.random() < 0.15:
                later.append(item)
                continue
            ops.append({'op': 'append', 'm': item})
            if warm and rng.random() < (0.5 if n < 50 else 0.04):
                ops.append({'op': 'query', 'q': rng.choice(QUERIES), 'arg': rng.randint(0, 9)})
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.45:
                ops.append({'op': 'query', 'q': rng.choice(QUERIES), 'arg': rng.randint(0, 9)})
            elif r < 0.75:
                op = rng.choice(('append', 'insert', 'insert', 'remove', 'pop', 'pop_i', 'clear' if rng.random() < 0.2 else 'pop'))
                ops.append({'op': op, 'i': rng.randint(0, 8), 'm': rng.choice(later)})
                if op.startswith('pop') and rng.random() < 0.5:
                    # As many items as before, and not the same
                    ops.append({'op': 'append', 'i': 0, 'm': rng.choice(later)})
            elif r < 0.83:
                ops.append({'op': 'set', 'i': rng.randint(0, 8), 'v': rnd_value(rng), 'w': rng.choice(('data', 'data', 'data_loss', 'new'))})
            else:
                op = rng.choice(('rename', 'remove_label', 'remove_index', 'remove_data_loss', 'change_tz', 'inplace', 'inplace', 'inplace'))
                ops.append({'op': op, 'i': rng.randint(0, 3), 'tz': rng.choice(TIMEZONES),
                            'f': rng.choice(('derivative', 'integral', 'csum', 'normalize', 'rescale', 'offset')), 'v': rng.choice((2, 0.5, -3))})
        ops.append({'op': 'query', 'q': rng.choice(QUERIES), 'arg': rng.randint(0, 9)})
        asked = [(op['q'], op['arg']) for op in ops if op['op'] == 'query']
        ops.extend({'op': 'query', 'q': q, 'arg': arg} for q, arg in dict.fromkeys(asked[:-1]))
        for op in ops:
            if op['op'] == 'query' and rng.random() < 0.2:
                op['interrupt'] = round(rng.random(), 4)
        return {'kind': kind, 'tz': tz, 'unit': unit, 'ops': ops}

    def execute(self, trace, ctx):
        series = TimeSeries()
        explicit_tz = None
        queried = changed = False
        slots = bool(trace['unit'])
        last = None
        for number, op in enumerate(trace['ops']):
            name = op['op']
            ctx.step()
            n = len(series)
            if name == 'query':
                fresh = rebuild(series, explicit_tz)
                expected = ask(fresh, op['q'], op['arg'])
                before = snapshot(series)
                if 'interrupt' in op:
                    # The query is interrupted halfway first
                    lines, _ = sched.count_lines(lambda: ask(rebuild(series, explicit_tz), op['q'], op['arg']))
                    base, _ = sched.count_lines(lambda: rebuild(series, explicit_tz))
                    at = int(op['interrupt'] * max(0, lines - base))
                    fired, _ = sched.interrupted(lambda: ask(series, op['q'], op['arg']), at, MemoryError if op['arg'] % 2 else KeyboardInterrupt)
                    if fired:
                        ctx.fault('interrupted_query' if op['arg'] % 2 == 0 else 'failed_allocation')
                        diff = first_difference(before, snapshot(series))
                        expect(diff is None, 'interrupted-query-changed-series:{}'.format(op['q']), lambda: 'op #{} at {}: {}'.format(number, fired, diff))
                got = ask(series, op['q'], op['arg'])
                diff = first_difference(expected, got)
                expect(diff is None, 'stale:{}'.format(op['q']), lambda: 'op #{}: {} (fresh vs actual)'.format(number, diff))
                diff = first_difference(before, snapshot(series))
                expect(diff is None, 'query-changed-series:{}'.format(op['q']), lambda: 'op #{}: {}'.format(number, diff))
                queried = True
                ctx.probe('query')
                ctx.log(number, op['q'], got)
                ctx.state(trace['kind'], last, min(n, 6), str(series.resolution) == 'variable', op['q'])
                continue
            before = snapshot(series)
            if name in ('append', 'insert'):
                item = build_item(op['m'], trace['unit'], trace['tz'])
                if slots and explicit_tz:
                    item.change_tz(explicit_tz)
                # Make the labels compatible with the ones of the series
                if n and isinstance(item.data, dict):
                    for label in list(item.data):
                        if label not in series[0].data:
                            item.data.pop(label)
                    for label in series[0].data:
                        item.data.setdefault(label, 1.0)
                if n and item.data == {}:
                    continue
                if name == 'append':
                    result = call(series.append, item)
                else:
                    i = min(op['i'], n)
                    if not slots:
                        i = sum(1 for k in range(n) if series[k].t < item.t)
                    result = call(series.insert, i, item)
            elif name == 'remove':
                if not n or slots:
                    continue
                result = call(series.remove, series[op['i'] % n])
            elif name == 'pop':
                if not n:
                    continue
                result = call(series.pop)
            elif name == 'pop_i':
                if not n:
                    continue
                result = call(series.pop, 0 if slots else op['i'] % n)
            elif name == 'clear':
                result = call(series.clear)
            elif name == 'rename':
                if not n or not isinstance(series[0].data, dict):
                    continue
                labels = series.data_labels()
                if not labels:
                    continue
                result = call(series.rename_data_label, labels[op['i'] % len(labels)], 'r{}'.format(number))
            elif name == 'remove_label':
                if not n or not isinstance(series[0].data, dict) or len(series[0].data) < 2:
                    continue
                labels = series.data_labels()
                result = call(series.remove_data_label, labels[op['i'] % len(labels)])
                must('remove-label', lambda: None)
            elif name == 'remove_index':
                if not n:
                    continue
                result = call(series.remove_data_index, 'anomaly')
            elif name == 'remove_data_loss':
                if not n:
                    continue
                result = call(series.remove_data_loss)
            elif name == 'set':
                # The items of a series can be changed by who holds them
                if not n:
                    continue
                item = series[op['i'] % n]
                if op['w'] == 'data':
                    if not item.data:
                        continue
                    key = sorted(item.data)[0] if isinstance(item.data, dict) else 0
                    item.data[key] = op['v']
                else:
                    item.data_indexes['data_loss' if op['w'] == 'data_loss' else 'new'] = 0.25
                result = ('ok', None)
            elif name == 'change_tz':
                if trace['kind'] == 'calendar':
                    continue
                result = ('ok', must('change_tz', series.change_tz, op['tz']))
                explicit_tz = op['tz']
            elif name == 'inplace':
                if n < 2:
                    continue
                f = op['f']
                args = {'value': op['v']} if f in ('rescale', 'offset') else {}
                fresh = rebuild(series, explicit_tz)
                expected = call(getattr(fresh, f), **args)
                result = call(getattr(series, f), inplace=True, **args)
                if expected[0] == 'exc':
                    expect(result[0] == 'exc', 'inplace-accepted:{}'.format(f), lambda: 'op #{}: out of place raises {!r}'.format(number, expected[1]))
                    # How the series is left by an operation failed halfway is not specified
                    break
                expect(result[0] == 'ok', 'inplace-failed:{}'.format(f), lambda: 'op #{}: {!r}'.format(number, result[1]))
                self.check_inplace(f, fresh, expected[1], series, number)
            else:
                raise HarnessError(name)
            if result[0] == 'exc':
                diff = first_difference(before, snapshot(series))
                expect(diff is None, 'refused-but-changed:{}'.format(name), lambda: 'op #{}: {}'.format(number, diff))
                ctx.probe('refused')
            else:
                changed = changed or queried
                last = name
                ctx.probe('change:{}'.format(name))
                if slots and explicit_tz is None and len(series):
                    explicit_tz = str(series[0].tz)     # Kept even once emptied
            ctx.log(number, name, result[0], len(series))
        if len(series) >= 2:
            ctx.sim_time(series[-1].t - series[0].t)
        ctx.nontrivial = changed

    def check_inplace(self, f, original, expected, series, number):
        expect(len(original) == len(series), 'inplace-length:{}'.format(f), len(series))
        for i in range(len(original)):
            if isinstance(original[i].data, dict):
                data = dict(original[i].data)
                data.update(expected[i].data)
            else:
                data = expected[i].data
            expect(close_data(data, series[i].data, 1e-9), 'inplace-differs:{}'.format(f),
                   lambda: 'op #{}: item #{} is {}, expected {}'.format(number, i, series[i].data, data))
            expect(original[i].t == series[i].t and value(original[i].data_indexes) == value(series[i].data_indexes), 'inplace-changed-item:{}'.format(f), i)


SCENARIO = P02()
