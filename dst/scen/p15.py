"""P15: a view is the slice it denotes, whatever happens to the series and however many iterations are going on on it."""

from ..core import Scenario, call, expect
from ..lib import *
from ..zoo import season
from .p02 import clone
from timeseria.models.forecasters import PeriodicAverageForecaster
from timeseria.datastructures import TimeSeriesView

QUERIES = {
    'len': lambda v, a: len(v),
    'item': lambda v, a: item_snapshot(v[a % max(1, len(v))]),
    'item_negative': lambda v, a: item_snapshot(v[-1 - a % max(1, len(v))]),
    'out_of_range': lambda v, a: item_snapshot(v[len(v) + a]),
    'out_of_range_negative': lambda v, a: item_snapshot(v[-len(v) - 1 - a]),
    'slice': lambda v, a: [item_snapshot(x) for x in v[a % 4:a]],
    'slice_open': lambda v, a: [item_snapshot(x) for x in v[a:]],
    'slice_negative': lambda v, a: [item_snapshot(x) for x in v[-a - 1:-1]],
    'slice_beyond': lambda v, a: [item_snapshot(x) for x in v[1:len(v) + a]],
    'iterate': lambda v, a: [item_snapshot(x) for x in v],
    'list': lambda v, a: [item_snapshot(x) for x in list(v)],
    'reversed': lambda v, a: [item_snapshot(x) for x in reversed(v)],
    'nested': lambda v, a: [(x.t, y.t) for x in v for y in v],
    'zip': lambda v, a: [(x.t, y.t) for x, y in zip(v, v)],
    'contains': lambda v, a: [v[a % max(1, len(v))] in v, clone(v[0]) in v],
    'index': lambda v, a: v.index(v[a % max(1, len(v))]),
    'get': lambda v, a: item_snapshot(v.get(at_i=a % max(1, len(v)))),
    'get_t': lambda v, a: item_snapshot(v.get(at_t=v[a % max(1, len(v))].t)),
    'labels': lambda v, a: v.data_labels(),
    'tz': lambda v, a: str(v.tz),
    'resolution': lambda v, a: str(v.resolution),
    'type': lambda v, a: v.item_type.__name__,
    'contents': lambda v, a: [item_snapshot(x) for x in v.contents()],
    'head': lambda v, a: [item_snapshot(x) for x in v.head(a % 4 + 1)],
    'tail': lambda v, a: [item_snapshot(x) for x in v.tail(a % 4 + 1)],
    'json': lambda v, a: v.to_json(),
    'df': lambda v, a: str(v.to_df()),
    'duplicate': lambda v, a: v.duplicate(),
    'slice_op': lambda v, a: v.slice(from_i=min(a % 4, len(v) - 1), to_i=len(v)),
    'slice_t': lambda v, a: v.slice(from_t=v[0].t, to_t=v[-1].t),
    'select': lambda v, a: v.select('{}={}'.format(v.data_labels()[0], v[a % max(1, len(v))].data[v.data_labels()[0]])),
    'filter': lambda v, a: v.filter(v.data_labels()[0]),
    'as_tz': lambda v, a: v.as_tz(TIMEZONES[a % len(TIMEZONES)]),
    'min': lambda v, a: v.min(), 'max': lambda v, a: v.max(), 'avg': lambda v, a: v.avg(), 'sum': lambda v, a: v.sum(),
    'derivative': lambda v, a: v.derivative(), 'integral': lambda v, a: v.integral(), 'diff': lambda v, a: v.diff(), 'csum': lambda v, a: v.csum(),
    'normalize': lambda v, a: v.normalize(), 'rescale': lambda v, a: v.rescale(a + 1), 'mavg': lambda v, a: v.mavg(a % 3 + 2),
    'resample': lambda v, a: v.resample(60 * (a + 5) if v[1].t - v[0].t >= 60 else (v[1].t - v[0].t) * (a + 1)) if len(v) > 2 and v[-1].t - v[0].t < 10**5 else None,
    'aggregate': lambda v, a: v.aggregate('1h' if v[1].t - v[0].t >= 300 else (v[1].t - v[0].t) * 3) if len(v) > 2 and v[-1].t - v[0].t < 10**6 else None,
    'merge': lambda v, a: v.merge(v),
    'equals': lambda v, a: [v == v.duplicate(), v != v.duplicate(), v == v.contents()],
    'fit': lambda v, a: fitted(v),
    'view': lambda v, a: [item_snapshot(x) for x in v.view(min(1, len(v) - 1), len(v))],
}


def fitted(series):
    model = PeriodicAverageForecaster()
    model.fit(series, periodicity=3)
    return model.apply(series, steps=2)


class P15(Scenario):
    prop = 'P15'
    quick_runs = 9000
    thorough_runs = 300000
    rule = 'a run is non-trivial if several iterations of a view were interleaved, or if the series changed after the view was created; runs are distinct by the digest of their history'
    measure = 'distinct (kind of series, depth of the view, iterations going on, last change, query, interrupted) tuples'
    real = ['timeseria.datastructures', 'timeseria.operations', 'timeseria.transformations', 'timeseria.models.forecasters']
    stubbed = ['the clients iterating and querying (interleaved step by step)', 'interruptions and failed allocations (raised at any line of the package)']
    assumptions = ['the positions of a view stay inside its series', 'the resolution of a view is the one of its series', 'an empty view has no items before it (but see the known findings)']
    shrinkable = ['ops']

    def generate(self, rng, i):
        base = season(rng, n=rng.randint(6, 24), period=3, labels=rng.choice((['value'], ['a', 'b'])), loss=rng.choice((None, 0, 0.2)))
        irregular = not base.get('unit') and rng.random() < 0.4
        spare = []
        if irregular:
            kept = []
            for item in base['items']:
                (kept if rng.random() < 0.75 else spare).append(item)
            base['items'] = kept
        n = len(base['items'])
        ops = []
        for _ in range(rng.randint(1, 2)):
            a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
            ops.append({'op': 'view', 'from': a, 'to': b, 'of': 0})
        for _ in range(rng.randint(3, 25)):
            r = rng.random()
            if r < 0.1:
                ops.append({'op': 'view', 'from': rng.randint(0, n), 'to': rng.randint(0, n), 'of': rng.randint(0, 3)})
            elif r < 0.2:
                ops.append({'op': 'start', 'v': rng.randint(0, 3)})
            elif r < 0.6:
                ops.append({'op': 'next', 'k': rng.randint(0, 5), 'n': rng.choice((1, 1, 2, 5, 100))})
            elif r < 0.85:
                op = {'op': 'ask', 'v': rng.randint(0, 3), 'q': rng.choice(sorted(QUERIES)), 'a': rng.randint(0, 9)}
                if rng.random() < 0.15:
                    op['interrupt'] = round(rng.random(), 4)
                ops.append(op)
            else:
                ops.append({'op': rng.choice(('append', 'value', 'value', 'rename', 'insert' if irregular else 'append', 'index')), 'i': rng.randint(0, 30), 'x': rng.choice((1.5, -7.0, 0.0))})
        return {'base': base, 'ops': ops, 'spare': spare, 'irregular': irregular}

    def execute(self, trace, ctx):
        base = trace['base']
        series = build(base)
        views = []          # [view, from, to, depth]
        iterators = []      # [iterator, view number, position]
        changed = interleaved = False
        last = None
        step = base['step']

        def denoted(k):
            _, a, b, _ = views[k]
            return [series[i] for i in range(a, b)]

        for number, op in enumerate(trace['ops']):
            name = op['op']
            ctx.step()
            n = len(series)
            if name == 'view':
                if op['of'] == 0 or not views:
                    parent, offset, size, depth = series, 0, n, 0
                else:
                    parent, a, b, depth = views[op['of'] % len(views)]
                    offset, size = a, b - a
                a, b = sorted((op['from'] % (size + 1), op['to'] % (size + 1)))
                if depth > 2:
                    continue
                if depth and not size:
                    continue
                views.append([must('view', parent.view, a, b), offset + a, offset + b, depth + 1])
                ctx.log(number, name, offset + a, offset + b, depth)
            elif name == 'start':
                if not views:
                    continue
                k = op['v'] % len(views)
                iterators.append([iter(views[k][0]), k, 0])
            elif name == 'next':
                if not iterators:
                    continue
                entry = iterators[op['k'] % len(iterators)]
                iterator, k, position = entry
                for _ in range(op['n']):
                    items = denoted(k)
                    try:
                        got = next(iterator)
                    except StopIteration:
                        expect(entry[2] >= len(items), 'iteration-ended', lambda: 'op #{}: after {} of {} items'.format(number, entry[2], len(items)))
                        iterators.remove(entry)
                        break
                    expect(entry[2] < len(items), 'iteration-not-ended', lambda: 'op #{}: {} items, got {}'.format(number, len(items), got))
                    expect(got is items[entry[2]], 'iteration-wrong-item', lambda: 'op #{}: {} instead of {}'.format(number, got, items[entry[2]]))
                    entry[2] += 1
                if len(iterators) > 1:
                    interleaved = True
                ctx.log(number, name, k, entry[2])
                ctx.state('next', min(3, len(iterators)), views[k][3], last)
            elif name == 'ask':
                if not views:
                    continue
                k = op['v'] % len(views)
                view = views[k][0]
                items = denoted(k)
                if not items:
                    # Nothing to ask, but it has to be empty
                    expect(len(view) == 0 and list(view) == [], 'empty-view-not-empty', lambda: 'op #{}'.format(number))
                    result = call(lambda: view[-1])
                    expect(result[0] == 'exc' or views[k][1] == 0, 'empty-view-gives-an-item', lambda: 'op #{}: {}'.format(number, result[1]))
                    continue
                if op['q'] in ('resolution', 'fit', 'diff', 'csum', 'derivative', 'integral', 'mavg', 'merge') and (trace['irregular'] or len(items) < 3):
                    continue
                if op['q'] in ('resample', 'aggregate') and len(items) < 4:
                    continue
                query = QUERIES[op['q']]
                plain = TimeSeries(*[clone(item) for item in items])
                want = outcome(query, plain, op['a'])
                if want[0] == 'exc' and op['q'] in ('equals',):
                    continue
                where = None
                if 'interrupt' in op:
                    lines, _ = sched.count_lines(lambda: outcome(query, view, op['a']))
                    where, _ = sched.interrupted(lambda: query(view, op['a']), int(op['interrupt'] * lines), MemoryError if number % 2 else KeyboardInterrupt)
                    if where:
                        ctx.fault('failed_allocation' if number % 2 else 'interrupt')
                got = outcome(query, view, op['a'])
                diff = first_difference(want, got)
                expect(diff is None, 'not-the-slice:{}'.format(op['q']), lambda: 'op #{} on [{}:{}] of {}: {} (slice vs view)'.format(number, views[k][1], views[k][2], n, diff))
                ctx.log(number, op['q'], views[k][1:], where)
                ctx.state(bool(base.get('unit')), views[k][3], min(3, len(iterators)), last, op['q'], bool(where))
                ctx.probe('ask')
                if iterators:
                    interleaved = True
            else:
                last = name
                if name == 'append':
                    item = series[-1]
                    if isinstance(item, TimeSlot):
                        series.append(build_item({'t': item.end.t, 'd': dict(item.data)}, base['unit'], base['tz']))
                    else:
                        series.append(build_item({'t': item.t + step, 'd': dict(item.data)}, None, base['tz']))
                elif name == 'value':
                    item = series[op['i'] % n]
                    item.data[sorted(item.data)[0]] = op['x']
                elif name == 'index':
                    series[op['i'] % n].data_indexes['data_loss'] = 0.5
                elif name == 'rename':
                    series.rename_data_label(series.data_labels()[0], 'label{}'.format(op['i']))
                elif name == 'insert':
                    if not trace['spare']:
                        continue
                    spec = dict(trace['spare'][op['i'] % len(trace['spare'])])
                    times = [item.t for item in series]
                    if spec['t'] in times:
                        continue
                    labels = series.data_labels()
                    spec['d'] = {label: 1.0 for label in labels}
                    series.insert(sum(1 for t in times if t < spec['t']), build_item(spec, None, base['tz']))
                changed = True
                ctx.log(number, name)
        # However they were interleaved, they all end where they have to
        for iterator, k, position in iterators:
            items = denoted(k)
            rest = list(iterator)
            expect(len(rest) == max(0, len(items) - position) and all(x is y for x, y in zip(rest, items[position:])), 'iteration-wrong-rest', lambda: 'view #{}: {} items instead of {}'.format(k, len(rest), len(items) - position))
        ctx.nontrivial = interleaved or changed


SCENARIO = P15()
