"""P13: nothing asked about a series changes it or what was given along, even if failing halfway, and results are independent of it."""

import contextlib
import io

from ..core import Scenario, call, expect
from ..store import *
from ..zoo import *

# What gives a new series (or list) sharing nothing with the ones it was computed from
NEW = ['resample', 'aggregate', 'aggregate', 'derivative', 'integral', 'diff', 'csum', 'normalize', 'rescale', 'offset', 'mavg', 'merge', 'filter',
       'duplicate', 'as_tz', 'materialize', 'view_duplicate', 'df', 'json', 'csv', 'label', 'pickle']
# What gives series sharing their items with it
SHARED = ['slice', 'select', 'copy', 'pyslice', 'head', 'tail']
# What gives something else
ASK = ['min', 'max', 'avg', 'sum', 'summary', 'inspect', 'guess', 'str', 'to_json', 'to_df', 'contents', 'get', 'items', 'csv_only', 'index', 'plot']
MODEL = ['m_fit', 'm_fit', 'm_predict', 'm_apply', 'm_apply', 'm_forecast', 'm_evaluate', 'm_cross', 'm_preprocess', 'm_mark', 'm_save']
MUTATE = ['set_value', 'set_value', 'set_index', 'rename', 'remove_label', 'remove_index', 'change_tz', 'append', 'pop', 'inplace', 'clear', 'item_tz']


def frozen(x):
    """The containers copied, what they contain as it is."""
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [frozen(v) for v in x]
    return x


class P13(Scenario):
    prop = 'P13'
    quick_runs = 6000
    thorough_runs = 100000
    rule = 'a run is non-trivial if something was computed from a series and either failed, was interrupted or was followed by a change of one of the two; runs are distinct by the digest of their history'
    measure = 'distinct (operation, outcome, where it was interrupted, change which followed) tuples'
    real = ['timeseria.datastructures', 'timeseria.operations', 'timeseria.transformations', 'timeseria.models', 'timeseria.storages', 'pandas', 'scipy, fitter']
    stubbed = ['interruptions and failed allocations (raised at any line of the package)', 'failures of user-defined operations and models', 'the scratch folder for files']
    assumptions = ['slices, selections, copies and conversions to dictionaries share their items with the series (as documented or evident)', 'in-place operations are not interrupted']
    shrinkable = ['ops']

    def generate(self, rng, i):
        base = season(rng, n=rng.randint(12, 24), period=rng.choice((3, 4)), loss=rng.choice((None, 0, 0.1, 0.2)), labels=rng.choice((['value'], ['a', 'b'], ['value'])),
                      index=rng.choice((None, None, 'anomaly')))
        labels = sorted(base['items'][0]['d'])
        second = season(rng, n=len(base['items']), period=base['period'], loss=rng.choice((None, 0)), labels=rng.choice((labels, ['other'])), unit='x' if base.get('unit') else '', tz=base['tz'], start=base['items'][0]['t'], step=base['step'])
        kinds = rng.choice((NEW, NEW + SHARED, NEW + ASK, MODEL + NEW[:4], MODEL, NEW + SHARED + ASK + MODEL))
        if base.get('unit') and kinds is not MODEL and rng.random() < 0.5:
            for spec in (base, second):
                del spec['unit']
        if rng.random() < 0.15 and not base.get('unit'):
            base['items'] = [item for item in base['items'] if rng.random() < 0.8]
        ops = []
        for _ in range(rng.randint(3, 10)):
            name = rng.choice(kinds) if rng.random() < 0.65 else rng.choice(MUTATE)
            op = {'op': name, 's': rng.choice((0, 1, 2, 3, 4, 5, -1, -1, -1)) if name in MUTATE else rng.randint(0, 5), 'i': rng.randint(0, 20), 'v': rng.choice((2, 0.5, -3, 10, 0, 1)), 'w': rng.randint(2, 4), 'd': rng.random() < 0.4}
            if name in MODEL:
                op['m'] = rng.randint(0, 2)
                if name == 'm_fit':
                    op['model'] = rnd_model(rng, labels=len(labels), period=base['period'], families=('paf', 'par', 'paad', 'parad', 'uf', 'ur', 'lir', 'lstm', 'lstmad'))
            if name not in MUTATE:
                r = rng.random()
                if r < 0.3:
                    op['interrupt'] = round(rng.random(), 4)
                    op['memory'] = rng.random() < 0.5
                elif r < 0.4:
                    op['fail_at'] = rng.choice((0, 1, 2, 5))
            ops.append(op)
        return {'series': [base, second], 'ops': ops}

    def simplify(self, trace):
        for i, op in enumerate(trace['ops']):
            for key in ('interrupt', 'fail_at'):
                if key in op:
                    yield dict(trace, ops=trace['ops'][:i] + [{k: v for k, v in op.items() if k != key}] + trace['ops'][i+1:])

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    # Computations: functions of no arguments, and what has been given to them
    def computation(self, op, series, other):
        name, n, v = op['op'], len(series), op['v']
        labels = series.data_labels() if n else []
        label = labels[op['i'] % len(labels)] if labels else 'value'
        step = {1: '3s', 10: '1m', 60: '5m', 600: '20m', 900: '30m', 3600: '2h'}.get(self.step, '1h')
        args = []

        def given(x):
            args.append(x)
            return x
        if name == 'resample':
            f = lambda: series.resample(self.step * op['w'] / 2)
        elif name == 'aggregate':
            choice = op['i'] % 4
            calls = [0]

            def custom(s, *args, **kwargs):
                calls[0] += 1
                if op.get('fail_at') is not None and calls[0] > op['fail_at']:
                    raise OSError('simulated failure')
                return {lab: sum(item.data[lab] for item in s) for lab in s.data_labels()} if len(s) else {lab: 0.0 for lab in s.data_labels()}
            operations_ = given([[operations.avg], [operations.min, operations.max], [operations.sum, operations.avg], [custom]][choice])
            f = lambda: series.aggregate(step, operations=operations_) if op['d'] else series.aggregate(step)
        elif name in ('derivative', 'diff', 'csum', 'integral'):
            f = lambda: getattr(series, name)()
        elif name == 'normalize':
            ranges = given([0, 10])
            source = given([-50, 200] if op['i'] % 2 else {lab: [-50, 200] for lab in labels})
            f = lambda: series.normalize(range=ranges, source_range=source) if op['d'] else series.normalize(range=ranges)
        elif name in ('rescale', 'offset'):
            by = given({label: v}) if op['d'] else v
            f = lambda: getattr(series, name)(by)
        elif name == 'mavg':
            f = lambda: series.mavg(window=op['w'])
        elif name == 'merge':
            f = lambda: series.merge(other)
        elif name == 'filter':
            f = lambda: series.filter(*labels) if op['d'] else series.filter(label)
        elif name == 'label':
            f = lambda: series[label]
        elif name == 'inspect':
            def f():
                with contextlib.redirect_stdout(io.StringIO()):
                    return series.inspect()
        elif name in ('duplicate', 'copy', 'summary', 'contents', 'to_json', 'to_df', 'head', 'tail'):
            f = getattr(series, name)
        elif name == 'guess':
            f = lambda: series.guess_resolution(confidence=op['d'])
        elif name == 'plot':
            f = lambda: series.plot(html=True) if n else None
        elif name in ('min', 'max', 'avg', 'sum'):
            f = lambda: getattr(series, name)(data_label=label) if op['d'] else getattr(series, name)()
        elif name == 'str':
            f = lambda: (str(series), [repr(item) for item in series])
        elif name == 'as_tz':
            f = lambda: series.as_tz(TIMEZONES[op['i'] % len(TIMEZONES)])
        elif name == 'materialize':
            f = lambda: series.view(from_i=min(1, n), to_i=n).materialize()
        elif name == 'view_duplicate':
            f = lambda: series.view(from_i=min(1, n), to_i=n).duplicate()
        elif name == 'df':
            f = lambda: TimeSeries.from_df(series.to_df())
        elif name == 'json':
            f = lambda: TimeSeries.from_json(series.to_json())
        elif name == 'pickle':
            f = lambda: copy.deepcopy(series)
        elif name == 'csv':
            path = os.path.join(self.fs.root, 's{}.csv'.format(self.number))

            def f():
                series.to_csv(path, overwrite=True)
                return TimeSeries.from_csv(path)
        elif name == 'csv_only':
            path = os.path.join(self.fs.root, 's{}.csv'.format(self.number))
            f = lambda: series.to_csv(path, overwrite=True)
        elif name == 'slice':
            f = lambda: series.slice(from_i=min(op['i'], n - 1), to_i=n)
        elif name == 'select':
            f = lambda: series.select('{}={}'.format(label, series[op['i'] % n].data[label]))
        elif name == 'pyslice':
            f = lambda: series[op['i'] % (n + 1):]
        elif name == 'get':
            f = lambda: series.get(at_i=op['i'] % n) if n else None
        elif name == 'index':
            f = lambda: series.index(series[op['i'] % n]) if n else None
        elif name == 'items':
            f = lambda: [item.data_weighted if hasattr(item, 'data_weighted') else (item.data_indexes, item.data_loss) for item in series]
        else:
            raise HarnessError(name)
        return f, args

    def model_computation(self, op, series, entry, ctx):
        name, args = op['op'], []
        instance, family = entry['instance'], entry['model']['family']

        def given(x):
            args.append(x)
            return x
        steps = op['w'] - 1
        if name == 'm_predict':
            if family in FORECASTERS:
                f = lambda: instance.predict(series, steps=steps)
            elif family in RECONSTRUCTORS:
                f = lambda: instance.predict(series, 1, 1 + steps)
            else:
                f = lambda: instance.apply(series)
        elif name == 'm_forecast':
            f = lambda: instance.forecast(series, steps=steps) if family in FORECASTERS else instance.apply(series)
        elif name == 'm_apply':
            if family in FORECASTERS:
                f = lambda: instance.apply(series, steps=steps)
            elif family in RECONSTRUCTORS:
                f = lambda: instance.apply(series, data_loss_threshold=0.9 if op['d'] else 1.0)
            else:
                bounds = given(['avg_err', 'max_err'])
                f = lambda: instance.apply(series, index_bounds=bounds, details=op['i'] % 3 == 0, index_type='lin' if op['d'] else 'log')
        elif name == 'm_evaluate':
            metrics = given(['RMSE', 'MAE'])
            if family in FORECASTERS:
                f = lambda: instance.evaluate(series, steps=steps, error_metrics=metrics)
            elif family in RECONSTRUCTORS:
                f = lambda: instance.evaluate(series, steps=steps, limit=5, metrics=metrics)
            else:
                f = lambda: instance.apply(series)
        elif name == 'm_preprocess':
            f = lambda: instance.preprocess(series) if family in DETECTORS else None
        elif name == 'm_mark':
            f = lambda: instance.mark_events(series, index_treshold=0.3) if family in DETECTORS else None
        elif name == 'm_save':
            path = os.path.join(self.fs.root, 'm{}'.format(self.number))
            f = lambda: instance.save(path)
        else:
            raise HarnessError(name)
        return f, args

    def change(self, op, series):
        """Change a series or its items."""
        name, n, i = op['op'], len(series), op['i']
        if not n:
            return False
        item = series[i % n]
        if name == 'set_value':
            label = sorted(item.data)[i % len(item.data)]
            item.data[label] = op['v'] + 0.125
        elif name == 'set_index':
            item.data_indexes['data_loss' if op['d'] else 'changed'] = 0.5
        elif name == 'rename':
            series.rename_data_label(series.data_labels()[0], 'renamed{}'.format(i))
        elif name == 'remove_label':
            if len(series.data_labels()) < 2:
                return False
            series.remove_data_label(series.data_labels()[0])
        elif name == 'remove_index':
            series.remove_data_index('data_loss')
        elif name == 'change_tz':
            series.change_tz(TIMEZONES[i % len(TIMEZONES)])
        elif name == 'item_tz':
            item.change_tz(TIMEZONES[i % len(TIMEZONES)])
        elif name == 'append':
            last = series[-1]
            if isinstance(last, TimeSlot):
                series.append(last.__class__(start=last.end, end=last.end + last.unit, unit=last.unit, data=dict(last.data)) if False else last.__class__(start=TimePoint(t=last.end.t, tz=str(last.tz)), unit=TimeUnit(str(last.unit)), data=dict(last.data)))
            else:
                series.append(last.__class__(t=last.t + self.step, tz=str(last.tz), data=dict(last.data)))
        elif name == 'pop':
            series.pop()
        elif name == 'clear':
            if i % 3:
                return False
            series.clear()
        elif name == 'inplace':
            getattr(series, ('rescale', 'offset')[i % 2])(op['v'], inplace=True)
        return True

    def execute(self, trace, ctx):
        fs = self.fs = SimFS()
        self.step = trace['series'][0]['step']
        pool = []       # [series, snapshot, group]
        models = []
        groups = 0
        for spec in trace['series']:
            series = build(spec)
            pool.append([series, snapshot(series), groups])
            groups += 1
        consts = None
        last = None
        computed = acted = False

        def verify(signature, number, op, allowed=()):
            for k, (series, snap, group) in enumerate(pool):
                if group in allowed:
                    pool[k][1] = snapshot(series)
                    continue
                diff = first_difference(snap, snapshot(series))
                expect(diff is None, signature, lambda: 'op #{} {}: series #{} changed: {}'.format(number, op, k, diff))

        def verify_models(signature, number, op):
            for k, entry in enumerate(models):
                reset_counters()
                diff = first_difference(entry['answers'], answers(entry['instance'], entry['model']['family'], build(trace['series'][0]), evaluate=False))
                expect(diff is None, signature, lambda: 'op #{} {}: model #{} answers differently: {}'.format(number, op, k, diff))

        for number, op in enumerate(trace['ops']):
            self.number = number
            ctx.step()
            name = op['op']
            which = op['s'] % len(pool)
            series, _, group = pool[which]
            if name in MUTATE:
                kind, result = call(self.change, op, series)
                verify('changed-together:{}:{}'.format(last, name), number, op, allowed=(group,))
                verify_models('model-changed-with-series:{}'.format(name), number, op)
                ctx.log(number, name, kind, result if kind == 'ok' else type(result).__name__)
                ctx.state('change', last, name, kind)
                ctx.probe('{}:{}'.format(name, kind if kind == 'exc' or result else 'no'))
                acted = acted or (kind == 'ok' and result)
                continue
            other = pool[(op['s'] + 1) % len(pool)][0]
            entry = None
            if name == 'm_fit':
                entry = {'instance': make(op['model']), 'model': op['model']}
                args = [op['model']['fit']]
                f = lambda: entry['instance'].fit(series, **op['model']['fit']) if op['model']['family'] != 'lir' else None
            elif name == 'm_cross':
                family = ('paf', 'par', 'uf', 'ur')[op['m']]
                args = [['RMSE', 'MAE']]
                f = lambda: make({'family': family}).cross_validate(series, rounds=2, **({'evaluate_limit': 5, 'evaluate_steps': 2} if family in RECONSTRUCTORS else {}))
            elif name in MODEL:
                if not models:
                    continue
                used = models[op['m'] % len(models)]
                f, args = self.model_computation(op, series, used, ctx)
            else:
                f, args = self.computation(op, series, other)
            before_args = frozen(args)
            where = None
            reset_counters()
            with fs:
                if 'interrupt' in op:
                    lines, _ = sched.count_lines(f)
                    verify('changed-by:{}'.format(name), number, op)
                    if name == 'm_save':
                        fs.wipe()
                    if entry is not None:
                        entry['instance'] = make(op['model'])
                    where, (kind, result) = sched.interrupted(f, int(op['interrupt'] * lines), MemoryError if op['memory'] else KeyboardInterrupt)
                    if where:
                        ctx.fault('failed_allocation' if op['memory'] else 'interrupt')
                else:
                    reset_counters(op.get('fail_at'))
                    kind, result = call(f)
                    if 'fail_at' in op and kind == 'exc' and isinstance(result, OSError):
                        ctx.fault('user_failure')
                if name in ('m_save', 'csv', 'csv_only'):
                    fs.wipe()
            reset_counters()
            verify('changed-by:{}'.format(name) if not where else 'changed-by-interrupted:{}'.format(name), number, op)
            expect(frozen(args) == before_args, 'arguments-changed-by:{}'.format(name), lambda: 'op #{} {}: {} to {}'.format(number, op, before_args, frozen(args)))
            verify_models('model-changed-by:{}'.format(name), number, op)
            computed = True
            acted = acted or kind == 'exc'
            last = name
            if kind == 'ok':
                if isinstance(result, Series) and not hasattr(result, 'series_view'):
                    shared = name in SHARED
                    if name not in ('items', 'contents', 'get') and len(pool) < 7:
                        expect(result is not series, 'same-object:{}'.format(name))
                        pool.append([result, snapshot(result), group if shared else groups])
                        groups += not shared
                elif name == 'm_forecast' and isinstance(result, list):
                    holder = TimeSeries(*result) if call(lambda: TimeSeries(*result))[0] == 'ok' else None
                    if holder is not None and len(pool) < 7:
                        pool.append([holder, snapshot(holder), groups])
                        groups += 1
                if entry is not None:
                    if len(models) < 3:
                        entry['answers'] = answers(entry['instance'], entry['model']['family'], build(trace['series'][0]), evaluate=False)
                        models.append(entry)
            ctx.log(number, name, kind, where)
            ctx.state(name, kind, where)
            ctx.probe('{}:{}'.format(name, kind))
        ctx.nontrivial = computed and acted


SCENARIO = P13()
