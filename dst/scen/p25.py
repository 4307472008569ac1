"""P25: the models built on Prophet and ARIMA tell their engines the series as it is, and ask them about the right moments, for the whole of their life."""

import datetime
import os
import random

import pytz

from .. import engines, sched
from ..core import Scenario, call, expect, must
from ..lib import *
from ..simfs import SimCrash, SimFS
from .p02 import clone
from .p20 import CHANGES, UNITS

from timeseria.models.forecasters import AARIMAForecaster, ARIMAForecaster, ProphetForecaster
from timeseria.models.reconstructors import ProphetReconstructor
from timeseria.exceptions import NonContiguityError, NotFittedError

CLASSES = {'prophet': ProphetForecaster, 'prophet-reconstructor': ProphetReconstructor, 'arima': ARIMAForecaster, 'aarima': AARIMAForecaster}
NAMES = {600: '10m', 900: '15m', 1800: '30m', 3600: '1h', 86400: '86400s', 1: '1s', 60: '1m'}
# When the clocks go back
BACK = {'Europe/Rome': 1477789200, 'America/New_York': 1478412000, 'Australia/Lord_Howe': 1491058800, 'Pacific/Chatham': 1491055200, 'Asia/Kolkata': 1459000800, 'UTC': 1459000800}
ERRORS = {'os': OSError, 'value': ValueError, 'runtime': RuntimeError, 'type': TypeError, 'memory': MemoryError}


class P25(Scenario):
    prop = 'P25'
    quick_runs = 6000
    thorough_runs = 100000
    rule = 'a run is non-trivial if what the engine answered was compared after the series was extended, or the model was fitted again, saved and loaded, or after a fault; runs are distinct by the digest of what was answered'
    measure = 'distinct (model, kind of series, time zone, across a change of the time, operation, what happened before) tuples'
    real = ['timeseria.models.forecasters', 'timeseria.models.reconstructors', 'timeseria.models.base', 'timeseria.datastructures', 'timeseria.units', 'timeseria.utilities', 'Prophet, statsmodels and pmdarima (only in the directed runs)']
    stubbed = ['Prophet, statsmodels and pmdarima (answering something which depends on everything they were told and asked, and failing at a given call)', 'raw files and directory operations (errors, short reads and writes)', 'interruptions and failed allocations (raised at any line of the package)']
    assumptions = ['a single data label, as required by these models', 'the values of the evaluations on the first item of a series are not asked for', 'ARIMA models are asked only about what follows the series which they were fitted on']
    shrinkable = ['ops']

    def generate(self, rng, i):
        family = rng.choice(('prophet', 'prophet', 'prophet-reconstructor', 'prophet-reconstructor', 'arima', 'aarima'))
        kind = rng.choice(('points', 'points', 'slots', 'slots', '1D', '1M'))
        tz = rng.choice(TIMEZONES)
        step = rng.choice((600, 900, 1800, 3600, 3600, 86400 if kind == 'points' else 60, 1))
        n = rng.randint(4, 24)
        start = rng.choice((0, 1446073200, 1600000000 - 1600000000 % 86400))
        if rng.random() < 0.5:
            start = rng.choice((CHANGES, BACK, BACK))[tz] - rng.randint(0, n + 6) * step
        if step != 86400:
            start -= start % 3600 if step != 1 else 0
        if kind == 'points' and rng.random() < 0.3:
            start += rng.randint(0, 3599)
        trace = {'family': family, 'kind': kind, 'tz': tz, 'step': step, 'start': start, 'year': rng.choice((2015, 2016, 2019)), 'month': rng.randint(1, 12), 'n': n, 'positions': n + 40,
                 'label': rng.choice(('value', 'temp in', 'Umidità', 'a')), 'salt': rng.randint(0, 10**6), 'loss': rng.choice((0, 0.1, 0.3, 0.7)), 'threshold': rng.choice((1.0, 1.0, 0.5, 0.2)),
                 'config': [rng.randint(0, 3), rng.randint(0, 2), rng.randint(0, 3)], 'cv': rng.random() < 0.1, 'view': rng.random() < 0.2}
        ops = []
        for _ in range(rng.randint(2, 9)):
            name = rng.choice(('extend', 'extend', 'pop', 'forecast', 'predict', 'apply', 'apply', 'tail', 'other', 'wrong', 'fit', 'reload', 'evaluate'))
            op = {'op': name, 'n': rng.choice((1, 1, 2, 3, 5)), 'inplace': rng.random() < 0.4, 'at': round(rng.random(), 4)}
            if rng.random() < 0.2:
                op['fault'] = rng.choice(('failure', 'failure', 'interrupt', 'allocation'))
                op['error'] = rng.choice(sorted(ERRORS))
            if name == 'reload' and rng.random() < 0.5:
                op['disk'] = rng.choice(('eio_write', 'enospc', 'enospc_partial', 'eio_close', 'eacces_open', 'eio_mkdir', 'eio_read', None))
            ops.append(op)
        trace['ops'] = ops
        return trace

    def directed(self):
        """Also with the real engines."""
        out = []
        for number, (family, kind, tz) in enumerate((('prophet', 'points', 'Europe/Rome'), ('prophet', '1D', 'America/New_York'), ('prophet-reconstructor', 'slots', 'Australia/Lord_Howe'), ('prophet-reconstructor', 'points', 'Europe/Rome'),
                                                     ('arima', 'points', 'UTC'), ('arima', 'slots', 'Asia/Kolkata'), ('arima', '1D', 'Europe/Rome'), ('aarima', 'points', 'UTC'), ('aarima', '1D', 'Pacific/Chatham'))):
            trace = self.generate(random.Random(number), number)
            n = 30
            step = 1800 if family.startswith('prophet') and tz != 'Australia/Lord_Howe' else 3600
            trace.update(family=family, kind=kind, tz=tz, step=step, start=BACK[tz] - (31 if family == 'prophet' else 20) * step, n=n, positions=n + 20, loss=0.2, threshold=0.5, config=[1, 1, 0] if family == 'arima' else [2, 1, 2], real=True, cv=False, view=False,
                         ops=[{'op': 'forecast', 'n': 3, 'inplace': False, 'at': 0.5}, {'op': 'apply', 'n': 2, 'inplace': False, 'at': 0.5}, {'op': 'reload', 'n': 1, 'inplace': False, 'at': 0.5},
                              {'op': 'apply', 'n': 4, 'inplace': True, 'at': 0.5}])
            out.append(trace)
        return out

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None
        engines.reset()

    # Times, computed independently
    def at(self, k):
        trace = self.trace
        if trace['kind'] in ('1D', '1M'):
            return self.starts[k]
        return trace['start'] + k * trace['step']

    def local(self, k):
        return datetime.datetime.fromtimestamp(self.at(k), tz=pytz.UTC).astimezone(pytz.timezone(self.trace['tz'])).replace(tzinfo=None)

    def item(self, k, value, loss=None, label=None):
        trace = self.trace
        unit = {'points': None, 'slots': NAMES[trace['step']]}.get(trace['kind'], trace['kind'])
        return build_item({'t': self.at(k), 'd': {label or trace['label']: value}, 'x': {'data_loss': loss} if loss is not None else {}}, unit, trace['tz'])

    def answers(self, fitted, positions):
        """What the engine has to say, of what it was told: [(position, value)]."""
        family = self.trace['family']
        if self.trace.get('real'):
            return self.real_answers(fitted, positions)
        if family.startswith('prophet'):
            told = sorted((self.local(k).isoformat(), v) for k, v in fitted)
            state = engines.prophet_state(told)
            return [engines.answer(state, self.local(k).isoformat()) for k in positions]
        return engines.answers_arima([v for _, v in fitted], tuple(self.trace['config']), len(positions))

    def real_answers(self, fitted, positions):
        family, values = self.trace['family'], [v for _, v in fitted]
        if family.startswith('prophet'):
            from prophet import Prophet
            model = Prophet()
            model.fit(pandas.DataFrame({'ds': [self.local(k) for k, _ in fitted], 'y': values}))
            # One by one, as they come ordered by time
            return [float(model.predict(pandas.DataFrame({'ds': [self.local(k)]}))['yhat'][0]) for k in positions]
        if family == 'arima':
            import statsmodels.api
            return [float(v) for v in statsmodels.api.tsa.ARIMA(numpy.array(values), order=tuple(self.trace['config'])).fit().forecast(len(positions))]
        import pmdarima
        p, d, q = self.trace['config']
        return [float(v) for v in pmdarima.auto_arima(numpy.array(values), error_action='ignore', suppress_warnings=True, stepwise=True, max_p=p, max_d=d, max_q=q).predict(len(positions))]

    def execute(self, trace, ctx):
        self.trace = trace
        self.fs = None
        engines.install()
        engines.reset()
        if trace.get('real'):
            logging.getLogger('cmdstanpy').disabled = True
            engines.uninstall()
        try:
            self.run(trace, ctx)
        finally:
            engines.install()

    def run(self, trace, ctx):
        rng = random.Random(trace['salt'])
        if trace['kind'] in ('1D', '1M'):
            self.starts = calendar_starts(trace['tz'], trace['year'], trace['month'], 1, trace['kind'], trace['positions'] + 1)
        self.slots = trace['kind'] != 'points'
        family = trace['family']
        arima = family.endswith('arima')
        reconstructor = family == 'prophet-reconstructor'
        self.tol = 1e-4 if trace.get('real') else 1e-9
        p, d, q = trace['config']
        if family == 'arima':
            model = ARIMAForecaster(p=p, d=d, q=q)
        else:
            model = CLASSES[family]()
        fit_args = {'max_p': p, 'max_d': d, 'max_q': q} if family == 'aarima' else {}

        # The series, as items by position, which grows and is shortened at its end
        live, content, position = TimeSeries(), [], 0

        def extend(n):
            nonlocal position
            for _ in range(n):
                if position >= trace['positions'] - 12:
                    return
                value = round(rng.uniform(-5, 5) + 50, 3)
                loss = rng.choice((1, 0.6, 0.3, 0.1)) if rng.random() < trace['loss'] else rng.choice((0, None))
                live.append(self.item(position, value, loss))
                content.append((position, value, loss))
                position += 1

        extend(trace['n'])
        ctx.sim_time(abs(self.at(position) - self.at(0)))
        across = len(set((self.local(k) - datetime.datetime(1970, 1, 1)).total_seconds() - self.at(k) for k in (0, trace['n'] + 3))) > 1
        before = snapshot(live)

        # Nothing can be asked before being fitted
        expect(not model.fitted, 'not-fitted:fitted')
        asked = call(model.apply, live)
        expect(asked[0] == 'exc' and isinstance(asked[1], NotFittedError), 'not-fitted:not-refused', lambda: repr(asked[1]))
        expect(snapshot(live) == before, 'not-fitted:changed')
        if trace['cv'] and reconstructor and not trace.get('real'):
            self.cross_validation(trace, live, content, ctx)

        told = lambda: [(k, v) for k, v, _ in content]
        if trace['view'] and len(live) >= 6:
            # On a part of it
            must('fit', model.fit, live.view(from_i=2, to_i=len(live)), **fit_args)
            fitted = told()[2:]
        else:
            must('fit', model.fit, live, **fit_args)
            fitted = told()
        expect(model.fitted, 'fit:not-fitted')
        expect(snapshot(live) == before, 'fit:series-changed', lambda: first_difference(before, snapshot(live)))
        possible = [fitted]        # What the model can be fitted on (one only, or more after an interruption), or None for nothing
        history = []

        def usable():
            """If something can be asked, of the series as it is."""
            return len(live) >= 3 and position + 8 < trace['positions'] and (not arima or all(f is None or f[-1][0] == position - 1 for f in possible))

        def settle(got, positions, what):
            """The answers are the ones of one of what the model can be fitted on, always the same from now on."""
            nonlocal possible
            wanted = None
            for f in possible:
                if f is not None:
                    wanted = self.answers(f, positions)
                    if len(got) == len(wanted) and all(close(a, b, self.tol) for a, b in zip(got, wanted)):
                        possible = [f]
                        return
            expect(False, what + ':not-as-the-engine', lambda: '{} instead of {}'.format(got, wanted))

        for number, op in enumerate(trace['ops']):
            ctx.step()
            name, n = op['op'], op['n']
            before = snapshot(live)
            ctx.state(family, trace['kind'], trace['tz'], across, name, tuple(history[-2:]))
            if name == 'extend':
                extend(n)
            elif name == 'pop':
                for _ in range(n):
                    if len(live) > 5:
                        live.pop()
                        content.pop()
                        position -= 1
            elif name == 'fit':
                if len(live) < 3:
                    continue
                new = told()
                fault = op.get('fault')
                if fault:
                    kind = self.faulted(lambda: model.fit(live, **fit_args), op, ctx)
                    if kind == 'exc':
                        # As before, not at all, or (if interrupted at the very end) as asked: but nothing in between
                        possible = [f for f in possible if fault != 'failure'] + [None] + ([new] if fault != 'failure' else [])
                        if not model.fitted:
                            possible = [None]
                    else:
                        possible = [new]
                else:
                    must('fit', model.fit, live, **fit_args)
                    possible = [new]
                if possible == [None]:
                    for f in (model.predict, model.apply) + (() if reconstructor else (model.forecast,)):
                        asked = call(f, live, **({'from_i': 0, 'to_i': 1} if reconstructor and f == model.predict else {}))
                        expect(asked[0] == 'exc' and isinstance(asked[1], NotFittedError), 'failed-fit:not-refused', lambda: repr(asked[1]))
                    must('fit-again', model.fit, live, **fit_args)
                    possible = [new]
                expect(snapshot(live) == before, 'fit:series-changed', lambda: first_difference(before, snapshot(live)))
            elif name == 'reload':
                model = self.reload(model, family, op, trace, ctx)
            elif name == 'wrong':
                self.wrong(model, live, content, op, ctx)
            elif not usable():
                if arima and len(live) >= 3 and position + 8 < trace['positions'] and all(f is None or f[-1][0] != position - 1 for f in possible):
                    # What comes next is not what the engine would say
                    f = {'forecast': model.forecast, 'predict': model.predict}.get(name, model.apply)
                    asked = call(f, live, steps=n)
                    expect(asked[0] == 'exc' and isinstance(asked[1], (NonContiguityError, NotFittedError)), 'other-end:not-refused', lambda: repr(asked[1]))
                    expect(snapshot(live) == before, 'other-end:changed', lambda: first_difference(before, snapshot(live)))
                    ctx.probe('other end refused')
                    ctx.nontrivial = True
                continue
            elif reconstructor:
                self.reconstruct(model, live, content, op, trace, ctx, settle)
            elif name == 'evaluate':
                if not arima:
                    self.evaluate(model, live, content, op, settle, ctx)
            else:
                following = list(range(position, position + n))
                series, offset = live, 0
                if name == 'tail' and len(live) > 4:
                    offset = 1 + int(op['at'] * (len(live) - 4))
                    series = TimeSeries()
                    for item in list(live)[offset:]:
                        series.append(clone(item))
                if name == 'other':
                    # With the same times and other values
                    series = TimeSeries()
                    for item in live:
                        item = clone(item)
                        item.data[trace['label']] += 1 + op['at']
                        series.append(item)
                was = snapshot(series)
                if op.get('fault'):
                    self.faulted(lambda: model.apply(series, steps=n), op, ctx)
                    expect(snapshot(series) == was, 'faulted:series-changed', lambda: first_difference(was, snapshot(series)))
                if name == 'predict':
                    got = must('predict', model.predict, series, steps=n)
                    expect(isinstance(got, list) and len(got) == n and all(set(x) == {trace['label']} for x in got), 'predict:form', lambda: str(got))
                    settle([x[trace['label']] for x in got], following, 'predict')
                elif name == 'forecast':
                    got = must('forecast', model.forecast, series, steps=n)
                    self.check_items('forecast', got if isinstance(got, list) else [got], following)
                    settle([x.data[trace['label']] for x in (got if isinstance(got, list) else [got])], following, 'forecast')
                else:
                    target = TimeSeries()
                    for item in series:
                        target.append(clone(item))
                    inplace = op['inplace']
                    got = must('apply', model.apply, target if inplace else series, steps=n, inplace=inplace)
                    if inplace:
                        expect(got is None, 'in-place:returned', repr(got))
                        got = target
                    expect(len(got) == len(series) + n, 'apply:items', lambda: '{} vs {} + {}'.format(len(got), len(series), n))
                    for a, b in zip(got, list(series)):
                        expect(a.data == b.data and a.t == b.t, 'apply:items-changed', lambda: '{} vs {}'.format(a, b))
                        expect({x: v for x, v in a.data_indexes.items() if x != 'forecast'} == b.data_indexes and a.data_indexes.get('forecast') == 0, 'apply:indexes', lambda: '{} vs {}'.format(a.data_indexes, b.data_indexes))
                    new = list(got)[len(series):]
                    expect(all(x.data_indexes.get('forecast') == 1 for x in new), 'apply:forecast-index')
                    self.check_items('apply', new, following)
                    settle([x.data[trace['label']] for x in new], following, 'apply')
                expect(snapshot(series) == was, name + ':series-changed', lambda: first_difference(was, snapshot(series)))
                ctx.log(number, name, [round(v, 6) for v in self.answers(possible[0], following)])
            history.append(name + ('!' if op.get('fault') or op.get('disk') else ''))
            if name in ('extend', 'pop'):
                continue
            expect(snapshot(live) == before, name + ':live-changed', lambda: first_difference(before, snapshot(live)))
            if len(history) > 1 and name not in ('fit', 'wrong'):
                ctx.nontrivial = True

    def check_items(self, what, items, positions):
        trace = self.trace
        expect(len(items) == len(positions), what + ':steps', lambda: '{} vs {}'.format(len(items), len(positions)))
        for item, k in zip(items, positions):
            expect(isinstance(item, DataTimeSlot if self.slots else DataTimePoint), what + ':type', lambda: type(item).__name__)
            if self.slots:
                expect(item.start.t == self.at(k) and item.end.t == self.at(k + 1), what + ':times', lambda: '{} instead of [{},{}]'.format(item, self.at(k), self.at(k + 1)))
            else:
                expect(item.t == self.at(k), what + ':times', lambda: '{} instead of {}'.format(item, self.at(k)))
            expect(str(item.tz) == trace['tz'], what + ':time-zone', lambda: str(item.tz))
            expect(set(item.data) == {trace['label']}, what + ':labels', lambda: str(item.data))

    def faulted(self, f, op, ctx):
        if op['fault'] == 'failure':
            engines.reset(fail_at=0, error=ERRORS[op['error']])
            kind, error = call(f)
            fired = engines.failures.calls > 0
            engines.reset()
            if fired:
                ctx.fault('failing_call')
                expect(kind == 'exc', 'failure:ignored')
            return kind
        lines, _ = sched.count_lines(f)
        where, (kind, _) = sched.interrupted(f, int(op['at'] * lines), KeyboardInterrupt if op['fault'] == 'interrupt' else MemoryError)
        if where:
            ctx.fault('interruption' if op['fault'] == 'interrupt' else 'failed_allocation')
        return kind

    def reload(self, model, family, op, trace, ctx):
        """What is loaded is what was saved, and the model which was saved is not needed anymore."""
        if self.fs is None:
            self.fs = SimFS()
            self.fs.known_names = {'model'}
        fs = self.fs
        if not model.fitted:
            return model
        fs.wipe()
        path = os.path.join(fs.root, 'model')
        model_id = model.id
        disk = op.get('disk')
        fs.reset([{'kind': disk, 'at': op['at'], 'times': 1}] if disk else (), 12, random.Random(trace['salt']) if op['n'] > 1 else None)
        fs.ctx = ctx
        loaded = None
        with fs:
            saved = call(model.save, path)
            if saved[0] == 'ok':
                result = call(CLASSES[family].load, path)
                if result[0] == 'ok':
                    loaded = result[1]
        fired = list(fs.fired)
        fs.ctx = None
        if saved[0] == 'exc':
            expect(fired, 'save:failed', lambda: repr(saved[1]))
            expect(not os.path.lexists(path), 'save:left-behind')
        elif loaded is None:
            expect(fired, 'load:failed', lambda: repr(result[1]))
        if saved[0] == 'exc' or loaded is None:
            fs.reset()
            with fs:
                if saved[0] == 'exc':
                    must('save-again', model.save, path)
                loaded = must('load-again', CLASSES[family].load, path)
        fs.wipe()
        expect(type(loaded) is CLASSES[family] and loaded.id == model_id and loaded.fitted, 'load:not-the-model')
        return loaded

    def wrong(self, model, live, content, op, ctx):
        """Series which are not like the one of the fit are refused."""
        trace = self.trace
        if not model.fitted or len(live) < 4:
            return
        other = TimeSeries()
        what = 'labels' if op['at'] < 0.5 else 'resolution'
        if what == 'labels':
            for k, v, _ in content:
                other.append(self.item(k, v, label='another'))
        else:
            for k, item in enumerate(live):
                other.append(build_item({'t': k * 7200, 'd': dict(item.data)}, '2h' if self.slots else None, trace['tz']))
        before = snapshot(other)
        kind, exc = call(model.apply, other, inplace=op['inplace'])
        expect(kind == 'exc', 'other-{}:not-refused'.format(what), repr(exc))
        expect(snapshot(other) == before, 'other-{}:changed'.format(what), lambda: first_difference(before, snapshot(other)))
        ctx.probe('other {} refused'.format(what))

    def reconstruct(self, model, live, content, op, trace, ctx, settle):
        """Only what is lost is replaced, with what the engine says about when it was."""
        label, name = trace['label'], op['op']
        first, last = content[0][0], content[-1][0]
        if name == 'predict':
            a = int(op['at'] * len(live))
            b = min(a + op['n'] - 1, len(live) - 1)
            got = must('predict', model.predict, live, from_i=a, to_i=b)
            values = got[label] if isinstance(got, dict) else [x[label] for x in got]
            settle([float(v) for v in values], list(range(first + a, first + b + 1)), 'predict')
            return
        if name == 'evaluate':
            self.evaluate_reconstructor(model, live, content, op, trace, settle, ctx)
            return
        target = TimeSeries()
        for item in live:
            target.append(clone(item))
        was = snapshot(target)
        lost = [k for k, _, loss in content if loss is not None and loss >= trace['threshold']]
        if op.get('fault'):
            self.faulted(lambda: model.apply(target, data_loss_threshold=trace['threshold']), op, ctx) if lost or op['fault'] != 'failure' else None
            expect(snapshot(target) == was, 'faulted:series-changed', lambda: first_difference(was, snapshot(target)))
        got = must('apply', model.apply, target, data_loss_threshold=trace['threshold'], inplace=op['inplace'])
        if op['inplace']:
            expect(got is None, 'in-place:returned', repr(got))
            got = target
        else:
            expect(snapshot(target) == was, 'apply:series-changed', lambda: first_difference(was, snapshot(target)))
        expect(len(got) == len(content), 'apply:items', lambda: '{} vs {}'.format(len(got), len(content)))
        values = []
        for item, (k, v, loss) in zip(got, content):
            expect(item.t == self.at(k) if not self.slots else item.start.t == self.at(k), 'apply:times', lambda: str(item))
            expect(item.data_loss == loss and item.data_indexes.get('data_reconstructed') == (1 if k in lost else 0), 'apply:indexes', lambda: '#{}: {}'.format(k, item.data_indexes))
            if k in lost:
                values.append(float(item.data[label]))
            else:
                expect(item.data == {label: v}, 'apply:items-changed', lambda: '#{}: {} vs {}'.format(k, item.data, v))
        if lost:
            settle(values, lost, 'apply')
            ctx.probe('reconstructed')
        ctx.log('reconstructed', [round(v, 6) for v in values])

    def evaluate(self, model, live, content, op, settle, ctx):
        """The errors on each item are of what is said about its time."""
        label = self.trace['label']
        if self.slots is False and len(live) < 4:
            return
        # What is said about each of them (the first ones cannot be)
        said = []
        for i in range(2, len(live)):
            got = call(model.predict, live.view(from_i=0, to_i=i), steps=1)
            if got[0] == 'exc':
                expect(False, 'view:failed', repr(got[1]))
            said.append(got[1][0][label])
        settle(said, [k for k, _, _ in content[2:]], 'view')

    def evaluate_reconstructor(self, model, live, content, op, trace, settle, ctx):
        label, limit = trace['label'], trace['threshold']
        good = lambda i: content[i][2] is None or content[i][2] < limit
        steps = [1, 2] if op['n'] > 1 else [op['n']]
        scores = {}
        said = must('predict', model.predict, live, from_i=0, to_i=len(live) - 1)
        said = said[label] if isinstance(said, dict) else [x[label] for x in said]
        settle([float(v) for v in said], [k for k, _, _ in content], 'predict')
        for n in steps:
            errors = []
            for i in range(len(live)):
                if i + n < len(live) and all(good(j) for j in range(i, i + n)):
                    errors += [said[j] - content[j][1] for j in range(i, i + n)]
            scores[n] = errors
        result = call(model.evaluate, live, steps=steps, data_loss_threshold=limit, metrics=['RMSE', 'MAE'], details=True)
        if any(not errors for errors in scores.values()):
            expect(result[0] == 'exc', 'evaluate:on-nothing', lambda: str(result[1]))
            return
        expect(result[0] == 'ok', 'evaluate:failed', lambda: repr(result[1]))
        for n, errors in scores.items():
            wanted = sum(abs(x) for x in errors) / len(errors), (sum(x * x for x in errors) / len(errors)) ** 0.5
            got = result[1]['MAE_{}_steps'.format(n)], result[1]['RMSE_{}_steps'.format(n)]
            expect(close(wanted[0], got[0], 1e-6) and close(wanted[1], got[1], 1e-6), 'evaluate:errors', lambda: '{} steps: {} instead of {}'.format(n, got, wanted))
        ctx.log('evaluated', [round(result[1]['MAE_{}_steps'.format(n)], 6) for n in steps])

    def cross_validation(self, trace, live, content, ctx):
        """What is validated is never what the model was fitted on."""
        rounds = 3
        if len(live) < 15:
            return
        model = ProphetReconstructor()
        engines.reset()
        result = call(model.cross_validate, live, rounds=rounds, evaluate_data_loss_threshold=2.0)
        asked = list(engines.asked)
        engines.reset()
        expect(result[0] == 'ok', 'cross-validation:failed', lambda: repr(result[1]))
        expect(not model.fitted, 'cross-validation:fitted')
        if len(set(self.local(k) for k, _, _ in content)) < len(content):
            return
        told = set()
        tested = set()
        for what, times in asked:
            if what == 'prophet-fit':
                told = set(t for t, _ in times)
            else:
                expect(not told & set(times), 'cross-validation:not-independent', lambda: str(sorted(told & set(times))))
                tested |= set(times)
        ctx.probe('cross-validated')
        ctx.log('cross-validated', len(tested))


SCENARIO = P25()
