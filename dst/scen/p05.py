"""P05: a collection pipeline which crashes and restarts from what it saved gives what an uninterrupted one gives."""

import random

from ..core import Scenario, call, expect
from ..store import *
from .. import feed
from timeseria.models.reconstructors import LinearInterpolationReconstructor

ERRORS = ['eio_write', 'enospc', 'enospc_partial', 'eio_fsync', 'eio_close', 'eio_rename', 'emfile_open', 'edquot', 'eio_read']
ENVIRONMENTS = [None, None, 'ascii', 'latin-1', 'cp1252', 'utf-16']


def without_none(x):
    """Indexes which are not set and which are set to None are the same."""
    if isinstance(x, dict):
        return {k: without_none(v) for k, v in x.items() if v is not None}
    if isinstance(x, list):
        return [without_none(v) for v in x]
    return x


class P05(Scenario):
    prop = 'P05'
    quick_runs = 6000
    thorough_runs = 80000
    rule = 'a run is non-trivial if the collector crashed, was interrupted or could not save at least once before everything was collected; runs are distinct by the digest of their history'
    measure = 'distinct (kind of series, step, fault, file operation at which it fired, outcome, number of checkpoints up to 3) tuples'
    real = ['timeseria.datastructures', 'timeseria.storages', 'timeseria.transformations', 'timeseria.operations', 'timeseria.models.reconstructors', 'io (buffering and text layers)', 'os and shutil (on a scratch folder)']
    stubbed = ['sensors, network and process life cycle', 'raw files and directory operations', 'clock, locale and time zone of each incarnation of the process', 'interruptions and failed allocations (raised at any line of the package)']
    assumptions = ['readings which are not in the collected series are eventually redelivered', 'changes to names become durable in order', 'what was written to a file before its last successful fsync is durable']
    shrinkable = ['events', 'readings']

    def generate(self, rng, i):
        kind = rng.choice(('points', 'points', 'slots'))
        interval = rng.choice((60, 600, 900))
        n = rng.choice((8, 15, 30, 60))
        labels = rng.choice((['v'], ['v'], ['temp in', 'Umidità'], ['a', 'b', 'c']))
        index = rng.choice((None, None, 'anomaly', 'data_loss'))
        start = rng.choice((0, 1446073200, 1600000000 - 1600000000 % 3600))
        if kind == 'slots':
            readings = feed.generate(rng, n=n, interval=interval, start=start, labels=labels, index=index, jitter=False, decimals=0, varied=False)
            for k, reading in enumerate(sorted(readings, key=lambda r: r['t'])):
                reading['t'] = start + interval * (k + 1)
                if reading.get('f') == 'clock_jump':
                    reading['f'] = 'loss'
        else:
            readings = feed.generate(rng, n=n, interval=interval, start=start, labels=labels, index=index, decimals=rng.choice((0, 3, 6)), varied=False)
        seen = set()
        readings = [reading for reading in readings if not (reading['t'] in seen or seen.add(reading['t']))]
        if rng.random() < 0.25:
            # Just one, or a few
            for reading in readings:
                reading.pop('x', None)
            for reading in rng.sample(readings, min(len(readings), rng.choice((1, 1, 2, 3)))):
                reading['x'] = {rng.choice(('anomaly', 'data_loss', 'other')): rng.choice((0, 0.5, 1))}
        elif index:
            for reading in readings:
                if rng.random() < 0.1:
                    reading.setdefault('x', {})[index] = rng.choice((None, 0, 1))
        events = []
        pending = len(readings)
        while pending > 0 and len(events) < 60:
            r = rng.random()
            if r < 0.5:
                k = rng.randint(1, max(1, n // 4))
                pending -= k
                event = {'e': 'deliver', 'n': k}
                if rng.random() < 0.15:
                    event.update(interrupt=rng.randint(0, 400), memory=rng.random() < 0.5, survive=rng.random() < 0.5)
            elif r < 0.75:
                event = {'e': 'checkpoint'}
            elif r < 0.9:
                event = {'e': 'process', 'w': rng.choice((1, 2, 4))}
            else:
                event = {'e': rng.choice(('kill', 'kill', 'power'))}
            if event['e'] in ('checkpoint', 'process'):
                r = rng.random()
                if r < 0.3:
                    event['fault'] = {'kind': rng.choice(('crash', 'crash_torn', 'crash_torn')), 'at': round(rng.random(), 4), 'part': round(rng.random(), 3)}
                    event['power'] = rng.random() < 0.4
                elif r < 0.5:
                    event['fault'] = {'kind': rng.choice(ERRORS), 'at': round(rng.random(), 4), 'part': round(rng.random(), 3), 'times': rng.choice((1, 1, 3))}
                elif r < 0.6:
                    event['interrupt'] = rng.randint(0, 3000)
                    event['memory'] = rng.random() < 0.5
                    event['survive'] = rng.random() < 0.5
            events.append(event)
        return {'kind': kind, 'tz': rng.choice(TIMEZONES), 'interval': interval, 'readings': readings, 'events': events, 'seed': rng.randint(0, 10**6), 'short': rng.choice((None, None, rng.randint(0, 10**6))),
                'interface': rng.choice(('save', 'save', 'csv')), 'encoding': rng.choice(('auto', 'auto', 'utf-8')), 'fill': rng.random() < 0.3}

    def simplify(self, trace):
        for i, event in enumerate(trace['events']):
            for key in ('fault', 'interrupt', 'power'):
                if key in event and event[key] is not False:
                    yield dict(trace, events=trace['events'][:i] + [{k: v for k, v in event.items() if k != key}] + trace['events'][i+1:])
        if trace['short'] is not None:
            yield dict(trace, short=None)

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    # What the collector does
    def item(self, trace, reading):
        kwargs = {'data': dict(reading['d']), 'data_indexes': dict(reading.get('x', {}))}
        if trace['kind'] == 'slots':
            return DataTimeSlot(start=TimePoint(t=reading['t'], tz=trace['tz']), unit=TimeUnit('{}s'.format(trace['interval'])), **kwargs)
        return DataTimePoint(t=reading['t'], tz=trace['tz'], **kwargs)

    def collect(self, trace, series, reading):
        """Put a reading in place, if not already there. If it could be."""
        item = self.item(trace, reading)
        t = reading['t']
        if len(series) and t <= series[-1].t:
            at = sum(1 for x in series if x.t < t)
            if series[at].t == t:
                result = call(series.append, item)
                expect(result[0] == 'exc', 'duplicate-accepted', lambda: 'reading at {}'.format(t))
                return True
            series.insert(at, item)
            return True
        if trace['kind'] == 'slots' and not len(series) and t != self.first:
            return False
        if trace['kind'] == 'slots' and len(series) and t != series[-1].end.t:
            result = call(series.append, item)
            expect(result[0] == 'exc', 'gap-accepted', lambda: 'reading at {}'.format(t))
            return False
        series.append(item)
        return True

    def store(self, trace, series, path):
        if trace['interface'] == 'save':
            series.save(path, overwrite=True, encoding=trace['encoding'])
        else:
            storages.CSVFileStorage(path, encoding=trace['encoding']).put(series, overwrite=True)

    def derived(self, trace, series, w):
        """What is computed from the collected series."""
        if trace['kind'] == 'slots':
            return series.normalize(range=[0, w]) if len(series) > 1 else series.duplicate()
        unit = '{}s'.format(trace['interval'] * w * 2)
        if w % 2:
            return series.aggregate(unit)
        resampled = series.resample(unit)
        if len(resampled) > 2 and (resampled[0].data_loss or 0) < 1 and (resampled[-1].data_loss or 0) < 1:
            return LinearInterpolationReconstructor().apply(resampled)
        return resampled

    def execute(self, trace, ctx):
        fs = self.fs = SimFS()
        fs.known_names = {'raw.csv', 'derived.csv'}
        raw, derived = os.path.join(fs.root, 'raw.csv'), os.path.join(fs.root, 'derived.csv')
        rng = random.Random(trace['seed'])
        readings = trace['readings']
        by_time = {}
        for reading in readings:
            by_time.setdefault(reading['t'], reading)
        self.first = min(by_time) if by_time else None
        short = random.Random(trace['short']) if trace['short'] is not None else None
        fs.mark()
        fs.ctx = ctx
        state = {'series': None, 'saved': [], 'boots': 0, 'crashes': 0, 'versions': set()}
        clock = [1446073200.0]

        def env():
            clock[0] += rng.choice((1, 60, -3600, 86400))
            return environment(fs, encoding=ENVIRONMENTS[state['boots'] % len(ENVIRONMENTS)] if trace['interface'] == 'save' or trace['encoding'] != 'auto' else None, tz=(None, 'Asia/Kolkata', 'America/New_York')[state['boots'] % 3], clock=clock[0])

        def check(series, signature):
            """What is in a series is what was read, once and in order."""
            last = None
            for item in series:
                expect(item.t in by_time, '{}:made-up'.format(signature), lambda: 'item at {}'.format(item.t))
                expect(last is None or item.t > last, '{}:order'.format(signature), lambda: 'item at {}'.format(item.t))
                last = item.t
                diff = same_item(self.item(trace, by_time[item.t]), item, tol=0, indexes=False)
                expect(diff is None, '{}:changed'.format(signature), lambda: diff)
                want = {k: v for k, v in by_time[item.t].get('x', {}).items() if v is not None}
                have = {k: v for k, v in item.data_indexes.items() if v is not None}
                expect({k: float(v) for k, v in want.items()} == {k: float(v) for k, v in have.items()}, '{}:indexes-changed'.format(signature), lambda: 'at {}: {} instead of {}'.format(item.t, have, want))

        def boot(power=False):
            """Restart from what was saved."""
            state['boots'] += 1
            fs.active = False
            if power:
                fs.power_loss(rng)
                fs.mark()
            fs.arm()
            with env(), fs:
                if not os.path.exists(raw):
                    expect(not state['saved'] or (power and len(state['saved']) >= 1 and not state['durable']), 'lost:everything', lambda: '{} checkpoints were completed'.format(len(state['saved'])))
                    state['series'] = TimeSeries()
                    state['saved'] = []
                else:
                    loaded = must('restart', TimeSeries.load, raw)
                    check(loaded, 'restart')
                    times = tuple(item.t for item in loaded)
                    versions = state['saved'] + ([state['saving']] if state['saving'] else [])
                    state['versions'].update(versions)
                    if power:
                        expect(times in state['versions'], 'restart:not-a-version', lambda: '{} items'.format(len(times)))
                    else:
                        expect(times in versions[-1:] or (state['saved'] and times == state['saved'][-1]), 'restart:not-the-last-version', lambda: '{} items instead of {}'.format(len(times), [len(v) for v in versions[-2:]]))
                    state['series'] = loaded
                    state['saved'] = [times]
                state['saving'] = None
            if power:
                state['durable'] = os.path.exists(raw)
                state['versions'] = set(state['saved'])
            self_queue()

        queue = []

        def self_queue():
            have = set(item.t for item in state['series'])
            queue[:] = [reading for reading in readings if reading['t'] not in have]
            # What got lost is delivered later
            queue.sort(key=lambda reading: bool(reading.get('lost')))

        def run(event, f):
            """Run a step, with its fault."""
            faults = [event['fault']] if 'fault' in event else []
            status, error, where = 'ok', None, None
            fs.arm(faults, state['total'], short)
            with env(), fs:
                try:
                    if 'interrupt' in event:
                        where, result = sched.interrupted(f, event['interrupt'], MemoryError if event['memory'] else KeyboardInterrupt)
                        if where:
                            ctx.fault('failed_allocation' if event['memory'] else 'interrupt')
                        if result[0] == 'exc':
                            status, error = 'error', result[1]
                            if isinstance(error, Violation):
                                raise error
                    else:
                        f()
                except SimCrash:
                    status = 'crash'
                except Violation:
                    raise
                except Exception as e:
                    status, error = 'error', e
            fs.active = False
            if status == 'error':
                expect(where or fs.fired, 'failed-without-faults:{}'.format(event['e']), lambda: repr(error))
                expect(where or isinstance(error, OSError), 'wrong-error:{}'.format(event['e']), lambda: repr(error))
            at = ''
            if fs.fired:
                at = [t for t in fs.trail if t[0] == fs.fired[-1][1]]
                at = at[0][1] if at else ''
            ctx.log(event['e'], status, type(error).__name__, where, fs.fired)
            ctx.state(trace['kind'], event['e'], fs.fired[-1][0] if fs.fired else where, at, status, min(3, len(state['saved'])))
            ctx.probe('{}:{}'.format(event['e'], status))
            if status != 'ok':
                state['crashes'] += 1
            return status

        def checkpoint(event):
            series = state['series']
            if not len(series):
                return
            # How many operations this takes
            if 'fault' in event:
                fs.active = False
                probe = os.path.join(fs.base, 'probe.csv')
                count = SimFS()
                try:
                    with count:
                        self.store(trace, series, os.path.join(count.root, 'raw.csv'))
                    state['total'] = count.count
                finally:
                    count.destroy()
                del probe
            times = tuple(item.t for item in series)
            state['saving'] = times
            status = run(event, lambda: self.store(trace, series, raw))
            if status == 'ok':
                state['saved'].append(times)
                state['versions'].add(times)
                state['saving'] = None
            state['versions'].add(times)
            if status == 'crash':
                boot(event.get('power'))
            elif status == 'error' and 'interrupt' in event and not event.get('survive'):
                boot()

        def process(event):
            """Another process computes something from what was saved."""
            if not state['saved']:
                return

            def f():
                loaded = TimeSeries.load(raw)
                if len(loaded) < 4:
                    return
                result = self.derived(trace, loaded, event['w'])
                if len(result):
                    result.save(derived, overwrite=True)
                    back = TimeSeries.load(derived)
                    diff = same_series(result, back, tol=0)
                    expect(diff is None, 'derived-not-loaded-back', lambda: diff)
            state['total'] = state.get('total') or 20
            self.run_status = run(event, f)
            if self.run_status == 'crash':
                boot(event.get('power'))

        def deliver(event):
            for _ in range(event['n']):
                if not queue:
                    return
                reading = queue.pop(0)
                fault = reading.get('f')
                if fault:
                    ctx.fault('network_' + fault if fault != 'clock_jump' else 'clock_jump')
                attempts = [event] if 'interrupt' in event else []
                if attempts:
                    where, result = sched.interrupted(lambda: self.collect(trace, state['series'], reading), event['interrupt'] % 120, MemoryError if event['memory'] else KeyboardInterrupt)
                    if result[0] == 'exc' and isinstance(result[1], Violation):
                        raise result[1]
                    if where:
                        ctx.fault('failed_allocation' if event['memory'] else 'interrupt')
                        state['crashes'] += 1
                        ctx.log('deliver', where)
                        ctx.state('deliver', where, event['survive'])
                        if not event['survive']:
                            boot()
                            return
                        check(state['series'], 'interrupted')
                    elif result[0] == 'exc':
                        raise Violation('collect:unexpected-{}'.format(type(result[1]).__name__), repr(result[1]))
                for _ in range(2 if fault == 'duplication' else 1):
                    done = must('collect', self.collect, trace, state['series'], reading)
                if not done:
                    queue.append(reading)
                    ctx.probe('postponed')
                ctx.step()

        state['total'] = 20
        state['saving'] = None
        state['durable'] = False
        state['series'] = TimeSeries()
        self_queue()
        for event in trace['events']:
            if event['e'] == 'deliver':
                deliver(event)
            elif event['e'] == 'checkpoint':
                checkpoint(event)
            elif event['e'] == 'process':
                process(event)
            else:
                ctx.fault('process_killed' if event['e'] == 'kill' else 'power_off')
                state['crashes'] += 1
                boot(event['e'] == 'power')
        # The faults stop: everything is collected within a bounded number of deliveries
        for _ in range(len(readings) + 1):
            if not queue:
                break
            deliver({'e': 'deliver', 'n': len(queue)})
        expect(not queue, 'not-collected', lambda: '{} readings left'.format(len(queue)))
        checkpoint({'e': 'checkpoint'})
        if state['saved']:
            boot()
        # The same as never interrupted
        reference = TimeSeries()
        for t in sorted(by_time):
            reference.append(self.item(trace, by_time[t]))
        final = state['series']
        check(final, 'final')
        diff = same_series(reference, final, tol=0, indexes=False)
        expect(diff is None, 'final-differs', lambda: '{} (uninterrupted vs actual)'.format(diff))
        if len(reference) > 3:
            for w in (1, 2, 3):
                want = without_none(outcome(self.derived, trace, reference, w))
                got = without_none(outcome(self.derived, trace, final, w))
                diff = first_difference(want, got)
                expect(diff is None, 'derived-differs', lambda: '{} (uninterrupted vs actual)'.format(diff))
            series_want = outcome(lambda: str(reference.resolution)), outcome(lambda: str(reference.tz)), outcome(reference.data_labels)
            series_got = outcome(lambda: str(final.resolution)), outcome(lambda: str(final.tz)), outcome(final.data_labels)
            expect(series_want == series_got, 'properties-differ', lambda: '{} vs {}'.format(series_want, series_got))
        ctx.sim_time(readings[-1]['t'] - readings[0]['t'] if readings else 0)
        ctx.nontrivial = state['crashes'] > 0


SCENARIO = P05()
