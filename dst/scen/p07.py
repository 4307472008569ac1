"""P07: storing a series is all or nothing, at any crash point and with any disk error."""

import random

from ..core import Scenario, call, expect
from ..store import *
from timeseria.storages import CSVFileStorage

ERRORS = ['eio_write', 'enospc', 'enospc_partial', 'eio_fsync', 'eio_close', 'eio_rename', 'eacces_open', 'emfile_open', 'edquot']


class P07(Scenario):
    prop = 'P07'
    quick_runs = 12000
    thorough_runs = 250000
    rule = 'a run is non-trivial if a fault fired before the series was completely stored; runs are distinct by the digest of the operations on the file system'
    measure = 'distinct (interface, old content, fault, operation at which it fired, outcome) tuples'
    real = ['timeseria.storages', 'timeseria.datastructures', 'io (buffering and text layers)', 'os and shutil (on a scratch folder)']
    stubbed = ['raw files and directory operations (errors, short writes, crash points, states after a power loss)']
    assumptions = ['changes to names become durable in order', 'what was written to a file before its last successful fsync is durable']
    shrinkable = ['faults']

    def generate(self, rng, i):
        mode = rng.choice(('error', 'error', 'crash', 'crash', 'power', 'power', 'interrupt', 'legal'))
        trace = {'mode': mode, 'interface': rng.choice(('save', 'to_csv', 'storage')), 'old': rng.choice(('series', 'series', 'series', 'text', 'empty', 'bytes', None, None)),
                 'a': rnd_series(rng, max_items=6), 'b': rnd_series(rng, max_items=rng.choice((3, 12, 60))), 'encoding': rng.choice(('auto', 'auto', 'utf-8')),
                 'link': rng.random() < 0.08, 'attempts': rng.randint(1, 3), 'bad': rng.choice((None, None, None, 'empty', 'timepoints', 'no-overwrite')), 'faults': []}
        n = rng.choice((1, 1, 1, 2))
        for _ in range(n):
            at = round(rng.random(), 4)
            if mode == 'error':
                trace['faults'].append({'kind': rng.choice(ERRORS), 'at': at, 'part': round(rng.random(), 2), 'times': rng.choice((1, 1, 2, 1000))})
            elif mode in ('crash', 'power'):
                trace['faults'].append({'kind': rng.choice(('crash', 'crash', 'crash_torn')), 'at': at, 'part': round(rng.random(), 3)})
                break
            elif mode == 'interrupt':
                trace['faults'].append({'kind': rng.choice(('interrupt', 'memory')), 'at': at})
                break
        trace['after'] = rng.random() < 0.3      # Power lost after everything returned
        if trace['after'] and mode == 'power':
            trace['faults'] = []
        trace['power'] = rng.randint(0, 10**6)
        trace['short'] = rng.choice((None, None, rng.randint(0, 10**6)))
        return trace

    def simplify(self, trace):
        for key in ('a', 'b'):
            items = trace[key]['items']
            for n in (1, 2, len(items) // 2):
                if 0 < n < len(items):
                    yield dict(trace, **{key: dict(trace[key], items=items[:n])})
        if trace['short'] is not None:
            yield dict(trace, short=None)
        if trace['attempts'] > 1:
            yield dict(trace, attempts=1)
        if trace['link']:
            yield dict(trace, link=False)

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    def store(self, trace, series, path, overwrite=True):
        if trace['interface'] == 'save':
            series.save(path, overwrite=overwrite, encoding=trace['encoding'])
        elif trace['interface'] == 'to_csv':
            series.to_csv(path, overwrite=overwrite, encoding=trace['encoding'])
        else:
            CSVFileStorage(path, encoding=trace['encoding']).put(series, overwrite=overwrite)

    def prepare_fs(self, trace, fs, path):
        fs.wipe()
        real = path
        if trace['link']:
            real = os.path.join(fs.root, 'target.csv')
            os.symlink(real, path)
        if trace['old'] == 'series':
            with environment(fs, clock=1446073200):
                build(trace['a']).save(real)
        elif trace['old'] == 'text':
            with open(real, 'w') as f:
                f.write('something important\n')
        elif trace['old'] in ('empty', 'bytes'):
            with open(real, 'wb') as f:
                f.write(b'' if trace['old'] == 'empty' else b'\xff\xfe\x00binary\x00')
        if os.path.exists(real):
            with open(real, 'rb') as f:
                return f.read()
        return None

    def content(self, path):
        if not os.path.exists(path):
            return None
        with open(path, 'rb') as f:
            return f.read()

    def judge(self, trace, path, old, tag, must_be=None):
        """What is stored is either what was there before, or the whole new series."""
        content = self.content(path)
        if content == old and must_be != 'new':
            return 'old'
        expect(must_be != 'old', 'changed:{}'.format(tag), lambda: 'the previous content is gone')
        expect(content is not None, 'lost:{}'.format(tag), lambda: 'there is no file anymore')
        result = call(TimeSeries.load, path)
        if result[0] == 'exc':
            raise Violation('partial:{}'.format(tag), 'neither the old content nor the new series: {!r} with {} bytes: {!r}'.format(result[1], len(content), content[:200]))
        diff = compare_loaded(trace['b'], result[1])
        expect(diff is None, 'partial:{}'.format(tag), lambda: 'neither the old content nor the new series: {}'.format(diff))
        return 'new'

    def execute(self, trace, ctx):
        fs = self.fs = SimFS()
        fs.known_names = {'data.csv', 'target.csv'}
        path = os.path.join(fs.root, 'data.csv')
        series = build(trace['b'])
        mode = trace['mode']
        with environment(fs, clock=1446073200.5):
            # A first execution without faults, to know how many operations there are
            self.prepare_fs(trace, fs, path)
            fs.reset()
            with fs:
                must('store', self.store, trace, series, path)
            total = fs.count
            lines = 0
            if mode == 'interrupt':
                lines, _ = sched.count_lines(lambda: self.store(trace, series, path))
            old = self.prepare_fs(trace, fs, path)
            existing = sorted(os.listdir(fs.root))
            fs.ctx = ctx

            if trace['bad']:
                self.refused(trace, fs, path, old, existing, ctx)

            tag = mode
            outcomes = []
            done = False
            for attempt in range(trace['attempts']):
                first = attempt == 0
                fs.reset(trace['faults'] if first and mode != 'interrupt' else (), total, random.Random(trace['short']) if trace['short'] is not None else None)
                fs.mark()
                status = 'ok'
                error = None
                with fs:
                    try:
                        if first and mode == 'interrupt' and trace['faults']:
                            fault = trace['faults'][0]
                            fired, result = sched.interrupted(lambda: self.store(trace, series, path), int(fault['at'] * lines), KeyboardInterrupt if fault['kind'] == 'interrupt' else MemoryError)
                            if fired:
                                ctx.fault(fault['kind'])
                                fs.fired.append((fault['kind'], fired))
                            if result[0] == 'exc':
                                status, error = 'error', result[1]
                        else:
                            self.store(trace, series, path)
                    except SimCrash:
                        status = 'crash'
                    except Exception as e:
                        status, error = 'error', e
                fired = list(fs.fired)
                where = ''
                if fired and mode != 'interrupt':
                    where = [t for t in fs.trail if t[0] == fired[-1][1]]
                    where = where[0][1] if where else ''
                if status == 'crash':
                    fs.active = False
                    if mode == 'power':
                        fs.power_loss(random.Random(trace['power']))
                elif status == 'ok' and first and trace['after'] and mode == 'power':
                    fs.power_loss(random.Random(trace['power']))
                    status = 'crash'
                if status == 'ok':
                    what = self.judge(trace, path, old, tag, must_be='new' if not trace['old'] == 'series' or trace['a'] != trace['b'] else None)
                    done = True
                elif status == 'error':
                    expect(fired, 'failed-without-faults', lambda: repr(error))
                    what = self.judge(trace, path, old, tag)
                    if not any(kind == 'eio_unlink' for kind, _ in fired) and mode in ('error', 'interrupt'):
                        left = [name for name in os.listdir(fs.root) if name not in existing and name not in ('data.csv', 'target.csv')]
                        expect(not left, 'left-files-behind:{}'.format(tag), left)
                else:
                    what = self.judge(trace, path, old, tag)
                if trace['link'] and mode != 'power':
                    expect(os.path.islink(path), 'link-replaced')
                if fired or status == 'crash':
                    ctx.nontrivial = ctx.nontrivial or what == 'old' or status != 'ok'
                    ctx.probe('{}:{}'.format(status, what))
                ctx.log(attempt, status, what, fired, type(error).__name__)
                ctx.state(trace['interface'], trace['old'], fired[-1][0] if fired else None, where, status, what)
                outcomes.append((status, what))
                if what == 'new':
                    old = self.content(path)
            # Once the faults stop, storing works again
            fs.reset()
            with fs:
                must('store-after-recovery', self.store, trace, series, path)
            self.judge(trace, path, None, 'recovery', must_be='new')

    def refused(self, trace, fs, path, old, existing, ctx):
        """What cannot be stored does not touch what is already there."""
        fs.reset()
        with fs:
            if trace['bad'] == 'empty':
                result = call(self.store, trace, TimeSeries(), path)
            elif trace['bad'] == 'timepoints':
                result = call(self.store, trace, TimeSeries(TimePoint(t=0), TimePoint(t=60)), path)
            else:
                if old is None:
                    return
                result = call(self.store, trace, build(trace['b']), path, overwrite=False)
        expect(result[0] == 'exc', 'accepted:{}'.format(trace['bad']))
        expect(self.content(path) == old, 'refused-but-changed:{}'.format(trace['bad']), lambda: '{!r}'.format(self.content(path)))
        expect(sorted(os.listdir(fs.root)) == existing, 'refused-but-left-files:{}'.format(trace['bad']), lambda: os.listdir(fs.root))
        ctx.probe('refused:{}'.format(trace['bad']))


SCENARIO = P07()
