"""P09: what is read from a storage is what is stored there now, whatever happened before (or happens in the meanwhile)."""

import random

from ..core import Scenario, call, expect
from ..store import *
from timeseria.storages import CSVFileStorage

FILES = ['a.csv', 'b.csv']


class P09(Scenario):
    prop = 'P09'
    quick_runs = 3000
    thorough_runs = 80000
    rule = 'a run is non-trivial if a storage was read after something else wrote its file, after a failure, or while its file was being replaced; runs are distinct by the digest of the operations on the file system and of what was read'
    measure = 'distinct (previous content, current content, configuration, kind of reading) tuples'
    real = ['timeseria.storages', 'timeseria.datastructures', 'timeseria.utilities', 'io (buffering and text layers)', 'os (on a scratch folder)']
    stubbed = ['raw files (errors, short reads, and the other processes replacing files)']
    assumptions = ['other processes replace files atomically']
    shrinkable = ['ops']

    def generate(self, rng, i):
        storages = []
        for f in FILES:
            separator = rng.choice((',', ',', ';'))
            for _ in range(rng.randint(1, 2)):
                storages.append({'file': f, 'separator': separator, 'encoding': rng.choice(('auto', 'auto', 'auto', 'utf-8')), 'tz': rng.choice(TIMEZONES),
                                 'skip': rng.random() < 0.2, 'type': rng.choice(('auto', 'auto', 'points'))})
        ops = []
        for _ in range(rng.randint(3, 14)):
            kind = rng.choice(('get', 'get', 'get', 'put', 'put', 'external', 'external', 'load', 'save', 'delete', 'failing-get', 'failing-put', 'race-get', 'race-load', 'mutate', 'get-two'))
            op = {'op': kind, 's': rng.randrange(len(storages)), 'f': rng.randrange(2), 'at': round(rng.random(), 4)}
            if kind in ('put', 'save', 'failing-put', 'race-get', 'race-load'):
                op['series'] = rnd_series(rng, max_items=6, fine=False)     # Months as half seconds would take minutes
            if kind == 'external':
                op['text'] = self.text(rng)
            if kind in ('failing-get', 'failing-put'):
                op['fault'] = rng.choice(('eio_read', 'emfile_open') if kind == 'failing-get' else ('eio_write', 'enospc', 'eio_rename', 'eio_fsync'))
            if kind in ('get', 'race-get', 'get-two'):
                op['force'] = rng.choice((None, None, 'points', 'slots'))
                op['limit'] = rng.choice((None, None, None, 2))
            ops.append(op)
        return {'storages': storages, 'ops': ops, 'short': rng.choice((None, None, rng.randint(0, 10**6)))}

    def text(self, rng):
        """A file written by something else."""
        layout = rng.choice(('epoch', 'timestamp-iso', 'timestamp-epoch', 'headerless', 'other', 'broken', 'empty', 'iso-first'))
        labels = rng.sample(LABELS[:8], rng.randint(1, 3))
        encoding = rng.choice(('utf-8', 'utf-8', 'latin-1', 'cp1252', 'utf-8-sig'))
        if encoding in ('latin-1', 'cp1252'):
            labels = [x for x in labels if all(ord(c) < 256 for c in x)] or ['a']
        step = rng.choice((60, 3600, 86400))
        rows = []
        t = rng.choice((0, 1446076800))
        for k in range(rng.randint(1, 5)):
            rows.append([t + k * step, [round(rng.uniform(-9, 9), 2) for _ in labels]])
        return {'layout': layout, 'labels': labels, 'encoding': encoding, 'rows': rows}

    def render(self, text, separator):
        import datetime
        import pytz
        layout = text['layout']
        if layout == 'empty':
            return b''
        iso = layout in ('timestamp-iso', 'iso-first')
        header = {'epoch': 'epoch', 'timestamp-iso': 'timestamp', 'timestamp-epoch': 'timestamp', 'other': 'when', 'broken': 'epoch', 'iso-first': 'when'}.get(layout)
        lines = []
        first = layout not in ('other', 'timestamp-epoch')
        if header:
            lines.append(separator.join([header] + text['labels'] if first or layout == 'other' else text['labels'] + [header]))
        for t, values in text['rows']:
            stamp = datetime.datetime.fromtimestamp(t, tz=pytz.UTC).strftime('%Y-%m-%dT%H:%M:%SZ') if iso else str(t)
            values = [repr(v) for v in values]
            lines.append(separator.join([stamp] + values if first or layout == 'other' else values + [stamp]))
        if layout == 'broken':
            lines.append('what' + separator + 'ever')
        return ('\n'.join(lines) + '\n').encode(text['encoding'], 'replace')

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    def simplify(self, trace):
        if trace['short'] is not None:
            yield dict(trace, short=None)
        for i, op in enumerate(trace['ops']):
            if 'series' in op and len(op['series']['items']) > 2:
                yield dict(trace, ops=trace['ops'][:i] + [dict(op, series=dict(op['series'], items=op['series']['items'][:2]))] + trace['ops'][i+1:])

    def storage(self, config, path):
        return CSVFileStorage(path, separator=config['separator'], encoding=config['encoding'], tz=config['tz'], skip_errors=config['skip'], silence_errors=True, series_type=config['type'])

    def get(self, storage, op):
        kwargs = {}
        if op.get('limit'):
            kwargs['limit'] = op['limit']
        if op.get('force') == 'points':
            kwargs['force_points'] = True
        elif op.get('force') == 'slots':
            kwargs['force_slots'] = True
            kwargs['force_slot_unit'] = '1h'
        return outcome(storage.get, **kwargs)

    def put_bytes(self, path, content):
        """What another process does."""
        fs = self.fs
        active, fs.active = fs.active, False
        try:
            if content is None:
                if os.path.exists(path):
                    os.remove(path)
            else:
                with open(path + '.other', 'wb') as f:
                    f.write(content)
                os.replace(path + '.other', path)
        finally:
            fs.active = active

    def current(self, path):
        if not os.path.exists(path):
            return None
        with open(path, 'rb') as f:
            return f.read()

    def reference(self, path, content, f):
        """What somebody reading for the first time gets, with that content."""
        now = self.current(path)
        self.put_bytes(path, content)
        try:
            return f()
        finally:
            self.put_bytes(path, now)

    def encoded(self, series, config):
        """A file as stored by another process with the same configuration."""
        path = os.path.join(self.fs.base, 'other')
        self.storage(config, path).put(build(series), overwrite=True)
        with open(path, 'rb') as f:
            return f.read()

    def execute(self, trace, ctx):
        fs = self.fs = SimFS()
        fs.known_names = set(FILES)
        paths = [os.path.join(fs.root, f) for f in FILES]
        storages = [self.storage(c, os.path.join(fs.root, c['file'])) for c in trace['storages']]
        short = random.Random(trace['short']) if trace['short'] is not None else None
        kinds = {0: None, 1: None}
        reader = {}
        results = []
        fs.reset(short=short)
        fs.ctx = ctx
        with environment(fs, clock=1446073200):
            for n, op in enumerate(trace['ops']):
                kind = op['op']
                config = trace['storages'][op['s']]
                storage = storages[op['s']]
                f = FILES.index(config['file'])
                path = paths[f]
                fs.reset(short=short)
                fs.ctx = ctx
                if kind in ('get', 'get-two'):
                    for _ in range(2 if kind == 'get-two' else 1):
                        self.check(trace, op, storage, config, path, ctx, 'get')
                    ctx.state(reader.get(op['s']), kinds[f], config['encoding'], config['type'], kind)
                    if op['s'] in reader and reader[op['s']] != kinds[f]:
                        ctx.nontrivial = True
                    reader[op['s']] = kinds[f]
                elif kind in ('put', 'save'):
                    series = build(op['series'])
                    snap = snapshot(series)
                    with fs:
                        if kind == 'put':
                            must('put', storage.put, series, overwrite=True)
                        else:
                            path, f = paths[op['f']], op['f']
                            must('save', series.save, path, overwrite=True)
                    unit = op['series'].get('unit')
                    if kind == 'put':
                        with fs:
                            got = must('get-after-put', storage.get, force_tz=op['series']['tz'], force_points=not unit, force_slots=bool(unit), force_slot_unit=unit)
                    else:
                        with fs:
                            got = must('load-after-save', TimeSeries.load, path)
                    diff = compare_loaded(op['series'], got)
                    expect(diff is None, 'not-what-was-stored:{}'.format(kind), lambda: diff)
                    results.append([got, snapshot(got), 0])
                    diff = first_difference(snap, snapshot(series))
                    expect(diff is None, 'storing-changed-series', lambda: diff)
                    kinds[f] = ('series', unit)
                elif kind == 'external':
                    self.put_bytes(path, self.render(op['text'], config['separator']))
                    ctx.fault('external_write')
                    kinds[f] = (op['text']['layout'], op['text']['encoding'])
                elif kind == 'load':
                    path = paths[op['f']]
                    with fs:
                        got = outcome(TimeSeries.load, path)
                    ctx.log('load', got[0])
                elif kind == 'delete':
                    self.put_bytes(path, None)
                    ctx.fault('external_delete')
                    kinds[f] = None
                elif kind in ('failing-get', 'failing-put'):
                    with fs:
                        (self.get(storage, op) if kind == 'failing-get' else None)
                    total = max(1, fs.count)
                    if kind == 'failing-put':
                        total = 12
                    before = self.current(path)
                    fs.reset([{'kind': op['fault'], 'at': op['at']}], total, short)
                    fs.ctx = ctx
                    if kind == 'failing-get':
                        with fs:
                            got = self.get(storage, op)
                        if not fs.fired:
                            want = self.reference(path, before, lambda: self.get(self.storage(config, path), op))
                            diff = first_difference(want, got)
                            expect(diff is None, 'stale:get', lambda: diff)
                        else:
                            ctx.nontrivial = True
                            expect(got[0] == 'exc', 'failure-not-reported', got[0])
                    else:
                        with fs:
                            result = call(storage.put, build(op['series']), overwrite=True)
                        if result[0] == 'exc':
                            expect(self.current(path) == before, 'failed-put-changed-file')
                    if kind == 'failing-put' and result[0] == 'ok':
                        kinds[f] = ('series', op['series'].get('unit'))
                elif kind in ('race-get', 'race-load'):
                    self.race(trace, op, storage, config, paths[op['f']] if kind == 'race-load' else path, ctx, short)
                    kinds[op['f'] if kind == 'race-load' else f] = ('race', op['series'].get('unit'))
                elif kind == 'mutate':
                    # Whoever got a series can do whatever it wants with it
                    for entry in results:
                        for item in entry[0]:
                            for label in item.data:
                                item.data[label] = -12345.0
                            item.data_indexes['mutated'] = 1
                        entry[2] += 1
                ctx.log(n, kind)
        ctx.probe('ops', len(trace['ops']))

    def check(self, trace, op, storage, config, path, ctx, tag):
        content = self.current(path)
        fs = self.fs
        with fs:
            got = self.get(storage, op)
        want = self.get(self.storage(config, path), op)
        expect(self.current(path) == content, 'reading-changed-file')
        diff = first_difference(want, got)
        expect(diff is None, 'stale:{}'.format(tag), lambda: diff)
        ctx.log('got', got[0], str(got[1])[:50] if got[0] == 'exc' else got[1]['len'])

    def race(self, trace, op, storage, config, path, ctx, short):
        """The file is replaced while being read: what is read is the one or the other."""
        fs = self.fs
        old = self.current(path)
        if op['op'] == 'race-load':
            config = {'separator': ',', 'encoding': 'auto', 'tz': 'UTC', 'skip': False, 'type': 'auto'}

            def read(first):
                return outcome(TimeSeries.load, path)
        else:
            def read(first):
                return self.get(self.storage(config, path) if first else storage, op)
        new = self.encoded(op['series'], config)
        a = read(True)
        b = self.reference(path, new, lambda: read(True))
        with fs:
            read(True)
        at = int(op['at'] * max(1, fs.count))
        fs.reset(short=short)
        fs.ctx = ctx

        def replace():
            self.put_bytes(path, new)
            ctx.fault('replaced_while_reading')
        fs.hooks[at] = replace
        with fs:
            got = read(False)
        if got[0] != 'exc':
            ctx.nontrivial = True
            diffs = [first_difference(w, got) for w in (a, b)]
            expect(None in diffs, 'mixed:{}'.format(op['op']), lambda: 'neither the old series ({}) nor the new one ({})'.format(*diffs))
            ctx.probe('race:{}'.format('same' if a == b else ('old' if diffs[0] is None else 'new')))
        else:
            ctx.probe('race:exc')
        self.put_bytes(path, new)


SCENARIO = P09()
