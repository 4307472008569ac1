"""P06: a stored series is loaded back as it was, whatever the environment and however the system delivers the bytes."""

import random

from ..core import Scenario, call, expect
from ..store import *
from timeseria.storages import CSVFileStorage


class P06(Scenario):
    prop = 'P06'
    quick_runs = 16000
    thorough_runs = 400000
    rule = 'a run is non-trivial if the environment of the reader or of the writer was not the default one, or if reads or writes were short; runs are distinct by the digest of the operations on the file system'
    measure = 'distinct (kind of series, interface, encodings, separator, environments, short reads or writes) tuples'
    real = ['timeseria.storages', 'timeseria.datastructures (save, load, to_csv)', 'timeseria.utilities', 'io (buffering and text layers)', 'os (on a scratch folder)']
    stubbed = ['raw files (short reads and writes)', 'locale, time zone and clock of the process']
    assumptions = ['labels without separators, quotes and new lines, which do not look like missing values or indexes', 'finite values']
    shrinkable = []

    def generate(self, rng, i):
        interface = rng.choice(('save-load', 'save-load', 'storage', 'storage-same', 'csv'))
        encoding = rng.choice(('auto', 'auto', 'utf-8', 'latin-1', 'utf-16', 'utf-8-sig', 'cp1252'))
        separator = rng.choice((',', ',', ';', '\t', '|'))
        spec = rnd_series(rng, latin_only=encoding in ('latin-1', 'cp1252'), ascii_only=encoding == 'utf-16' and False)
        spec['items'] = spec['items'][:rng.choice((1000, 1000, 300))]
        if spec.get('unit') == '1M' and rng.random() < 0.3:
            spec['unit'] = '1Y'
            for item, t in zip(spec['items'], calendar_starts(spec['tz'], rng.randint(1971, 2016), 1, 1, '1Y', len(spec['items']))):
                item['t'] = t
        if spec.get('unit') == '1M' and rng.random() < 0.5:
            for item, t in zip(spec['items'], calendar_starts(spec['tz'], rng.randint(1996, 2016), rng.randint(1, 12), 1, '1M', len(spec['items']))):
                item['t'] = t
        return {'interface': interface, 'encoding': encoding, 'separator': separator, 'series': spec,
                'write_env': self.env(rng), 'read_env': self.env(rng), 'short': rng.choice((None, None, rng.randint(0, 10**6))),
                'existing': rng.random() < 0.3, 'link': rng.random() < 0.1, 'auto': rng.random() < 0.5}

    def env(self, rng):
        return {'encoding': rng.choice((None, None, 'ascii', 'cp1252', 'latin-1', 'utf-8')), 'tz': rng.choice((None, 'UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Chatham')),
                'clock': rng.choice((None, 0, 1446073200, 4102444800.5, -86400))}

    def simplify(self, trace):
        items = trace['series']['items']
        for n in (1, 2, 3, len(items) // 2):
            if 0 < n < len(items):
                yield dict(trace, series=dict(trace['series'], items=items[:n]))
        if trace['short'] is not None:
            yield dict(trace, short=None)
        for key in ('write_env', 'read_env'):
            for name in trace[key]:
                if trace[key][name] is not None:
                    yield dict(trace, **{key: dict(trace[key], **{name: None})})
        if trace['existing']:
            yield dict(trace, existing=False)
        if trace['link']:
            yield dict(trace, link=False)

    def recognizable(self, spec):
        """If what is stored can be told from its times: calendar slots, and points which are not as far as them."""
        unit, times = spec.get('unit'), [item['t'] for item in spec['items']]
        if unit:
            return unit in ('1D', '1M', '1Y') and len(times) > 1 and all((b - a) % 3600 == 0 for a, b in zip(times, times[1:]))
        return all(b - a < 80000 for a, b in zip(times, times[1:]))

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    def execute(self, trace, ctx):
        fs = self.fs = SimFS(ctx)
        fs.known_names = {'data.csv', 'target.csv'}
        spec = trace['series']
        series = build(spec)
        before = snapshot(series)
        path = os.path.join(fs.root, 'data.csv')
        overwrite = False
        if trace['link']:
            os.symlink(os.path.join(fs.root, 'target.csv'), path)
        if trace['existing']:
            with open(path, 'w') as f:
                f.write('old\n')
            overwrite = True
        fs.reset(short=random.Random(trace['short']) if trace['short'] is not None else None)
        interface, encoding, separator = trace['interface'], trace['encoding'], trace['separator']
        kwargs = {'encoding': encoding, 'separator': separator}
        storage = None
        with fs:
            with environment(fs, ctx=ctx, **trace['write_env']):
                if interface in ('storage', 'storage-same'):
                    storage = CSVFileStorage(path, tz=spec['tz'], **kwargs)
                    must('put', storage.put, series, overwrite=overwrite)
                elif interface == 'csv':
                    must('to_csv', series.to_csv, path, overwrite=overwrite, **kwargs)
                else:
                    must('save', series.save, path, overwrite=overwrite, **kwargs)
            if encoding == 'auto':
                # What the files are written with is detected (or not) when reading
                pass
            with environment(fs, ctx=ctx, **trace['read_env']):
                if interface == 'save-load':
                    loaded = must('load', TimeSeries.load, path)
                else:
                    if storage is None or interface != 'storage-same':
                        storage = CSVFileStorage(path, tz=spec['tz'], **kwargs)
                    unit = spec.get('unit')
                    if trace.get('auto') and self.recognizable(spec):
                        ctx.probe('auto:{}'.format(unit))
                        loaded = must('get-auto', storage.get)
                    else:
                        loaded = must('get', storage.get, force_points=not unit, force_slots=bool(unit), force_slot_unit=unit)
        for key in ('write_env', 'read_env'):
            for name in trace[key]:
                if trace[key][name] is not None:
                    ctx.fault('{}_{}'.format(key[:-4], name))
                    ctx.nontrivial = True
        if trace['short'] is not None:
            ctx.nontrivial = True
        diff = compare_loaded(spec, loaded)
        expect(diff is None, 'not-as-stored', lambda: diff)
        diff = first_difference(before, snapshot(series))
        expect(diff is None, 'storing-changed-series', lambda: diff)
        names = sorted(os.listdir(fs.root))
        allowed = ['data.csv', 'target.csv'] if trace['link'] else ['data.csv']
        expect(names == allowed, 'left-files-behind', names)
        if trace['link']:
            expect(os.path.islink(path), 'link-replaced')
        ctx.state(spec.get('unit'), interface, encoding, separator, trace['write_env']['encoding'], trace['read_env']['encoding'], trace['short'] is not None)
        ctx.log('loaded', len(loaded))
        ctx.probe('unit:{}'.format(spec.get('unit')))
        ctx.sim_time(loaded[-1].t - loaded[0].t)


SCENARIO = P06()
