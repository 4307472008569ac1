"""P08: damaged files and failing disks never give a silently wrong series."""

import datetime
import math
import random
import re

import pytz

from ..core import Scenario, call, expect
from ..store import *
from timeseria.storages import CSVFileStorage

DAMAGES = ['cut', 'cut', 'garbage_value', 'garbage_value', 'garbage_time', 'lost_line', 'duplicated_line', 'swapped_lines', 'blank_line', 'nul_bytes', 'commented', 'shifted_time', 'extra_column', 'empty_value']
GARBAGE = ['-7,25', '12,5', '+3', '1e2', '-1.5E-1', ' 4 ', '.5', 'abc', '', '  ', 'nan', 'NaN', 'n.a.', 'null', '12..3', '--', '1 2', 'None', 'undef', '0x10', '1e', '"', "'"]
PLACEHOLDERS = ['na', 'nan', 'null', 'nd', 'undef']


def clean(text):
    text = re.sub(r'\s+', ' ', text).strip()
    if text[:1] in ('"', "'"):
        text = text[1:]
    if text[-1:] in ('"', "'"):
        text = text[:-1]
    text = text.strip()
    return None if text.lower().replace('.', '') in PLACEHOLDERS else text


class Damaged(Exception):
    pass


class P08(Scenario):
    prop = 'P08'
    quick_runs = 12000
    thorough_runs = 200000
    rule = 'a run is non-trivial if some line was damaged, some read failed, or the read was interrupted; runs are distinct by the digest of the operations and of the outcome'
    measure = 'distinct (format, kind, mode, damages or faults, outcome) tuples'
    real = ['timeseria.storages', 'timeseria.datastructures', 'timeseria.utilities', 'io (buffering and text layers)']
    stubbed = ['raw files (errors and short reads), asynchronous interruption', 'the medium (damaged files)']
    assumptions = ['lines without a separator and comments carry no record', 'records are judged on the columns which are asked for', 'for slots, missing lines are filled in by the storage and marked as fully lost']
    shrinkable = ['damages', 'faults']

    def generate(self, rng, i):
        fmt = rng.choice(('epoch', 'epoch', 'iso', 'datetime', 'custom', 'date'))
        kind = rng.choice(('points', 'points', 'slots'))
        labels = rng.sample(ASCII_LABELS + ['Umidità'], rng.randint(1, 4))
        n = rng.choice((1, 2, 3, 5, 8, 12, 30))
        if rng.random() < 0.08:
            n = rng.randint(300, 900)
        step = rng.choice((60, 600, 900, 3600, 1, 10))
        t = rng.choice((0, 1446073200, 1600000000))
        t -= t % step
        if fmt == 'date':
            step = 86400
            t -= t % 86400
        tz = rng.choice(('UTC', 'UTC', 'Asia/Kolkata', 'America/New_York'))
        starts = None
        if fmt == 'date':
            # Local midnights, possibly across daylight saving time changes
            tz = rng.choice(('UTC', 'Asia/Kolkata', 'America/New_York', 'Europe/Rome'))
            day = datetime.datetime.fromtimestamp(t, tz=pytz.UTC)
            if tz == 'Europe/Rome' and day.year < 1981:
                tz = 'UTC'                 # Rome had changes at midnight: such days have no midnight to start at, and are refused
            starts = calendar_starts(tz, day.year, day.month, day.day, '1D', n)
        elif fmt in ('datetime', 'custom') and t == 1446073200 - 1446073200 % step:
            tz = rng.choice(('UTC', 'Asia/Kolkata'))        # No ambiguous times
        header = fmt not in ('epoch',) or rng.random() < 0.85
        indexes = rng.choice(([], ['data_loss'], ['data_loss', 'anomaly'])) if header else []
        records = []
        for k in range(n):
            records.append([starts[k] if starts else t + k * step, [round(rng.uniform(-100, 100), 3) for _ in labels], [rng.choice((0, 0.5, 1, None, round(rng.random(), 3))) for _ in indexes]])
        trace = {'format': fmt, 'kind': kind, 'labels': labels, 'indexes': indexes, 'records': records, 'step': step, 'header': header,
                 'separator': rng.choice((',', ',', ';', '\t', '|')), 'skip': rng.random() < 0.5, 'sort': rng.random() < 0.15, 'comments': rng.random() < 0.3,
                 'explicit': rng.random() < 0.5, 'quotes': rng.random() < 0.2, 'tz': tz, 'limit': None,
                 'encoding': rng.choice(('auto', 'utf-8')), 'damages': [], 'faults': [], 'tail': None, 'interrupt': None, 'select': None,
                 'short': rng.choice((None, None, rng.randint(0, 10**6))), 'retries': rng.randint(0, 2)}
        if trace['separator'] == ';' and trace['comments'] and False:
            trace['comments'] = False
        trace['numbers'] = rng.choice((None, None, None, 'comma', 'exponent', 'padded', 'signed'))
        if trace['numbers'] == 'comma' and trace['separator'] == ',':
            trace['numbers'] = None
        if header and rng.random() < 0.25:
            trace['select'] = sorted(rng.sample(labels, rng.randint(1, len(labels))))
            trace['select_by'] = rng.choice(('storage', 'storage', 'get'))
        if rng.random() < 0.1:
            trace['limit'] = rng.randint(1, n + 1)
        if header and trace['separator'] != ';' and rng.random() < 0.2:       # (or it would be a comment)
            trace['lead'] = rng.choice(('first', 'first', 'between'))        # A column with no label, as the row numbers others write
        if header and kind == 'points' and fmt != 'iso' and rng.random() < 0.3:
            trace['order'] = rng.randint(0, 10**6)          # The columns in any order
        mode = rng.choice(('damage', 'damage', 'damage', 'tail', 'eio', 'eio', 'interrupt', 'both', 'clean'))
        if mode in ('damage', 'both'):
            for _ in range(rng.choice((1, 1, 1, 2, 3, 6))):
                trace['damages'].append({'kind': rng.choice(DAMAGES), 'line': rng.randrange(n), 'column': rng.randrange(12), 'at': round(rng.random(), 3), 'with': rng.choice(GARBAGE)})
        if mode == 'tail':
            trace['tail'] = round(rng.random() ** 0.5, 4)
        if mode in ('eio', 'both'):
            trace['faults'].append({'kind': rng.choice(('eio_read', 'eio_read', 'eio_read', 'emfile_open', 'eacces_open', 'memory')), 'at': round(rng.random(), 4), 'times': rng.choice((1, 1, 2, 1000))})
        if mode == 'interrupt':
            trace['interrupt'] = round(rng.random(), 4)
        return trace

    def simplify(self, trace):
        for n in (1, 2, 3, 5, len(trace['records']) // 2):
            if 0 < n < len(trace['records']) and all(d['line'] < n for d in trace['damages']):
                yield dict(trace, records=trace['records'][:n])
        for key, simple in (('short', None), ('quotes', False), ('comments', False), ('sort', False), ('retries', 0), ('tail', None), ('select', None), ('limit', None), ('lead', None), ('order', None)):
            if trace.get(key) != simple:
                yield dict(trace, **{key: simple})
        if len(trace['labels']) > 1 and not trace['select']:
            yield dict(trace, labels=trace['labels'][:1], records=[[t, v[:1], x] for t, v, x in trace['records']])
        if trace['indexes']:
            yield dict(trace, indexes=[], records=[[t, v, []] for t, v, x in trace['records']])

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    #---------------------------
    #  The file
    #---------------------------

    def time_columns(self, trace):
        return {'datetime': ['day', 'hour'], 'date': ['day']}.get(trace['format'], ['epoch' if trace['format'] == 'epoch' else 'timestamp'])

    def columns(self, trace):
        """The header of the file, and where in it the columns of the time, of the labels and of the indexes are"""
        named = self.time_columns(trace) + trace['labels'] + ['__' + x for x in trace['indexes']]
        header = list(named)
        if trace.get('order') is not None:
            random.Random(trace['order']).shuffle(header)
        if trace.get('lead'):
            header.insert(0 if trace['lead'] == 'first' else len(self.time_columns(trace)), '')
        return header, [header.index(name) for name in named]

    def stamp(self, trace, t):
        fmt = trace['format']
        # Formats without offset are on the local time
        dt = datetime.datetime.fromtimestamp(t, tz=pytz.timezone('UTC' if fmt in ('epoch', 'iso') else trace['tz']))
        if fmt == 'epoch':
            return [str(t)]
        if fmt == 'iso':
            return [dt.strftime('%Y-%m-%dT%H:%M:%SZ')]
        if fmt == 'custom':
            return [dt.strftime('%d/%m/%Y %H:%M:%S')]
        if fmt == 'date':
            return [dt.strftime('%Y-%m-%d')]
        return [dt.strftime('%Y-%m-%d'), dt.strftime('%H:%M:%S')]

    def lines(self, trace, ctx):
        sep = trace['separator']
        rows = []
        numbers = trace.get('numbers')
        header, where = self.columns(trace)
        times = len(self.time_columns(trace))
        for t, values, indexes in trace['records']:
            written = [repr(v) for v in values]
            if numbers == 'comma':
                written = [v.replace('.', ',') for v in written]
            elif numbers == 'exponent':
                written = ['{:.4E}'.format(v) for v in values]
            elif numbers == 'padded':
                written = ['{:>12}'.format(v) for v in written]
            elif numbers == 'signed':
                written = ['{:+}'.format(v) for v in values]
            cells = self.stamp(trace, t) + written + [str(x) for x in indexes]
            row = [str(len(rows))] * len(header)
            for c, cell in zip(where, cells):
                row[c] = cell
            rows.append(row)
        lines = [sep.join('"{}"'.format(c) if trace['quotes'] and j % 2 else c for j, c in enumerate(cells)) for cells in rows]
        first = 0 if trace['header'] else 1         # Without a header, the first line decides the columns
        for damage in trace['damages']:
            kind, i = damage['kind'], damage['line']
            if i < first or i >= len(lines):
                continue
            ctx.fault('file_{}'.format(kind))
            line = lines[i]
            if line is None:
                continue
            cells = line.split(sep)
            if kind == 'cut':
                lines[i] = line[:int(damage['at'] * len(line))]
            elif kind == 'garbage_value':
                c = where[times + damage['column'] % (len(trace['labels']) + len(trace['indexes']))]
                if c < len(cells):
                    cells[c] = damage['with']
                    lines[i] = sep.join(cells)
            elif kind == 'empty_value':
                c = where[times + damage['column'] % len(trace['labels'])]
                if c < len(cells):
                    cells[c] = ''
                    lines[i] = sep.join(cells)
            elif kind == 'garbage_time':
                start = where[0]
                if len(cells) <= start:
                    continue
                cells[start] = damage['with'] or 'x'
                if re.search('[0-9]', cells[start]) and trace['kind'] == 'slots':
                    cells[start] = 'x'          # Not as many slots to be filled as from another epoch
                lines[i] = sep.join(cells)
            elif kind == 'lost_line':
                lines[i] = None
            elif kind == 'duplicated_line':
                lines[i] = line + '\n' + line
            elif kind == 'swapped_lines':
                if i + 1 < len(lines):
                    lines[i], lines[i+1] = lines[i+1], lines[i]
            elif kind == 'blank_line':
                lines[i] = ' \n' + line
            elif kind == 'nul_bytes':
                k = int(damage['at'] * len(line))
                lines[i] = line[:k] + '\0\0' + line[k+2:]
            elif kind == 'commented':
                lines[i] = '#' + line
            elif kind == 'shifted_time':
                if i < len(trace['records']):
                    t = trace['records'][i][0] + (damage['column'] - 6) * trace['step']
                    stamp = self.stamp(trace, max(0, t))
                    if len(cells) > max(where):
                        for c, cell in zip(where, stamp):
                            cells[c] = cell
                        lines[i] = sep.join(cells)
            elif kind == 'extra_column':
                lines[i] = line + sep + 'more'
        out = []
        if trace['comments']:
            out.append('# A comment')
        if trace['header']:
            out.append(sep.join(header))
        out += [line for line in lines if line is not None]
        return out

    #---------------------------
    #  The reference reader
    #---------------------------

    def parse_line(self, trace, line):
        """None if there is no record, (t, data, indexes), or raises Damaged."""
        sep = trace['separator']
        if line[:1] in ('#', ';') or sep not in line:
            return None
        cells = line.split(sep)
        k = len(self.time_columns(trace))
        where = self.columns(trace)[1]
        try:
            stamp = [clean(cells[c]) for c in where[:k]]
            if None in stamp:
                raise ValueError()
            fmt = trace['format']
            if fmt == 'epoch':
                t = float(stamp[0])
                if math.isnan(t):
                    raise ValueError()
            else:
                pattern = {'iso': '%Y-%m-%dT%H:%M:%SZ', 'custom': '%d/%m/%Y %H:%M:%S', 'date': '%Y-%m-%d', 'datetime': '%Y-%m-%d %H:%M:%S'}[fmt]
                zone = pytz.UTC if fmt == 'iso' else pytz.timezone(trace['tz'])
                t = zone.localize(datetime.datetime.strptime(' '.join(stamp), pattern)).timestamp()
            data = {}
            for j, label in enumerate(trace['labels']):
                if trace['select'] and label not in trace['select']:
                    continue
                cell = clean(cells[where[k+j]])
                if cell is None:
                    raise ValueError()
                data[label if trace['header'] else str(j)] = float(cell.replace(',', '.'))
            indexes = {}
            for j, name in enumerate(trace['indexes']):
                if trace['select']:
                    break
                cell = clean(cells[where[k+len(trace['labels'])+j]])
                try:
                    indexes[name] = float(cell.replace(',', '.'))
                except (AttributeError, ValueError):
                    indexes[name] = None        # Indexes can be missing
            return t, data, indexes
        except (ValueError, IndexError) as e:
            raise Damaged(line)

    def expected(self, trace, lines):
        """('exc',) or ('ok', [(t, data, indexes)])"""
        records = []
        for line in '\n'.join(lines).split('\n')[1 if trace['header'] and not trace['comments'] else (2 if trace['header'] else 0):]:
            try:
                record = self.parse_line(trace, line)
            except Damaged:
                if not trace['skip']:
                    return ('exc',)
                continue
            if record:
                records.append(record)
                if trace['limit'] and len(records) == trace['limit']:
                    break
        if not records:
            return ('exc',)
        if trace['sort']:
            records.sort(key=lambda r: r[0])
        out = []
        for t, data, indexes in records:
            if not out:
                out.append((t, data, indexes))
            elif trace['kind'] == 'points':
                if t <= out[-1][0]:
                    if not trace['skip']:
                        return ('exc',)
                    continue
                out.append((t, data, indexes))
            else:
                if trace['format'] == 'date':
                    day = [datetime.datetime.fromtimestamp(x, tz=pytz.timezone(trace['tz'])) for x in (out[-1][0], t)]
                    missing = (day[1].date() - day[0].date()).days - 1
                    steps = calendar_starts(trace['tz'], day[0].year, day[0].month, day[0].day, '1D', missing + 1) if missing > 0 else []
                else:
                    missing = (t - out[-1][0]) / trace['step'] - 1
                    steps = [out[-1][0] + trace['step'] * j for j in range(int(missing) + 1)] if missing > 0 else []
                if missing < 0 or missing != int(missing):
                    if not trace['skip']:
                        return ('exc',)
                    continue
                last = out[-1]
                for j in range(int(missing)):
                    out.append((steps[j+1], {label: last[1][label] + (data[label] - last[1][label]) / (missing + 1) * (j + 1) for label in data}, {'data_loss': 1}))
                out.append((t, data, indexes))
        return ('ok', out)

    def storage(self, trace, path):
        kwargs = {'separator': trace['separator'], 'tz': trace['tz'], 'skip_errors': trace['skip'], 'sort': trace['sort'], 'silence_errors': True, 'encoding': trace['encoding']}
        fmt = trace['format']
        if fmt == 'datetime':
            kwargs.update(date_column='day', date_format='%Y-%m-%d', time_column='hour', time_format='%H:%M:%S')
        elif fmt == 'date':
            kwargs.update(date_column='day', date_format='%Y-%m-%d')
        elif fmt == 'custom':
            kwargs.update(timestamp_column='timestamp', timestamp_format='%d/%m/%Y %H:%M:%S')
        elif trace['explicit'] or trace['damages'] or trace['tail'] is not None:
            # What can be auto-detected cannot be relied on for files which are damaged
            kwargs.update(timestamp_column=(self.time_columns(trace)[0] if trace['header'] else 0), timestamp_format={'epoch': 'epoch', 'iso': 'iso8601'}[fmt])
        if trace['select'] and trace['select_by'] == 'storage':
            kwargs['data_labels'] = list(trace['select'])
        return CSVFileStorage(path, **kwargs)

    def get(self, trace, storage):
        unit = {1: '1s', 10: '10s', 60: '1m', 600: '10m', 900: '15m', 3600: '1h', 86400: '1D'}[trace['step']]
        kwargs = {'limit': trace['limit']} if trace['limit'] else {}
        if trace['select'] and trace['select_by'] == 'get':
            kwargs['filter_data_labels'] = list(trace['select'])
        if trace['kind'] == 'slots':
            return storage.get(force_slots=True, force_slot_unit=unit, **kwargs)
        return storage.get(force_points=True, **kwargs)

    def judge(self, trace, want, result, tag):
        if result[0] == 'exc':
            expect(want[0] == 'exc', 'refused:{}'.format(tag), lambda: '{!r}'.format(result[1]))
            return
        got = result[1]
        expect(want[0] == 'ok', 'accepted-damaged:{}'.format(tag), lambda: 'got {} items'.format(len(got)))
        want = want[1]
        expect(len(got) == len(want), 'wrong-records:{}'.format(tag), lambda: 'got {} records instead of {}: {} instead of {}'.format(len(got), len(want), [i.start.t if isinstance(i, TimeSlot) else i.t for i in got][:20], [w[0] for w in want][:20]))
        for i, (item, (t, data, indexes)) in enumerate(zip(got, want)):
            expect(isinstance(item, DataTimeSlot if trace['kind'] == 'slots' else DataTimePoint), 'wrong-kind:{}'.format(tag))
            at = item.start.t if trace['kind'] == 'slots' else item.t
            expect(at == t, 'wrong-time:{}'.format(tag), lambda: 'record #{}: {} instead of {}'.format(i, at, t))
            expect(close_data(item.data, data, 1e-9), 'wrong-data:{}'.format(tag), lambda: 'record #{}: {} instead of {}'.format(i, item.data, data))
            have = {k: v for k, v in item.data_indexes.items() if v is not None}
            need = {k: v for k, v in indexes.items() if v is not None}
            expect(set(have) == set(need) and all(close(have[k], need[k], 1e-9) for k in have), 'wrong-indexes:{}'.format(tag), lambda: 'record #{}: {} instead of {}'.format(i, have, need))

    def execute(self, trace, ctx):
        fs = self.fs = SimFS()
        fs.known_names = {'data.csv'}
        path = os.path.join(fs.root, 'data.csv')
        lines = self.lines(trace, ctx)
        content = '\n'.join(lines) + '\n'
        if trace['tail'] is not None:
            # Torn: what is cut is not in the header nor, if there is none, in the first line
            keep = content.index('\n', 0 if not (trace['comments']) else content.index('\n') + 1) + 1
            content = content[:keep + int(trace['tail'] * (len(content) - keep))]
            ctx.fault('file_torn')
            lines = content.split('\n')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(content)
        want = self.expected(trace, lines)
        damaged = want[0] == 'exc' or bool(trace['damages'])
        storage = self.storage(trace, path)
        tag = 'skip' if trace['skip'] else 'strict'
        total = 0
        if trace['faults']:
            fs.reset()
            with fs:
                call(self.get, trace, self.storage(trace, path))
            total = fs.count
        fs.ctx = ctx
        rng = random.Random(trace['short']) if trace['short'] is not None else None
        fs.reset(trace['faults'], total, rng)
        fired = None
        with fs:
            if trace['interrupt'] is not None:
                count, _ = sched.count_lines(lambda: self.get(trace, self.storage(trace, path)))
                fired, result = sched.interrupted(lambda: self.get(trace, storage), int(trace['interrupt'] * count), KeyboardInterrupt)
                if fired:
                    ctx.fault('interrupt')
            else:
                result = call(self.get, trace, storage)
        failed = [f for f in fs.fired]
        if failed or fired:
            # Raising is fine, anything else must be what would have been read without the failure
            ctx.nontrivial = True
            if result[0] == 'ok':
                self.judge(trace, want, result, 'failing-read')
            else:
                ctx.probe('failed-read')
        else:
            self.judge(trace, want, result, tag)
        if trace['damages'] or trace['tail'] is not None:
            ctx.nontrivial = True
        ctx.log(result[0], want[0], len(want[1]) if want[0] == 'ok' else 0)
        ctx.probe('{}:{}'.format(tag, result[0]))
        ctx.state(trace['format'], trace['kind'], tag, sorted(d['kind'] for d in trace['damages'])[:3], [f[0] for f in failed][:1], bool(fired), result[0])
        # Once the faults stop, the same storage gives what is in the file
        fs.reset(short=rng)
        for _ in range(trace['retries']):
            with fs:
                result = call(self.get, trace, storage)
            self.judge(trace, want, result, tag + '-again')
        with open(path, encoding='utf-8', newline='') as f:
            expect(f.read() == content, 'reading-changed-file')
        expect(os.listdir(fs.root) == ['data.csv'], 'left-files-behind', lambda: os.listdir(fs.root))
        ctx.sim_time(trace['step'] * len(trace['records']))


SCENARIO = P08()
