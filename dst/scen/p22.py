"""P22: a series exchanged as dictionaries, JSON or data frames, in pieces over a faulty network, arrives as it was."""

import json

from ..core import HarnessError, Scenario, call, expect, must
from ..store import *


class P22(Scenario):
    prop = 'P22'
    quick_runs = 24000
    thorough_runs = 300000
    rule = 'a run is non-trivial if messages were lost, duplicated, truncated or delivered out of order, or the receiver is in another environment; runs are distinct by the digest of their results'
    measure = 'distinct (kind of series, form, fault of the message, kind of keys, environment, number of items up to four) tuples'
    real = ['timeseria.datastructures', 'timeseria.units', 'pandas', 'json']
    stubbed = ['the network between the parties', 'their time zones and clocks']
    assumptions = ['JSON and dictionaries with numeric keys carry instants and not time zones (the series is on UTC then), as evident', 'instants are carried up to the microsecond', 'data indexes are not part of what is exchanged, except the data loss in data frames',
                   'calendar slots are exchanged on their time zone or on UTC', 'slots are made out of data frames of at least three rows, with hours, minutes, seconds (or fractions of them), days, weeks, months, quarters or years as unit']
    shrinkable = ['pieces']

    FORMS = ['json', 'json', 'json', 'dict', 'dict', 'df', 'df', 'numbers', 'strings', 'iso', 'frame']

    def generate(self, rng, i):
        spec = rnd_series(rng, max_items=20)
        if rng.random() < 0.5:
            spec['tz'] = 'UTC'
            if spec.get('unit') in ('1D', '1M'):
                spec = dict(spec, items=[dict(item, t=t) for item, t in zip(spec['items'], calendar_starts('UTC', 2015, rng.choice((1, 3, 10)), 1 if spec['unit'] == '1M' else 24, spec['unit'], len(spec['items'])))])
        if spec.get('unit') == '1M' and rng.random() < 0.3:
            starts = calendar_starts(spec['tz'], 2010, rng.choice((1, 1, 7)), 1, '1Y', len(spec['items']))
            spec = dict(spec, unit='1Y', items=[dict(item, t=t) for item, t in zip(spec['items'], starts)])
        elif spec.get('unit') in ('1D', '1M') and rng.random() < 0.4:
            unit = rng.choice(('1W', '1W', '2W', '3M', '3M', '6M', '2M', '2D', '10D', '2Y'))
            starts = calendar_starts(spec['tz'], 2012, rng.choice((1, 4, 10, 2)), rng.randint(1, 28), '{}D'.format(7 * int(unit[:-1])) if unit.endswith('W') else unit, len(spec['items']))
            spec = dict(spec, unit=unit, items=[dict(item, t=t) for item, t in zip(spec['items'], starts)])
        del spec['items'][40:]
        style = rng.choice(('dict', 'dict', 'dict', 'scalar', 'list', 'integers'))
        if style == 'integers':
            for item in spec['items']:
                item['d'] = {label: rng.randint(-5, 100) for label in item['d']}
        if style == 'list':
            for item in spec['items']:
                item['d'] = [item['d'][label] for label in sorted(item['d'])]
        elif style == 'scalar':
            for item in spec['items']:
                item['d'] = {'value': list(item['d'].values())[0]}
        n = len(spec['items'])
        cuts = sorted({0, n} | {rng.randint(0, n) for _ in range(rng.choice((0, 0, 1, 3, 6)))})
        slots = bool(spec.get('unit'))
        form = rng.choice(self.FORMS)
        pieces = []
        for a, b in zip(cuts, cuts[1:]):
            piece = {'from': a, 'to': b, 'form': form if slots else rng.choice(self.FORMS), 'shuffled': rng.random() < 0.02, 'env': [rng.choice((None, None, 'Asia/Tokyo', 'America/New_York')) for _ in range(2)]}
            if rng.random() < 0.35:
                piece['fault'] = rng.choice(('loss', 'duplication', 'delay', 'truncation', 'truncation'))
                piece['at'] = round(rng.random(), 4)
            pieces.append(piece)
        return {'series': spec, 'style': style, 'pieces': pieces}

    def simplify(self, trace):
        for i, piece in enumerate(trace['pieces']):
            if 'fault' in piece or any(piece['env']):
                yield dict(trace, pieces=trace['pieces'][:i] + [dict({k: v for k, v in piece.items() if k not in ('fault', 'at')}, env=[None, None])] + trace['pieces'][i+1:])

    def form(self, piece, series, trace):
        """The form which can be used for what has to be sent."""
        form, unit = piece['form'], trace['series'].get('unit')
        if form in ('df', 'frame'):
            if trace['style'] == 'list':
                return 'dict'
            if unit and len(series) < 3:
                return 'dict'
            if not unit and len(series) > 2 and max(series[i+1].t - series[i].t for i in range(len(series) - 1)) >= 86400:
                # Data frames with daily rows are made of slots
                return 'dict'
        if calendar(unit) and form in ('json', 'numbers', 'strings', 'iso') and trace['series']['tz'] != 'UTC':
            return 'dict'
        return form

    def encode(self, form, series, trace):
        if form == 'json':
            return series.to_json()
        if form == 'dict':
            return series.to_dict()
        if form == 'df':
            return series.to_df()
        plain = [(item.start.t if isinstance(item, TimeSlot) else item.t, item.data) for item in series]
        if trace['style'] == 'scalar':
            plain = [(t, data['value']) for t, data in plain]
        if form == 'numbers':
            return {t: data for t, data in plain}
        if form == 'strings':
            return {repr(t): data for t, data in plain}
        if form == 'iso':
            # As many others write it
            return {datetime.datetime.fromtimestamp(t, tz=pytz.UTC).strftime('%Y-%m-%dT%H:%M:%S.%fZ' if t != int(t) else '%Y-%m-%dT%H:%M:%SZ'): data for t, data in plain}
        if form == 'frame':
            # Not created by the package
            zone = pytz.timezone(trace['series']['tz'])
            index = pandas.DatetimeIndex(pandas.to_datetime([round(t * 10**6) for t, _ in plain], unit='us', utc=True)).tz_convert(zone)
            labels = list(series[0].data)
            return pandas.DataFrame({label: [item.data[label] for item in series] for label in labels}, index=index)
        raise HarnessError(form)

    def decode(self, form, message, trace):
        unit = trace['series'].get('unit')
        kwargs = {'slot_unit': unit} if unit else {}
        if form == 'json':
            return TimeSeries.from_json(message, **kwargs)
        if form in ('df', 'frame'):
            return TimeSeries.from_df(message, item_type=DataTimeSlot if unit else DataTimePoint)
        return TimeSeries.from_dict(message, **kwargs)

    def compare(self, got, sent, form, trace, where):
        expect(isinstance(got, TimeSeries), 'not-a-series:{}'.format(form), lambda: where(type(got)))
        expect(len(got) == len(sent), 'wrong-length:{}'.format(form), lambda: where('{} items instead of {}'.format(len(got), len(sent))))
        tz = trace['series']['tz'] if form in ('dict', 'df', 'frame') else 'UTC'
        for k, (item, original) in enumerate(zip(got, sent)):
            slot = isinstance(original, TimeSlot)
            expect(isinstance(item, DataTimeSlot if slot else DataTimePoint), 'wrong-type:{}'.format(form), lambda: where(type(item)))
            expect(abs(item.t - original.t) <= 1.1e-6, 'wrong-time:{}'.format(form), lambda: where('item #{} at {!r} instead of {!r}'.format(k, item.t, original.t)))
            expect(not slot or abs(item.end.t - original.end.t) <= 1.1e-6, 'wrong-end:{}'.format(form), lambda: where('item #{} up to {!r} instead of {!r}'.format(k, item.end.t, original.end.t)))
            expect(str(item.tz) == tz, 'wrong-timezone:{}'.format(form), lambda: where('item #{} on {} instead of {}'.format(k, item.tz, tz)))
            data = item.data
            if form == 'df':
                expect(item.data_loss == original.data_loss, 'wrong-data-loss:{}'.format(form), lambda: where('item #{}: {} instead of {}'.format(k, item.data_loss, original.data_loss)))
            expect(isinstance(data, type(original.data)) and data_items(data) == data_items(original.data), 'wrong-data:{}'.format(form), lambda: where('item #{}: {} instead of {}'.format(k, item.data, original.data)))

    def execute(self, trace, ctx):
        spec = trace['series']
        unit = spec.get('unit')
        series = build(spec)
        before = snapshot(series)
        queue = []
        delayed = []
        where = lambda what: 'piece {}: {}'.format(piece, what)
        for piece in trace['pieces']:
            part = TimeSeries(*[series[i] for i in range(piece['from'], piece['to'])])
            if not len(part):
                continue
            form = self.form(piece, part, trace)
            with fake_environment(piece['env'][0]):
                message = must('encode:{}'.format(form), self.encode, form, part, trace)
            diff = first_difference(before, snapshot(series))
            expect(diff is None, 'changed-by-sending:{}'.format(form), lambda: where(diff))
            fault = piece.get('fault')
            sent = [(piece, form, message, part)]
            if fault == 'truncation' and isinstance(message, str):
                # Retransmitted later
                ctx.fault('message_truncation')
                sent = [(piece, form, message[:int(piece['at'] * len(message))], None)] + sent
            elif fault == 'loss':
                ctx.fault('message_loss')
                delayed += sent
                sent = []
            elif fault == 'delay':
                ctx.fault('message_delay')
                delayed += sent
                sent = []
            elif fault == 'duplication':
                ctx.fault('message_duplication')
                sent = sent * 2
            queue += sent
            if delayed and not fault:
                queue += delayed
                delayed = []
            ctx.nontrivial = ctx.nontrivial or bool(fault) or any(piece['env'])
        queue += delayed
        # The receiver
        own = TimeSeries()
        waiting = []
        tz = None
        for piece, form, message, part in queue:
            ctx.step()
            with fake_environment(piece['env'][1]):
                if part is None:
                    kind, got = call(self.decode, form, message, trace)
                    expect(kind == 'exc', 'truncated-message-accepted', lambda: where('got {} items out of {!r}'.format(len(got), message[-60:])))
                    continue
                got = must('decode:{}'.format(form), self.decode, form, message, trace)
                self.compare(got, part, form, trace, where)
                # It can be sent further, as what is decoded is as good as what was encoded
                again = must('encode-again:{}'.format(form), got.to_json)
                if form not in ('df', 'frame') and not (calendar(unit) and str(got[0].tz) != 'UTC'):
                    self.compare(self.decode('json', again, trace), part, 'json', trace, where)
                else:
                    json.loads(again)
            ctx.state(unit or 'points', form, piece.get('fault'), trace['style'], piece['env'], min(4, len(part)))
            ctx.probe('{}:{}'.format(form, 'slots' if unit else 'points'))
            ctx.log(form, piece.get('fault'), [(item.t, sorted(map(str, data_items(item.data)))[:2]) for item in got][:4])
            # Put in place
            waiting.append(got)
            waiting.sort(key=lambda piece: piece[0].t)
            while waiting:
                piece_items = waiting[0]
                if unit and len(own) and abs(piece_items[0].t - own[-1].end.t) > 1e-6 and piece_items[0].t > own[-1].t:
                    break       # A hole
                if unit and not len(own) and abs(piece_items[0].t - series[0].t) > 1e-6:
                    break
                waiting.pop(0)
                for item in piece_items:
                    if any(other.t == item.t for other in own):
                        continue
                    position = len([1 for other in own if other.t < item.t])
                    if position == len(own):
                        own.append(item)
                    else:
                        own.insert(position, item)
        expect(not waiting, 'not-in-succession', lambda: 'pieces not fitting: {}'.format([str(piece[0]) for piece in waiting]))
        expect(len(own) == len(series), 'not-all-arrived', lambda: '{} items instead of {}'.format(len(own), len(series)))
        for item, original in zip(own, series):
            expect(abs(item.t - original.t) <= 1.1e-6 and data_items(item.data) == data_items(original.data), 'arrived-differently', lambda: '{} instead of {}'.format(item, original))
        ctx.sim_time(series[-1].t - series[0].t)


def calendar(unit):
    return bool(unit) and unit[-1] in 'DWMY'


class fake_environment():
    """Where one of the parties is."""

    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.saved = os.environ.get('TZ')
        if self.tz:
            os.environ['TZ'] = self.tz
            time.tzset()

    def __exit__(self, *exc):
        if self.tz:
            if self.saved is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = self.saved
            time.tzset()
        return False


SCENARIO = P22()
