"""P01: whatever a faulty feed delivers, a series is always ordered and homogeneous, and a refused item changes nothing."""

from ..core import Scenario, call, expect, Violation
from ..lib import *

LABELS = ['a', 'b', 'c']


class P01(Scenario):
    prop = 'P01'
    quick_runs = 30000
    thorough_runs = 1000000
    rule = 'a run is non-trivial if at least one delivery fault fired and at least two items were accepted; runs are distinct by the digest of their history'
    measure = 'distinct (kind of series, last operation, its outcome, number of items up to 6, kind of resolution) tuples'
    real = ['timeseria.datastructures (points, slots, series)', 'timeseria.units', 'timeseria.utilities']
    stubbed = ['the feed (simulated network delivering the items)']
    assumptions = ['items with empty data are not delivered']

    def generate(self, rng, i):
        kind = rng.choice(('points', 'points', 'points-list', 'timepoints', 'slots', 'slots', 'calendar', 'gpoints', 'gslots', 'points-tuple'))
        tz = rng.choice(TIMEZONES) if not kind.startswith('g') else 'UTC'
        labels = rng.sample(LABELS, rng.randint(1, 3))
        unit = {'slots': rng.choice(('1h', '10m', '60s', '1s', '0.5s', '0.1s')), 'calendar': rng.choice(('1D', '1M')), 'gslots': 1}.get(kind)
        step = {'1h': 3600, '10m': 600, '60s': 60, '1s': 1, '0.5s': 0.5, '0.1s': 0.1, 1: 1}.get(unit, rng.choice((1, 60, 600, 0.5)))
        start = rng.choice((0, 60, 1e9, 1446073200, 1600000000)) if not kind.startswith('g') else rng.choice((0, 5, -3))
        n = rng.randint(2, 9)
        messages = []
        if kind == 'calendar':
            for t in calendar_starts(tz, 2015, rng.choice((3, 10)), 24, unit, n):
                messages.append({'t': t, 'd': self.data(rng, kind, labels)})
        else:
            t = start
            irregular = rng.random() < 0.5 and not unit
            for _ in range(n):
                messages.append({'t': t, 'd': self.data(rng, kind, labels)})
                t = round(t + step * (rng.choice((1, 1, 1, 2, 5)) if irregular else 1), 6)
        for m in messages:
            if kind == 'timepoints':
                m.pop('d')
            elif rng.random() < 0.3:
                m['x'] = {'data_loss': round(rng.random(), 3)}
            if not kind.startswith('g') and rng.random() < 0.3:
                m['how'] = rng.choice(('dt', 'dt', 'dt-tz', 'end'))
            if kind.startswith('g'):
                m['c'] = 'gpoint' if kind == 'gpoints' else 'gslot'
        # The feed
        ops = []
        if kind in ('slots', 'calendar') and len(messages) > 2 and rng.random() < 0.15:
            # The first one is delivered last, also if it is not as the others
            late = messages.pop(0)
            ops.append({'op': 'append', 'm': messages[0]})
            other = dict(late, tz='Africa/Nairobi') if rng.random() < 0.5 else dict(late, t=messages[0]['t'] - 420, u='7m')
            other.pop('how', None)
            ops.append({'op': 'insert', 'i': rng.choice((0, 0, -1)), 'm': other, 'fault': 'corruption'})
            ops.append({'op': 'insert', 'i': rng.choice((0, 0, -1)), 'm': late, 'fault': 'delay'})
            messages.pop(0)
        rate = rng.choice((0, 0.1, 0.3, 0.6))
        pending = []
        for m in messages:
            if rng.random() < rate:
                fault = rng.choice(('loss', 'duplication', 'delay', 'corruption', 'redelivery'))
                if fault == 'loss':
                    ops.append({'op': 'nop', 'fault': 'loss'})
                elif fault == 'duplication':
                    ops.append({'op': 'append', 'm': m})
                    ops.append({'op': 'append', 'm': m, 'fault': 'duplication'})
                elif fault == 'delay':
                    pending.append(m)
                elif fault == 'redelivery':
                    ops.append({'op': 'append', 'm': m})
                    ops.append({'op': 'append', 'm': rng.choice(messages), 'fault': 'redelivery'})
                else:
                    ops.append({'op': 'append', 'm': self.corrupt(rng, m, kind), 'fault': 'corruption'})
                    if rng.random() < 0.7:
                        ops.append({'op': 'append', 'm': m})
            else:
                ops.append({'op': 'append', 'm': m})
            if pending and rng.random() < 0.4:
                ops.append({'op': 'append', 'm': pending.pop(), 'fault': 'delay'})
            # Repairs by the user
            while rng.random() < 0.25:
                op = rng.choice(('insert', 'insert', 'remove', 'pop', 'pop_i', 'clear' if rng.random() < 0.3 else 'pop'))
                ops.append({'op': op, 'i': rng.randint(-3, 8), 'm': rng.choice(messages) if rng.random() < 0.7 else self.corrupt(rng, rng.choice(messages), kind)})
        for m in pending:
            ops.append({'op': rng.choice(('append', 'insert')), 'i': rng.randint(0, 8), 'm': m, 'fault': 'delay'})
        return {'kind': kind, 'tz': tz, 'unit': unit, 'ops': ops}

    def data(self, rng, kind, labels):
        if kind in ('points-list', 'points-tuple'):
            return [rnd_value(rng) for _ in labels]
        return {label: rnd_value(rng) for label in labels}

    def corrupt(self, rng, m, kind):
        m = dict(m)
        choice = rng.choice(('labels', 'missing', 'extra', 'type', 'class', 'unit', 'tz', 'nodata', 'empty'))
        if choice in ('labels', 'empty', 'missing', 'extra', 'type', 'nodata') and 'd' not in m:
            choice = 'class'
        if choice in ('unit', 'tz') and kind != 'slots':
            choice = 'class'
        if choice == 'labels':
            m['d'] = {'z': 1.0} if isinstance(m['d'], dict) else [1.0] * (len(m['d']) + 1)
        elif choice == 'missing':
            if isinstance(m['d'], dict):
                m['d'] = dict(list(m['d'].items())[1:]) or {'z': 2.0}
            else:
                m['d'] = m['d'][1:] or [1.0, 2.0]
        elif choice == 'extra':
            m['d'] = dict(m['d'], zz=0.0) if isinstance(m['d'], dict) else m['d'] + [0.0]
        elif choice == 'type':
            m['d'] = list(m['d'].values()) if isinstance(m['d'], dict) else {'a': 1.0}
        elif choice == 'empty':
            m['d'] = m['d'].__class__()
        elif choice == 'nodata':
            m.pop('d')
            m.pop('x', None)
            if kind.startswith('g'):
                m['c'] = 'timepoint'
        elif choice == 'class':
            if kind in ('slots', 'calendar', 'gslots'):
                m['c'] = 'point'
                m.setdefault('d', {'a': 1.0})
            else:
                m['c'] = 'slot'
                m['u'] = '1h'
                m.setdefault('d', {'a': 1.0})
        elif choice == 'unit':
            m['u'] = '7m'
        elif choice == 'tz':
            m['tz'] = 'Africa/Nairobi'
        return m

    def make(self, m, trace):
        if m.get('c') == 'timepoint':
            return TimePoint(t=m['t'])
        unit = m.get('u', trace['unit'])
        if m.get('c') == 'point':
            unit = None
        spec = dict(m)
        if unit is None:
            spec.pop('u', None)
        if trace['kind'] == 'points-tuple' and isinstance(spec.get('d'), list):
            spec['d'] = tuple(spec['d'])
        return build_item(spec, unit, trace['tz'])

    # The reference model: would this sequence of items be legal?
    def kind_of(self, item):
        return item.__class__

    def follows(self, a, b):
        """If b can come right after a."""
        if isinstance(a, Slot):
            return abs(a.end.coordinates[0] - b.start.coordinates[0]) < 2e-6
        return b.coordinates[0] > a.coordinates[0]

    def compatible(self, a, b):
        if a.__class__ != b.__class__:
            return False
        if isinstance(a, TimeSlot):
            if str(a.unit) != str(b.unit) or str(a.tz) != str(b.tz):
                return False
        if hasattr(a, 'data'):
            if type(a.data) != type(b.data):
                return False
            if isinstance(a.data, dict):
                return set(a.data) == set(b.data)
            return len(a.data) == len(b.data)
        return True

    def execute(self, trace, ctx):
        generic = trace['kind'].startswith('g')
        series = Series() if generic else TimeSeries()
        model = []
        first = None     # The first item ever, for time zones of slots
        for number, op in enumerate(trace['ops']):
            if op.get('fault'):
                ctx.fault(op['fault'])
            ctx.step()
            before = snapshot(series)
            name = op['op']
            if name == 'nop':
                continue
            item = self.make(op['m'], trace) if 'm' in op else None
            if not model and name in ('append', 'insert') and first is not None and not self.compatible(first, item):
                # What an emptied series accepts as its new first item is not specified
                continue
            slots = bool(model) and isinstance(model[0], Slot)
            expected = None    # The expected items, or None if to be refused
            if name == 'append':
                if not model or (self.compatible(model[0], item) and self.follows(model[-1], item)):
                    expected = model + [item]
                result = call(series.append, item)
            elif name == 'insert':
                i = op['i']
                at = max(0, i + len(model)) if i < 0 else min(i, len(model))
                if not model:
                    expected = [item]
                elif self.compatible(model[0], item):
                    ok = not (slots and 0 < at < len(model))
                    ok = ok and (at == 0 or self.follows(model[at-1], item)) and (at == len(model) or self.follows(item, model[at]))
                    if ok:
                        expected = model[:at] + [item] + model[at:]
                result = call(series.insert, i, item)
            elif name == 'remove':
                if model and not slots:
                    for i, x in enumerate(model):
                        if x is not None and item.__class__ == x.__class__ and x == item:
                            expected = model[:i] + model[i+1:]
                            break
                    else:
                        if item.__class__ != model[0].__class__:
                            continue
                elif slots and item.__class__ != model[0].__class__:
                    continue
                result = call(series.remove, item)
            elif name == 'pop':
                expected = model[:-1] if model else None
                result = call(series.pop)
            elif name == 'pop_i':
                i = op['i']
                if slots:
                    if i != 0:
                        i = 0
                    expected = model[1:]
                elif model and -len(model) <= i < len(model):
                    at = i if i >= 0 else i + len(model)
                    expected = model[:at] + model[at+1:]
                result = call(series.pop, i)
            elif name == 'clear':
                expected = []
                result = call(series.clear)
            accepted = result[0] == 'ok'
            after = snapshot(series)
            tag = name
            if expected is None:
                expect(not accepted, 'accepted-illegal:{}'.format(tag), lambda: 'op #{} {} was accepted: {}'.format(number, op, after))
                diff = first_difference(before, after)
                expect(diff is None, 'refused-but-changed:{}'.format(tag), lambda: 'op #{} {} ({}): {}'.format(number, op, result[1], diff))
            else:
                expect(accepted, 'refused-legal:{}'.format(tag), lambda: 'op #{} {}: {!r}'.format(number, op, result[1]))
                model = expected
                if first is None and model:
                    first = model[0]
            # The series carries exactly the expected items
            diff = first_difference([item_snapshot(x) for x in model], after['items'])
            expect(diff is None, 'wrong-items:{}'.format(tag), lambda: 'op #{} {}: {}'.format(number, op, diff))
            expect(len(series) == len(model), 'wrong-length:{}'.format(tag), len(series))
            # Order, homogeneity and resolution
            items = [series[i] for i in range(len(series))]
            for a, b in zip(items, items[1:]):
                expect(self.follows(a, b), 'not-in-order', lambda: '{} then {}'.format(a, b))
                expect(self.compatible(items[0], b), 'not-homogeneous', lambda: '{} and {}'.format(items[0], b))
            if not generic:
                self.check_resolution(series, items)
            ctx.log(number, name, accepted, len(model), after.get('resolution'))
            ctx.state(trace['kind'], name, accepted, min(6, len(model)), 'variable' if after.get('resolution') == 'variable' else after.get('resolution') == 'None')
            ctx.probe('accepted' if accepted else 'refused')
        if len(model) >= 2:
            if not generic:
                ctx.sim_time((model[-1].t - model[0].t) if not isinstance(model[0], Slot) else model[-1].end.t - model[0].start.t)
            ctx.nontrivial = any(op.get('fault') for op in trace['ops'])

    def check_resolution(self, series, items):
        resolution = series.resolution
        if not items or (len(items) == 1 and not isinstance(items[0], Slot)):
            expect(resolution is None, 'wrong-resolution', 'expected none, got {}'.format(resolution))
        elif isinstance(items[0], Slot):
            expect(str(resolution) == str(items[0].unit), 'wrong-resolution', '{} vs {}'.format(resolution, items[0].unit))
        else:
            steps = [b.t - a.t for a, b in zip(items, items[1:])]
            if all(s == steps[0] for s in steps):
                expect(resolution != 'variable' and resolution is not None and close(resolution.as_seconds(items[0].dt), steps[0]), 'wrong-resolution', '{} vs {}'.format(resolution, steps))
            else:
                expect(resolution == 'variable', 'wrong-resolution', '{} vs {}'.format(resolution, steps))


SCENARIO = P01()
