"""Shared by the scenarios on storages: series to be stored, and the environment around them."""

import os
import time

from .lib import *
from .simfs import SimFS, SimCrash

LABELS = ['value', 'a', 'temp in', 'Umidità', '温度', 'x-1', 'Temp_C', 'ß', 'B2', 'µ']
ASCII_LABELS = ['value', 'a', 'temp in', 'x-1', 'Temp_C', 'B2']


def rnd_series(rng, ascii_only=False, latin_only=False, max_items=12, separator=',', min_items=1, slots=None, fine=True):
    tz = rng.choice(TIMEZONES)
    pool = ASCII_LABELS if ascii_only else ([x for x in LABELS if all(ord(c) < 256 for c in x)] if latin_only else LABELS)
    labels = rng.sample(pool, rng.randint(1, 4))
    kind = rng.choice(('points', 'points', 'irregular', 'slots', 'calendar')) if slots is None else ('slots' if slots else 'points')
    n = rng.randint(min_items, max_items)
    if rng.random() < 0.06:
        n = rng.randint(200, 600)      # More than a buffer
    unit = {'slots': rng.choice(('1h', '15m', '10m', '60s', '30m', '7s') + (('1s', '0.5s') if fine else ())), 'calendar': rng.choice(('1D', '1M'))}.get(kind)
    spec = {'tz': tz, 'items': []}
    if unit:
        spec['unit'] = unit
    if kind == 'calendar':
        n = min(n, 40)
        starts = calendar_starts(tz, 2015, rng.choice((1, 3, 10)), 1 if unit == '1M' else 24, unit, n)
    else:
        step = {'1h': 3600, '15m': 900, '10m': 600, '60s': 60, '30m': 1800, '7s': 7, '1s': 1, '0.5s': 0.5}.get(unit, rng.choice((60, 600, 3600, 1, 0.5, 86400)))
        t = rng.choice((0, 1446073200, 1e9, 1600000000)) if unit or rng.random() < 0.6 else rng.choice((1446073200.123, 0.1, 1599999999.999999))
        starts = []
        for _ in range(n):
            starts.append(t)
            t += step * (rng.choice((1, 1, 2, 3.25)) if kind == 'irregular' else 1)
    indexes = rng.choice(([], [], ['data_loss'], ['data_loss', 'anomaly'], ['data_reconstructed', 'data_loss', 'custom']))
    late = rng.randrange(n) if n > 1 and rng.random() < 0.3 else None       # An index which is there only from an item on
    for k, t in enumerate(starts):
        item = {'t': t, 'd': {label: stored_value(rng) for label in labels}}
        if indexes:
            item['x'] = {name: rng.choice((0, 1, 0.5, round(rng.random(), 6), None)) for name in indexes if rng.random() < 0.95 and (late is None or k >= late or name != indexes[-1])}
        spec['items'].append(item)
    return spec


def stored_value(rng):
    r = rng.random()
    if r < 0.2:
        return rng.randint(-5, 100)
    if r < 0.3:
        return rng.choice((0.1 + 0.2, 1e-12, -1e20, 1 / 3, 123456789.123456789, 0.0, -0.0, 1e300, 5e-324))
    return round(rng.uniform(-1000, 1000), rng.randint(0, 8))


class environment():
    """Locale, time zone and clock of the simulated process."""

    def __init__(self, fs, encoding=None, tz=None, clock=None, ctx=None):
        self.fs, self.encoding, self.tz, self.clock, self.ctx = fs, encoding, tz, clock, ctx

    def __enter__(self):
        self.fs.default_encoding = self.encoding
        self.saved_tz = os.environ.get('TZ')
        if self.tz:
            os.environ['TZ'] = self.tz
            time.tzset()
        self.saved = []
        if self.clock is not None:
            self.saved = fake_clock(self.clock)
        return self

    def __exit__(self, *exc):
        self.fs.default_encoding = None
        if self.tz:
            if self.saved_tz is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = self.saved_tz
            time.tzset()
        for module, name, original in self.saved:
            setattr(module, name, original)
        return False


def fake_clock(now):
    """Replace the clock, wherever the code under test reads it."""
    import sys
    import datetime
    import pytz
    saved = []

    def now_s():
        return float(now)

    def now_dt(tz='UTC'):
        zone = pytz.timezone(tz) if isinstance(tz, str) else tz
        return datetime.datetime.fromtimestamp(now, tz=zone)

    for module_name, module in list(sys.modules.items()):
        if module is None or not (module_name == 'timeseria' or module_name.startswith('timeseria.')):
            continue
        for name, replacement in (('now_s', now_s), ('now_dt', now_dt), ('now_t', now_s)):
            if name in vars(module):
                saved.append((module, name, vars(module)[name]))
                setattr(module, name, replacement)
    saved.append((time, 'time', time.time))
    time.time = now_s
    return saved


def compare_loaded(expected_spec, loaded, ignore_indexes_none=True):
    """None if a loaded series is the stored one, or what differs."""
    items = expected_spec['items']
    tz = expected_spec.get('tz', 'UTC')
    if len(loaded) != len(items):
        return 'loaded {} items instead of {}'.format(len(loaded), len(items))
    names = set()
    for item in items:
        names |= set(item.get('x', {}))
    unit = expected_spec.get('unit')
    for i, (item, got) in enumerate(zip(items, loaded)):
        if unit:
            if not isinstance(got, DataTimeSlot):
                return 'item #{} is a {}'.format(i, got.__class__.__name__)
            if str(got.unit) != str(TimeUnit(unit)):
                return 'item #{} has unit {} instead of {}'.format(i, got.unit, unit)
        elif not isinstance(got, DataTimePoint):
            return 'item #{} is a {}'.format(i, got.__class__.__name__)
        if got.t != item['t']:
            return 'item #{} is at {!r} instead of {!r}'.format(i, got.t, item['t'])
        if str(got.tz) != tz:
            return 'item #{} is on {} instead of {}'.format(i, got.tz, tz)
        if set(got.data) != set(item['d']):
            return 'item #{} has labels {} instead of {}'.format(i, sorted(got.data), sorted(item['d']))
        for label in item['d']:
            if float(got.data[label]) != float(item['d'][label]):
                return 'item #{} has {!r}={!r} instead of {!r}'.format(i, label, got.data[label], item['d'][label])
        for name in names:
            want = item.get('x', {}).get(name)
            have = got.data_indexes.get(name)
            if (want is None) != (have is None) or (want is not None and float(want) != float(have)):
                return 'item #{} has index {}={!r} instead of {!r}'.format(i, name, have, want)
        extra = set(got.data_indexes) - names
        if [x for x in extra if got.data_indexes[x] is not None]:
            return 'item #{} has unexpected indexes {}'.format(i, extra)
    return None
