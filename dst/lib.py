"""Shared pieces of the scenarios: building series from JSON, and observing them only through their behaviour."""

import copy
import datetime
import logging
import math
import os
import sys

from .core import HarnessError, Violation, call, expect, must
from . import sched

import numpy
import pandas
import pytz
import scipy
import sklearn
import matplotlib

try:
    # No threads on their own
    import tqdm
    tqdm.tqdm.monitor_interval = 0
except ImportError:
    pass

logging.disable(logging.CRITICAL)


class SimParallel():
    """Jobs in parallel (as the ones of the distribution fitter): they complete in the order decided by the simulator."""
    rng = None

    def __init__(self, n_jobs=None, *args, **kwargs):
        self.n_jobs = n_jobs

    def __call__(self, jobs):
        jobs = list(jobs)
        order = list(range(len(jobs)))
        if self.n_jobs not in (None, 1) and SimParallel.rng is not None:
            SimParallel.rng.shuffle(order)
        results = [None] * len(jobs)
        for i in order:
            f, args, kwargs = jobs[i]
            results[i] = f(*args, **kwargs)
        return results


try:
    import fitter.fitter
    if hasattr(fitter.fitter, 'Parallel'):
        fitter.fitter.Parallel = SimParallel
except ImportError:
    pass

import importlib
import pkgutil
import timeseria


def _import_everything():
    # Also what the package imports only when needed: it has to be executed now, and not in the middle of a run
    for module in pkgutil.walk_packages(timeseria.__path__, 'timeseria.'):
        if '.tests' not in module.name:
            try:
                importlib.import_module(module.name)
            except Exception:
                pass


# Twice: what the package depends on has to use real locks, the package itself simulated ones
_import_everything()
for _name in [name for name in sys.modules if name == 'timeseria' or name.startswith('timeseria.')]:
    del sys.modules[_name]
with sched.patched_locks():
    import timeseria
    from timeseria import datastructures, transformations, operations, storages, utilities, units, interpolators
    from timeseria.models import base as models_base, forecasters, reconstructors, anomaly_detectors
    from timeseria.datastructures import (Point, TimePoint, DataPoint, DataTimePoint, Slot, TimeSlot, DataSlot, DataTimeSlot, Series, TimeSeries)
    from timeseria.units import TimeUnit, Unit
    _import_everything()

if not os.path.realpath(timeseria.__file__).startswith(os.path.realpath(os.environ.get('DST_REPO', '/repo'))):
    raise HarnessError('testing the wrong package: {}'.format(timeseria.__file__))

TIMEZONES = ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Pacific/Chatham']


FIXED_UNITS = {'1h': 3600, '30m': 1800, '15m': 900, '10m': 600, '60s': 60, '1m': 60}


def build_item(spec, unit=None, tz='UTC'):
    """spec: {'t':, 'd': data or missing, 'x': data indexes, 'c': class, 'u': unit, 'tz':}"""
    t, data, indexes = spec['t'], copy.deepcopy(spec.get('d')), spec.get('x')
    tz = spec.get('tz', tz)
    unit = spec.get('u', unit)
    cls = spec.get('c', 'slot' if unit else 'point')
    kwargs = {}
    # The same item can be created in many ways
    how = spec.get('how')
    at = {'t': t, 'tz': tz}
    if how == 'dt':
        at = {'dt': datetime.datetime.fromtimestamp(t, tz=pytz.UTC).astimezone(pytz.timezone(tz))}
    elif how == 'dt-tz':
        at = {'dt': datetime.datetime.fromtimestamp(t, tz=pytz.UTC), 'tz': tz}
    if data is not None:
        kwargs['data'] = data
        if indexes is not None:
            kwargs['data_indexes'] = dict(indexes)
    if cls == 'point':
        return (DataTimePoint if data is not None else TimePoint)(**at, **kwargs)
    if cls == 'slot':
        start = TimePoint(**at)
        if how == 'end' and unit in FIXED_UNITS:
            start = TimeSlot(start=TimePoint(t=t - FIXED_UNITS[unit], tz=tz), unit=TimeUnit(unit)).end
        return (DataTimeSlot if data is not None else TimeSlot)(start=start, unit=TimeUnit(unit), **kwargs)
    if cls == 'gpoint':
        return DataPoint(t, **kwargs)
    if cls == 'gslot':
        return DataSlot(start=Point(t), unit=Unit(unit), **kwargs)
    raise HarnessError('unknown class {}'.format(cls))


def build(spec, cls=TimeSeries):
    """spec: {'tz':, 'unit': or missing, 'items': [item specs]}"""
    series = cls()
    for item in spec['items']:
        series.append(build_item(item, spec.get('unit'), spec.get('tz', 'UTC')))
    return series


def value(v):
    """A canonical form for values, with NaNs being equal."""
    if isinstance(v, dict):
        return {str(k): value(v[k]) for k in sorted(v, key=str)}
    if isinstance(v, (list, tuple)):
        return [value(x) for x in v]
    if isinstance(v, numpy.ndarray):
        return [value(x) for x in v.tolist()]
    if isinstance(v, (bool, numpy.bool_)):
        return bool(v)
    if isinstance(v, (int, numpy.integer)):
        return int(v)
    if isinstance(v, (float, numpy.floating)):
        v = float(v)
        if math.isnan(v):
            return 'nan'
        if v == int(v) if not math.isinf(v) else False:
            return int(v)
        return v
    if v is None or isinstance(v, str):
        return v
    return str(v)


def item_snapshot(item):
    snap = {'class': item.__class__.__name__}
    if isinstance(item, Point):
        snap['at'] = value(item.coordinates)
    if isinstance(item, Slot):
        snap['at'] = value(item.start.coordinates)
        snap['end'] = value(item.end.coordinates)
        snap['unit'] = str(item.unit)
    if isinstance(item, (TimePoint, TimeSlot)):
        snap['tz'] = str(item.tz)
        if isinstance(item, TimeSlot):
            snap['ends_tz'] = [str(item.start.tz), str(item.end.tz)]
    if hasattr(item, 'data'):
        snap['data'] = value(item.data)
        snap['data_type'] = type(item.data).__name__
        snap['indexes'] = value(item.data_indexes)
    return snap


def snapshot(series):
    """Everything a user can see of a series."""
    snap = {'len': len(series), 'items': [item_snapshot(item) for item in series]}
    if isinstance(series, TimeSeries):
        snap['resolution'] = str(series.resolution)
        snap['tz'] = str(series.tz)
    return snap


def item_key(item, digits=6):
    """An item as (start, end or None, data, indexes), rounded, for comparing different computations."""
    start = item.start.t if isinstance(item, TimeSlot) else item.t
    end = item.end.t if isinstance(item, TimeSlot) else None
    return (start, end, item.data, item.data_indexes)


def close(a, b, tol=1e-6):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def data_items(data):
    return sorted(data.items()) if isinstance(data, dict) else [(str(i), v) for i, v in enumerate(data)]


def close_data(a, b, tol=1e-6):
    a, b = data_items(a), data_items(b)
    return len(a) == len(b) and all(ka == kb and close(va, vb, tol) for (ka, va), (kb, vb) in zip(a, b))


def same_series(a, b, tol=1e-6, indexes=True, tz=True):
    """None if two series carry the same items, or what differs."""
    if len(a) != len(b):
        return 'lengths differ: {} vs {}'.format(len(a), len(b))
    for i in range(len(a)):
        x, y = a[i], b[i]
        diff = same_item(x, y, tol, indexes, tz)
        if diff:
            return 'item #{}: {}'.format(i, diff)
    return None


def same_item(x, y, tol=1e-6, indexes=True, tz=True):
    if isinstance(x, TimeSlot) != isinstance(y, TimeSlot):
        return 'types differ: {} vs {}'.format(x.__class__.__name__, y.__class__.__name__)
    kx, ky = item_key(x), item_key(y)
    if not close(kx[0], ky[0], 1e-12) or not close(kx[1], ky[1], 1e-12):
        return 'times differ: {} vs {}'.format(kx[:2], ky[:2])
    if tz and str(x.tz) != str(y.tz):
        return 'timezones differ: {} vs {}'.format(x.tz, y.tz)
    if not close_data(kx[2], ky[2], tol):
        return 'data differ at {}: {} vs {}'.format(kx[0], kx[2], ky[2])
    if indexes:
        ix = {k: v for k, v in kx[3].items()}
        iy = {k: v for k, v in ky[3].items()}
        if set(ix) != set(iy) or not all(close(ix[k], iy[k], tol) for k in ix):
            return 'data indexes differ at {}: {} vs {}'.format(kx[0], ix, iy)
    return None


def first_difference(a, b, path='', tol=0):
    """Where two JSON-like values differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '{}.{} only on one side'.format(path, k)
            d = first_difference(a[k], b[k], '{}.{}'.format(path, k), tol)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '{}: lengths {} vs {}'.format(path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, '{}[{}]'.format(path, i), tol)
            if d:
                return d
        return None
    if tol and isinstance(a, float) and isinstance(b, float) and close(a, b, tol):
        return None
    return None if a == b else '{}: {!r} vs {!r}'.format(path, a, b)


def outcome(f, *args, **kwargs):
    """What a query answers, canonically: a value or the kind of the exception."""
    kind, result = call(f, *args, **kwargs)
    if kind == 'exc':
        return ['exc', result.__class__.__name__]
    if isinstance(result, Series):
        return ['series', snapshot(result)]
    return ['ok', value(result)]


def rnd_value(rng, kind=None):
    kind = kind or rng.choice(('int', 'float', 'float', 'neg', 'zero', 'big'))
    if kind == 'int':
        return float(rng.randint(0, 20))
    if kind == 'float':
        return round(rng.uniform(-50, 50), 4)
    if kind == 'neg':
        return float(-rng.randint(1, 30))
    if kind == 'zero':
        return 0.0
    return float(rng.choice((1e6, 123456.5, -1e5)))


def calendar_starts(tz, year, month, day, unit, n):
    """The starts (as epoch) of n consecutive calendar days, months or years, computed independently of the code under test."""
    import datetime
    import pytz
    zone = pytz.timezone(tz)
    starts = []
    for k in range(n):
        if unit.endswith('D'):
            naive = datetime.datetime(year, month, day) + datetime.timedelta(days=k * int(unit[:-1]))
        elif unit.endswith('M'):
            m = month - 1 + k * int(unit[:-1])
            naive = datetime.datetime(year + m // 12, m % 12 + 1, 1)
        else:
            naive = datetime.datetime(year + k * int(unit[:-1]), 1, 1)
        starts.append(int(zone.localize(naive).timestamp()))
    return starts
