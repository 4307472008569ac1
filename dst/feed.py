"""Simulated sensors: readings on a nominal interval, with jitter and clock skew or jumps, delivered over a faulty network."""

from .lib import DataTimePoint, TimeSeries


def generate(rng, n=None, interval=None, start=None, labels=("v",), index=None, jitter=True, faults=True, decimals=3, varied=True):
    """A list of readings {'t', 'd', 'x', 'f': fault or missing, 'lost': true if not delivered}."""
    v = interval
    n = n or rng.randint(4, 50)
    t = start
    readings = []
    p = rng.choice((0, 0.05, 0.15, 0.35, 0.6)) if faults else 0
    burst = 0
    jit = rng.choice((0, 0, 0.1, 0.3)) if jitter else 0
    skew = rng.choice((0, 0, 0, 1e-3, -1e-3)) if jitter else 0
    offset = 0.0
    slow = rng.choice((2, 3)) if varied and n >= 8 and rng.random() < 0.12 else None     # Readings were at another pace for a while
    slow_until = rng.randint(2, max(2, n // 2 - 1))
    if varied and n >= 210 and rng.random() < 0.5:
        slow, slow_until = rng.choice((2, 3)), rng.randint(101, n // 2 - 1)
    style = rng.choice(("any", "any", "any", "levels", "integers")) if varied else "any"
    marks = rng.choice(('any', 'any', 'flags', 'missing'))
    for k in range(n):
        t += v * slow if slow and k < slow_until else v
        offset += v * skew
        fault = None
        lost = False
        if burst:
            burst -= 1
            fault, lost = 'outage', True
        elif rng.random() < p:
            fault = rng.choice(('loss', 'loss', 'loss', 'outage', 'delay', 'duplication', 'clock_jump'))
            if fault == 'outage':
                burst = rng.randint(1, max(2, n // 3))
                lost = True
            elif fault == 'loss':
                lost = True
            elif fault == 'clock_jump':
                if jit:
                    offset += rng.choice((-1, 1)) * v * rng.uniform(0.1, 2.5)
                else:
                    offset += rng.choice((-1, 1, 2)) * v
        tt = t + offset + (rng.uniform(-jit, jit) * v if jit else 0)
        tt = round(tt, decimals)
        reading = {'t': tt, 'd': {label: round(rng.uniform(-20, 20), 4) if style == 'any' else (rng.choice((0.0, 0.0, 0.5, -1.0, 1.0)) if style == 'levels' else rng.randint(-2, 2)) for label in labels}}
        if index and rng.random() < 0.8:
            reading['x'] = {index: round(rng.random(), 4) if marks == 'any' else (rng.choice((0, 1)) if marks == 'flags' else rng.choice((None, 0, 0.7)))}
        if fault:
            reading['f'] = fault
        if lost:
            reading['lost'] = True
        readings.append(reading)
    # Delays: swapped with one of the following
    i = 0
    while i < len(readings) - 1:
        if readings[i].get('f') == 'delay':
            j = min(len(readings) - 1, i + rng.randint(1, 3))
            reading = readings.pop(i)
            readings.insert(j, reading)
            i += 1
        i += 1
    return readings


def deliver(readings, ctx, tz='UTC', buffered=True):
    """What the collector ends up with: out-of-order readings are put in place if buffered (or dropped), duplicates are refused."""
    got = {}
    last = None
    for reading in readings:
        if reading.get('f'):
            ctx.fault('network_' + reading['f'] if reading['f'] != 'clock_jump' else 'clock_jump')
        ctx.step()
        if reading.get('lost'):
            continue
        t = reading['t']
        if t in got:
            continue
        if not buffered and last is not None and t < last:
            continue
        got[t] = reading
        last = t if last is None else max(last, t)
    return [got[t] for t in sorted(got)]


def series_of(readings, tz='UTC'):
    series = TimeSeries()
    for reading in readings:
        series.append(DataTimePoint(t=reading['t'], data=dict(reading['d']), data_indexes=dict(reading.get('x', {})), tz=tz))
    return series


#==========================
#  Reference model
#==========================

def regions(ts, v):
    """The validity regions: half the interval before and after every reading, shrunk to the middle where overlapping."""
    result = [[t - v / 2, t + v / 2] for t in ts]
    for i in range(1, len(result)):
        if result[i][0] < result[i-1][1]:
            middle = (result[i-1][1] + result[i][0]) / 2
            result[i-1][1] = middle
            result[i][0] = middle
    return result


def pieces(ts, values, v, a, b, R=None, uniform=False):
    """How an interval is covered: [(from, to, index of the reading or None if missing, value)]."""
    R = R or regions(ts, v)
    out = []
    for i, (lo, hi) in enumerate(R):
        s, e = max(lo, a), min(hi, b)
        if e > s:
            out.append((s, e, i, values[i]))
        if i + 1 < len(R):
            s, e = max(hi, a), min(R[i+1][0], b)
            if e > s:
                m = (s + e) / 2
                share = 0.5 if uniform else (m - ts[i]) / (ts[i+1] - ts[i])
                out.append((s, e, None, values[i] + (values[i+1] - values[i]) * share))
    return out


def loss_and_average(ts, values, v, a, b, R=None, uniform=False):
    p = pieces(ts, values, v, a, b, R, uniform)
    covered = sum(e - s for s, e, i, _ in p if i is not None)
    return 1 - covered / (b - a), sum((e - s) * x for s, e, _, x in p) / (b - a)
