"""Models for the scenarios: series to work on, the models of the package and a user-defined one, and canonical answers."""

import math

from . import net
from .lib import *

net.install()

from timeseria.models.base import Model
from timeseria.models.forecasters import Forecaster, PeriodicAverageForecaster, LSTMForecaster
from timeseria.models.reconstructors import Reconstructor, PeriodicAverageReconstructor, LinearInterpolationReconstructor
from timeseria.models.anomaly_detectors import PeriodicAverageAnomalyDetector, PeriodicAverageReconstructorAnomalyDetector, LSTMAnomalyDetector


def season(rng, n=None, period=None, labels=None, unit=None, tz=None, loss=None, start=None, index=None, step=None, level=None):
    """A uniform series with a period, some noise and possibly some data losses."""
    period = period or rng.choice((3, 4, 6, 8))
    n = n or rng.randint(period * 3 + 3, period * 8)
    labels = labels or rng.sample(['value', 'a', 'temp in', 'Umidità'], rng.choice((1, 1, 2)))
    tz = tz or rng.choice(TIMEZONES)
    kind = rng.choice(('points', 'slots')) if unit is None else ('slots' if unit else 'points')
    step = step or rng.choice((600, 900, 3600, 60, 1, 10))
    unit = {600: '10m', 900: '15m', 3600: '1h', 60: '1m', 1800: '30m', 1: '1s', 10: '10s', 12: '12s'}[step] if kind == 'slots' else None
    start = rng.choice((0, 1446073200, 1600000000)) if start is None else start
    start -= start % 3600
    loss = rng.choice((None, 0, 0.1, 0.3)) if loss is None else loss
    noise = rng.choice((0, 0.01, 0.5))
    levels = {label: (rng.choice((5, 20, 100)) if level is None else level) for label in labels}
    shape = {label: [round(rng.uniform(-3, 3), 3) for _ in range(period)] for label in labels}
    spec = {'tz': tz, 'items': [], 'period': period, 'step': step}
    if unit:
        spec['unit'] = unit
    lost = 0
    for k in range(n):
        item = {'t': start + k * step, 'd': {label: round(levels[label] + shape[label][k % period] + rng.uniform(-1, 1) * noise, 4) for label in labels}}
        if loss is not None:
            if lost:
                lost -= 1
                item['x'] = {'data_loss': 1}
            elif rng.random() < loss:
                lost = rng.choice((0, 0, 1, 2, 4))
                item['x'] = {'data_loss': rng.choice((1, 1, round(rng.random(), 3)))}
            else:
                item['x'] = {'data_loss': rng.choice((0, 0, 0, 0, 0, 0, 0, 0, 0.25, 0.25, 0.25, None))}
        if index:
            item.setdefault('x', {})[index] = round(rng.random(), 3)
        spec['items'].append(item)
    return spec


def observed_edges(spec, edge=1):
    """Make sure that the first and last items were observed (or gaps could not be reconstructed)."""
    for item in spec['items'][:edge] + spec['items'][-edge:]:
        if item.get('x', {}).get('data_loss'):
            item['x']['data_loss'] = 0
    return spec


class Counter():
    """Fails at a given call, as a model running out of resources would do."""
    def __init__(self):
        self.calls = 0
        self.fail_at = None

    def __call__(self):
        n = self.calls
        self.calls += 1
        if self.fail_at is not None and n == self.fail_at:
            raise OSError('simulated failure')


class UserForecaster(Forecaster):
    """A user-defined model: forecasts the average of what it was fitted on plus the last value."""

    window = 2
    counter = Counter()

    @Forecaster.fit_function
    def fit(self, series, weight=0.5, verbose=False):
        self.counter()
        self.data['window'] = 2
        self.data['weight'] = weight
        self.data['means'] = {label: sum(item.data[label] for item in series) / len(series) for label in series.data_labels()}

    @Forecaster.predict_function
    def predict(self, series, steps=1):
        self.counter()
        if steps > 1:
            raise NotImplementedError('One step at a time')
        weight = self.data['weight']
        return {label: self.data['means'][label] * weight + series[-1].data[label] * (1 - weight) for label in self.data['data_labels']}


class UserReconstructor(Reconstructor):
    """A user-defined model: reconstructs with the average of what it was fitted on."""

    window = 1
    counter = Counter()

    @Reconstructor.fit_function
    def fit(self, series, weight=1, verbose=False):
        self.counter()
        self.data['weight'] = weight
        self.data['means'] = {label: sum(item.data[label] for item in series) / len(series) for label in series.data_labels()}

    @Reconstructor.predict_function
    def predict(self, series, from_i, to_i):
        self.counter()
        return {label: [self.data['means'][label] * self.data['weight'] for _ in range(from_i, to_i + 1)] for label in series.data_labels()}


FAMILIES = {
    'paf': PeriodicAverageForecaster, 'par': PeriodicAverageReconstructor, 'lir': LinearInterpolationReconstructor,
    'paad': PeriodicAverageAnomalyDetector, 'parad': PeriodicAverageReconstructorAnomalyDetector,
    'lstm': LSTMForecaster, 'lstmad': LSTMAnomalyDetector, 'uf': UserForecaster, 'ur': UserReconstructor,
}
FORECASTERS = ('paf', 'uf', 'lstm')
RECONSTRUCTORS = ('par', 'lir', 'ur')
DETECTORS = ('paad', 'parad', 'lstmad')


def reset_counters(fail_at=None):
    for cls in (UserForecaster, UserReconstructor):
        cls.counter = Counter()
        cls.counter.fail_at = fail_at


def rnd_model(rng, families=('paf', 'paf', 'par', 'par', 'paad', 'parad', 'uf', 'ur', 'lstm', 'lstmad'), labels=1, period=4):
    family = rng.choice([f for f in families if labels == 1 or f not in ('par', 'parad')])
    init = {}
    if family == 'paf' and rng.random() < 0.4:
        init = {'window': rng.choice((period, period + 2, 2))}
    if family in ('lstm', 'lstmad'):
        init = {'window': rng.choice((2, 3, 4)), 'features': rng.choice((['values'], ['values', 'diffs'], ['diffs', 'hours'])), 'neurons': rng.choice((8, 16))}
    return rnd_fit(rng, {'family': family, 'init': init}, period)


def rnd_fit(rng, model, period):
    family = model['family']
    fit = {}
    if family in ('paf', 'par', 'paad', 'parad'):
        fit['periodicity'] = rng.choice((period, period, period, period + 1, 2))
        if rng.random() < 0.3:
            fit['dst_affected'] = True
        if rng.random() < 0.3:
            fit['data_loss_limit'] = rng.choice((0.5, 1.0, None))
    if family in ('par', 'parad') and rng.random() < 0.3:
        fit['offset_method'] = rng.choice(('average', 'extremes'))
    if family in DETECTORS:
        fit['error_metric'] = rng.choice(('PE', 'E', 'AE', 'APE'))
        fit['error_distribution'] = rng.choice(('norm', 'gennorm', 'norm'))
        if rng.random() < 0.3:
            fit['store_errors'] = False
    if family in ('lstm', 'lstmad'):
        fit['epochs'] = rng.choice((1, 5))
        if rng.random() < 0.3:
            fit['normalize'] = False
    if family in ('uf', 'ur') and rng.random() < 0.5:
        fit['weight'] = round(rng.random(), 2)
    return dict(model, fit=fit)


def make(model):
    return FAMILIES[model['family']](**model.get('init', {}))


def fit(instance, model, series):
    instance.fit(series, **model['fit'])
    return instance


def answers(instance, family, series, evaluate=True, steps=(1, 2)):
    """Everything a user can ask to a model about a series, canonically."""
    out = {}
    if family in FORECASTERS:
        for n in steps:
            out['predict-{}'.format(n)] = outcome(instance.predict, series, steps=n)
            out['apply-{}'.format(n)] = outcome(instance.apply, series, steps=n)
            kind, result = call(instance.forecast, series, steps=n)
            out['forecast-{}'.format(n)] = ['exc', result.__class__.__name__] if kind == 'exc' else [item_snapshot(i) for i in (result if isinstance(result, list) else [result])]
        if evaluate:
            out['evaluate'] = outcome(instance.evaluate, series)
    elif family in RECONSTRUCTORS:
        n = len(series)
        out['predict'] = outcome(instance.predict, series, 1, min(2, n - 2))
        out['apply'] = outcome(instance.apply, series)
        if evaluate:
            out['evaluate'] = outcome(instance.evaluate, series, steps=2, limit=10)
    else:
        out['apply'] = outcome(instance.apply, series)
        out['apply-details'] = outcome(instance.apply, series, details=True)
        out['apply-lin'] = outcome(instance.apply, series, index_bounds=['avg_err', 'max_err'], index_type='lin')
        out['apply-sigma'] = outcome(instance.apply, series, index_bounds=['1_sigma', '2.5_sigma'], multivariate_index_strategy='avg')
        if evaluate:
            out['apply-adherence'] = outcome(instance.apply, series, index_bounds=['adherence/1.5', 'adherence/50'])
            out['preprocess'] = outcome(instance.preprocess, series)
    return out


def probe_unfitted(instance, family, series, path):
    """What has to be refused by a model which is not fitted: [(what, outcome)]."""
    out = []
    if family in FORECASTERS:
        out.append(('predict', outcome(instance.predict, series)))
        out.append(('forecast', outcome(instance.forecast, series)))
    elif family in RECONSTRUCTORS:
        out.append(('predict', outcome(instance.predict, series, 1, 1)))
    out.append(('apply', outcome(instance.apply, series)))
    if family in DETECTORS:
        out.append(('preprocess', outcome(instance.preprocess, series)))
    if family not in DETECTORS:
        out.append(('evaluate', outcome(instance.evaluate, series)))
    out.append(('save', outcome(instance.save, path)))
    return out
