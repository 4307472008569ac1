"""Stand-ins for the engines of the forecasters and reconstructors built on something else: Prophet, statsmodels and pmdarima.

They remember what they were told and what they were asked, refuse what the real ones refuse, and answer with values which depend on
everything which they were told, on the time (or the step) which they are asked for, and on how they were configured.
They are used in place of the real ones (a check of the real ones on some runs is part of the scenario), and can be made to fail."""

import json
import sys
import types

import numpy
import pandas

from .net import Failures

failures = Failures()
asked = []          # What was told and asked to the engines, in order


def reset(fail_at=None, error=OSError):
    failures.calls, failures.fail_at, failures.error = 0, fail_at, error
    del asked[:]


def digest(values):
    """A number which depends on all the values and on their order."""
    total = 0.0
    for k, value in enumerate(values):
        total = total * 0.9 + value * (1 + (k % 7) / 10)
    return total


class Prophet():

    def __init__(self, state=None):
        self.state = state

    def fit(self, df):
        failures()
        if self.state is not None:
            raise Exception('Prophet object can only be fit once.')
        if set(df.columns) != {'ds', 'y'}:
            raise ValueError('Dataframe must have columns "ds" and "y"')
        if len(df) < 2:
            raise ValueError('Dataframe has less than 2 non-NaN rows.')
        ds = [pandas.Timestamp(x) for x in df['ds']]
        if any(x.tzinfo is not None for x in ds):
            raise ValueError('Column ds has timezone specified, which is not supported.')
        y = [float(x) for x in df['y']]
        told = sorted((x.isoformat(), v) for x, v in zip(ds, y))
        asked.append(('prophet-fit', told))
        self.state = prophet_state(told)
        return self

    def predict(self, df):
        failures()
        if self.state is None:
            raise Exception('Model has not been fit.')
        ds = [pandas.Timestamp(x) for x in df['ds']]
        if any(x.tzinfo is not None for x in ds):
            raise ValueError('Column ds has timezone specified, which is not supported.')
        if not ds:
            raise ValueError('Dataframe has no rows.')
        asked.append(('prophet-predict', [x.isoformat() for x in ds]))
        # As the real one, ordered by time: local times are not when the clocks go back
        ds = sorted(ds)
        yhat = [answer(self.state, x.isoformat()) for x in ds]
        return pandas.DataFrame({'ds': ds, 'trend': [0.0 for _ in ds], 'yhat_lower': [v - 1 for v in yhat], 'yhat_upper': [v + 1 for v in yhat], 'yhat': yhat})


def seconds_of(time):
    return (pandas.Timestamp(time) - pandas.Timestamp('1970-01-01')).total_seconds()


def prophet_state(told):
    """What Prophet remembers of (local time, value) pairs, which come in the order of their times."""
    return digest([v + seconds_of(t) % 86413 / 8641.3 for t, v in told])


def answer(state, time):
    """What Prophet says about a (local) time."""
    seconds = seconds_of(time)
    return round(state / 100 + (seconds % 99991) / 1000 + seconds / 10**9, 6)


def answers_arima(values, configuration, steps):
    """What ARIMA models say about the next steps."""
    state = digest(values) / 50
    return [round(state + (k + 1) * 1.25 + digest(configuration), 6) for k in range(steps)]


class ARIMA():

    def __init__(self, endog, exog=None, order=(0, 0, 0), **kwargs):
        if exog is not None:
            raise ValueError('endog and exog matrices are different sizes')
        self.values, self.order = [float(x) for x in endog], tuple(order)

    def fit(self, start_params=None, method=None, method_kwargs=None):
        failures()
        asked.append(('arima-fit', self.values, self.order))
        return ARIMAResults(self.values, self.order)


class ARIMAResults():

    def __init__(self, values, order):
        self.values, self.order = values, order

    def forecast(self, steps=1):
        failures()
        asked.append(('arima-forecast', steps))
        return numpy.array(answers_arima(self.values, self.order, steps))


    def get_forecast(self, steps=1):
        return types.SimpleNamespace(predicted_mean=self.forecast(steps))


class AutoARIMA():

    def __init__(self, values, configuration):
        self.values, self.configuration = values, configuration

    def summary(self):
        return 'summary'

    def predict(self, n_periods=10):
        failures()
        asked.append(('aarima-predict', n_periods))
        return numpy.array(answers_arima(self.values, self.configuration, n_periods))


def auto_arima(y, error_action='trace', suppress_warnings=True, stepwise=True, trace=False, max_p=5, max_d=2, max_q=5, **kwargs):
    failures()
    if kwargs:
        raise TypeError('unexpected arguments {}'.format(kwargs))
    values = [float(x) for x in y]
    asked.append(('aarima-fit', values, (max_p, max_d, max_q)))
    return AutoARIMA(values, (max_p, max_d, max_q))


saved = []          # Where the stand-ins are: (holder, name, real one, stand-in)


def replacements():
    import pmdarima
    import prophet
    import prophet.serialize
    import statsmodels.api
    import statsmodels.tsa.api
    import statsmodels.tsa.arima.model as model
    to_json = lambda model: json.dumps({'state': model.state})
    from_json = lambda text: Prophet(json.loads(text)['state'])
    return [(prophet.Prophet, Prophet), (prophet.serialize.model_to_json, to_json), (prophet.serialize.model_from_json, from_json), (model.ARIMA, ARIMA), (pmdarima.auto_arima, auto_arima)]


def install():
    """In place of the real ones, wherever they are used from."""
    if not saved:
        pairs = replacements()
        for name, module in list(sys.modules.items()):
            if name.split('.')[0] in ('prophet', 'statsmodels', 'pmdarima', 'timeseria') and isinstance(module, types.ModuleType):
                for attribute, value in list(vars(module).items()):
                    for real, stand_in in pairs:
                        if value is real:
                            saved.append((module, attribute, real, stand_in))
    for module, attribute, _, stand_in in saved:
        setattr(module, attribute, stand_in)


def uninstall():
    """Back to the real ones."""
    for module, attribute, real, _ in saved:
        setattr(module, attribute, real)
