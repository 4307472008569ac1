"""A stand-in for Keras (which cannot be imported here): networks which learn a regularised linear regression, exactly and deterministically.

What such a network predicts depends on every value of every sample it was trained with (but not on their order), on how many times,
on what for, and on every value of the input: so it tells whether the forecasters built on it are given what they should.
Training a network again continues from what it learnt, as the real ones. Predictions and training can be made to fail."""

import json
import os
import sys
import types

import numpy

LOSSES = {'mean_squared_error': 0.0, 'mean_absolute_error': 0.001, 'mean_absolute_percentage_error': 0.002, 'mean_squared_logarithmic_error': 0.003, None: 0.0}


class Failures():
    """Fails at a given call."""
    def __init__(self):
        self.calls = 0
        self.fail_at = None
        self.error = OSError

    def __call__(self):
        n = self.calls
        self.calls += 1
        if self.fail_at is not None and n == self.fail_at:
            raise self.error('simulated failure')


failures = Failures()
last = {}        # The networks last trained and loaded


def reset_failures(fail_at=None, error=OSError):
    failures.calls, failures.fail_at, failures.error = 0, fail_at, error


class LSTM():
    def __init__(self, units, input_shape=None, **kwargs):
        self.units, self.input_shape = units, input_shape


class Dense():
    def __init__(self, units, **kwargs):
        self.units = units


class Regression():
    """What is learnt from samples: accumulated, so that it can be continued."""

    def __init__(self, state=None):
        self.state = state      # None or [gram matrix, moments, what for]
        self.solved = None

    def train(self, X, Y, ridge):
        X = numpy.array(X, dtype=float)
        X = numpy.hstack([numpy.ones((len(X), 1)), X.reshape(len(X), -1)])
        Y = numpy.array(Y, dtype=float).reshape(len(X), -1)
        # Element by element, as what matrix products and solvers answer depends (in the last digits) on where things are in memory
        gram, moments = numpy.zeros((X.shape[1], X.shape[1])), numpy.zeros((X.shape[1], Y.shape[1]))
        for x, y in zip(X, Y):
            gram += numpy.multiply.outer(x, x)
            moments += numpy.multiply.outer(x, y)
        if self.state is not None:
            if self.state[0].shape != gram.shape or self.state[1].shape != moments.shape:
                raise ValueError('Input or output is incompatible with the network')
            gram, moments = gram + self.state[0], moments + self.state[1]
        return Regression([gram, moments, ridge])

    def weights(self):
        """Towards the initial weights, which are what is left where nothing is learnt."""
        if self.solved is None:
            gram, moments, ridge = self.state
            n, weight = len(gram), 0.05 + ridge
            initial = numpy.array([[0.3 + 0.1 * ((7 * i + 3 * j) % 5) for j in range(moments.shape[1])] for i in range(n)])
            A, b = gram + weight * numpy.eye(n), moments + weight * initial
            for i in range(n):
                factors = A[i + 1:, i:i + 1] / A[i, i]
                A[i + 1:] -= factors * A[i]
                b[i + 1:] -= factors * b[i]
            for i in reversed(range(n)):
                b[i] /= A[i, i]
                b[:i] -= A[:i, i:i + 1] * b[i]
            self.solved = b
        return self.solved

    def predict(self, X):
        weights = self.weights()
        X = numpy.array(X, dtype=float).reshape(len(X), -1)
        if X.shape[1] != len(weights) - 1:
            raise ValueError('Input is incompatible with the network')
        out = numpy.zeros((len(X), weights.shape[1])) + weights[0]
        for i in range(X.shape[1]):
            out += X[:, i:i + 1] * weights[i + 1]
        return out


def ridge(loss, epochs, neurons):
    return LOSSES[loss] + epochs * 0.0005 + neurons * 0.0001


class Sequential():
    """A network, external or built by the forecaster."""

    def __init__(self, layers=None):
        self.layers = list(layers or [])
        self.loss = None
        self.learnt = Regression()

    def add(self, layer):
        self.layers.append(layer)

    def compile(self, loss=None, optimizer=None, **kwargs):
        if loss not in LOSSES:
            raise ValueError('Unknown loss {}'.format(loss))
        self.loss = loss

    def _shapes(self, X, Y=None):
        for layer in self.layers:
            if isinstance(layer, LSTM) and layer.input_shape is not None and tuple(layer.input_shape) != X.shape[1:]:
                raise ValueError('Input shape {} is incompatible with the network ({})'.format(X.shape, layer.input_shape))
        if Y is not None and self.layers and isinstance(self.layers[-1], Dense) and self.layers[-1].units != Y.shape[1]:
            raise ValueError('Output shape {} is incompatible with the network'.format(Y.shape))

    def fit(self, X, Y, epochs=1, verbose=0, **kwargs):
        X, Y = numpy.array(X, dtype=float), numpy.array(Y, dtype=float)
        self._shapes(X, Y)
        neurons = sum(layer.units for layer in self.layers if isinstance(layer, LSTM))
        before = self.learnt
        last['trained'] = self
        if failures.fail_at is not None and len(X) > 1:
            # Trained with some of the samples only, when it fails
            self.learnt = before.train(X[:len(X) // 2], Y[:len(X) // 2], ridge(self.loss, epochs, neurons))
        failures()
        self.learnt = before.train(X, Y, ridge(self.loss, epochs, neurons))

    def predict(self, X, verbose=0, **kwargs):
        failures()
        X = numpy.array(X, dtype=float)
        self._shapes(X)
        return self.learnt.predict(X).astype(numpy.float32)

    def save(self, path, **kwargs):
        os.makedirs(path)
        content = json.dumps({'layers': [[layer.__class__.__name__, layer.units, getattr(layer, 'input_shape', None)] for layer in self.layers], 'loss': self.loss,
                              'learnt': None if self.learnt.state is None else [self.learnt.state[0].tolist(), self.learnt.state[1].tolist(), self.learnt.state[2]]})
        with open('{}/network.json'.format(path), 'w') as f:
            f.write(content)
            f.write('\nend\n')


def load_model(path, **kwargs):
    if not os.path.isdir(path):
        raise OSError('No network at {}'.format(path))
    with open('{}/network.json'.format(path)) as f:
        content = f.read()
    if not content.endswith('\nend\n'):
        raise OSError('Damaged network at {}'.format(path))
    content = json.loads(content[:-5])
    network = Sequential()
    for kind, units, shape in content['layers']:
        network.add(LSTM(units, input_shape=tuple(shape) if shape else None) if kind == 'LSTM' else Dense(units))
    network.loss = content['loss']
    if content['learnt'] is not None:
        network.learnt = Regression([numpy.array(content['learnt'][0]), numpy.array(content['learnt'][1]), content['learnt'][2]])
    last['loaded'] = network
    return network


def install():
    """In place of Keras, which the package imports only when needed."""
    keras, models, layers = types.ModuleType('keras'), types.ModuleType('keras.models'), types.ModuleType('keras.layers')
    models.Sequential, models.load_model = Sequential, load_model
    layers.LSTM, layers.Dense = LSTM, Dense
    keras.models, keras.layers, keras.Sequential = models, layers, Sequential
    sys.modules.update({'keras': keras, 'keras.models': models, 'keras.layers': layers})
