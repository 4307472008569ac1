"""P10: a model which was saved and loaded back answers as the original one, in any environment."""

import random
import warnings

import numpy

from ..core import Scenario, call, expect
from ..store import *
from ..zoo import *


class P10(Scenario):
    prop = 'P10'
    quick_runs = 3000
    thorough_runs = 50000
    rule = 'a run is non-trivial if the environment of the reader or of the writer was not the default one, if reads or writes were short, or if there was more than one generation; runs are distinct by the digest of the operations on the file system and of the answers'
    measure = 'distinct (model, parameters, labels, kind of series, generations, environments) tuples'
    real = ['timeseria.models', 'timeseria.datastructures', 'io (buffering and text layers)', 'os (on a scratch folder)', 'fitter, scipy']
    stubbed = ['raw files (short reads and writes)', 'locale, time zone and clock of the process']
    assumptions = ['Prophet and ARIMA models in directed runs only (P25 has them in all the others), networks are the ones of the stand-in for Keras']
    shrinkable = []

    def generate(self, rng, i):
        fit_on = season(rng, loss=rng.choice((None, 0, 0.1)))
        labels = sorted(fit_on['items'][0]['d'])
        model = rnd_model(rng, labels=len(labels), period=fit_on['period'])
        apply_on = season(rng, labels=labels, period=fit_on['period'], unit='x' if fit_on.get('unit') else '', step=fit_on['step'], start=fit_on['items'][0]['t'] + fit_on['step'] * rng.randint(-100, 100), tz=fit_on['tz'] if rng.random() < 0.7 else None)
        observed_edges(apply_on)
        return {'model': model, 'fit_on': fit_on, 'apply_on': apply_on, 'generations': rng.choice((1, 1, 2, 3)), 'short': rng.choice((None, rng.randint(0, 10**6))),
                'write_env': self.env(rng), 'read_env': self.env(rng), 'before': rng.random() < 0.5, 'after': rng.random() < 0.3, 'dtype': rng.choice((None, None, None, 'float32', 'float64', 'int64')) if not model['family'].startswith('lstm') else None}

    def env(self, rng):
        return {'encoding': rng.choice((None, None, 'ascii', 'cp1252', 'utf-8')), 'tz': rng.choice((None, 'America/New_York', 'Asia/Kolkata')), 'clock': rng.choice((None, 0, 1446073200, 4102444800.5))}

    def simplify(self, trace):
        if trace['generations'] > 1:
            yield dict(trace, generations=1)
        if trace['short'] is not None:
            yield dict(trace, short=None)
        if trace['dtype']:
            yield dict(trace, dtype=None)
        for key in ('write_env', 'read_env'):
            for name in trace[key]:
                if trace[key][name] is not None:
                    yield dict(trace, **{key: dict(trace[key], **{name: None})})
        for key in ('fit_on', 'apply_on'):
            items = trace[key]['items']
            if len(items) > 3 * trace['fit_on']['period']:
                yield dict(trace, **{key: dict(trace[key], items=items[:-len(items) // 3])})

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    def directed(self):
        return [{'name': 'generic-detector', 'finding': 'generic-detector'}, {'name': 'prophet-forecaster', 'finding': 'prophet-forecaster'}, {'name': 'prophet-reconstructor', 'finding': 'prophet-reconstructor'},
                {'name': 'arima', 'finding': 'arima'}, {'name': 'aarima', 'finding': 'aarima'}]

    def finding(self, trace, ctx):
        """Models for which this is known not to hold."""
        import math
        fs = self.fs = SimFS()
        path = os.path.join(fs.root, 'model')
        series = TimeSeries(*[DataTimePoint(t=3600 * i, data={'v': 10 + math.sin(i * math.pi / 3) + (i % 7) / 50}) for i in range(48)])
        name = trace['finding']
        if name == 'generic-detector':
            from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector
            model = ModelBasedAnomalyDetector(model_class=PeriodicAverageForecaster)
            model.fit(series, periodicity=6, error_distribution='norm')
            want = outcome(model.apply, series)
            ask = lambda m: outcome(m.apply, series)
        else:
            logging.getLogger('cmdstanpy').disabled = True
            if name == 'prophet-forecaster':
                from timeseria.models.forecasters import ProphetForecaster
                model = ProphetForecaster()
                ask = lambda m: outcome(m.predict, series)
            elif name in ('arima', 'aarima'):
                from timeseria.models.forecasters import AARIMAForecaster, ARIMAForecaster
                model = ARIMAForecaster(p=2, d=0, q=1) if name == 'arima' else AARIMAForecaster()
                ask = lambda m: outcome(m.predict, series, steps=3)
            else:
                from timeseria.models.reconstructors import ProphetReconstructor
                model = ProphetReconstructor()
                ask = lambda m: outcome(m.predict, series, 3, 4)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                must('fit:{}'.format(name), model.fit, series)
            want = ask(model)
            expect(want[0] != 'exc', 'fit:{}'.format(name), lambda: str(want))
        model.save(path)
        loaded = must('load:{}'.format(name), model.__class__.load, path)
        diff = first_difference(want, ask(loaded))
        expect(diff is None, 'not-as-saved:{}'.format(name), lambda: diff)

    def execute(self, trace, ctx):
        if 'finding' in trace:
            return self.finding(trace, ctx)
        reset_counters()
        fs = self.fs = SimFS(ctx)
        fs.known_names = {'model-{}'.format(i) for i in range(5)}
        model = trace['model']
        family = model['family']
        fit_on, apply_on = build(trace['fit_on']), build(trace['apply_on'])
        dtype = trace['dtype'] and getattr(numpy, trace['dtype'])
        if dtype:
            # As the values of data frames
            for item in fit_on:
                for label in item.data:
                    item.data[label] = dtype(item.data[label])
        # The sums of numpy values are not as precise as the ones of the values which are saved and loaded
        tol = 1e-5 if dtype else 0
        instance = make(model)
        kind, error = call(fit, instance, model, fit_on)
        if kind == 'exc':
            ctx.probe('cannot-fit:{}'.format(type(error).__name__))
            return
        before = answers(instance, family, apply_on) if trace['before'] else None
        model_id = instance.id
        fs.reset(short=random.Random(trace['short']) if trace['short'] is not None else None)
        for generation in range(trace['generations']):
            path = os.path.join(fs.root, 'model-{}'.format(generation))
            with fs:
                with environment(fs, ctx=ctx, **trace['write_env']):
                    must('save', instance.save, path)
                if generation == 0:
                    original = instance
                with environment(fs, ctx=ctx, **trace['read_env']):
                    instance = must('load', FAMILIES[family].load, path)
            expect(type(instance) is FAMILIES[family], 'wrong-class')
            expect(instance.id == model_id, 'wrong-id')
            expect(getattr(instance, 'window', None) == getattr(original, 'window', None), 'wrong-window')
        want = answers(original, family, apply_on)
        if before is not None:
            diff = first_difference(before, want)
            expect(diff is None, 'saving-changed-model', lambda: diff)
        got = answers(instance, family, apply_on)
        diff = first_difference(want, got, tol=tol)
        expect(diff is None, 'not-as-saved:{}'.format(family), lambda: diff)
        # The contract is saved as well
        for what, series in self.mismatches(trace, apply_on):
            a, b = answers(original, family, series, evaluate=False), answers(instance, family, series, evaluate=False)
            for key in a:
                expect(b[key][0] == 'exc', 'not-enforced:{}:{}'.format(what, key), lambda: str(b[key])[:300])
            diff = first_difference(a, b, tol=tol)
            expect(diff is None, 'mismatch-not-as-saved:{}'.format(what), lambda: diff)
        if trace['after']:
            # Using the loaded model does not change the original one, and the other way round
            fit_again = build(trace['apply_on'])
            call(fit, instance, model, fit_again)
            again = answers(original, family, apply_on)
            diff = first_difference(want, again)
            expect(diff is None, 'models-not-independent', lambda: diff)
        for env in ('write_env', 'read_env'):
            for name in trace[env]:
                if trace[env][name] is not None:
                    ctx.fault('{}_{}'.format(env[:-4], name))
                    ctx.nontrivial = True
        if trace['short'] is not None or trace['generations'] > 1:
            ctx.nontrivial = True
        kinds = sorted({str(v[0]) if isinstance(v[0], str) else 'items' for v in want.values()})
        ctx.probe('{}:{}'.format(family, ','.join(kinds)))
        ctx.log('answers', value({k: v for k, v in want.items() if k == 'evaluate'}))
        ctx.state(family, sorted(model['fit'].items(), key=str), len(trace['fit_on']['items'][0]['d']), trace['fit_on'].get('unit'), trace['generations'], trace['write_env']['encoding'], trace['read_env']['encoding'])
        ctx.sim_time(fit_on[-1].t - fit_on[0].t)

    def mismatches(self, trace, series):
        spec = trace['apply_on']
        start = spec['items'][0]['t']
        out = []
        for what in ('resolution', 'labels', 'missing-label'):
            items = []
            for k, item in enumerate(spec['items']):
                item = {'t': item['t'], 'd': dict(item['d'])}
                if what == 'resolution':
                    item['t'] = start + 2 * k * spec['step']
                elif what == 'labels':
                    label = sorted(item['d'])[0]
                    item['d']['other'] = item['d'].pop(label)
                else:
                    item['d']['zzz'] = 1.0
                items.append(item)
            other = {'tz': spec['tz'], 'items': items}
            if spec.get('unit'):
                other['unit'] = '{}s'.format(spec['step'] * (2 if what == 'resolution' else 1)) if what == 'resolution' else spec['unit']
            out.append((what, build(other)))
        return out


SCENARIO = P10()
