"""P11: saving a model is all or nothing, at any crash point and with any disk error, and loading never gives a different one."""

import pickle
import random
import warnings

from ..core import Scenario, call, expect
from ..store import *
from ..zoo import *

ERRORS = ['eio_write', 'enospc', 'enospc_partial', 'eio_close', 'eacces_open', 'emfile_open', 'edquot', 'eio_mkdir']
READ_ERRORS = ['eio_read', 'eacces_open', 'emfile_open']


class P11(Scenario):
    prop = 'P11'
    quick_runs = 2100
    thorough_runs = 40000
    rule = 'a run is non-trivial if a fault fired before the model was completely saved or loaded, or if the path was already in use; runs are distinct by the digest of the operations on the file system'
    measure = 'distinct (model, what was there, fault, operation at which it fired, outcome) tuples'
    real = ['timeseria.models', 'timeseria.datastructures', 'io (buffering and text layers)', 'os and shutil (on a scratch folder)', 'fitter, scipy, prophet, statsmodels']
    stubbed = ['raw files and directory operations (errors, short writes, crash points, states after a power loss)']
    assumptions = ['changes to names become durable in order', 'a crash is not required to leave the path free']
    shrinkable = ['faults']

    def generate(self, rng, i):
        mode = rng.choice(('error', 'error', 'error', 'crash', 'crash', 'power', 'power', 'interrupt', 'interrupt', 'read', 'read', 'busy'))
        fit_on = season(rng, loss=rng.choice((None, 0, 0.1)), n=rng.choice((None, 20)))
        labels = sorted(fit_on['items'][0]['d'])
        trace = {'mode': mode, 'model': rnd_model(rng, labels=len(labels), period=fit_on['period']), 'fit_on': fit_on, 'faults': [],
                 'busy': rng.choice(('model', 'model', 'file', 'folder', 'folder-with-files')), 'nested': rng.random() < 0.2, 'attempts': rng.randint(1, 2),
                 'short': rng.choice((None, None, rng.randint(0, 10**6))), 'power': rng.randint(0, 10**6), 'after': rng.random() < 0.3}
        if i % 40 == 7:
            trace['model'] = {'family': 'prophet', 'fit': {}}
            trace['fit_on'] = season(rng, n=30, labels=['v'], loss=0)
        elif i % 40 == 27:
            trace['model'] = {'family': 'arima', 'fit': {}}
            trace['fit_on'] = season(rng, n=30, labels=['v'], loss=0)
        for _ in range(rng.choice((1, 1, 1, 2))):
            at = round(rng.random(), 4)
            if mode in ('error', 'read'):
                trace['faults'].append({'kind': rng.choice(ERRORS if mode == 'error' else READ_ERRORS), 'at': at, 'part': round(rng.random(), 2), 'times': rng.choice((1, 1, 2, 1000))})
            elif mode in ('crash', 'power'):
                trace['faults'].append({'kind': rng.choice(('crash', 'crash', 'crash_torn')), 'at': at, 'part': round(rng.random(), 3)})
                break
            elif mode == 'interrupt':
                trace['faults'].append({'kind': rng.choice(('interrupt', 'memory')), 'at': at})
                break
        if mode == 'power' and trace['after']:
            trace['faults'] = []            # Lost only once saving is over
        return trace

    def simplify(self, trace):
        items = trace['fit_on']['items']
        if len(items) > 3 * trace['fit_on']['period']:
            yield dict(trace, fit_on=dict(trace['fit_on'], items=items[:-len(items) // 3]))
        for key, simple in (('short', None), ('attempts', 1), ('nested', False), ('after', False)):
            if trace[key] != simple:
                yield dict(trace, **{key: simple})

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    def tree(self, path):
        if os.path.isdir(path):
            return {name: self.tree(os.path.join(path, name)) for name in sorted(os.listdir(path))}
        if os.path.exists(path):
            with open(path, 'rb') as f:
                return f.read()
        return None

    def prepare_model(self, trace):
        """Models are deterministic, so they are fitted once per trace."""
        if trace['model']['family'] == 'prophet':
            from timeseria.models.forecasters import ProphetForecaster
            logging.getLogger('cmdstanpy').disabled = True
            cls = ProphetForecaster
            instance = cls()
            self.ask = lambda m, series: outcome(m.predict, series, steps=2)
        elif trace['model']['family'] == 'arima':
            from timeseria.models.forecasters import ARIMAForecaster
            cls = ARIMAForecaster
            instance = cls(p=1, d=0, q=1)
            self.ask = lambda m, series: outcome(m.predict, series, steps=2)
        else:
            cls = FAMILIES[trace['model']['family']]
            instance = make(trace['model'])
            self.ask = lambda m, series: answers(m, trace['model']['family'], series, evaluate=False)
        series = build(trace['fit_on'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            kind, error = call(fit, instance, trace['model'], series)
        if kind == 'exc':
            return None
        return cls, instance, series

    def judge(self, cls, instance, path, series, want, tag, must=False):
        """What is there is either unusable, and says so, or is the model."""
        result = call(cls.load, path)
        if result[0] == 'exc':
            expect(not must, 'saved-but-not-loadable:{}'.format(tag), lambda: repr(result[1]))
            expect(isinstance(result[1], (OSError, ValueError, KeyError, EOFError, pickle.UnpicklingError)), 'wrong-error:{}'.format(tag), lambda: repr(result[1]))
            return 'unusable'
        diff = first_difference(want, self.ask(result[1], series))
        expect(diff is None, 'partial-model-loaded:{}'.format(tag), lambda: diff)
        return 'complete'

    def execute(self, trace, ctx):
        reset_counters()
        fs = self.fs = SimFS()
        prepared = self.prepare_model(trace)
        if prepared is None:
            ctx.probe('cannot-fit')
            return
        cls, instance, series = prepared
        family = trace['model']['family']
        mode = trace['mode']
        want = self.ask(instance, series)
        path = os.path.join(fs.root, 'models', 'mine') if trace['nested'] else os.path.join(fs.root, 'mine')
        fs.known_names = {"models", "mine"}
        # A first execution without faults
        fs.reset()
        with fs:
            must('save', instance.save, path)
        total = fs.count
        good = self.tree(path)
        self.judge(cls, instance, path, series, want, 'first', must=True)
        fs.ctx = ctx

        if mode == 'busy':
            return self.busy(trace, fs, instance, path, ctx)
        if mode == 'read':
            return self.read(trace, fs, cls, path, series, want, ctx)

        fs.wipe()
        lines = 0
        if mode == 'interrupt':
            lines, _ = sched.count_lines(lambda: instance.save(path))
            fs.wipe()
        status = None
        for attempt in range(trace['attempts']):
            first = attempt == 0
            fs.reset(trace['faults'] if first and mode != 'interrupt' else (), total, random.Random(trace['short']) if trace['short'] is not None else None)
            fs.mark()
            status, error = 'ok', None
            with fs:
                try:
                    if first and mode == 'interrupt' and trace['faults']:
                        fault = trace['faults'][0]
                        fired, result = sched.interrupted(lambda: instance.save(path), int(fault['at'] * lines), KeyboardInterrupt if fault['kind'] == 'interrupt' else MemoryError)
                        if fired:
                            ctx.fault(fault['kind'])
                            fs.fired.append((fault['kind'], fired))
                        if result[0] == 'exc':
                            status, error = 'error', result[1]
                    else:
                        instance.save(path)
                except SimCrash:
                    status = 'crash'
                except Exception as e:
                    status, error = 'error', e
            fired = list(fs.fired)
            where = ''
            if fired and mode != 'interrupt':
                where = [t for t in fs.trail if t[0] == fired[-1][1]]
                where = '{}:{}'.format(*where[0][1:3]) if where else ''
            if status == 'crash':
                fs.active = False
            if mode == 'power' and (status == 'crash' or (status == 'ok' and trace['after'] and first)):
                fs.power_loss(random.Random(trace['power']))
                status = 'crash'
            if status == 'ok':
                expect(not fired or mode in ('interrupt', 'power') or self.tree(path) == good, 'incomplete-but-ok:{}'.format(mode))
                what = self.judge(cls, instance, path, series, want, mode, must=True)
            elif status == 'error':
                expect(fired, 'failed-without-faults', lambda: repr(error))
                if mode == 'interrupt':
                    expect(isinstance(error, (KeyboardInterrupt, MemoryError)), 'interrupt-replaced', lambda: repr(error))
                elif not any(kind in ('eacces_open', 'emfile_open') for kind, _ in fired[1:]):
                    # (if nothing can be opened anymore, not even cleaning up is possible)
                    expect(not os.path.lexists(path), 'left-behind:{}'.format(mode), lambda: '{} after {!r}'.format(self.tree(path), error))
                what = self.judge(cls, instance, path, series, want, mode)
            else:
                what = self.judge(cls, instance, path, series, want, mode)
            if fired or status == 'crash':
                ctx.nontrivial = True
                ctx.probe('{}:{}:{}'.format(mode, status, what))
            ctx.log(attempt, status, what, fired, type(error).__name__)
            ctx.state(family, fired[-1][0] if fired else None, where, status, what)
            # The model itself is not affected
            diff = first_difference(want, self.ask(instance, series))
            expect(diff is None, 'model-changed:{}'.format(mode), lambda: diff)
            expect(instance.fitted, 'model-not-fitted-anymore')
            if status == 'ok':
                break
            if status == 'crash' or os.path.lexists(path):
                # By hand
                fs.wipe()
        if status != 'ok':
            # Once the faults stop, saving works again
            fs.reset()
            with fs:
                must('save-after-recovery', instance.save, path)
            self.judge(cls, instance, path, series, want, 'recovery', must=True)

    def busy(self, trace, fs, instance, path, ctx):
        """What is already there is left alone."""
        kind = trace['busy']
        if kind != 'model':
            fs.wipe()
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if kind == 'file':
                with open(path, 'w') as f:
                    f.write('something important\n')
            else:
                os.makedirs(path)
                if kind == 'folder-with-files':
                    with open(os.path.join(path, 'notes.txt'), 'w') as f:
                        f.write('something important\n')
        before = self.tree(path)
        fs.reset()
        with fs:
            result = call(instance.save, path)
        expect(result[0] == 'exc', 'overwritten', kind)
        expect(self.tree(path) == before, 'changed-what-was-there', lambda: '{}: {}'.format(kind, self.tree(path)))
        ctx.fault('path_in_use')
        ctx.nontrivial = True
        ctx.log('busy', kind, type(result[1]).__name__)
        ctx.state('busy', kind)

    def read(self, trace, fs, cls, path, series, want, ctx):
        """Errors while loading are always reported."""
        fs.reset()
        before = self.tree(path)
        with fs:
            must('load', cls.load, path)
        total = fs.count
        fs.reset(trace['faults'], total, random.Random(trace['short']) if trace['short'] is not None else None)
        with fs:
            result = call(cls.load, path)
        fired = list(fs.fired)
        if result[0] == 'ok':
            expect(not fired, 'read-error-ignored', lambda: fired)
            diff = first_difference(want, self.ask(result[1], series))
            expect(diff is None, 'loaded-wrong', lambda: diff)
        else:
            expect(fired, 'load-failed-without-faults', lambda: repr(result[1]))
        expect(self.tree(path) == before, 'loading-changed-files')
        fs.reset()
        with fs:
            loaded = must('load-after-recovery', cls.load, path)
        diff = first_difference(want, self.ask(loaded, series))
        expect(diff is None, 'loaded-wrong:recovery', lambda: diff)
        ctx.nontrivial = bool(fired)
        ctx.log('read', fired, result[0])
        ctx.state('read', trace['model']['family'], fired[0][0] if fired else None, result[0])
        ctx.probe('read:{}'.format(result[0]))


SCENARIO = P11()
