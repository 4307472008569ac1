"""P12: what a model answers depends only on its last completed fit, and a model which is not fitted answers nothing."""

from ..core import Scenario, call, expect
from ..store import *
from ..zoo import *

BAD = ['empty', 'type', 'short', 'lost', 'kwarg', 'variable', 'one']


class P12(Scenario):
    prop = 'P12'
    quick_runs = 2700
    thorough_runs = 50000
    rule = 'a run is non-trivial if a fit or a cross validation failed or was interrupted, or if the model was fitted more than once; runs are distinct by the digest of their history'
    measure = 'distinct (model, previous state, operation, kind of failure, where it was interrupted, state) tuples'
    real = ['timeseria.models', 'timeseria.datastructures', 'timeseria.utilities', 'fitter, scipy']
    stubbed = ['interruptions and failed allocations (raised at any line of the package)', 'failures of a user-defined model', 'the scratch folder for saved models']
    assumptions = ['a fit which failed leaves either the previous fit or an unfitted model']
    shrinkable = ['ops']

    def generate(self, rng, i):
        base = season(rng, n=rng.randint(14, 30), period=rng.choice((3, 4)), loss=rng.choice((None, 0, 0.1)))
        labels = sorted(base['items'][0]['d'])
        model = rnd_model(rng, labels=len(labels), period=base['period'], families=('paf', 'par', 'paad', 'parad', 'uf', 'ur', 'uf', 'ur', 'paf', 'lir'))
        kind = 'x' if base.get('unit') else ''
        start = base['items'][0]['t']
        series = [base]
        series.append(season(rng, n=rng.randint(14, 30), period=base['period'], labels=labels, unit=kind, step=base['step'], tz=rng.choice((base['tz'], base['tz'], 'Asia/Kolkata')), start=start + base['step'] * rng.randint(0, 50)))
        other = rng.choice(('labels', 'step', 'kind'))
        series.append(season(rng, n=rng.randint(14, 24), period=base['period'], labels=labels if other != 'labels' else (['z'] if len(labels) == 1 else labels[:1] + ['zz']), unit=kind if other != 'kind' else ('' if kind else 'x'),
                             step=base['step'] if other != 'step' else {600: 900, 900: 600, 3600: 600, 60: 600, 1: 10, 10: 1}[base['step']], tz=base['tz'], start=start))
        for spec in series:
            observed_edges(spec)
        ops = []
        for _ in range(rng.randint(2, 7)):
            op = rng.choice(('fit', 'fit', 'fit', 'bad', 'ask', 'ask', 'cross', 'save', 'probe', 'preprocess' if model['family'] in DETECTORS else 'ask'))
            item = {'op': op, 's': rng.choice((0, 0, 1, 1, 2)), 'a': rng.randint(0, 2)}
            if op == 'fit':
                item['fit'] = rnd_fit(rng, {'family': model['family']}, base['period'])['fit']
            if op in ('bad', 'cross'):
                item['fit'] = model.get('fit', {})
            if op == 'bad':
                item['bad'] = rng.choice(BAD)
            if op == 'cross':
                item['rounds'] = rng.choice((2, 3, 4))
            if op in ('fit', 'cross', 'ask'):
                if rng.random() < (0.35 if op != 'ask' else 0.15):
                    item['interrupt'] = round(rng.random(), 4)
                    item['memory'] = rng.random() < 0.5
                elif rng.random() < 0.25 and model['family'] in ('uf', 'ur'):
                    item['fail_at'] = rng.choice((0, 0, 1, 3, 10))
            ops.append(item)
        return {'model': model, 'series': series, 'ops': ops}

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    def simplify(self, trace):
        for i, op in enumerate(trace['ops']):
            for key in ('interrupt', 'fail_at'):
                if key in op:
                    yield dict(trace, ops=trace['ops'][:i] + [{k: v for k, v in op.items() if k != key}] + trace['ops'][i+1:])

    def bad_series(self, trace, op):
        spec = trace['series'][op['s']]
        kind = op['bad']
        if kind == 'empty':
            return TimeSeries(), {}
        if kind == 'type':
            return [1.0, 2.0, 3.0], {}
        if kind == 'short':
            return build(dict(spec, items=spec['items'][:2])), {}
        if kind == 'one':
            return build(dict(spec, items=spec['items'][:1])), {}
        if kind == 'lost':
            return build(dict(spec, items=[dict(item, x={'data_loss': 1}) for item in spec['items']])), {}
        if kind == 'variable':
            if spec.get('unit'):
                return TimeSeries(), {}
            return build(dict(spec, items=spec['items'][:5] + spec['items'][6:])), {}
        return build(spec), {'not_an_argument': 1}

    def reference(self, trace, how, op):
        """What a new model does with the same fit: ('ok', model) or ('exc', error)."""
        key = repr((how, op['s'], op.get('fit'), op.get('bad')))
        if key not in self.references:
            reset_counters()
            instance = make(trace['model'])
            if how == 'bad':
                series, kwargs = self.bad_series(trace, op)
                result = call(instance.fit, series, **dict(op['fit'], **kwargs))
            else:
                result = call(instance.fit, build(trace['series'][op['s']]), **op['fit'])
            self.references[key] = (result[0], instance if result[0] == 'ok' else result[1])
        return self.references[key]

    def answers_of(self, trace, state, which):
        """What a model fitted from scratch answers."""
        key = repr((state['how'], state['op']['s'], state['op'].get('fit'), state['op'].get('bad'), which))
        if key not in self.known:
            reset_counters()
            instance = self.reference(trace, state['how'], state['op'])[1]
            self.known[key] = answers(instance, trace['model']['family'], build(trace['series'][which]), steps=(1, 2))
        return self.known[key]

    def execute(self, trace, ctx):
        fs = self.fs = SimFS()
        family = trace['model']['family']
        self.references, self.known = {}, {}
        self.preprocessed = None
        instance = make(trace['model'])
        parametric = family != 'lir'
        model_id = instance.data['id']
        state = None          # What the model was last fitted on: {'how':, 'op':}
        fits = failures = 0
        if not parametric:
            state = {'how': 'none', 'op': {'s': 0}}
            self.references[repr(('none', 0, None, None))] = ('ok', make(trace['model']))

        def verify(number, op, possible):
            """The model behaves as one of the possible states."""
            nonlocal state
            which = op.get('a', 0)
            reset_counters()
            probes = None
            if any(p is None for p in possible):
                probes = probe_unfitted(instance, family, build(trace['series'][which]), os.path.join(fs.root, 'probe'))
                if all(answer[0] == 'exc' for _, answer in probes):
                    expect(not instance.fitted, 'refuses-but-fitted', lambda: 'op #{} {}'.format(number, op))
                    expect(not os.path.exists(os.path.join(fs.root, 'probe')), 'unfitted-saved', number)
                    if not any(p is not None for p in possible) or not instance.fitted:
                        state = None
                        return
                fs.wipe()
            reset_counters()
            got = answers(instance, family, build(trace['series'][which]), steps=(1, 2))
            diffs = []
            for p in possible:
                if p is None:
                    continue
                want = self.answers_of(trace, p, which)
                diff = first_difference(want, got)
                if diff is None:
                    state = p
                    return
                diffs.append(diff)
            if not diffs:
                raise_ = [what for what, answer in probes if answer[0] != 'exc']
                expect(False, 'unfitted-answers:{}'.format(op['op']), lambda: 'op #{} {}: {} answered'.format(number, op, raise_))
            expect(False, 'not-as-fitted:{}'.format(op['op']), lambda: 'op #{} {} on #{}: {} (fresh model vs actual)'.format(number, op, which, diffs[0]))

        for number, op in enumerate(trace['ops']):
            name = op['op']
            ctx.step()
            if not parametric and name in ('fit', 'bad', 'cross', 'save'):
                continue
            before = state
            where = None
            outcome_ = None
            if name in ('fit', 'bad'):
                reference = self.reference(trace, name, op)
                reset_counters(op.get('fail_at'))
                new = {'how': name, 'op': op}
                if name == 'bad':
                    series, kwargs = self.bad_series(trace, op)
                else:
                    series, kwargs = build(trace['series'][op['s']]), {}
                kwargs = dict(op['fit'], **kwargs)
                if 'interrupt' in op:
                    lines, _ = sched.count_lines(lambda: call(make(trace['model']).fit, series, **kwargs))
                    where, result = sched.interrupted(lambda: instance.fit(series, **kwargs), int(op['interrupt'] * lines), MemoryError if op['memory'] else KeyboardInterrupt)
                    if where:
                        ctx.fault('failed_allocation' if op['memory'] else 'interrupt')
                        failures += 1
                else:
                    result = call(instance.fit, series, **kwargs)
                outcome_ = result[0]
                failed_by_user = 'fail_at' in op and result[0] == 'exc' and isinstance(result[1], OSError)
                if failed_by_user:
                    ctx.fault('user_failure')
                if result[0] == 'exc':
                    failures += 1
                    if not where and not failed_by_user:
                        expect(reference[0] == 'exc', 'fit-refused', lambda: 'op #{} {}: {!r}'.format(number, op, result[1]))
                        if name == 'bad':
                            ctx.fault('bad_fit_{}'.format(op['bad']))
                    # Either as before, or not fitted (or completed, if interrupted at the very end)
                    verify(number, op, [None, before] + ([new] if where and reference[0] == 'ok' else []))
                else:
                    fits += 1
                    if where is None:
                        expect(reference[0] == 'ok', 'fit-accepted', lambda: 'op #{} {}: a new model raises {!r}'.format(number, op, reference[1]))
                    if reference[0] == 'ok':
                        verify(number, op, [new])
                    else:
                        verify(number, op, [None])
            elif name == 'cross':
                spec = trace['series'][op['s']]
                kwargs = dict({'fit_' + k: v for k, v in op['fit'].items()}, rounds=op['rounds'])
                if family not in FORECASTERS and family not in RECONSTRUCTORS:
                    continue
                if family in RECONSTRUCTORS:
                    kwargs.update(evaluate_steps=2, evaluate_limit=5)
                reset_counters()
                want = outcome(make(trace['model']).cross_validate, build(spec), **kwargs) if before is None else None
                series = build(spec)
                if 'interrupt' in op:
                    reset_counters()
                    lines, _ = sched.count_lines(lambda: call(make(trace['model']).cross_validate, series, **kwargs))
                    reset_counters()
                    where, result = sched.interrupted(lambda: instance.cross_validate(series, **kwargs), int(op['interrupt'] * lines), MemoryError if op['memory'] else KeyboardInterrupt)
                    if where:
                        ctx.fault('failed_allocation' if op['memory'] else 'interrupt')
                        failures += 1
                else:
                    reset_counters(op.get('fail_at'))
                    result = call(instance.cross_validate, series, **kwargs)
                failed_by_user = 'fail_at' in op and result[0] == 'exc' and isinstance(result[1], OSError)
                if failed_by_user:
                    ctx.fault('user_failure')
                if before is not None:
                    expect(result[0] == 'exc', 'cross-validated-fitted', lambda: 'op #{}'.format(number))
                    verify(number, op, [before])
                else:
                    if not where and not failed_by_user:
                        got = outcome(lambda: result[1]) if result[0] == 'ok' else ['exc', result[1].__class__.__name__]
                        diff = first_difference(want, got)
                        expect(diff is None, 'cross-validation-depends-on-history', lambda: 'op #{} {}: {}'.format(number, op, diff))
                    failures += result[0] == 'exc'
                    verify(number, op, [None])
                outcome_ = result[0]
            elif name == 'save':
                path = os.path.join(fs.root, 'model')
                result = call(instance.save, path)
                expect((result[0] == 'ok') == (state is not None), 'wrong-save', lambda: 'op #{}: {!r} with a model {}'.format(number, result, 'fitted' if state else 'not fitted'))
                if result[0] == 'ok':
                    instance = must('load', FAMILIES[family].load, path)
                    if 'window' in trace['model'].get('init', {}):
                        # How the model was created is not saved, and matters only for the next fits
                        trace_model = {k: v for k, v in trace['model'].items() if k != 'init'}
                        trace = dict(trace, model=trace_model)
                        self.references = {k: v for k, v in self.references.items() if self.reference_key(state) == k}
                fs.wipe()
                verify(number, op, [state])
                outcome_ = result[0]
            elif name == 'preprocess':
                if state is None:
                    continue
                series = build(trace['series'][op['s']])
                result = call(instance.preprocess, series)
                if result[0] == 'ok':
                    plain = outcome(instance.apply, build(trace['series'][op['s']]))
                    got = outcome(instance.apply, result[1])
                    diff = first_difference(plain, got)
                    expect(diff is None, 'preprocessed-differs', lambda: 'op #{}: {}'.format(number, diff))
                    self.preprocessed = (op['s'], result[1])
                outcome_ = result[0]
            elif name == 'ask':
                series = build(trace['series'][op['a']])
                reset_counters(op.get('fail_at'))
                if 'interrupt' in op:
                    lines, _ = sched.count_lines(lambda: answers(instance, family, series, evaluate=False))
                    where, result = sched.interrupted(lambda: answers(instance, family, series, evaluate=False), int(op['interrupt'] * lines), MemoryError if op['memory'] else KeyboardInterrupt)
                    if where:
                        ctx.fault('failed_allocation' if op['memory'] else 'interrupt')
                else:
                    call(answers, instance, family, series, evaluate=False)
                verify(number, op, [state])
            elif name == 'probe':
                verify(number, op, [state])
            # Preprocessed series are never used if the model was fitted again afterwards
            if state is not None and getattr(self, 'preprocessed', None) is not None:
                which, series = self.preprocessed
                plain = outcome(instance.apply, build(trace['series'][which]))
                got = outcome(instance.apply, series)
                diff = first_difference(plain, got)
                expect(diff is None, 'stale-preprocessed', lambda: 'op #{} {}: {}'.format(number, op, diff))
            if parametric:
                expect(instance.id == model_id, 'wrong-id')
                expect(bool(instance.fitted) == (state is not None), 'wrong-fitted', lambda: 'op #{} {}: {}'.format(number, op, instance.fitted))
            ctx.log(number, name, outcome_, where, state is not None)
            ctx.state(family, before is not None, name, op.get('bad'), where, state is not None)
            ctx.probe('{}:{}'.format(name, 'fitted' if state is not None else 'unfitted'))
        ctx.nontrivial = failures > 0 or fits > 1

    def reference_key(self, state):
        return repr((state['how'], state['op']['s'], state['op'].get('fit'), state['op'].get('bad')))


SCENARIO = P12()
