"""P16: whoever only asks things to series, models and storages gets the same answers however many others are asking at the same time."""

import os

from ..core import HarnessError, Scenario, call, expect
from ..lib import *
from ..simfs import SimFS
from ..zoo import *
from .p15 import QUERIES as VIEW_QUERIES
from timeseria.transformations import Resampler, Aggregator

# What the threads can ask to what they share. Arguments: what is shared, a number
QUERIES = {name: (lambda w, a, f=f: f(w['series'], a)) for name, f in VIEW_QUERIES.items()}
QUERIES.update({
    'view': lambda w, a: [item_snapshot(x) for x in w['view']],
    'view_nested': lambda w, a: [(x.t, y.t) for x in w['view'] for y in w['view']],
    'view_item': lambda w, a: [item_snapshot(w['view'][a % len(w['view'])]), item_snapshot(w['view'][-1])],
    'view_resample': lambda w, a: w['view'].resample(w['step'] * (a % 3 + 1)),
    'resampler': lambda w, a: w['resampler'].process(w['series']),
    'resampler_other': lambda w, a: w['resampler'].process(w['other']),
    'aggregator': lambda w, a: w['aggregator'].process(w['series']),
    'aggregator_other': lambda w, a: w['aggregator'].process(w['other']),
    'aggregate_user': lambda w, a: w['series'].aggregate(w['step'] * 3, operations=[operations.min, operations.avg, operations.sum, operations.max]),
    'merge_other': lambda w, a: w['series'].merge(w['other']) if len(w['series']) == len(w['other']) else None,
    'stored': lambda w, a: TimeSeries.load(w['path']),
    'storage': lambda w, a: w['storage'].get(),
    'storage_limit': lambda w, a: w['storage'].get(limit=a % 5 + 1),
    'save': lambda w, a: w['series'].save(w['path'], overwrite=True),
    'put': lambda w, a: w['storage'].put(w['series'], overwrite=True),
    'model_load': lambda w, a: answers(FAMILIES[w['family']].load(w['model_path']), w['family'], w['series'], evaluate=False, steps=(1,)),
    'model_save': lambda w, a: w['model'].save('{}.{}'.format(w['model_path'], w['next']())),
    'answers': lambda w, a: answers(w['model'], w['family'], w['series'], evaluate=False, steps=(a % 3 + 1,)),
    'answers_other': lambda w, a: answers(w['model'], w['family'], w['other'], evaluate=False, steps=(a % 3 + 1,)),
    'answers_view': lambda w, a: answers(w['model'], w['family'], w['view'], evaluate=False, steps=(a % 3 + 1,)),
    'evaluate': lambda w, a: answers(w['model'], w['family'], w['series'], evaluate=True, steps=(1,)),
    'own_model': lambda w, a: answers(fit(make(w['spec']), w['spec'], w['series']), w['family'], w['series'], evaluate=False, steps=(1,)),
    'own_lir': lambda w, a: LinearInterpolationReconstructor().apply(w['series']),
    'lir': lambda w, a: w['lir'].apply(w['series']),
    'lir_other': lambda w, a: w['lir'].apply(w['other']),
    'lir_predict': lambda w, a: w['lir'].predict(w['series'], 1, 1 + a % 3),
    'inspect_units': lambda w, a: [str(TimeUnit('{}m'.format(a + 1))), str(TimePoint(t=1446073200, tz='Europe/Rome') + TimeUnit('{}D'.format(a + 1)))],
})
MODEL = ('answers', 'answers', 'answers_other', 'answers_view', 'evaluate', 'own_model', 'model_load', 'lir', 'lir_other', 'lir_predict', 'own_lir', 'model_save')
WRITES = ('save', 'put')


class P16(Scenario):
    prop = 'P16'
    quick_runs = 4000
    thorough_runs = 60000
    rule = 'a run is non-trivial if the schedule switched threads at least once in the middle of what they were doing; runs are distinct by the digest of their history'
    measure = 'distinct (what was asked by the thread switched out, function in which it was) pairs, and (what was asked by two threads at the same time) pairs'
    real = ['timeseria.datastructures', 'timeseria.operations', 'timeseria.transformations', 'timeseria.interpolators', 'timeseria.storages', 'timeseria.models', 'threads (of which exactly one runs at any time)']
    stubbed = ['the scheduler: a thread is switched only at the lines of the package chosen by the schedule', 'interruptions and failed allocations (raised in any thread at any line of the package)', 'raw files and directory operations', 'locks created by the package']
    assumptions = ['code outside of the package (pandas, scipy and the interpreter) is not switched in the middle']
    shrinkable = ['ops', 'switches', 'interrupts']

    def generate(self, rng, i):
        period = rng.choice((3, 4))
        labels = rng.choice((['value'], ['a', 'b']))
        base = observed_edges(season(rng, n=rng.randint(10, 18), period=period, loss=rng.choice((None, 0, 0.15)), labels=labels), edge=2)
        other = observed_edges(season(rng, n=rng.choice((len(base['items']), 12)), period=period, loss=rng.choice((None, 0.2)), labels=labels, unit=base.get('unit') or '', step=base['step']), edge=2)
        threads = rng.choice((2, 2, 2, 3, 4))
        # Sometimes everyone is asking the same
        names = sorted(QUERIES) if rng.random() < 0.5 else rng.sample(sorted(QUERIES), rng.choice((1, 2, 3)))
        if rng.random() < 0.35:
            names = list(MODEL)
        ops = [{'thread': k % threads, 'q': rng.choice(names), 'a': rng.randint(0, 6)} for k in range(rng.randint(threads, threads * 3))]
        same = rng.random() < 0.6
        if same:
            # The same of several series (of which one has other values)
            chosen = rng.sample(sorted(VIEW_QUERIES), rng.choice((1, 1, 2)))
            ops = [{'thread': k % threads, 'q': rng.choice(chosen), 'a': rng.randint(0, 6), 'on': rng.choice(('series', 'other', 'view'))} for k in range(rng.randint(threads, threads * 2))]
            for item in other['items']:
                item['d'] = {label: round(v - 50, 4) if rng.random() < 0.8 else v for label, v in item['d'].items()}
        switches = sorted([rng.randint(0, 10**6), rng.randint(0, 3)] for _ in range(rng.choice((1, 2, 3, 5, 10, 40, 200))))
        interrupts = sorted([rng.randint(0, 10**6), rng.randint(0, 1)] for _ in range(rng.choice((0, 0, 1, 2))))
        spec = rnd_model(rng, labels=len(labels), period=period, families=('lir',) if same else ('paf', 'paf', 'par', 'paad', 'lir', 'uf', 'lstm'))
        return {'base': base, 'other': other, 'ops': ops, 'switches': switches, 'interrupts': interrupts, 'model': spec, 'view': [1, len(base['items']) - 1]}

    def world(self, trace, number):
        """Everything which is shared, built from scratch."""
        with sched.patched_locks():
            w = {'series': build(trace['base']), 'other': build(trace['other']), 'step': trace['base']['step'], 'spec': trace['model'], 'family': trace['model']['family']}
            w['view'] = w['series'].view(*trace['view'])
            w['resampler'] = Resampler(w['step'] * 2)
            w['aggregator'] = Aggregator(w['step'] * 4)
            w['lir'] = LinearInterpolationReconstructor()
            w['path'] = os.path.join(self.fs.root, 'series{}.csv'.format(number))
            w['model_path'] = os.path.join(self.fs.root, 'model{}'.format(number))
            w['storage'] = storages.CSVFileStorage(w['path'])
            w['model'] = make(trace['model'])
        # Fitting starts threads on its own
        if w['family'] != 'lir':
            call(fit, w['model'], trace['model'], build(trace['base']))
        w['series'].save(w['path'])
        call(w['model'].save, w['model_path'])
        names = iter(range(10**6))
        w['next'] = lambda: next(names)
        return w

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    def execute(self, trace, ctx):
        fs = self.fs = SimFS()
        threads = sorted(set(op['thread'] for op in trace['ops']))
        plans = [[op for op in trace['ops'] if op['thread'] == thread] for thread in threads]

        def asking(world, plan, answers_, now=None):
            def f():
                for op in plan:
                    if now is not None:
                        now[id(plan)] = op['q']
                    answers_.append(outcome_of(QUERIES[op['q']] if 'on' not in op else lambda w, a: VIEW_QUERIES[op['q']](w[op['on']], a), world, op['a']))
            return f

        with fs:
            # One after the other, each on its own
            expected = []
            lines = 0
            for number, plan in enumerate(plans):
                reset_counters()
                answers_ = []
                scheduler = sched.Scheduler([])
                result = scheduler.run([asking(self.world(trace, number), plan, answers_)])[0]
                if result[0] == 'exc':
                    raise HarnessError(repr(result[1]))
                lines += scheduler.events
                expected.append(answers_)
            # All together
            world = self.world(trace, 'shared')
            before = snapshot(world['series']), snapshot(world['other'])
            kept = answers(world['model'], world['family'], build(trace['base']), evaluate=False)
            now = {}
            switches = [[int(at * lines / 10**6), choice] for at, choice in trace['switches']]
            interrupts = {int(at * lines / 10**6): (KeyboardInterrupt, MemoryError)[kind] for at, kind in trace['interrupts']}
            got = [[] for _ in plans]
            hit = set()
            scheduler = sched.Scheduler(switches, ctx=ctx, interrupts=interrupts)
            original = scheduler._switch

            def switch(choice):
                me = scheduler.running
                at = len(got[me])
                mine = plans[me][at]['q'] if at < len(plans[me]) else None
                done = original(choice)
                if done:
                    ctx.state(mine, scheduler.places[-1])
                    ctx.state('together', *sorted([str(mine), str(plans[scheduler.running][min(len(got[scheduler.running]), len(plans[scheduler.running]) - 1)]['q'])]))
                return done
            scheduler._switch = switch
            scheduler.on_interrupt = lambda thread: hit.add((thread, len(got[thread])))
            results = scheduler.run([asking(world, plan, answers_, now) for plan, answers_ in zip(plans, got)])
        for kind, result in results:
            if kind == 'exc':
                raise result
        ctx.step(scheduler.events)
        ctx.fault('thread_switch', scheduler.switched)
        for thread in scheduler.interrupted:
            ctx.fault('interrupt')
        ctx.log(scheduler.events, scheduler.switched, scheduler.places, scheduler.interrupted)
        for number, (plan, want, have) in enumerate(zip(plans, expected, got)):
            expect(len(want) == len(have), 'not-answered', '')
            for k, (op, x, y) in enumerate(zip(plan, want, have)):
                ctx.log(op['q'], x[0], y[0])
                ctx.probe('{}:{}'.format(op['q'], y[0]))
                if (number, k) in hit:
                    continue
                diff = first_difference(x, y)
                expect(diff is None, 'answered-differently:{}'.format(op['q']), lambda: '{} (alone vs together with {})'.format(diff, [[o['q'] for o in other] for other in plans if other is not plan]))
        diff = first_difference(list(before), [snapshot(world['series']), snapshot(world['other'])])
        expect(diff is None, 'series-changed', lambda: diff)
        diff = first_difference(kept, answers(world['model'], world['family'], build(trace['base']), evaluate=False))
        expect(diff is None, 'model-changed', lambda: diff)
        with fs:
            diff = first_difference(snapshot(world['series']), snapshot(TimeSeries.load(world['path'])))
        leftovers = sorted(name for name in os.listdir(fs.root) if name.endswith('.tmp'))
        expect(not leftovers or scheduler.interrupted, 'leftovers', lambda: str(leftovers))
        expect(diff is None, 'stored-changed', lambda: diff)
        ctx.sim_time(trace['base']['items'][-1]['t'] - trace['base']['items'][0]['t'])
        ctx.nontrivial = scheduler.switched > 0


def outcome_of(f, world, a):
    """Canonical, as seen by the client."""
    try:
        result = f(world, a)
        if isinstance(result, Series):
            return ['series', snapshot(result)]
        return ['ok', value(result)]
    except (KeyboardInterrupt, Exception) as e:
        return ['exc', e.__class__.__name__]


SCENARIO = P16()
