"""P23: plots show exactly the series, wherever they are made and shown, or report an error."""

import atexit
import html as html_module
import json
import random
import re
import subprocess
import sys
import types

from ..core import HarnessError, Scenario, call, expect, must
from ..store import *
from .. import sched
from timeseria import plots

STATIC = os.path.join(os.path.dirname(os.path.realpath(timeseria.__file__)), 'static')
PLOT_LABELS = LABELS + ['a,b', "it's", '"quoted"', '50%', 'in {}', 'a\\b', 'x</script>', '⚡😀', 'line\nbreak', 'T [°C], mean', 'null', 'a:b', "'", 'Timestamp2']
PLOT_INDEXES = ['data_loss', 'data_reconstructed', 'anomaly', 'forecast', 'custom', "won't", 'a, b']
ERRORS = ['eio_write', 'enospc', 'enospc_partial', 'eio_close', 'eacces_open', 'emfile_open', 'edquot']


class Browser():
    """The stand-in for the browser, one for each process."""
    process = None
    owner = None

    @classmethod
    def show(cls, scripts, select=()):
        if cls.process is None or cls.owner != os.getpid() or cls.process.poll() is not None:
            cls.owner = os.getpid()
            cls.process = subprocess.Popen(['node', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'browser.js')],
                                           stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=dict(os.environ, TZ='UTC'))
            atexit.register(cls.close)
        cls.process.stdin.write((json.dumps({'scripts': scripts, 'select': list(select)}) + '\n').encode('ascii'))
        cls.process.stdin.flush()
        line = cls.process.stdout.readline()
        if not line:
            raise HarnessError('the browser died')
        return json.loads(line.decode('utf-8'))

    @classmethod
    def close(cls):
        if cls.process is not None and cls.owner == os.getpid():
            cls.process.stdin.close()
            cls.process.wait()
            cls.process = None


class Notebook():
    """What a notebook displays."""

    def __init__(self):
        self.displayed = []

    def __enter__(self):
        package, module = types.ModuleType('IPython'), types.ModuleType('IPython.display')
        module.display = lambda *objects: self.displayed.extend(objects)
        for name in ('HTML', 'Javascript'):
            setattr(module, name, type(name, (), {'__init__': lambda self, data=None, filename=None: setattr(self, 'data', data)}))
        module.Image = type('Image', (), {})
        package.display = module
        self.saved = {name: sys.modules.get(name) for name in ('IPython', 'IPython.display')}
        sys.modules.update({'IPython': package, 'IPython.display': module})
        return self

    def __exit__(self, *exc):
        for name, module in self.saved.items():
            if module is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = module
        return False


class P23(Scenario):
    prop = 'P23'
    quick_runs = 12000
    thorough_runs = 150000
    rule = 'a run is non-trivial if a plot was made in another environment, after a change to the series or with a fault; runs are distinct by the digest of what the browser was given'
    measure = 'distinct (kind of series, way of plotting, aggregation, precision, marks, fault, outcome) tuples'
    real = ['timeseria.plots', 'timeseria.datastructures', 'the scripts of the pages (executed)']
    stubbed = ['the browser (node with a stand-in for Dygraphs, which is not drawn)', 'the notebook (IPython is not installed)', 'raw files (errors, short writes)', 'locale, time zone']
    assumptions = ['times are shown on the local time of the series, up to the millisecond', 'two decimals unless full precision is asked for, four for data indexes', 'plots as images are not covered (they need Chromium)',
                   'items without a data index can count or not for its average when aggregating']
    shrinkable = ['steps']

    def generate(self, rng, i):
        spec = rnd_series(rng, max_items=rng.choice((3, 12, 30, 60)))
        del spec['items'][130:]
        pool = rng.sample(PLOT_LABELS, rng.randint(1, 4))
        names = rng.sample(PLOT_INDEXES, rng.choice((0, 0, 1, 2, 3)))
        late = rng.random()
        style = rng.choice(('dict', 'dict', 'dict', 'dict', 'list', 'constant', 'close'))
        constant = rng.choice((0, -5, 3.5, -0.001, 1e6))
        for k, item in enumerate(spec['items']):
            item['d'] = {label: stored_value(rng) for label in pool}
            if style == 'constant':
                item['d'] = {label: constant for label in pool}
            elif style == 'close':
                item['d'] = {label: round(1000 + rng.random() / 100, 6) for label in pool}
            item['x'] = {name: rng.choice((0, 1, 0.5, round(rng.random(), 6), None)) for name in names if rng.random() < 0.9 and (name != names[-1] or k >= late * len(spec['items']))}
            if style == 'list':
                item['d'] = [item['d'][label] for label in pool]
        if not spec.get('unit') and rng.random() < 0.2:
            for item in spec['items']:
                item['tz'] = rng.choice(TIMEZONES[:3])
        steps = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            n = len(spec['items'])
            step = {'how': rng.choice(('html', 'html', 'html', 'save', 'save', 'save', 'notebook', 'legacy')), 'env': [rng.choice((None, None, 'ascii', 'latin-1', 'utf-16')), rng.choice((None, None, 'Asia/Tokyo', 'America/New_York'))]}
            kwargs = step['kwargs'] = {}
            labels = [str(k) for k in range(len(pool))] if style == 'list' else pool
            if rng.random() < 0.3:
                kwargs['data_labels'] = rng.sample(labels, rng.randint(1, len(labels)))
            if rng.random() < 0.3:
                kwargs['data_indexes'] = rng.choice((None, [], 'some'))
            if rng.random() < 0.4:
                kwargs['aggregate_by'] = rng.choice((1, 2, 3, 5, 10, n, n + 3))
                if rng.random() < 0.2:
                    kwargs['aggregate'] = rng.choice((True, False))
            elif rng.random() < 0.3:
                step['threshold'] = rng.choice((3, 10, 20))
                if rng.random() < 0.2:
                    kwargs['aggregate'] = False
            if rng.random() < 0.3:
                kwargs['full_precision'] = True
            if rng.random() < 0.3:
                step['mark'] = [round(rng.random(), 3), round(rng.random(), 3), rng.choice((None, None, 'UTC', 'Asia/Kolkata', 'America/New_York'))]
                if rng.random() < 0.5:
                    kwargs['mark_title'] = rng.choice(('here', 'Così'))
            for name, values in (('title', ('A title', 'Umidità è 温度')), ('value_range', ([-10, 10], [0, 100], [5, 6.5])), ('color', ('red', 'rgb(1,2,3)')), ('mini_plot', (True, False)), ('minimal_legend', (True,)), ('height', (100, 10**7))):
                if rng.random() < 0.12:
                    kwargs[name] = rng.choice(values)
            step['source'] = rng.choice(('series', 'series', 'series', 'view', 'slice'))
            if step['source'] != 'series':
                a = rng.randint(0, n - 1)
                step['part'] = [a, rng.randint(a + 1, n)]
            if step['how'] == 'save':
                step['old'] = rng.choice((None, None, 'something else\n' * 3000))
                if rng.random() < 0.5:
                    step['faults'] = [{'kind': rng.choice(ERRORS), 'at': round(rng.random(), 3), 'part': round(rng.random(), 2), 'times': rng.choice((1, 2, 1000))}]
                step['short'] = rng.choice((None, rng.randint(0, 10**6)))
            if rng.random() < 0.12:
                step['interrupt'] = [round(rng.random(), 4), rng.choice(('interrupt', 'memory'))]
            if rng.random() < 0.08:
                step['bad'] = rng.choice(('label', 'index', 'labels-type', 'label-type', 'index-type', 'both', 'html-and-file', 'naive-mark', 'text-mark', 'engine', 'empty'))
            if rng.random() < 0.25:
                step['change'] = rng.choice(('tz', 'rename', 'pop', 'data', 'index'))
            steps.append(step)
        return {'series': spec, 'style': style, 'steps': steps}

    def simplify(self, trace):
        items = trace['series']['items']
        for n in (1, 2, 3, len(items) // 2, len(items) - 1):
            if 0 < n < len(items):
                yield dict(trace, series=dict(trace['series'], items=items[:n]))
        for i, step in enumerate(trace['steps']):
            for name in sorted(step['kwargs']):
                smaller = dict(step, kwargs={k: v for k, v in step['kwargs'].items() if k != name})
                yield dict(trace, steps=trace['steps'][:i] + [smaller] + trace['steps'][i+1:])
            for name in ('faults', 'interrupt', 'mark', 'change', 'threshold', 'short'):
                if step.get(name):
                    yield dict(trace, steps=trace['steps'][:i] + [{k: v for k, v in step.items() if k != name}] + trace['steps'][i+1:])
            if any(step['env']):
                yield dict(trace, steps=trace['steps'][:i] + [dict(step, env=[None, None])] + trace['steps'][i+1:])

    def cleanup(self):
        fs = getattr(self, 'fs', None)
        if fs is not None:
            fs.destroy()
            self.fs = None

    #
    # What has to be shown
    #

    def wall(self, t, tz):
        """Milliseconds since epoch of the local time, as if it was on UTC."""
        micro = round(t * 10**6)
        utc = datetime.datetime(1970, 1, 1, tzinfo=pytz.UTC) + datetime.timedelta(microseconds=micro)
        local = utc.astimezone(pytz.timezone(tz)).replace(tzinfo=pytz.UTC)
        return (local - datetime.datetime(1970, 1, 1, tzinfo=pytz.UTC)) / datetime.timedelta(milliseconds=1)

    def factor(self, n, step):
        kwargs = step['kwargs']
        if kwargs.get('aggregate') is False:
            return None
        if kwargs.get('aggregate_by'):
            return kwargs['aggregate_by']
        threshold = step.get('threshold', 10000)
        return 10 ** len(str(int(n / threshold))) if n > threshold else None

    def check_graph(self, graph, source, labels, indexes, step, tz, mark, selected, where, tag):
        n = len(source)
        kwargs = step['kwargs']
        full = kwargs.get('full_precision', False)
        factor = self.factor(n, step)
        listed = not isinstance(source[0].data, dict)
        names = ['value' if listed and len(labels) == 1 else 'value {}'.format(label) if listed else label for label in labels]
        expect(graph['labels'][1:1 + len(names)] == names and sorted(graph['labels'][1 + len(names):]) == sorted(indexes), 'wrong-labels:{}'.format(tag), lambda: where('labels {} instead of {} and {}'.format(graph['labels'], names, indexes)))
        columns = graph['labels'][1:]
        groups = [list(source[k:k + (factor or 1)]) for k in range(0, n, factor or 1)]
        expect(len(graph['rows']) == len(groups), 'wrong-number:{}'.format(tag), lambda: where('{} rows instead of {} ({} items{})'.format(len(graph['rows']), len(groups), n, ' aggregated by {}'.format(factor) if factor else '')))
        expect(graph['bars'] == bool(factor), 'wrong-bars:{}'.format(tag), lambda: where(graph['bars']))
        expect(graph['utc'] and graph['step'] == isinstance(source[0], TimeSlot), 'wrong-style:{}'.format(tag), lambda: where(graph))
        expect(graph['selector'] == (kwargs.get('mini_plot', True)), 'wrong-selector:{}'.format(tag), lambda: where(graph['selector']))
        expect(set(indexes) <= set(graph['second']) and not set(names) & set(graph['second']), 'wrong-axis:{}'.format(tag), lambda: where('on the second axis: {}'.format(graph['second'])))
        half, small = (0, 0) if full else (0.0050000001, 0.000050000001)
        low = high = None
        for row, group in zip(graph['rows'], groups):
            start = group[0].start.t if isinstance(group[0], TimeSlot) else group[0].t
            end = group[-1].end.t if isinstance(group[-1], TimeSlot) else group[-1].t
            at = self.wall(start + (end - start) / 2 if factor else start, tz)
            expect(abs(row[0] - at) <= 1.1, 'wrong-time:{}'.format(tag), lambda: where('at {} instead of {} for {}'.format(row[0], at, group[0])))
            expect(len(row) == 1 + len(columns), 'wrong-columns:{}'.format(tag), lambda: where('{} for {}'.format(row, columns)))
            for column, label in enumerate(labels):
                values = [float(item.data[int(label)] if listed else item.data[label]) for item in group]
                low = min(values + ([low] if low is not None else []))
                high = max(values + ([high] if high is not None else []))
                shown = row[1 + column]
                largest = max(abs(v) for v in values)
                if factor:
                    want = [min(values), sum(values) / len(values), max(values)]
                    fine = isinstance(shown, list) and len(shown) == 3 and all(s is not None and abs(s - w) <= half + 1e-9 * largest for s, w in zip(shown, want))
                else:
                    want = values[0]
                    fine = isinstance(shown, (int, float)) and abs(shown - want) <= half + 1e-12 * largest
                expect(fine, 'wrong-value:{}'.format(tag), lambda: where('{!r}: {} instead of {} at {}'.format(label, shown, want, group[0])))
            for name in indexes:
                shown = row[1 + columns.index(name, len(names))]
                values = [item.data_indexes.get(name) for item in group]
                there = [float(v) for v in values if v is not None]
                if factor:
                    options = [sum(there) / len(values), sum(there) / len(there)] if there else [None, 0]
                    fine = shown is None or (isinstance(shown, list) and len(shown) == 3)
                    if fine and shown is None:
                        shown = [None, None, None]
                    fine = fine and any(all(s is None for s in shown) if o is None else shown[0] == 0 and shown[1] == shown[2] and abs(shown[1] - o) <= small + 1e-9 for o in options)
                else:
                    options = there[0] if there else None
                    fine = shown is None if not there else isinstance(shown, (int, float)) and abs(shown - there[0]) <= small + 1e-12
                expect(fine, 'wrong-index:{}'.format(tag), lambda: where('{!r}: {} instead of {} at {}'.format(name, shown, options, group[0])))
        # Everything has to be in the range
        bottom, top = graph['range']
        if 'value_range' in kwargs:
            a, b = kwargs['value_range']
            expect(bottom <= a and top >= b and a - bottom <= 1 + abs(a) * 0.1 and top - b <= 1 + abs(b) * 0.1, 'wrong-range:{}'.format(tag), lambda: where('range {} instead of {}'.format(graph['range'], [a, b])))
        else:
            expect('height' in kwargs or (bottom is not None and top is not None and bottom < top and bottom <= low and top >= high), 'out-of-range:{}'.format(tag), lambda: where('range {} for values from {} to {}'.format(graph['range'], low, high)))
            if 'height' in kwargs and kwargs['height'] > high:
                expect(bottom <= low and top >= kwargs['height'], 'out-of-range:{}'.format(tag), lambda: where('range {} for height {}'.format(graph['range'], kwargs['height'])))
        if mark:
            marks = [[self.wall(t, tz) for t in mark]]
            expect(len(graph['marks']) == 1 and all(abs(a - b) <= 1.1 for a, b in zip(graph['marks'][0], marks[0])), 'wrong-mark:{}'.format(tag), lambda: where('marked {} instead of {}'.format(graph['marks'], marks)))
            expect(kwargs.get('mark_title', 'mark') in graph['legend'], 'mark-not-in-legend:{}'.format(tag), lambda: where(graph['legend']))
        else:
            expect(not graph['marks'], 'marked:{}'.format(tag), lambda: where(graph['marks']))
        # The legends
        position = -1
        for name in columns:
            found = graph['legend'].find(name, position + 1)
            expect(found > position, 'not-in-legend:{}'.format(tag), lambda: where('{!r} not in {}'.format(name, graph['legend'])))
            position = found
        for k, legend in zip(selected, graph['legends']):
            row = graph['rows'][k]
            expect('@' in legend, 'not-in-legend:{}'.format(tag), lambda: where(legend))
            rest = legend[legend.index('@') + 1:]
            for column, name in enumerate(columns):
                cell = row[1 + column]
                shown = cell[1] if isinstance(cell, list) else cell
                if shown is None:
                    continue
                expect(name in rest, 'not-in-legend:{}'.format(tag), lambda: where('{!r} not in {}'.format(name, legend)))
                rest = rest[rest.index(name) + len(name):]
                if column >= len(names):
                    got = re.search(r'&#160;([-+0-9.e]+)%', rest)
                    fine = got and abs(float(got.group(1)) - shown * 100) <= (1e-9 if full else 0.0050001)
                else:
                    got = re.search(r'&#160;([-+0-9.e]+)', rest)
                    fine = got and float(got.group(1)) == float(shown)
                expect(fine, 'wrong-in-legend:{}'.format(tag), lambda: where('{!r}: {} instead of {} in {}'.format(name, got and got.group(1), shown, legend)))
                rest = rest[got.end():]

    #
    # What is shown
    #

    def scripts(self, page):
        """The scripts of a page, and whether it has what it needs."""
        page = page.replace('\r\n', '\n')
        with open(os.path.join(STATIC, 'js', 'dygraph-2.1.0.min.js'), encoding='utf-8') as f:
            library = f.read()
        with open(os.path.join(STATIC, 'css', 'dygraph-2.1.0.css'), encoding='utf-8') as f:
            style = f.read()
        complete = '>' + library + '</script>' in page and '<style>' + style + '</style>' in page
        page = page.replace(library, '').replace(style, '')
        return [script for script in re.findall(r'<script[^>]*>(.*?)</script', page, re.S | re.I) if script.strip()], page, complete

    def check_page(self, pages, scripts, select, checks, where, tag, kwargs):
        shown = Browser.show(scripts, select)
        expect('error' not in shown, 'broken-page:{}'.format(tag), lambda: where('{} in {}'.format(shown['error'], '; '.join(scripts)[-400:])))
        expect(len(shown['graphs']) == 1, 'wrong-graphs:{}'.format(tag), lambda: where('{} graphs'.format(len(shown['graphs']))))
        graph = shown['graphs'][0]
        expect('id="{}"'.format(graph['div']) in pages and 'id="{}"'.format(graph['labels_div']) in pages, 'nowhere-to-show:{}'.format(tag), lambda: where([graph['div'], graph['labels_div']]))
        if 'title' in kwargs:
            expect(kwargs['title'] in html_module.unescape(pages), 'no-title:{}'.format(tag), lambda: where('{!r} is not there'.format(kwargs['title'])))
        checks(graph)
        return graph

    def kwargs(self, step, series, source):
        kwargs = dict(step['kwargs'])
        names = sorted({name for item in source for name in item.data_indexes})
        if kwargs.get('data_indexes') == 'some':
            kwargs['data_indexes'] = names[::-1][:2]
        if kwargs.get('data_labels'):
            known = source.data_labels()
            kwargs['data_labels'] = [label for label in kwargs['data_labels'] if label in known] or list(known)
        mark = None
        if step.get('mark'):
            first, last = (x.start.t if isinstance(x, TimeSlot) else x.t for x in (source[0], source[-1]))
            mark = sorted(first + x * (last - first + 60) for x in step['mark'][:2])
            zone = pytz.timezone(step['mark'][2] or str(source.tz))
            mark = [round(t, 3) for t in mark]
            kwargs['mark'] = [datetime.datetime.fromtimestamp(t, tz=pytz.UTC).astimezone(zone) for t in mark]
            mark = [x.timestamp() for x in kwargs['mark']]
        else:
            kwargs.pop('mark_title', None)
        return kwargs, mark, names

    def plot(self, how, source, path, kwargs):
        if how == 'save':
            return source.plot(save_to=path, **kwargs)
        if how == 'html':
            return source.plot(html=True, **kwargs)
        with Notebook() as notebook:
            source.plot(legacy=how == 'legacy', **kwargs)
        return notebook.displayed

    def refused(self, step, source, path, kwargs, where):
        bad = step['bad']
        f = source.plot
        if bad == 'label':
            result = call(f, html=True, **dict(kwargs, data_labels=['not there']))
        elif bad == 'index':
            result = call(f, save_to=path, **dict(kwargs, data_indexes=['not there']))
        elif bad == 'labels-type':
            result = call(f, html=True, **dict(kwargs, data_labels='value'))
        elif bad == 'label-type':
            result = call(f, html=True, **dict(kwargs, data_labels=[0]))
        elif bad == 'index-type':
            result = call(f, save_to=path, **dict(kwargs, data_indexes='data_loss'))
        elif bad == 'both':
            result = call(f, html=True, image=True, **kwargs)
        elif bad == 'html-and-file':
            result = call(f, html=True, save_to=path, **kwargs)
        elif bad == 'naive-mark':
            result = call(f, html=True, **dict(kwargs, mark=[datetime.datetime(2015, 1, 1), datetime.datetime(2015, 1, 2)]))
        elif bad == 'text-mark':
            result = call(f, save_to=path, **dict(kwargs, mark=['2015-01-01T00:00:00+00:00', '2015-01-02T00:00:00+00:00']))
        elif bad == 'engine':
            result = call(f, 'unknown')
        else:
            result = call(TimeSeries().plot, html=True)
        expect(result[0] == 'exc', 'accepted:{}'.format(bad), lambda: where(str(result[1])[:300]))

    def execute(self, trace, ctx):
        fs = self.fs = SimFS()
        fs.ctx = ctx
        path = os.path.join(fs.root, 'plot.html')
        series = build(trace['series'])
        for number, step in enumerate(trace['steps']):
            ctx.step()
            if step.get('change'):
                self.change(series, step['change'], number)
            if not len(series):
                return
            source = series
            if step['source'] != 'series':
                a, b = step['part']
                a = min(a, len(series) - 1)
                b = max(a + 1, min(b, len(series)))
                source = series.view(from_i=a, to_i=b) if step['source'] == 'view' else series[a:b]
            before = snapshot(series)
            kwargs, mark, names = self.kwargs(step, series, source)
            tz = str(source.tz)
            labels = kwargs.get('data_labels') or list(source.data_labels())
            indexes = names if 'data_indexes' not in kwargs else (kwargs['data_indexes'] or [])
            how = step['how']
            tag = how
            where = lambda what: 'plot #{} {} of {}: {}'.format(number, {k: v for k, v in kwargs.items()}, step['source'], what)
            rows = len(source) if not self.factor(len(source), step) else -(-len(source) // self.factor(len(source), step))
            select = sorted({0, rows - 1, rows // 2})
            checks = lambda graph: self.check_graph(graph, source, labels, indexes, step, tz, mark, select, where, tag)
            with environment(fs, encoding=step['env'][0], tz=step['env'][1], ctx=ctx), self.threshold(step):
                fs.wipe()
                if step.get('old'):
                    with open(path, 'w', encoding='utf-8') as f:
                        f.write(step['old'])
                if step.get('bad'):
                    fs.reset()
                    with fs:
                        self.refused(step, source, path, {k: v for k, v in kwargs.items() if k not in ('data_labels', 'data_indexes', 'mark')}, where)
                    there = open(path, encoding='utf-8').read() if os.path.exists(path) else None
                    expect(there == step.get('old'), 'refused-but-written:{}'.format(step['bad']), lambda: where(repr(there)[:300]))
                if step.get('interrupt'):
                    lines, _ = sched.count_lines(lambda: self.plot('html' if how == 'save' else how, source, path, kwargs))
                    fired, _ = sched.interrupted(lambda: self.plot('html' if how == 'save' else how, source, path, kwargs), int(step['interrupt'][0] * lines), KeyboardInterrupt if step['interrupt'][1] == 'interrupt' else MemoryError)
                    if fired:
                        ctx.fault(step['interrupt'][1])
                    diff = first_difference(before, snapshot(series))
                    expect(diff is None, 'changed-by-interrupted-plot', lambda: where(diff))
                fired = []
                error = None
                if step.get('faults'):
                    fs.reset()
                    with fs:
                        must('plot:{}'.format(tag), self.plot, how, source, path, kwargs)
                    total = fs.count
                    fs.reset(step['faults'], total, random.Random(step['short']) if step.get('short') is not None else None)
                    with fs:
                        kind, error = call(self.plot, how, source, path, kwargs)
                    fired = list(fs.fired)
                    if kind == 'exc':
                        expect(fired, 'failed-without-faults:{}'.format(tag), lambda: where(repr(error)))
                        expect(isinstance(error, OSError), 'wrong-error:{}'.format(tag), lambda: where(repr(error)))
                        ctx.probe('failed:{}'.format(fired[-1][0]))
                    else:
                        error = None
                if not step.get('faults') or error is not None:
                    # Also once the faults stop
                    fs.reset((), None, random.Random(step['short']) if step.get('short') is not None else None)
                    with fs:
                        result = must('plot:{}'.format(tag), self.plot, how, source, path, kwargs)
                diff = first_difference(before, snapshot(series))
                expect(diff is None, 'changed-by-plotting:{}'.format(tag), lambda: where(diff))
                if how == 'save':
                    with open(path, 'rb') as f:
                        content = f.read()
                    kind, page = call(content.decode, 'utf-8')
                    expect(kind == 'ok', 'wrong-encoding', lambda: where(repr(page)))
                    scripts, page, complete = self.scripts(page)
                    expect(complete and not re.search(r'<script[^>]*\ssrc|<link', page), 'not-self-consistent', lambda: where('the page does not include what it needs'))
                    expect(re.search(r'charset="?UTF-8', page, re.I), 'no-charset', lambda: where(page[:200]))
                    expect(os.listdir(fs.root) == ['plot.html'], 'left-files', lambda: where(os.listdir(fs.root)))
                elif how == 'html':
                    expect(isinstance(result, str), 'no-html', lambda: where(type(result)))
                    scripts, page, _ = self.scripts(result)
                elif how == 'notebook':
                    expect(len(result) == 1 and type(result[0]).__name__ == 'HTML', 'wrong-display:{}'.format(tag), lambda: where(result))
                    scripts, page, complete = self.scripts(result[0].data)
                    expect(complete, 'not-self-consistent:{}'.format(tag), lambda: where('the page does not include what it needs'))
                else:
                    page = '\n'.join(x.data for x in result if type(x).__name__ == 'HTML')
                    scripts = [x.data for x in result if type(x).__name__ == 'Javascript']
                graph = self.check_page(page, scripts, select, checks, where, tag, step['kwargs'])
            ctx.nontrivial = ctx.nontrivial or bool(fired) or any(step['env']) or number > 0 or bool(step.get('interrupt'))
            ctx.state(trace['series'].get('unit') or 'points', trace['style'], how, self.factor(len(source), step), bool(kwargs.get('full_precision')), bool(mark), step['source'], fired[-1][0] if fired else None, step.get('bad'))
            ctx.probe('{}:{}'.format(how, 'aggregated' if self.factor(len(source), step) else 'plain'))
            ctx.log(how, graph['labels'], graph['rows'][:3], graph['range'], graph['marks'], fired)
        ctx.sim_time(trace['series']['items'][-1]['t'] - trace['series']['items'][0]['t'])

    def change(self, series, what, number):
        """Something happens between a plot and the next one."""
        if what == 'tz':
            series.change_tz(TIMEZONES[number % 3 + 1])
        elif what == 'rename' and isinstance(series[0].data, dict):
            series.rename_data_label(series.data_labels()[0], 'renamed, {}'.format(number))
        elif what == 'pop' and len(series) > 1:
            series.pop()
        elif what == 'data':
            item = series[len(series) // 2]
            if isinstance(item.data, dict):
                item.data[sorted(item.data)[0]] = 12345.678
            else:
                item.data[0] = 12345.678
        elif what == 'index':
            series[-1].data_indexes['late, index'] = 0.25

    def threshold(self, step):
        return threshold(step.get('threshold'))


class threshold():
    """From how many items on plots are aggregated."""

    def __init__(self, value):
        self.value = value

    def __enter__(self):
        self.saved = getattr(plots, 'AGGREGATE_THRESHOLD', None)
        if self.value is not None:
            plots.AGGREGATE_THRESHOLD = self.value

    def __exit__(self, *exc):
        plots.AGGREGATE_THRESHOLD = self.saved
        return False


SCENARIO = P23()
