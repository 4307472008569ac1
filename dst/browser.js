// A stand-in for the browser: executes the scripts of pages on request, with a stand-in for Dygraphs which tells what it was asked to show.
const vm = require('vm');
const readline = require('readline');

function show(request) {
    const shown = {graphs: [], displays: []};
    class Dygraph {
        constructor(div, data, options) {
            const graph = {
                div: div.id,
                labels_div: options.labelsDiv,
                labels: options.labels,
                range: options.valueRange,
                bars: !!options.customBars,
                step: !!options.stepPlot,
                utc: !!options.labelsUTC,
                selector: !!options.showRangeSelector,
                series: Object.keys(options.series || {}),
                second: Object.keys(options.series || {}).filter((name) => options.series[name].axis == 'y2'),
                colors: options.colors,
                rows: data.map((row) => row.map((cell, i) => i == 0 ? cell.getTime() : cell)),
                marks: [],
                legends: [],
            };
            const g = {getOption: (name) => ({showLabelsOnHighlight: true, legend: options.legend, labelsSeparateLines: false}[name]),
                       toDomCoords: (x, y) => [x, y]};
            if (options.underlayCallback) {
                options.underlayCallback({set fillStyle(x) {}, fillRect: (x, y, w, h) => graph.marks.push([x, x + w])}, {x: 0, y: 0, w: 1, h: 1}, g);
            }
            const series = options.labels.slice(1).map((label, i) => ({label: label, labelHTML: label, isVisible: true, color: '#abc', dashHTML: ''}));
            graph.legend = options.legendFormatter({dygraph: g, x: undefined, series: series});
            for (const k of request.select || []) {
                const row = data[k];
                const points = series.map((entry, i) => {
                    const cell = row[i + 1];
                    const value = Array.isArray(cell) ? cell[1] : cell;
                    return value === null ? null : Object.assign({}, entry, {y: value, yHTML: String(value)});
                }).filter((x) => x !== null);
                graph.legends.push(options.legendFormatter({dygraph: g, x: row[0].getTime(), xHTML: '@', series: points}));
            }
            shown.graphs.push(graph);
        }
    }
    Dygraph.defaultInteractionModel = {};
    Dygraph.dateString_ = () => '';
    const modules = {dgenv: Dygraph};
    const context = {
        Dygraph: Dygraph,
        document: {getElementById: (id) => ({id: id})},
        console: {log: () => undefined},
        element: {get: (i) => ({id: 'element'})},
        define: (name, dependencies, f) => { modules[name] = f(...dependencies.map((x) => modules[x])); },
    };
    context.require = Object.assign((dependencies, f) => f(...dependencies.map((x) => modules[x])), {undef: (name) => { delete modules[name]; }, config: () => undefined});
    try {
        vm.createContext(context);
        for (const script of request.scripts) {
            vm.runInContext(script, context, {timeout: 20000});
        }
    } catch (error) {
        shown.error = String(error);
    }
    return shown;
}

readline.createInterface({input: process.stdin}).on('line', (line) => {
    process.stdout.write(JSON.stringify(show(JSON.parse(line))) + '\n');
});
