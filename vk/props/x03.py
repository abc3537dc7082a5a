'''X03: the error analysis commands.'''
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

from .. import commands, figures, gen
from ..core import Sub, require, scratch_dir
from . import m04, m05, s04, s06, x01, x02
from .m06 import rms

RULE = ('the commands themselves (main function and arguments) on described regions of 4..12 points at some corner of the '
        'dataset, described suites of 1..2 clusterings of both kinds, one to three ARIMA orders or an automatic search, with '
        'training failures injected into the library, all types of error, serial and parallel, test lengths given or left '
        'out, once or twice; every number written, printed or drawn is compared with what follows from the data, the distances and '
        'the clusters; non-trivial: at least two clusters of which one has two points or more, or a region of four points')
ASSUMPTIONS = ['the numerical work of pmdarima and statsmodels is trusted', 'at least one model of each cluster can be trained',
               'the local minimum is a point whose own error is the smallest, up to rounding', 'numbers are written with three decimals']

FAULTS = ((None, None), ('fit', ValueError), ('build', np.linalg.LinAlgError))
# start_p, start_q, max_p, max_q, d, stepwise
SEARCHES = [x02.AUTO, [0, 0, 0, 0, 1, True], [0, 1, 0, 1, 0, True], [1, 0, 1, 0, 1, True], [1, 1, 1, 1, None, True], [0, 0, 1, 1, 1, False]]


@st.composite
def place(draw, shapes, kinds=('kmedoids', 'kmedoids', 'regular'), lengths=(18, 16)):
    shape = draw(st.sampled_from(shapes))
    n = shape[0] * shape[1]
    t = draw(st.sampled_from(lengths))
    kind = draw(st.sampled_from(kinds))
    # three rectangles do not fit every region
    counts = [2, 1] if kind == 'regular' and max(shape) < 3 else [2, 3, 1]
    return dict(shape=shape, t=t, values=s06.distinct_values(draw, shape, t), factors=[1.0 + b / 32.0 for b in draw(gen.noise(n))],
                corner=draw(st.sampled_from([[3, 7], [1, 0], [0, 1], [0, 0], [20, 2], [31, 40]])),
                scaled=draw(st.sampled_from([True, False])), spd=1, triangle=draw(gen.symmetric_matrix(n)), kind=kind, mode='lite',
                ks=draw(st.lists(st.sampled_from(counts), min_size=1, max_size=2, unique=True)),
                seeds=[draw(st.integers(0, 12))] if kind == 'kmedoids' else [0],
                faults=draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=n, max_size=n)),
                error=draw(st.sampled_from([None, 'MSE', 'MASE', 'sMAPE'])), again=draw(st.sampled_from([None, None, 'same', 'error'])),
                plots=draw(st.sampled_from([True, False])), search=draw(st.sampled_from(SEARCHES)))


class Analyzed(x01.CommandWorld):
    '''What each model says about each point.'''

    def __init__(self, spec, install):
        super(Analyzed, self).__init__(spec, install)
        self.search = spec['search']

    def order_at(self, point, order):
        if order is not None:
            return tuple(order)
        if not hasattr(self, '_orders'):
            self._orders = {}
        if point not in self._orders:
            self._orders[point] = tuple(self.found_order(self.training(point)))
        return self._orders[point]

    def training(self, point):
        return self.seen[:self.spec['train'], point[0], point[1]]

    def fitted(self, point, order):
        return m04.reference_fit(self.training(point), self.order_at(point, order))

    def error_of(self, forecast, point):
        '''Error at the point of a forecast in the units of the models.'''
        values = np.array(forecast)
        if self.spec['scaled']:
            values = self.mins[point] + values * (self.maxs[point] - self.mins[point])
        return m05.reference(self.spec['error'], values, self.test_series(point),
                             self.data[:self.spec['train'], point[0], point[1]])

    def analysis(self, points, order, failed):
        '''(each, minimum, candidates for the local minimum, {point: overall}, maximum)'''
        forecasts = {p: self.fitted(p, order).forecast(self.spec['test']) for p in points if p not in failed}
        local = {p: self.error_of(f, p) for p, f in forecasts.items()}
        overall = {p: rms([self.error_of(f, q) for q in points]) for p, f in forecasts.items()}
        best = min(local.values())
        candidates = [overall[p] for p in local if local[p] <= best * (1 + 1e-7) + 1e-9]
        return rms(local.values()), min(overall.values()), candidates, overall, max(overall.values())


def make_worlds(spec, test):
    worlds = []
    for k in spec['ks']:
        for seed in spec['seeds']:
            one = dict(spec, trainer='auto', params=None, refit=False, test=test, error=spec['error'] or 'sMAPE',
                       train=spec['t'] - test, clustering=dict(kind=spec['kind'], k=k, seed=seed, mode=spec['mode']))
            world = Analyzed(one, install=not worlds)
            world.find_partition()
            world.clusters = [[p for p in world.points() if world.labels[p] == c] for c in range(len(world.medoids))]
            worlds.append(world)
    return worlds


def inject(spec, worlds):
    '''(faults, failed points), leaving one model in each cluster'''
    failed = set()
    for i, p in enumerate(worlds[0].points()):
        if spec['faults'][i]:
            failed.add(p)
    for world in worlds:
        for cluster in world.clusters:
            if failed.issuperset(cluster):
                failed.discard(cluster[-1])
    y_len = worlds[0].y_len
    return {m04.key_of(worlds[0].training(p)): FAULTS[spec['faults'][p[0] * y_len + p[1]]] for p in failed}, failed


def describe(spec, world, auto=False, orders=None):
    from experiments.metadata.arima_clustering import ArimaWithClusters, AutoArimaCluster
    from spta.arima import AutoArimaParams
    x02.describe_suite(spec, world.region_metadata)
    if auto:
        commands.AUTO['tiny'] = lambda: AutoArimaParams(*spec['search'])
        commands.AUTO_CLUSTERS['mine'] = lambda: AutoArimaCluster('tiny', spec['kind'], 'mine', 'dtw')
    if orders:
        commands.ARIMA['orders'] = lambda: [list(values) for values in orders]
        commands.ARIMA_CLUSTERS['mine'] = lambda: ArimaWithClusters('orders', spec['kind'], 'mine', 'dtw')


def written(text, value, digits=3):
    if math.isnan(value):
        return text == 'nan'
    return text != 'nan' and abs(float(text) - value) <= 0.5 * 10.0 ** -digits + 1e-6 * abs(value)


def new_tables(before):
    files = [f for f in s04.tables() if f not in before and f.endswith('.csv')]
    require(all(f.startswith('./outputs/') for f in files), 'tables {}', files)
    return files


def turns(spec, worlds):
    '''Each request, and the files that were there before it: again the same, or one for another type of error.'''
    before = s04.tables()
    yield spec, before
    if spec['again'] == 'same':
        yield spec, before
    elif spec['again'] == 'error':
        kept = {f: open(f, 'rb').read() for f in s04.tables() if f.startswith('./outputs/')}
        error = {'MSE': 'MASE', 'MASE': 'sMAPE', 'sMAPE': 'MSE'}[worlds[0].spec['error']]
        for world in worlds:
            world.spec = dict(world.spec, error=error)
        yield dict(spec, error=error), s04.tables()
        for f, text in kept.items():
            with open(f, 'rb') as handle:
                require(handle.read() == text or f.endswith('.csv') and 'error' not in f, '{} was changed by the request for {}', f, error)


def of_world(files, world):
    return [f for f in files if '__{!r}__'.format(world.clustering_metadata()) in os.path.basename(f)]


def check_plots(seen, wanted):
    '''Of each wanted (world, cluster number, order of all models or None), the distances to the medoid and the errors of its model.'''
    plots = {figure.path for figure in seen.saved}
    require(len(plots) == len(wanted) and all(os.path.realpath(f).startswith(os.path.realpath('outputs')) for f in plots),
            '{} plots instead of {}: {}', len(plots), len(wanted), plots)
    for world, c, order in wanted:
        medoid, cluster = world.medoids[c], world.clusters[c]
        forecast = world.fitted(medoid, order).forecast(world.spec['test'])
        i = medoid[0] * world.y_len + medoid[1]
        want = sorted((float(world.matrix[p[0] * world.y_len + p[1], i]), world.error_of(forecast, p)) for p in cluster)
        named = [f for f in plots if '__{!r}__'.format(world.clustering_metadata()) in os.path.basename(f) and
                 'p{}-d{}-q{}'.format(*world.order_at(medoid, order)) in os.path.basename(f)]
        shown = []
        for f in named:
            figure = seen.at(f)
            require(len(figure.axes) == 1 and len(figure.axes[0].lines) == 1, '{}: not one plot of one kind', f)
            xs, ys, _, marker, line = figure.axes[0].lines[0]
            require(marker not in ('None', '', None) and line in ('None', '', None), '{}: drawn as {} {}', f, marker, line)
            shown.append(sorted(zip(xs.tolist(), ys.tolist())))
        found = [got for got in shown if len(got) == len(want) and
                 all(abs(a - x) <= 1e-9 * (1 + abs(x)) and (math.isnan(b) and math.isnan(y) or abs(b - y) <= 1e-6 * (1 + abs(y)))
                     for (a, b), (x, y) in zip(got, want))]
        require(found, '{!r}, cluster {}, order {}: no plot of {}, but of {} in {}', world.clustering_metadata(), c, order, want, shown, named)


def nontrivial(ctx, spec, worlds):
    ctx.nontrivial(any(len(w.medoids) >= 2 and max(len(c) for c in w.clusters) >= 2 for w in worlds))
    ctx.tag(spec['kind'], spec['error'], 'scaled' if spec['scaled'] else 'unscaled', 'clusterings:{}'.format(len(worlds)))


# ---------------------------------------------------------------- medoids

@st.composite
def medoids_spec(draw):
    one = draw(place([[2, 3], [3, 2], [2, 4], [3, 3], [3, 4], [1, 5]]))
    one['test'] = draw(st.sampled_from([None, 2, 1, 5]))
    return one


def common_words(spec):
    words = ['place', 'mine', '--log', 'WARN']
    words += ['--flen', spec['test']] if spec.get('test') else []
    words += ['--error', spec['error']] if spec['error'] else []
    return words


def run_medoids(spec, ctx):
    with scratch_dir():
        worlds = make_worlds(spec, spec['test'] or 8)
        describe(spec, worlds[0], auto=True)
        for one, before in turns(spec, worlds):
            commands.call('experiments.auto_arima.error_between_medoids', 'processRequest', common_words(one))
            files = [f for f in new_tables(before) if 'error-between-medoids' in f]
            require(len(files) == len(worlds), 'tables {}', files)
            for world in worlds:
                own = of_world(files, world)
                require(len(own) == 1, 'tables {} of {!r}', own, world.clustering_metadata())
                rows = s04.read(own[0])
                names = [str(i) for i in range(len(world.medoids))]
                require(rows[0] == ['cluster'] + names and [r[0] for r in rows[1:]] == names, 'table {}', rows)
                for i, medoid in enumerate(world.medoids):
                    forecast = world.fitted(medoid, None).forecast(world.spec['test'])
                    want = [world.error_of(forecast, other) for other in world.medoids]
                    require(len(rows[i + 1]) == len(want) + 1 and all(written(g, w) for g, w in zip(rows[i + 1][1:], want)),
                            '{!r}: errors {} of the model of {} at {} instead of {}', world.clustering_metadata(), rows[i + 1][1:],
                            medoid, world.medoids, want)
    nontrivial(ctx, spec, worlds)


# ---------------------------------------------------------------- distances and errors

def run_distances(spec, ctx):
    with scratch_dir():
        worlds = make_worlds(spec, spec['test'] or 8)
        describe(spec, worlds[0], auto=True)
        for one, before in turns(spec, worlds):
            with figures.watch() as seen:
                commands.call('experiments.auto_arima.distance_errors', 'processRequest',
                              common_words(one) + (['--plots'] if spec['plots'] else []))
            files = [f for f in new_tables(before) if 'dist-error' in f]
            require(len(files) == sum(len(w.medoids) for w in worlds), 'tables {}', files)
            for world in worlds:
                own = of_world(files, world)
                contents = [(f, s04.read(f)) for f in own]
                x, y = spec['corner']
                for medoid, cluster in zip(world.medoids, world.clusters):
                    order = world.order_at(medoid, None)
                    forecast = world.fitted(medoid, None).forecast(world.spec['test'])
                    want = {(p[0] + x, p[1] + y): p for p in cluster}
                    found = None
                    for f, rows in contents:
                        require(len(rows[0]) == 3 and rows[0][0] == 'position' and rows[0][1].startswith('distance') and
                                rows[0][2] == 'forecast_error', 'header {}', rows[0])
                        positions = [tuple(int(v) for v in re.findall(r'-?\d+', r[0])) for r in rows[1:]]
                        if sorted(positions) == sorted(want):
                            found = f, rows, positions
                    require(found is not None, 'no table of the points {} in {}', sorted(want), contents)
                    f, rows, positions = found
                    require('p{}-d{}-q{}'.format(*order) in os.path.basename(f), '{}: the order at {} is {}', f, medoid, order)
                    for position, row in zip(positions, rows[1:]):
                        p = want[position]
                        i, j = [q[0] * world.y_len + q[1] for q in (p, medoid)]
                        require(written(row[1], world.matrix[i, j]), '{}: distance from {} to {} is {} instead of {}', f, p, medoid,
                                row[1], world.matrix[i, j])
                        want_error = world.error_of(forecast, p)
                        require(written(row[2], want_error), '{}: error at {} with the model of {} is {} instead of {}', f, p, medoid,
                                row[2], want_error)
            check_plots(seen, [(w, c, None) for w in worlds for c in range(len(w.medoids))] if spec['plots'] else [])
    nontrivial(ctx, spec, worlds)


# ---------------------------------------------------------------- the whole analysis

ORDERS = [[[0], [0], [0]], [[1], [0], [0]], [[0], [1], [0]], [[0], [0], [1]], [[0, 1], [0], [0]], [[1, 0], [1], [0]], [[0], [0, 1], [0]],
          [[0], [0], [0, 1]], [[1], [1], [1]], [[2], [0], [1]], [[0], [2], [1]]]


@st.composite
def training_spec(draw, workers=(None,)):
    one = draw(place([[2, 2], [2, 3], [3, 2], [1, 4], [2, 4], [3, 3]]))
    one['orders'] = draw(st.sampled_from(ORDERS))
    one['workers'] = draw(st.sampled_from(workers))
    return one


def check_row(world, row, c, order, failed, what):
    cluster, medoid = world.clusters[c], world.medoids[c]
    of_cluster = failed & set(cluster)
    each, minimum, candidates, overall, maximum = world.analysis(cluster, order, of_cluster)
    require(row['size'] == str(len(cluster)), '{}: size {} instead of {}', what, row['size'], len(cluster))
    require(row['failed'] == str(len(of_cluster)), '{}: {} failed instead of {}', what, row['failed'], sorted(of_cluster))
    require(0 <= float(row['t_forecast']) <= float(row['t_elapsed']), '{}: times {} and {}', what, row['t_forecast'],
            row['t_elapsed'])
    for name, want in (('error_each', each), ('error_min', minimum), ('error_medoid', overall.get(medoid, math.nan)),
                       ('error_max', maximum)):
        require(written(row[name], want), '{}: {} is {} instead of {}', what, name, row[name], want)
    require(any(written(row['error_min_local'], want) for want in candidates), '{}: local minimum {} instead of {}', what,
            row['error_min_local'], candidates)


COLUMNS = ['size', 'failed', 't_forecast', 't_elapsed', 'error_each', 'error_min', 'error_min_local', 'error_medoid', 'error_max']


def run_training(spec, ctx):
    orders = [(p, d, q) for p in spec['orders'][0] for d in spec['orders'][1] for q in spec['orders'][2]]
    with scratch_dir():
        worlds = make_worlds(spec, 8)
        describe(spec, worlds[0], orders=spec['orders'])
        faults, failed = inject(spec, worlds)
        # the plots are of the models of the medoids
        plots = spec['plots'] and not any(m in failed for w in worlds for m in w.medoids)
        more = (['--plots'] if plots else []) + (['--parallel', spec['workers']] if spec['workers'] else [])
        for one, before in turns(spec, worlds):
            words = common_words(one) + more
            with m04.Faults(faults), figures.watch() as seen:
                commands.call('experiments.arima.training_error_analysis', 'processRequest', words)
            files = [f for f in new_tables(before) if 'error-analysis' in f]
            require(len(files) == len(worlds), 'tables {}', files)
            for world in worlds:
                own = of_world(files, world)
                require(len(own) == 1, 'tables {} of {!r}', own, world.clustering_metadata())
                rows = s04.read(own[0])
                require(sorted(rows[0]) == sorted(['cluster', 'p', 'd', 'q'] + COLUMNS), 'header {}', rows[0])
                rows = [dict(zip(rows[0], r)) for r in rows[1:]]
                keys = [tuple(int(r[name]) for name in ('cluster', 'p', 'd', 'q')) for r in rows]
                require(sorted(keys) == sorted((c,) + o for c in range(len(world.medoids)) for o in orders), 'rows for {}', keys)
                for key, row in zip(keys, rows):
                    check_row(world, row, key[0], key[1:], failed, '{!r}, cluster {}, order {}'.format(
                        world.clustering_metadata(), key[0], key[1:]))
            check_plots(seen, [(w, c, order) for w in worlds for c in range(len(w.medoids)) for order in orders]
                        if plots else [])
    nontrivial(ctx, spec, worlds)
    ctx.tag('plots' if plots else 'no plots', 'orders:{}'.format(len(orders)), 'failures' if failed else 'no failures', 'workers:{}'.format(spec['workers']))


def run_auto_training(spec, ctx):
    with scratch_dir():
        worlds = make_worlds(spec, 8)
        describe(spec, worlds[0], auto=True)
        words = common_words(spec) + (['--plots'] if spec['plots'] else [])
        before = s04.tables()
        with figures.watch() as seen:
            commands.call('experiments.auto_arima.training_error_analysis', 'processRequest', words)
        files = [f for f in new_tables(before) if 'error-analysis' in f]
        require(len(files) == len(worlds), 'tables {}', files)
        for world in worlds:
            own = of_world(files, world)
            require(len(own) == 1, 'tables {} of {!r}', own, world.clustering_metadata())
            rows = s04.read(own[0])
            more = ['cluster', 'p_medoid', 'd_medoid', 'q_medoid', 'aic_medoid']
            require(sorted(rows[0]) == sorted(more + COLUMNS), 'header {}', rows[0])
            rows = [dict(zip(rows[0], r)) for r in rows[1:]]
            require([r['cluster'] for r in rows] == [str(c) for c in range(len(world.medoids))], 'rows {}', rows)
            for c, row in enumerate(rows):
                what = '{!r}, cluster {}'.format(world.clustering_metadata(), c)
                order = tuple(int(row[name]) for name in more[1:4])
                require(order == world.order_at(world.medoids[c], None), '{}: order {} instead of {}', what, order,
                        world.order_at(world.medoids[c], None))
                aic = world.fitted(world.medoids[c], None).aic
                require(written(row['aic_medoid'], aic), '{}: criterion {} instead of {}', what, row['aic_medoid'], aic)
                check_row(world, row, c, None, set(), what)
        check_plots(seen, [(w, c, None) for w in worlds for c in range(len(w.medoids))] if spec['plots'] else [])
    nontrivial(ctx, spec, worlds)


# ---------------------------------------------------------------- the whole region

@st.composite
def forecast_spec(draw, workers=(None,)):
    one = draw(place([[2, 2], [2, 3], [3, 2], [1, 4], [2, 4], [3, 3]], kinds=('regular',)))
    one['orders'] = draw(st.sampled_from(ORDERS))
    one['workers'] = draw(st.sampled_from(workers))
    return dict(one, ks=[1], error='MASE')


def run_forecast(spec, ctx):
    orders = [(p, d, q) for p in spec['orders'][0] for d in spec['orders'][1] for q in spec['orders'][2]]
    with scratch_dir():
        world, = make_worlds(spec, 8)
        describe(spec, world, orders=spec['orders'])
        faults, failed = inject(spec, [world])
        with m04.Faults(faults):
            text = commands.call('experiments.arima.forecast', 'processRequest', ['place', 'orders', '--log', 'WARN'] +
                                 (['--parallel', spec['workers']] if spec['workers'] else []))
    points = world.points()
    costs = world.matrix.sum(axis=1)
    centroids = [points[i] for i in range(len(points)) if costs[i] <= costs.min() * (1 + 1e-9) + 1e-9]
    lines = [line for line in text.splitlines() if 'errors' in line]
    found = {}
    for line in lines:
        order = tuple(int(v) for v in re.findall(r'[pdq]=(\d+)', line.split('errors')[0]))
        found[order] = dict(re.findall(r'(\w+)=([\d.]+|nan)', line.split('errors')[1]))
    require(len(lines) == len(orders) and sorted(found) == sorted(orders), 'orders {} instead of {}', lines, orders)
    for order in orders:
        each, _, candidates, overall, _ = world.analysis(points, order, failed)
        got = found[order]
        require(written(got['each'], each, 2), '{}: each {} instead of {}', order, got['each'], each)
        require(any(written(got['min_local'], want, 2) for want in candidates), '{}: local minimum {} instead of {}', order,
                got['min_local'], candidates)
        want = [overall.get(p, math.nan) for p in centroids]
        require(any(written(got['centroid'], one, 2) for one in want), '{}: centroid {} instead of {} at {}', order,
                got['centroid'], want, centroids)
    ctx.nontrivial(len(points) >= 4)
    ctx.tag('orders:{}'.format(len(orders)), 'failures' if failed else 'no failures', 'workers:{}'.format(spec['workers']),
            'scaled' if spec['scaled'] else 'unscaled')


SUBS = [Sub('medoids', medoids_spec, run_medoids, quick=20, thorough=800, shards=(4, 8), case_timeout=600),
        Sub('distances', medoids_spec, run_distances, quick=20, thorough=800, shards=(4, 8), case_timeout=600),
        Sub('training', training_spec, run_training, quick=40, thorough=800, shards=(4, 8), case_timeout=600),
        Sub('training-auto', training_spec, run_auto_training, quick=12, thorough=400, shards=(4, 8), case_timeout=600),
        Sub('forecast', forecast_spec, run_forecast, quick=40, thorough=800, shards=(4, 8), case_timeout=600),
        Sub('workers', lambda: training_spec(workers=[2, 3]), run_training, quick=6, thorough=100, shards=(3, 4), case_timeout=600),
        Sub('forecast-workers', lambda: forecast_spec(workers=[2, 3]), run_forecast, quick=6, thorough=100, shards=(3, 4),
            case_timeout=600)]
