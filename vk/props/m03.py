'''M03: past-mean and nearest-neighbour forecasts.'''
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, regions, series
from ..core import Sub, require, must_raise

RULE = ('series of 2..24, once in a while up to 800, values with and without ties, window lengths, k from 1 to the number of windows and beyond, warping and '
        'root-mean-square distances, past counts around the series length, over single series and regions; non-trivial: '
        'at least two candidate windows with different distances and k below their number, or a past count below the series length')
ASSUMPTIONS = ['among windows at equal distance any choice of the nearest k is accepted',
               'at least one past sample']


DTYPES = ['f8', 'f8', 'i8', 'f4', 'i4']


def stored(values, dtype):
    '''The values as stored with the type: (array, values), integers being eighths of a unit scaled up.'''
    array = np.round(np.array(values) * 8).astype(dtype) if dtype.startswith('i') else np.array(values).astype(dtype)
    return array, [float(v) for v in array.reshape(-1)]


def measure_of(name):
    from spta.distance.dtw import DistanceByDTW
    from spta.distance.rmse import DistanceByRMSE
    return DistanceByDTW() if name == 'dtw' else DistanceByRMSE()


def reference_distance(name, a, b):
    if name == 'dtw':
        return math.sqrt(series.dtw_squared(a, b))
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)) / len(a))


def check_knn(values, k, length, name, got, what, loose=1e-9):
    '''got is the mean of k windows that are nearest.'''
    windows = [values[i:i + length] for i in range(len(values) - length + 1)]
    last, others = windows[-1], windows[:-1]
    distances = [reference_distance(name, last, w) for w in others]
    tolerance = 100 * loose * (1 + max(abs(v) for v in values))
    order = sorted(range(len(others)), key=lambda i: distances[i])
    cut = distances[order[k - 1]]
    sure = [i for i in order if distances[i] < cut - tolerance]
    maybe = [i for i in order if abs(distances[i] - cut) <= tolerance]
    require(len(got) == length, '{}: forecast of length {} instead of {}', what, len(got), length)
    if math.comb(len(maybe), k - len(sure)) > 3000:
        return None
    for chosen in itertools.combinations(maybe, k - len(sure)):
        mean = [sum(others[i][j] for i in sure + list(chosen)) / k for j in range(length)]
        if gen.same(got, mean, loose, loose):
            return len(set(round(d, 9) for d in distances)) >= 2 and k < len(others)
    raise_with = [[round(d, 6) for d in distances], list(got)]
    require(False, '{}: not the mean of {} nearest windows of length {} of {} (distances, forecast: {})', what, k, length,
            values, raise_with)


def long_values(n):
    '''Few values are drawn one by one, many at once.'''
    return gen.grid_values(n) if n <= 30 else gen.noise(n).map(lambda raw: [(v - 128) / 8.0 for v in raw])


@st.composite
def knn_spec(draw):
    n = draw(st.sampled_from([5, 8, 12, 3, 4, 6, 10, 16, 24, 2]))
    length = draw(st.integers(1, max(1, n // 2 if draw(st.booleans()) else n - 1)))
    if draw(st.sampled_from([False] * 19 + [True])):
        n, length = draw(st.integers(110, 320)), draw(st.integers(1, 6))
    candidates = n - length
    return dict(values=draw(long_values(n)), length=length, k=draw(st.integers(1, max(1, candidates))),
                beyond=draw(st.integers(1, 3)), measure=draw(st.sampled_from(['dtw', 'dtw', 'rmse'])), dtype=draw(st.sampled_from(DTYPES)))


def run_knn(spec, ctx):
    from spta.model.knn import predict_future_values_with_knn
    array, values = stored(spec['values'], spec['dtype'])
    k, length = spec['k'], spec['length']
    got = predict_future_values_with_knn(array, k, length, measure_of(spec['measure']))
    require(list(array) == values, 'the series was modified')
    verdict = check_knn(values, k, length, spec['measure'], got, 'forecast', 1e-5 if spec['dtype'] == 'f4' else 1e-9)
    # more neighbours than windows
    with must_raise(ValueError, 'k={} with {} windows'.format(len(values) - length + spec['beyond'], len(values) - length)):
        predict_future_values_with_knn(array, len(values) - length + spec['beyond'], length, measure_of(spec['measure']))
    ctx.nontrivial(verdict is True)
    ctx.tag(spec['dtype'], spec['measure'], 'all windows' if k == len(values) - length else 'some windows',
            'skipped ties' if verdict is None else 'decided')


@st.composite
def neighbours_spec(draw):
    length, count = draw(st.integers(1, 6)), draw(st.integers(1, 9))
    return dict(array=draw(gen.grid_values(length)), rows=draw(series.many(count, length)), k=draw(st.integers(1, count)),
                measure=draw(st.sampled_from(['dtw', 'rmse'])), wrong=draw(st.integers(0, count - 1)), shorter=draw(st.booleans()))


def run_neighbours(spec, ctx):
    from spta.model.knn import find_k_nearest_neighbors
    k, rows, array = spec['k'], spec['rows'], spec['array']
    measure = measure_of(spec['measure'])
    got = [int(i) for i in find_k_nearest_neighbors(np.array(array), k, np.array(rows), measure)]
    require(len(got) == k and len(set(got)) == k and all(0 <= i < len(rows) for i in got), '{} neighbours: {}', k, got)
    distances = [reference_distance(spec['measure'], array, row) for row in rows]
    tolerance = 1e-7 * (1 + max(distances))
    cut = sorted(distances)[k - 1]
    require(all(distances[i] <= cut + tolerance for i in got), 'neighbours {} among distances {}', got, distances)
    require(all(i in got for i in range(len(rows)) if distances[i] < cut - tolerance), 'neighbours {} among distances {}',
            got, distances)
    bad = [np.array(row) for row in rows]
    bad[spec['wrong']] = np.array(rows[spec['wrong']][1:] if spec['shorter'] else rows[spec['wrong']] + [1.0])
    if len(bad[spec['wrong']]):
        with must_raise(ValueError, 'a neighbour of another length'):
            find_k_nearest_neighbors(np.array(array), k, bad, measure)
    with must_raise(ValueError, 'fewer neighbours than k'):
        find_k_nearest_neighbors(np.array(array), len(rows) + 1, np.array(rows), measure)
    ctx.nontrivial(k < len(rows) and len(set(distances)) >= 2)
    ctx.tag(spec['measure'])


@st.composite
def region_spec(draw):
    spec = draw(regions.chain_spec(['time'], t=(3, 10)))
    t = spec['cube']['shape'][0]
    spec['ops'] = []
    spec['model'] = draw(st.sampled_from(['mean', 'knn']))
    spec['past'] = draw(st.integers(1, t + 3))
    spec['length'] = draw(st.integers(1, t - 1))
    spec['lengths'] = draw(st.lists(st.integers(1, 12), min_size=1, max_size=3))
    spec['k'] = draw(st.integers(1, t - spec['length']))
    spec['measure'] = draw(st.sampled_from(['dtw', 'rmse']))
    return spec


def run_region(spec, ctx):
    from spta.model.knn import KNNParams, TrainerKNN
    from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
    from spta.region import Point
    real, model = regions.build(spec)
    t, x_len, y_len = model.shape
    useful = False
    if spec['model'] == 'mean':
        models = TrainerMeanOfPast(MeanOfPastParams(spec['past']), x_len, y_len).apply_to(real)
        for length in spec['lengths']:
            forecast = models.apply_to(real.empty_region_2d(), length)
            require(forecast.series_len == length, 'forecast length {} instead of {}', forecast.series_len, length)
            for x, y in model.points():
                past = [float(v) for v in model.data[:, x, y]][-min(spec['past'], t):]
                want = math.fsum(past) / len(past)
                require(gen.same(forecast.series_at(Point(x, y)), [want] * length), 'mean of {} past values at {}: {} instead of {}',
                        spec['past'], (x, y), forecast.series_at(Point(x, y)), want)
        useful = spec['past'] < t and len(set(model.data[:, 0, 0])) > 1
    else:
        params = KNNParams(spec['k'], measure_of(spec['measure']))
        models = TrainerKNN(params, x_len, y_len).apply_to(real)
        forecast = models.apply_to(real.empty_region_2d(), spec['length'])
        require(forecast.series_len == spec['length'], 'forecast length {} instead of {}', forecast.series_len, spec['length'])
        for x, y in model.points():
            verdict = check_knn([float(v) for v in model.data[:, x, y]], spec['k'], spec['length'], spec['measure'],
                                forecast.series_at(Point(x, y)), 'forecast at {}'.format((x, y)))
            useful = useful or verdict is True
    regions.compare(real, model, 'training region afterwards', deep=False)
    ctx.nontrivial(useful and len(model.points()) >= 2)
    ctx.tag(spec['model'], 'scaled' if model.mins is not None else 'unscaled', 'cluster' if model.labels is not None else 'whole')


@st.composite
def missing_spec(draw):
    n, past = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    if draw(st.sampled_from([False, False, False, True])):
        n, past = draw(st.integers(95, 800)), draw(st.integers(90, 900))
    return dict(past=past, values=draw(long_values(n)), dtype=draw(st.sampled_from(DTYPES)))


def run_missing(spec, ctx):
    from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
    trainer = TrainerMeanOfPast(MeanOfPastParams(spec['past']), 1, 1)
    require(trainer.training_function(MeanOfPastParams(spec['past']), None) is None, 'a missing series was modelled')
    array, values = stored(spec['values'], spec['dtype'])
    got = trainer.training_function(MeanOfPastParams(spec['past']), array)
    past = values[-min(spec['past'], len(values)):]
    tolerance = 1e-5 if spec['dtype'] == 'f4' else 1e-9
    require(gen.same(got, math.fsum(past) / len(past), tolerance, tolerance), 'mean of the past {} of {} is {}', spec['past'], spec['values'], got)
    require(repr(MeanOfPastParams(spec['past'])) == 'mean-past{}'.format(spec['past']), 'repr')
    ctx.nontrivial(spec['past'] < len(spec['values']))


SUBS = [Sub('knn', knn_spec, run_knn, quick=700, thorough=15000, shards=(2, 8)),
        Sub('neighbours', neighbours_spec, run_neighbours, quick=500, thorough=10000, shards=(1, 4)),
        Sub('regions', region_spec, run_region, quick=500, thorough=10000, shards=(3, 8)),
        Sub('past mean', missing_spec, run_missing, quick=300, thorough=3000, shards=(1, 2))]
