'''Shared by the solver checks: solver specs, the real objects, and what a solver has to answer by definition.'''
import math

import numpy as np
from hypothesis import strategies as st

from . import dataset, gen
from .core import require
from .props import m02, m04, m05

TRAINERS = ['harness', 'mean', 'knn', 'harness', 'mean', 'knn', 'arima']
ORDERS = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]
# at most one future forecast is this long: the nearest-neighbour model needs windows of that length
MAX_FUTURE = 4


@st.composite
def clustering_spec(draw, n):
    kind = draw(st.sampled_from(['kmedoids', 'kmedoids', 'kmedoids', 'regular']))
    if kind == 'regular':
        return dict(kind=kind, k=draw(st.sampled_from([2, 3, 1])))
    return dict(kind=kind, k=min(n, draw(st.sampled_from([2, 3, 4, 3, 1, 2, 99]))), seed=draw(st.integers(0, 30)),
                mode=draw(st.sampled_from(['lite', 'robust'])))


@st.composite
def solver_spec(draw, trainers=TRAINERS, shapes=None):
    shape = draw(st.sampled_from(shapes or [[3, 3], [2, 3], [3, 2], [2, 4], [4, 3], [1, 5]]))
    n = shape[0] * shape[1]
    trainer = draw(st.sampled_from(trainers))
    test = draw(st.sampled_from([2, 3, 1, 4]))
    train = draw(st.sampled_from([8, 10, 12])) + (4 if trainer == 'arima' else 0)
    if trainer in ('harness', 'mean') and draw(st.sampled_from([False, False, False, False, True])):
        # at least as many test samples as training samples
        test, train = draw(st.sampled_from([8, 11])), draw(st.sampled_from([7, 8]))
    spec = dict(shape=shape, test=test, train=train, trainer=trainer,
                values=draw(gen.grid_values((train + test) * n, ('temperature', 'positive'))),
                factors=[1.0 + b / 32.0 for b in draw(gen.noise(n))],
                corner=draw(st.sampled_from([[3, 7], [0, 0], [20, 2], [0, 5], [31, 40]])),
                scaled=draw(st.sampled_from([True, False])), spd=draw(st.sampled_from([1, 4])),
                triangle=draw(gen.symmetric_matrix(n)), clustering=draw(clustering_spec(n)),
                error=draw(st.sampled_from(m05.TYPES)))
    if trainer == 'harness':
        spec['params'] = draw(st.integers(0, 3))
        spec['rule'] = draw(st.sampled_from(['never', 'some']))
        spec['refit'] = draw(st.sampled_from([True, True, False]))
    elif trainer == 'mean':
        spec['params'] = draw(st.integers(1, 14))
    elif trainer == 'knn':
        spec['params'] = draw(st.integers(1, 3))
        spec['rmse'] = draw(st.booleans())
    else:
        spec['params'] = draw(st.sampled_from(ORDERS))
    return spec


class World(object):
    '''
    A solver spec, installed in the current directory: dataset and distances. Knows what the solver has to say
    from the raw data, the distances and the clustering alone.
    '''

    def __init__(self, spec, install=True):
        from spta.region import Region
        from spta.region.metadata import SpatioTemporalRegionMetadata
        self.spec = spec
        self.x_len, self.y_len = spec['shape']
        n = self.x_len * self.y_len
        t = spec['train'] + spec['test']
        data = np.array(spec['values']).reshape(t, self.x_len, self.y_len)
        # each point moves: neither the scaling nor the scaled error is undefined
        data = data + (np.arange(t) % 3 * 0.25).reshape(t, 1, 1)
        self.data = data * np.array(spec['factors']).reshape(self.x_len, self.y_len)
        x, y = spec['corner']
        self.region_metadata = SpatioTemporalRegionMetadata(spec.get('name', 'place'),
                                                            Region(x, x + self.x_len, y, y + self.y_len), 2015, 2015,
                                                            spec['spd'], scaled=spec['scaled'])
        self.matrix = gen.full_matrix(spec['triangle'], n)
        if install:
            dataset.install(self.data, self.region_metadata)
            np.save(self.region_metadata.distances_filename, self.matrix)
        self.mins, self.maxs = self.data.min(axis=0), self.data.max(axis=0)
        # what the models see
        self.seen = self.data
        if spec['scaled']:
            self.seen = (self.data - self.mins) / np.where(self.maxs > self.mins, self.maxs - self.mins, 1.0)
        self.calls = []
        self._forecasts = {}

    # ------------------------------------------------------------ real objects

    def clustering_metadata(self):
        return make_clustering(self.spec['clustering'])

    def distance(self):
        from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
        return DistanceBySpatialDTW(self.spec['weight']) if self.spec.get('weight') else DistanceByDTW()

    def knn_distance(self):
        from spta.distance.dtw import DistanceByDTW
        from spta.distance.rmse import DistanceByRMSE
        return DistanceByRMSE() if self.spec.get('rmse') else DistanceByDTW()

    def trainer_and_params(self):
        kind, params = self.spec['trainer'], self.spec['params']
        if kind == 'harness':
            from .harness_models import HarnessTrainer
            return HarnessTrainer(self.spec['rule'], self.calls, self.spec['refit'],
                                  model_params_and_shape=(params, self.x_len, self.y_len)), params
        if kind == 'mean':
            from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
            return TrainerMeanOfPast(MeanOfPastParams(params), self.x_len, self.y_len), MeanOfPastParams(params)
        if kind == 'knn':
            from spta.model.knn import KNNParams, TrainerKNN
            params = KNNParams(params, self.knn_distance())
            return TrainerKNN(params, self.x_len, self.y_len), params
        from spta.arima import ArimaPDQ
        from spta.arima.train import TrainerArimaPDQ
        params = ArimaPDQ(*params)
        return TrainerArimaPDQ(params, self.x_len, self.y_len), params

    def solver_trainer(self):
        from spta.solver.train import SolverTrainer
        trainer, params = self.trainer_and_params()
        return SolverTrainer(region_metadata=self.region_metadata, clustering_metadata=self.clustering_metadata(),
                             distance_measure=self.distance(), model_trainer=trainer, model_params=params,
                             test_len=self.spec['test'], error_type=self.spec['error'])

    def solver_metadata(self):
        from spta.solver.metadata import SolverMetadataBuilder
        _, params = self.trainer_and_params()
        builder = SolverMetadataBuilder(region_metadata=self.region_metadata, model_params=params,
                                        test_len=self.spec['test'], error_type=self.spec['error'])
        return builder.with_clustering(self.clustering_metadata(), self.distance()).build()

    # ------------------------------------------------------------ expectations

    def points(self):
        return gen.points_of(self.x_len, self.y_len)

    def find_partition(self):
        '''(labels grid, medoids as tuples): the clustering algorithm itself on the raw data and the distances.'''
        from spta.clustering.factory import ClusteringFactory
        from spta.distance.dtw import DistanceByDTW
        from spta.region.temporal import SpatioTemporalRegion
        measure = DistanceByDTW()
        measure.distance_matrix = self.matrix.copy()
        if self.spec.get('weight'):
            grid = np.array(self.points(), dtype=float)
            for i, point in enumerate(grid):
                measure.distance_matrix[i] += self.spec['weight'] * np.linalg.norm(grid - point, axis=1)
        algorithm = ClusteringFactory(measure).instance(self.clustering_metadata())
        partition = algorithm.partition(SpatioTemporalRegion(self.data.copy('K')))
        self.labels = np.array(partition.as_numpy).astype(int)
        self.medoids = [tuple(p) for p in partition.medoids]
        for c, medoid in enumerate(self.medoids):
            require(self.labels[medoid] == c, 'medoid {} outside its cluster', medoid)
        return self.labels, self.medoids

    def medoid_of(self, point):
        return self.medoids[self.labels[point]]

    def model_forecast(self, medoid, length, whole):
        '''Forecast in the units of the models, by the definition of the model.'''
        key = (medoid, length, whole)
        if key not in self._forecasts:
            series = self.seen[:, medoid[0], medoid[1]]
            training = series[:self.spec['train']]
            if not whole:
                self._forecasts[key] = self.series_forecast(training, length)
            elif self.spec.get('refit'):
                # what training found is refitted, if it found something
                self._forecasts[key] = np.full(length, math.nan) if m02.fails(self.spec['rule'], training) else \
                    self.series_forecast(series, length, self.spec['params'] + len(training))
            else:
                self._forecasts[key] = self.series_forecast(series, length)
        return self._forecasts[key]

    def series_forecast(self, series, length, params=None):
        kind, params = self.spec['trainer'], self.spec['params'] if params is None else params
        if kind == 'harness':
            if m02.fails(self.spec['rule'], series):
                return np.full(length, math.nan)
            return m02.expected_forecast(params, tuple(float(v) for v in series), length)
        if kind == 'mean':
            past = [float(v) for v in series][-min(params, len(series)):]
            return np.full(length, math.fsum(past) / len(past))
        if kind == 'knn':
            from spta.model.knn import predict_future_values_with_knn
            return predict_future_values_with_knn(np.array(series), params, length, self.knn_distance())
        return m04.reference_fit(series, params).forecast(length)

    def forecast(self, point, length, whole):
        '''Forecast at the point in original units.'''
        values = np.array(self.model_forecast(self.medoid_of(point), length, whole))
        if self.spec['scaled']:
            values = self.mins[point] + values * (self.maxs[point] - self.mins[point])
        return values

    def test_series(self, point):
        return self.data[self.spec['train']:, point[0], point[1]]

    def error(self, point):
        return m05.reference(self.spec['error'], self.forecast(point, self.spec['test'], False), self.test_series(point),
                             self.data[:self.spec['train'], point[0], point[1]])

    def distance_units(self):
        return self.seen


def make_clustering(spec):
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.clustering.regular import RegularClusteringMetadata
    if spec['kind'] == 'regular':
        return RegularClusteringMetadata(spec['k'])
    return KmedoidsClusteringMetadata(spec['k'], random_seed=spec['seed'], mode=spec['mode'], verbose=False)


def close(got, want):
    return gen.same(got, want, 1e-6, 1e-7)


def tag(spec, ctx):
    ctx.tag(spec['trainer'], spec['clustering']['kind'], 'k:{}'.format(spec['clustering']['k']),
            'scaled' if spec['scaled'] else 'unscaled', spec['error'])
