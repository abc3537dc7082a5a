'''M07: the forecast analysis.'''
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, must_raise, require, scratch_dir
from .m02 import fails, make_trainer_class
from .m05 import TYPES, reference, usable
from .m06 import rms

RULE = ('plain, scaled and clustered regions up to 4x4 of 4..11 positive samples with and without a centroid, past-mean, '
        'nearest-neighbour and sometimes failing models, all types of error, serial and parallel, one analysis object used for one or '
        'two regions; non-trivial: at least three points with different overall errors')
ASSUMPTIONS = ['forecast length = test length (documented)', 'at least one point has a model',
               'the local minimum is a point whose own error is the smallest, up to rounding']


def harness_forecast(series, length):
    '''Positive, and particular to the series.'''
    return [0.5 * (series[-1] + series[(i * 3) % len(series)]) for i in range(length)]


def make_failing_trainer(rule, x_len, y_len):
    from spta.model.base import ModelRegion
    from spta.model.train import ModelTrainer

    class Models(ModelRegion):
        def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
            return np.array(harness_forecast(model_at_point, forecast_len))

        def instance(self, model_numpy_array):
            return Models(model_numpy_array)

    class Trainer(ModelTrainer):
        def training_function(self, model_params, training_series):
            if fails(rule, training_series):
                return None
            return [float(v) for v in training_series]

        def create_model_region(self, numpy_model_array):
            return Models(numpy_model_array)

    return Trainer(model_params_and_shape=(1, x_len, y_len))


@st.composite
def one_region(draw, x_len, y_len):
    n = x_len * y_len
    test = draw(st.sampled_from([2, 1, 3, 4]))
    t = test + draw(st.sampled_from([4, 3, 7]))
    spec = dict(cube=dict(shape=[t, x_len, y_len], values=draw(gen.grid_values(t * n, ('temperature', 'positive')))),
                test=test, scaled=draw(st.sampled_from([False, True])), centroid=draw(st.sampled_from([True, False])),
                centroid_at=draw(st.integers(0, 1000)), kind=draw(st.sampled_from(TYPES)), ops=[])
    spec['factors'] = [1.0 + b / 16.0 for b in draw(gen.noise(n))]
    if draw(st.booleans()):
        spec['labels'] = draw(gen.labels(n, max_k=3))
        spec['cluster'] = draw(st.integers(0, spec['labels']['k'] - 1))
    spec['probe'] = draw(st.integers(0, 1000))
    spec['probe_first'] = draw(st.booleans())
    return spec


@st.composite
def analysis_spec(draw, workers=None):
    x_len, y_len = draw(st.sampled_from([[2, 3], [3, 2], [1, 3], [4, 3], [3, 4], [1, 1], [4, 4]]))
    return dict(regions=draw(st.lists(one_region(x_len, y_len), min_size=1, max_size=2)),
                trainer=draw(st.sampled_from(['mean', 'knn', 'failing', 'failing'])), past=draw(st.integers(1, 6)),
                workers=None if workers is None else draw(st.sampled_from(workers)))


def build_region(spec):
    t, x_len, y_len = spec['cube']['shape']
    data = gen.array(spec['cube']) * np.array(spec['factors']).reshape(x_len, y_len)
    real, model = regions.build(dict(spec, cube=dict(shape=spec['cube']['shape'], values=[float(v) for v in data.reshape(-1)])))
    return real, model, data


def make_trainer(spec, x_len, y_len):
    from spta.distance.rmse import DistanceByRMSE
    from spta.model.knn import KNNParams, TrainerKNN
    from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
    if spec['trainer'] == 'mean':
        return TrainerMeanOfPast(MeanOfPastParams(spec['past']), x_len, y_len)
    if spec['trainer'] == 'knn':
        return TrainerKNN(KNNParams(1, DistanceByRMSE()), x_len, y_len)
    return make_failing_trainer('some', x_len, y_len)


def own_forecast(spec, series, length):
    '''Forecast of the model of this training series, or None.'''
    from spta.distance.rmse import DistanceByRMSE
    from spta.model.knn import predict_future_values_with_knn
    if spec['trainer'] == 'mean':
        past = [float(v) for v in series][-min(spec['past'], len(series)):]
        return [math.fsum(past) / len(past)] * length
    if spec['trainer'] == 'knn':
        # its definition is decided by M03
        return list(predict_future_values_with_knn(np.array(series), 1, length, DistanceByRMSE()))
    if fails('some', series):
        return None
    return harness_forecast([float(v) for v in series], length)


def close(a, b):
    return gen.same(a, b, 1e-6, 1e-7)


def refused(analysis, length, what):
    from spta.region import Point
    for name, ask in (('each point', lambda: analysis.forecast_at_each_point(length, 'MSE')),
                      ('all models', lambda: analysis.forecast_whole_region_with_all_models(length, 'MSE')),
                      ('a single model', lambda: analysis.forecast_whole_region_with_single_model(Point(0, 0), length, 'MSE'))):
        with must_raise((ValueError, AssertionError), 'a forecast with {} {}'.format(name, what)):
            ask()


def run_analysis(spec, ctx):
    from spta.model.forecast import ForecastAnalysis
    from spta.region import Point
    _, x_len, y_len = spec['regions'][0]['cube']['shape']
    analysis = ForecastAnalysis(make_trainer(spec, x_len, y_len), spec['workers'])
    refused(analysis, 1, 'before any model was trained')
    done = 0
    for region_spec in spec['regions']:
        real, model, data = build_region(region_spec)
        points = model.points()
        test, kind = region_spec['test'], region_spec['kind']
        t = model.shape[0]
        if spec['trainer'] == 'knn' and t - test < test + 1:
            continue
        if not points or not usable(kind, data[:t - test], points):
            continue
        forecasts = {p: own_forecast(spec, model.data[:t - test, p[0], p[1]], test) for p in points}
        if all(f is None for f in forecasts.values()):
            continue
        mins, span = np.zeros((x_len, y_len)), np.ones((x_len, y_len))
        if model.mins is not None:
            mins, span = model.mins, model.maxs - model.mins

        def error(forecast, p):
            if forecast is None:
                return math.nan
            return reference(kind, mins[p] + np.array(forecast) * span[p], data[t - test:, p[0], p[1]],
                             data[:t - test, p[0], p[1]])

        local = {p: error(forecasts[p], p) for p in points}
        overall = {p: rms([error(forecasts[p], q) for q in points]) if forecasts[p] is not None else math.nan
                   for p in points}
        known = [p for p in points if not math.isnan(local[p])]
        if not known:
            continue

        if region_spec['centroid']:
            centroid = points[region_spec['centroid_at'] % len(points)]
            if region_spec['scaled'] and not region_spec.get('labels') and region_spec['centroid_at'] % 2:
                # known by the region that is decorated with the scaling
                real.decorated_region.centroid = Point(*centroid)
                ctx.tag('centroid of decorated region')
            else:
                real.centroid = Point(*centroid)
        before = np.array(real.as_numpy, copy=True)
        probe = points[region_spec['probe'] % len(points)]

        def check_single():
            if forecasts[probe] is None:
                return
            errors = analysis.forecast_whole_region_with_single_model(Point(*probe), test, kind)
            seen = regions.list_pairs(errors)
            require([(p.x, p.y) for p, _ in seen] == points, 'single model: points {}', [tuple(p) for p, _ in seen])
            for p, got in seen:
                require(close(got, error(forecasts[probe], (p.x, p.y))), '{} at {} with the model of {} is {} instead of {}', kind,
                        tuple(p), probe, got, error(forecasts[probe], (p.x, p.y)))

        if region_spec['probe_first']:
            # the models of this region, whatever the analysis did before
            models = analysis.train_models(real, test)
            for p in points:
                require((models.value_at(Point(*p)) is None) == (forecasts[p] is None), 'model at {}', p)
            check_single()
        errors, forecast_time, compute_time = analysis.analyze_errors(real, kind, test)
        require(close(errors.each, rms(local.values())), 'each: {} instead of {}', errors.each, rms(local.values()))
        values = [overall[p] for p in known]
        require(close(errors.minimum, min(values)), 'minimum: {} instead of {}', errors.minimum, min(values))
        require(close(errors.maximum, max(values)), 'maximum: {} instead of {}', errors.maximum, max(values))
        best = min(local[p] for p in known)
        candidates = [p for p in known if local[p] <= best * (1 + 1e-7) + 1e-9]
        require(any(close(errors.min_local, overall[p]) for p in candidates), 'local minimum: {} instead of {} at {}',
                errors.min_local, [overall[p] for p in candidates], candidates)
        if region_spec['centroid']:
            require(close(errors.centroid, overall[centroid]), 'centroid {}: {} instead of {}', centroid, errors.centroid,
                    overall[centroid])
        else:
            require(math.isnan(errors.centroid), 'without a centroid, its error is {}', errors.centroid)
        require(0 <= forecast_time <= compute_time, 'times {} and {}', forecast_time, compute_time)

        refused(analysis, test + 1 + region_spec['probe'] % 2, 'of another length')
        if test > 1:
            refused(analysis, test - 1, 'of another length')
        forecast, error_region, _ = analysis.forecast_at_each_point(test, kind)
        seen = regions.list_pairs(forecast)
        require([(p.x, p.y) for p, _ in seen] == points, 'forecast at points {}', [tuple(p) for p, _ in seen])
        for p, got in seen:
            want = forecasts[(p.x, p.y)]
            require(close(got, [math.nan] * test if want is None else want), 'forecast at {} is {} instead of {}', tuple(p), got,
                    want)
        for p, got in regions.list_pairs(error_region):
            require(close(got, local[(p.x, p.y)]), 'error at {} is {} instead of {}', tuple(p), got, local[(p.x, p.y)])
        whole = analysis.forecast_whole_region_with_all_models(test, kind)
        for p, got in regions.list_pairs(whole):
            require(close(got, overall[(p.x, p.y)]), 'overall error with the model of {} is {} instead of {}', tuple(p), got,
                    overall[(p.x, p.y)])
        check_single()
        require(gen.exact(before, real.as_numpy), 'the analysis modified the region')
        done += 1
        ctx.nontrivial(len(set(round(v, 7) for v in values)) >= 3)
        ctx.tag(kind, 'scaled' if model.mins is not None else 'unscaled', 'cluster' if model.labels is not None else 'whole',
                'centroid' if region_spec['centroid'] else 'no centroid',
                'missing models' if len(known) < len(points) else 'all models')
    ctx.tag('regions:{}'.format(done), spec['trainer'], 'workers:{}'.format(spec['workers']))


def run_parallel(spec, ctx):
    with scratch_dir():
        run_analysis(spec, ctx)


SUBS = [Sub('serial', analysis_spec, run_analysis, quick=500, thorough=10000, shards=(4, 8)),
        Sub('parallel', lambda: analysis_spec(workers=[2, 3]), run_parallel, quick=40, thorough=600, shards=(3, 4))]
