'''M02: one model per point, missing models stay missing.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require, must_raise

RULE = ('regions and clusters (plain and scaled) up to 5x5 points, trained with constant parameters or with different '
        'parameters at each point, everywhere or at 0..n representatives, where training fails at an arbitrary set of '
        'points; a harness model remembers its parameters and training series and forecasts from both; non-trivial: at '
        'least two points with a model and one without')
ASSUMPTIONS = ['training failures are reported by the model-specific training function as None']


def fails(rule, series):
    '''Which series cannot be trained: decided by the content, as in reality.'''
    if rule == 'never':
        return False
    if rule == 'always':
        return True
    return int(round(float(np.nansum(series)) * 16)) % 3 == 0


def make_trainer_class(rule, calls, numbered=False):
    '''numbered: the models are plain numbers, the first one 0, as the mean of a series can be'''
    made = []
    from spta.model.base import ModelRegion
    from spta.model.train import ModelTrainer

    class HarnessModels(ModelRegion):
        def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
            model = made[model_at_point] if numbered else model_at_point
            return expected_forecast(model[0], model[1], forecast_len)

        def instance(self, model_numpy_array):
            return HarnessModels(model_numpy_array)

    class HarnessTrainer(ModelTrainer):
        def training_function(self, model_params, training_series):
            calls.append(tuple(training_series))
            if fails(rule, training_series):
                return None
            model = (model_params, tuple(float(v) for v in training_series))
            made.append(model)
            return len(made) - 1 if numbered else model

        def create_model_region(self, numpy_model_array):
            models = HarnessModels(numpy_model_array)
            models.missing_count = self.missing_count
            return models

    HarnessTrainer.made = made
    return HarnessTrainer


def expected_forecast(params, series, forecast_len):
    return np.array([params * 1000.0 + sum(series) + i * (len(series) + params) for i in range(forecast_len)])


@st.composite
def train_spec(draw):
    spec = draw(regions.chain_spec(['time'], t=(1, 5)))
    t, x_len, y_len = spec['cube']['shape']
    n = x_len * y_len
    spec['rule'] = draw(st.sampled_from(['some', 'some', 'some', 'never', 'always']))
    spec['by_point'] = draw(st.booleans())
    spec['numbered'] = draw(st.booleans())
    spec['params'] = draw(st.lists(st.integers(0, 40), min_size=n, max_size=n))
    spec['mode'] = draw(st.sampled_from(['all', 'representatives', 'representatives', 'refit', 'ready']))
    spec['representatives'] = draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True))
    spec['forecasts'] = draw(st.lists(st.integers(1, 9), min_size=1, max_size=3))
    spec['ops'] = []
    return spec


def run_train(spec, ctx):
    from spta.model.train import NoTrainer, TrainAtRepresentatives
    from spta.region import Point
    from spta.region.spatial import SpatialRegion
    real, model = regions.build(spec)
    t, x_len, y_len = model.shape
    points = model.points()
    calls = []
    trainer_class = make_trainer_class(spec['rule'], calls, spec['numbered'])
    if spec['by_point']:
        params = {(x, y): spec['params'][x * y_len + y] for x, y in gen.points_of(x_len, y_len)}
        grid = np.empty((x_len, y_len), dtype=object)
        for x, y in params:
            grid[x, y] = params[x, y]
        params_region = SpatialRegion(grid)
        if model.labels is not None:
            # parameters known only for the members
            params_region = real.empty_region_2d().new_spatial_region(grid)
        trainer = trainer_class(model_params_region=params_region)
    else:
        params = {(x, y): spec['params'][0] for x, y in gen.points_of(x_len, y_len)}
        trainer = trainer_class(model_params_and_shape=(spec['params'][0], x_len, y_len))
    require(trainer.missing_count == 0, 'missing models before training: {}', trainer.missing_count)

    allowed = set(points)
    if spec['mode'] == 'representatives':
        representatives = [(i // y_len, i % y_len) for i in spec['representatives']]
        allowed &= set(representatives)
        user = TrainAtRepresentatives(trainer, [Point(x, y) for x, y in representatives])
    else:
        user = trainer
    before = np.array(real.as_numpy, copy=True)
    models = user.apply_to(real)
    if spec['mode'] == 'refit':
        # the default refitter trains again with the same parameters, here on other data
        refitter = trainer.create_refitter(models)
        flipped = model.copy(data=-model.data[::-1])
        other = real.new_spatio_temporal_region(flipped.data.copy('K'))
        models = refitter.apply_to(other)
        model, real, user = flipped, other, refitter
        before = np.array(real.as_numpy, copy=True)
    elif spec['mode'] == 'ready':
        ready = NoTrainer(models)
        require(ready.apply_to(real) is models, 'ready models are not the given ones')
    require(gen.exact(before, real.as_numpy), 'training modified the region')

    series = {(x, y): tuple(float(v) for v in model.data[:, x, y]) for x, y in points}
    expected = {p: None if p not in allowed or fails(spec['rule'], series[p]) else (params[p], series[p])
                for p in points}
    for p in points:
        got = models.value_at(Point(*p))
        if expected[p] is None:
            require(got is None, 'a model {} at {}, where there must be none', got, p)
        else:
            require(got is not None, 'no model at {}', p)
            got = trainer_class.made[got] if spec['numbered'] else got
            require(got[0] == expected[p][0] and gen.same(got[1], expected[p][1]),
                    'the model at {} is {} instead of {}', p, got, expected[p])
    missing = sum(1 for p in points if expected[p] is None)
    require(user.missing_count == missing, 'missing_count {} instead of {}', user.missing_count, missing)
    require(models.missing_count == missing, 'missing_count of the models {} instead of {}', models.missing_count, missing)
    if spec['mode'] == 'representatives':
        require(len(calls) == len(allowed), 'trained {} times for {} representatives', len(calls), len(allowed))

    for length in spec['forecasts']:
        for domain in (real.empty_region_2d(), real):
            forecast = models.apply_to(domain, length)
            require(tuple(forecast.shape) == (length, x_len, y_len), 'shape {} for length {}', forecast.shape, length)
            seen = regions.list_pairs(forecast)
            require([(p.x, p.y) for p, _ in seen] == points, 'forecasts for the points {}', [tuple(p) for p, _ in seen])
            for p, got in seen:
                want = expected[(p.x, p.y)]
                if want is None:
                    require(len(got) == length and np.all(np.isnan(got)), 'forecast {} without a model at {}', got, p)
                else:
                    require(gen.same(got, expected_forecast(want[0], want[1], length)), 'forecast at {} is {}', p, got)
    with_model = len(points) - missing
    ctx.nontrivial(with_model >= 2 and missing >= 1)
    ctx.tag(spec['mode'], 'params by point' if spec['by_point'] else 'constant params',
            'numbers' if spec['numbered'] else 'objects', 'cluster' if model.labels is not None else 'whole', spec['rule'])


def run_arguments(spec, ctx):
    from spta.region.spatial import SpatialRegion
    x_len, y_len = spec
    trainer_class = make_trainer_class('never', [])
    grid = np.full((x_len, y_len), 3, dtype=object)
    with must_raise(ValueError, 'a trainer without parameters'):
        trainer_class()
    with must_raise(ValueError, 'a trainer with both kinds of parameters'):
        trainer_class(model_params_and_shape=(3, x_len, y_len), model_params_region=SpatialRegion(grid))
    ctx.nontrivial()


SUBS = [Sub('train', train_spec, run_train, quick=2400, thorough=20000, shards=(3, 8)),
        Sub('arguments', lambda: st.tuples(st.integers(1, 4), st.integers(1, 4)).map(list), run_arguments, quick=10,
            thorough=10, shards=(1, 1))]
