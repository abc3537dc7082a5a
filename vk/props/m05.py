'''M05: forecast errors, for series and for regions.'''
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, Undefined, require, must_raise
from . import r02

RULE = ('pairs of series of 1..12 positive values with training series of 2..20 values, perfect, missing and partly missing '
        'forecasts, and plain, scaled and clustered regions up to 5x5 whose points have their own ranges, with and without a '
        'training region; non-trivial: a forecast that differs from the observation, for regions at two points or more')
ASSUMPTIONS = ['observations and forecasts are positive for the percentage error (temperatures in Kelvin)',
               'the training series changes at least once for the scaled error',
               'a partly missing forecast is missing for the scaled and percentage errors and leaves out the missing '
               'samples in the squared error']

TYPES = ['MASE', 'sMAPE', 'MSE']


def reference(kind, forecast, observation, training):
    '''The published formulas, with scalar arithmetic.'''
    pairs = [(float(f), float(o)) for f, o in zip(forecast, observation)]
    if kind == 'MSE':
        known = [(f - o) ** 2 for f, o in pairs if not math.isnan(f - o)]
        return math.fsum(known) / len(known) if known else math.nan
    if any(math.isnan(f) for f, _ in pairs):
        return math.nan
    if kind == 'sMAPE':
        if any(abs(f + o) <= 1e-5 * (abs(f) + abs(o)) for f, o in pairs):
            raise Undefined
        return math.fsum(200.0 * abs(f - o) / (f + o) for f, o in pairs) / len(pairs)
    naive = math.fsum(abs(float(b) - float(a)) for a, b in zip(training, training[1:])) / (len(training) - 1)
    return math.fsum(abs(f - o) for f, o in pairs) / len(pairs) / naive


def varies(training):
    return len(set(float(v) for v in training)) >= 2


@st.composite
def series_spec(draw):
    n = draw(st.sampled_from([4, 1, 2, 8, 12]))
    m = draw(st.sampled_from([6, 2, 3, 10, 20]))
    forecast = draw(gen.grid_values(n, ('positive', 'temperature')))
    observation = draw(gen.grid_values(n, ('positive', 'temperature')))
    training = draw(gen.grid_values(m, ('positive', 'temperature', 'coarse')))
    kind = draw(st.sampled_from(['different', 'different', 'perfect', 'missing', 'part']))
    if kind == 'perfect':
        forecast = list(observation)
    elif kind == 'missing':
        forecast = [math.nan] * n
    elif kind == 'part':
        forecast[draw(st.integers(0, n - 1))] = math.nan
    return dict(kind=kind, forecast=forecast, observation=observation, training=training)


def run_series(spec, ctx):
    from spta.model.error import error_functions, get_error_func
    forecast, observation, training = [np.array(spec[k]) for k in ('forecast', 'observation', 'training')]
    require(sorted(error_functions()) == sorted(TYPES), 'error functions {}', sorted(error_functions()))
    for kind in TYPES:
        if kind == 'MASE' and not varies(training):
            continue
        want = reference(kind, forecast, observation, training)
        got = get_error_func(kind)(forecast, observation, training)
        require(gen.same(got, want, 1e-9, 1e-12), '{} is {} instead of {}', kind, got, want)
        if spec['kind'] == 'perfect':
            require(got == 0, '{} of a perfect forecast is {}', kind, got)
        if spec['kind'] == 'missing':
            require(math.isnan(got), '{} of a missing forecast is {}', kind, got)
    for name in ('forecast', 'observation', 'training'):
        require(gen.exact({'forecast': forecast, 'observation': observation, 'training': training}[name], spec[name]),
                'the {} was modified', name)
    with must_raise(ValueError, 'an unknown type of error'):
        get_error_func('RMSLE')
    ctx.nontrivial(spec['kind'] != 'perfect')
    ctx.tag(spec['kind'], 'varies' if varies(training) else 'constant training')


@st.composite
def region_spec(draw):
    m, n = draw(st.sampled_from([4, 2, 3, 7])), draw(st.sampled_from([2, 1, 3, 5]))
    x_len, y_len = draw(st.sampled_from([2, 3, 1, 4, 5])), draw(st.sampled_from([3, 2, 1, 4, 5]))
    if draw(st.sampled_from([False] * 19 + [True])):
        x_len, y_len = draw(st.sampled_from([[1, 14], [13, 2], [3, 12]]))
    points = x_len * y_len
    spec = dict(cube=dict(shape=[m + n, x_len, y_len], values=draw(gen.grid_values((m + n) * points, ('positive', 'temperature')))),
                test=n, forecast=draw(gen.grid_values(n * points, ('positive', 'temperature'))),
                setting=draw(st.sampled_from(['plain', 'scaled', 'scaled', 'scaled forecast descaled'])),
                missing=draw(st.lists(st.integers(0, points - 1), max_size=3)), ops=[],
                kind=draw(st.sampled_from(TYPES)), training=draw(st.sampled_from([True, True, False])))
    # a different range at each point
    spec['factors'] = [1.0 + b / 16.0 for b in draw(gen.noise(points))]
    if draw(st.booleans()):
        spec['labels'] = draw(gen.labels(points))
        spec['cluster'] = draw(st.integers(0, spec['labels']['k'] - 1))
    spec['repeat'] = draw(st.integers(0, points - 1))
    return spec


def setup_regions(spec):
    '''(observation, training, forecast regions as given to the code, all three in original units, points)'''
    from spta.model.train import SplitTrainingAndTestLast
    t, x_len, y_len = spec['cube']['shape']
    n = spec['test']
    factors = np.array(spec['factors']).reshape(x_len, y_len)
    data = gen.array(spec['cube']) * factors
    inner = dict(spec, cube=dict(shape=spec['cube']['shape'], values=[float(v) for v in data.reshape(-1)]),
                 scaled=spec['setting'] != 'plain')
    real, model = regions.build(inner)
    training, observation = SplitTrainingAndTestLast(n).split(real)
    raw = np.array(spec['forecast']).reshape(n, x_len, y_len) * factors
    for index in spec['missing']:
        raw[:, index // y_len, index % y_len] = np.nan
    if spec['setting'] == 'scaled':
        # given in scaled units: the same value means something else at each point
        span = np.where(model.maxs > model.mins, model.maxs - model.mins, 1.0)
        given = observation.new_spatio_temporal_region((raw - model.mins) / span)
        raw = np.where(model.maxs > model.mins, raw, model.mins + 0.0 * raw)
    elif spec['setting'] == 'plain':
        given = observation.new_spatio_temporal_region(raw.copy('K'))
    else:
        # scaled observations, forecast already in original units
        given = observation.descale().new_spatio_temporal_region(raw.copy('K'))
    return observation, training, given, data[t - n:], data[:t - n], raw, model.points()


def usable(kind, training, points):
    return kind != 'MASE' or (len(training) >= 2 and all(varies(training[:, x, y]) for x, y in points))


def run_region(spec, ctx):
    from spta.model.error import ErrorAnalysis, MeasureForecastingError, get_error_func
    from spta.region import Point
    observation, training, forecast, true_observation, true_training, true_forecast, points = setup_regions(spec)
    kind = spec['kind']
    with_training = spec['training'] or kind == 'MASE'
    if not usable(kind, true_training, points):
        ctx.tag('constant training')
        return
    before = [np.array(r.as_numpy, copy=True) for r in (observation, training, forecast)]
    given_training = training if with_training else None
    regions_of_errors = [
        MeasureForecastingError(get_error_func(kind), observation, given_training).apply_to(forecast),
        ErrorAnalysis(observation, given_training).with_forecast_region(forecast, kind)]
    wants = {p: reference(kind, true_forecast[:, p[0], p[1]], true_observation[:, p[0], p[1]],
                          true_training[:, p[0], p[1]]) for p in points}
    for errors in regions_of_errors:
        for turn in range(2):
            if turn and spec['missing']:
                r02.abandon(errors, spec['repeat'])
            seen = regions.list_pairs(errors)
            require([(p.x, p.y) for p, _ in seen] == points, 'errors at {} instead of {}', [tuple(p) for p, _ in seen], points)
            for p, got in seen:
                require(gen.same(got, wants[(p.x, p.y)], 1e-6, 1e-7), '{} at {} is {} instead of {}', kind, tuple(p), got,
                        wants[(p.x, p.y)])
        for x, y in points:
            require(gen.same(errors.value_at(Point(x, y)), wants[(x, y)], 1e-6, 1e-7), '{} at {} is {} instead of {}', kind,
                    (x, y), errors.value_at(Point(x, y)), wants[(x, y)])
    for region, old in zip((observation, training, forecast), before):
        require(gen.exact(region.as_numpy, old), 'an input region was modified')
    # one series repeated everywhere: in the units of the observations
    if points:
        x, y = points[spec['repeat'] % len(points)]
        repeated = np.array(forecast.series_at(Point(x, y)), copy=True)
        if spec['setting'] == 'scaled forecast descaled':
            repeated = np.linspace(0.2, 0.9, spec['test'])
        errors = ErrorAnalysis(observation, given_training).with_repeated_forecast(repeated, kind)
        mins, span = np.zeros(true_training.shape[1:]), np.ones(true_training.shape[1:])
        if spec['setting'] != 'plain':
            whole = np.concatenate([true_training, true_observation])
            mins, span = whole.min(axis=0), whole.max(axis=0) - whole.min(axis=0)
        for p, got in regions.list_pairs(errors):
            local = mins[p.x, p.y] + repeated * span[p.x, p.y]
            want = reference(kind, local, true_observation[:, p.x, p.y], true_training[:, p.x, p.y])
            require(gen.same(got, want, 1e-6, 1e-7), '{} of a repeated forecast at {} is {} instead of {}', kind, tuple(p), got,
                    want)
    ctx.nontrivial(len(points) >= 2 and any(v > 0 for v in wants.values()))
    ctx.tag(kind, spec['setting'], 'cluster' if spec.get('labels') else 'whole',
            'with training' if with_training else 'without training', 'missing' if spec['missing'] else 'complete')


SUBS = [Sub('formulas', series_spec, run_series, quick=900, thorough=15000, shards=(1, 4)),
        Sub('regions', region_spec, run_region, quick=900, thorough=20000, shards=(4, 8))]
