'''M06: overall errors.'''
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require, must_raise, scratch_dir
from .m05 import reference, region_spec, setup_regions, usable

RULE = ('error grids up to 6x6 with missing and infinite errors, whole and clustered, and forecast regions (plain and scaled, whole and '
        'clustered, with missing forecasts) whose every series is used for the whole region, serially and with 1..5 '
        'workers; non-trivial: at least two points with different known errors')
ASSUMPTIONS = ['the forecasts are in the units of the observations', 'OS schedules of the worker processes are sampled by repetition']


def rms(values):
    known = [float(v) for v in values if not math.isnan(v)]
    if any(math.isinf(v) for v in known):
        return math.inf
    return math.sqrt(math.fsum(v * v for v in known) / len(known)) if known else math.nan


@st.composite
def overall_spec(draw):
    sheet = draw(gen.sheet(nan=4))
    n = sheet['shape'][0] * sheet['shape'][1]
    spec = dict(sheet=sheet, all_missing=draw(st.sampled_from([False] * 9 + [True])))
    if draw(st.booleans()):
        spec['labels'] = draw(gen.labels(n))
        spec['cluster'] = draw(st.integers(0, spec['labels']['k'] - 1))
    # a scaled error over a constant training series
    spec['infinite'] = draw(st.sampled_from([None] * 5 + [draw(st.integers(0, n - 1))]))
    return spec


def run_overall(spec, ctx):
    from spta.model.error import ErrorRegion
    from spta.region.spatial import SpatialCluster, SpatialRegion
    values = gen.array(spec['sheet'])
    if spec['all_missing']:
        values = np.full(values.shape, np.nan)
    x_len, y_len = values.shape
    if spec['infinite'] is not None:
        values[divmod(spec['infinite'], y_len)] = np.inf
    region = SpatialRegion(values.copy('K'))
    own = gen.points_of(x_len, y_len)
    if spec.get('labels'):
        region = SpatialCluster(region, gen.build_partition(spec['labels'], x_len, y_len), spec['cluster'])
        own = gen.members(spec['labels']['labels'], y_len, spec['cluster'])
    if not own:
        return
    errors = ErrorRegion(region)
    want = rms([values[p] for p in own])
    for turn in range(2):
        got = errors.overall_error
        require(gen.same(got, want), 'overall error {} instead of {} (time {})', got, want, turn + 1)
    require(gen.exact(errors.as_numpy, values), 'the errors were modified')
    known = set(values[p] for p in own if not math.isnan(values[p]))
    ctx.nontrivial(len(known) >= 2)
    ctx.tag('cluster' if spec.get('labels') else 'whole', 'missing' if any(math.isnan(values[p]) for p in own) else 'complete')


@st.composite
def each_spec(draw):
    spec = draw(region_spec())
    spec['setting'] = 'plain' if spec['setting'] == 'plain' else 'scaled'
    return spec


def expected_overall(spec, kind, forecast, true_observation, true_training, points):
    '''{point: overall error of its forecast used everywhere}'''
    mins, span = np.zeros(true_observation.shape[1:]), np.ones(true_observation.shape[1:])
    if spec['setting'] == 'scaled':
        whole = np.concatenate([true_training, true_observation])
        mins, span = whole.min(axis=0), whole.max(axis=0) - whole.min(axis=0)
    from spta.region import Point
    result = {}
    for x, y in points:
        given = np.array(forecast.series_at(Point(x, y)))
        result[(x, y)] = rms([reference(kind, mins[p] + given * span[p], true_observation[:, p[0], p[1]],
                                        true_training[:, p[0], p[1]]) for p in points])
    return result


def check_each(spec, ctx, workers):
    from spta.model.error import ErrorAnalysis, OverallErrorForEachForecast
    from spta.region import Point
    observation, training, forecast, true_observation, true_training, _, points = setup_regions(spec)
    kind = spec['kind']
    if not points or not usable(kind, true_training, points):
        ctx.tag('unusable')
        return
    with_training = spec['training'] or kind == 'MASE'
    given_training = training if with_training else None
    wants = expected_overall(spec, kind, forecast, true_observation, true_training, points)
    before = [np.array(r.as_numpy, copy=True) for r in (observation, training, forecast)]
    results = [OverallErrorForEachForecast(kind, observation, given_training, workers).apply_to(forecast)]
    if not workers:
        analysis = ErrorAnalysis(observation, given_training)
        results.append(analysis.overall_with_each_forecast(forecast, kind))
        for x, y in points:
            series = forecast.series_at(Point(x, y))
            if not np.all(np.isnan(series)):
                single = analysis.with_repeated_forecast(series, kind).overall_error
                require(gen.same(single, wants[(x, y)], 1e-6, 1e-7), '{}: the forecast of {} repeated has overall error {} instead '
                        'of {}', kind, (x, y), single, wants[(x, y)])
    else:
        results.append(ErrorAnalysis(observation, given_training, workers).overall_with_each_forecast(forecast, kind))
    for overall in results:
        seen = regions.list_pairs(overall)
        require([(p.x, p.y) for p, _ in seen] == points, 'overall errors at {} instead of {}', [tuple(p) for p, _ in seen], points)
        for p, got in seen:
            want = wants[(p.x, p.y)]
            require(gen.same(got, want, 1e-6, 1e-7), '{}: overall error with the forecast of {} is {} instead of {} ({} workers)',
                    kind, tuple(p), got, want, workers)
            require(gen.same(overall.value_at(p), want, 1e-6, 1e-7), '{}: value at {}', kind, tuple(p))
    for region, old in zip((observation, training, forecast), before):
        require(gen.exact(region.as_numpy, old), 'an input region was modified')
    ctx.nontrivial(len(set(round(v, 9) for v in wants.values() if not math.isnan(v))) >= 2)
    ctx.tag(kind, spec['setting'], 'cluster' if spec.get('labels') else 'whole', 'workers:{}'.format(workers),
            'missing' if any(math.isnan(v) for v in wants.values()) else 'complete')


def run_each(spec, ctx):
    from spta.model.error import get_overall_error_func
    check_each(spec, ctx, None)
    with must_raise(ValueError, 'an unknown type of error'):
        get_overall_error_func('RMSLE')


@st.composite
def parallel_spec(draw):
    spec = draw(each_spec())
    spec['workers'] = draw(st.sampled_from([2, 3, 1, 5]))
    return spec


def run_parallel(spec, ctx):
    with scratch_dir():
        check_each(spec, ctx, spec['workers'])


SUBS = [Sub('overall', overall_spec, run_overall, quick=500, thorough=10000, shards=(1, 4)),
        Sub('each forecast', each_spec, run_each, quick=500, thorough=10000, shards=(4, 8)),
        Sub('parallel', parallel_spec, run_parallel, quick=60, thorough=1000, shards=(3, 4))]
