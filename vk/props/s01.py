'''S01: a trained solver uses the model of the medoid of each point.'''
import numpy as np

from .. import regions, solve
from ..core import Sub, require, scratch_dir
from . import m02

RULE = ('regions of 5..12 points at different corners of the dataset, scaled or not, arbitrary distance matrices, k-medoids and '
        'regular clusterings with 1..4 clusters, test lengths 1..4, all error types, and four kinds of models (a harness model '
        'that remembers what it was trained with and fails for some series, past mean, nearest neighbours, ARIMA); '
        'non-trivial: at least two clusters, one of them with a point that is not its medoid')
ASSUMPTIONS = ['the clustering itself is right (C01, P03): the reference runs it on the raw data and the stored distances',
               'ARIMA is trusted numerically: the reference calls statsmodels']


def run(spec, ctx):
    from spta.region import Point
    with scratch_dir():
        world = solve.World(spec)
        labels, medoids = world.find_partition()
        solver = world.solver_trainer().train('results')
        training_calls = [c for c in world.calls if len(c) == spec['train']]
        calls = list(world.calls)
        require(np.array_equal(np.array(solver.partition.as_numpy), labels), 'partition {} instead of {}',
                np.array(solver.partition.as_numpy).tolist(), labels.tolist())
        require([tuple(p) for p in solver.partition.medoids] == medoids, 'medoids {} instead of {}', solver.partition.medoids,
                medoids)
        if spec['trainer'] == 'harness':
            at_medoids = sorted(tuple(world.seen[:spec['train'], x, y]) for x, y in medoids)
            require(solve.close(np.array(sorted(training_calls)), np.array(at_medoids)),
                    'trained with {} series before testing, with {} medoids', len(training_calls), len(medoids))
            at_medoids = [tuple(world.seen[:, x, y]) for x, y in medoids
                          if not (spec['refit'] and m02.fails(spec['rule'], world.seen[:spec['train'], x, y]))]
            for series in at_medoids:
                require(any(len(c) == len(series) and solve.close(c, series) for c in calls),
                        'no medoid was refitted on its complete series')
        region = world.region_metadata.create_instance()
        points = world.points()
        lengths = sorted({1, spec['test'], 3})
        for models, whole, what in ((solver.model_region_training, False, 'training-time model'),
                                    (solver.model_region_whole, True, 'refitted model')):
            require(tuple(models.as_numpy.shape) == (world.x_len, world.y_len), '{}: shape {}', what, models.as_numpy.shape)
            for length in lengths:
                forecast = models.apply_to(region.empty_region_2d(), length)
                require(tuple(forecast.shape) == (length, world.x_len, world.y_len), '{}: forecast of shape {}', what,
                        forecast.shape)
                for p in points:
                    got, want = forecast.series_at(Point(*p)), world.model_forecast(world.medoid_of(p), length, whole)
                    require(solve.close(got, want), '{} at {} forecasts {} instead of {} (medoid {})', what, p, got, want,
                            world.medoid_of(p))
        seen = regions.list_pairs(solver.generalization_errors)
        require([tuple(p) for p, _ in seen] == points, 'errors at {}', [tuple(p) for p, _ in seen])
        for p, got in seen:
            want = world.error(tuple(p))
            require(solve.close(got, want), '{} at {} is {} instead of {} (medoid {})', spec['error'], tuple(p), got, want,
                    world.medoid_of(tuple(p)))
    sizes = np.bincount(labels.reshape(-1))
    ctx.nontrivial(len(medoids) >= 2 and sizes.max() >= 2)
    solve.tag(spec, ctx)
    ctx.tag('offset' if spec['corner'] != [0, 0] else 'corner at origin')


SUBS = [Sub('train', solve.solver_spec, run, quick=240, thorough=6000, shards=(6, 8))]
