'''S02: the answer for a rectangle is the restriction of the whole answer.'''
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, solve
from ..core import Sub, require, scratch_dir

RULE = ('trained solvers as in S01 (all models, scaled or not, offsets, k-medoids and regular) asked 2..6 queries in a row: any '
        'rectangle, in-sample or 1..4 samples into the future, some drawn as figures, the whole region among them; '
        'non-trivial: a rectangle other than the whole region that meets at least two clusters')
ASSUMPTIONS = ['rectangles lie within the region and are not empty, in coordinates relative to the region',
               'the clustering and the models are those of S01']


@st.composite
def spec(draw):
    one = draw(solve.solver_spec())
    x_len, y_len = one['shape']
    query = st.tuples(gen.rectangle(x_len, y_len) | gen.large_rectangle(x_len, y_len), st.sampled_from([0, 2, 0, 3, 1, 4])).map(list)
    one['queries'] = draw(st.lists(query, min_size=1, max_size=4)) + [[[0, x_len, 0, y_len], draw(st.sampled_from([0, 2]))]]
    one['order'] = draw(st.permutations(range(len(one['queries']))))
    one['plot'] = draw(st.sampled_from([-1] * 11 + [0]))
    return one


def check_answer(world, result, rectangle, future, what):
    from spta.region import Point
    x1, x2, y1, y2 = rectangle
    length = future or world.spec['test']
    want_points = [(x, y) for x in range(x2 - x1) for y in range(y2 - y1)]
    seen = [tuple(p) for p in result]
    require(seen == want_points, '{}: answers at {}', what, seen)
    for x, y in want_points:
        place = (x + x1, y + y1)
        want = world.forecast(place, length, bool(future))
        got = result.prediction_forecast_at(Point(x, y))
        require(len(got) == length, '{}: forecast of {} samples instead of {}', what, len(got), length)
        require(solve.close(got, want), '{}: forecast at {} is {} instead of {}', what, place, got, want)
        error = result.prediction_error_at(Point(x, y))
        require(solve.close(error, world.error(place)), '{}: error at {} is {} instead of {}', what, place, error,
                world.error(place))
        if not future:
            test = result.decorated.prediction_test_at(Point(x, y))
            require(solve.close(test, world.test_series(place)), '{}: observed {} at {} instead of {}', what, test, place,
                    world.test_series(place))
    return len({world.labels[x, y] for x in range(x1, x2) for y in range(y1, y2)})


def run(spec, ctx):
    from spta.region import Region
    with scratch_dir():
        world = solve.World(spec)
        labels, _ = world.find_partition()
        solver = world.solver_trainer().train('results')
        before = [np.array(solver.partition.as_numpy, copy=True), np.array(solver.generalization_errors.as_numpy, copy=True)]
        mixed = False
        for turn, index in enumerate(spec['order']):
            rectangle, future = spec['queries'][index]
            what = 'query {} for {} with {} samples'.format(turn + 1, rectangle, future)
            region = Region(*rectangle)
            result = solver.predict(region, future, output_home='results', plot=index == spec['plot'])
            require(tuple(region) == tuple(rectangle), '{}: the rectangle was modified', what)
            clusters = check_answer(world, result, rectangle, future, what)
            whole = rectangle == [0, world.x_len, 0, world.y_len]
            mixed = mixed or (clusters >= 2 and not whole)
            ctx.tag('in-sample' if not future else 'future', 'whole' if whole else 'part')
            if index == spec['plot']:
                ctx.tag('figure')
                figures = [f for _, _, files in os.walk('results') for f in files if f.endswith('.pdf') and f.startswith('query')]
                require(len(figures) >= 1, '{}: no figure', what)
        require(gen.exact(solver.partition.as_numpy, before[0]), 'the queries modified the partition')
        require(gen.exact(solver.generalization_errors.as_numpy, before[1]), 'the queries modified the errors')
    ctx.nontrivial(mixed)
    solve.tag(spec, ctx)


SUBS = [Sub('queries', spec, run, quick=240, thorough=6000, shards=(6, 8))]
