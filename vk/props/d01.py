'''D01: the distances between series satisfy their definitions and laws.'''
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, series
from ..core import Sub, require

RULE = ('2..6 series of equal length 1..10 (ties, fine and temperature-like values, missing samples in some), all pairs '
        'measured with both distances, plus pairs of different lengths for the warping distance; non-trivial: two '
        'different series of length >= 3')
ASSUMPTIONS = ['finite values of ordinary magnitude; missing samples are NaN']


@st.composite
def spec(draw):
    length = draw(st.sampled_from([3, 4, 6, 10, 5, 2, 1]))
    count = draw(st.integers(2, 6))
    rows = draw(series.many(count, length, kinds=('coarse', 'fine', 'temperature', 'nearly', 'tiny')))
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        # one missing sample, or all from it on
        row, start = draw(st.integers(0, count - 1)), draw(st.integers(0, length - 1))
        rows[row][start:] = [math.nan] * (length - start) if draw(st.booleans()) else [math.nan] + rows[row][start + 1:]
    distances = draw(gen.grid_values(draw(st.integers(1, 8)), ('positive', 'fine')))
    return dict(rows=rows, other=draw(series.one(1, 9)), distances=distances, as_list=draw(st.booleans()),
                lost=draw(st.lists(st.integers(0, len(distances) - 1), max_size=len(distances) - 1)))


def close(a, b):
    return abs(a - b) <= 1e-7 * abs(b)


def run(spec, ctx):
    from spta.distance.dtw import DistanceByDTW
    from spta.distance.rmse import DistanceByRMSE
    rows = [np.array(r) for r in spec['rows']]
    dtw, rmse = DistanceByDTW(), DistanceByRMSE()
    saved = [r.copy() for r in rows]
    for i, a in enumerate(rows):
        missing_a = bool(np.isnan(a).any())
        for j, b in enumerate(rows):
            missing = missing_a or bool(np.isnan(b).any())
            for name, measure in (('warping', dtw), ('mean square', rmse)):
                d = measure.measure(list(a) if spec['as_list'] else a, list(b) if spec['as_list'] else b)
                what = '{} distance of {} and {}'.format(name, a.tolist(), b.tolist())
                if missing:
                    require(np.isnan(d), '{} is {}, one of them is missing', what, d)
                    continue
                want = math.sqrt(series.dtw_squared(a, b)) if measure is dtw else \
                    math.sqrt(sum((u - v) ** 2 for u, v in zip(a.tolist(), b.tolist())) / len(a))
                require(close(d, want), '{} is {} instead of {}', what, d, want)
                require(d >= 0, '{} is negative', what)
                require(close(measure.measure(b, a), d), '{} is not symmetric', what)
                if i == j or np.array_equal(a, b):
                    require(d == 0, '{} is not zero', what)
    # many against one
    many = dtw.compute_distances_to_a_series(rows[0], rows)
    require(len(many) == len(rows), '{} distances', len(many))
    require(gen.same(many, [dtw.measure(rows[0], r) for r in rows]), 'measuring many against one')
    # different lengths
    a, b = rows[0], np.array(spec['other'])
    if not np.isnan(a).any():
        for u, v in ((a, b), (b, a)):
            d, want = dtw.measure(u, v), math.sqrt(series.dtw_squared(u, v))
            require(close(d, want), 'warping distance of {} and {} is {} instead of {}', u, v, d, want)
    # combination
    distances = [abs(v) for v in spec['distances']]
    for given in (distances, np.array(distances)):
        require(close(float(dtw.combine(given)), sum(distances)), 'combined {} to {}', distances, dtw.combine(given))
        want = math.sqrt(sum(v * v for v in distances) / len(distances))
        require(close(float(rmse.combine(given)), want), 'combined {} to {}', distances, rmse.combine(given))
    # distances that could not be measured do not count in a mean
    partial = [math.nan if i in spec['lost'] else v for i, v in enumerate(distances)]
    left = [v for v in partial if not math.isnan(v)]
    if left:
        want = math.sqrt(sum(v * v for v in left) / len(left))
        require(close(float(rmse.combine(partial)), want), 'combined {} to {}', partial, rmse.combine(partial))
    require(all(gen.exact(r, s) for r, s in zip(rows, saved)), 'the series were modified')
    ctx.nontrivial(len(rows[0]) >= 3 and not np.array_equal(rows[0], rows[1]))
    ctx.tag('missing' if any(np.isnan(r).any() for r in rows) else 'complete', 'length:{}'.format(len(rows[0])))


SUBS = [Sub('laws', spec, run, quick=400, thorough=10000, shards=(3, 8))]
