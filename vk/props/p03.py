'''P03: regular partitioning.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require, must_raise

RULE = ('every region of up to 12 x 12 with every k up to 40 in the quick tier (up to 30 x 30 and 70 in the thorough tier) '
        'in blocks, plus random sizes up to 160 x 160 and k up to 300; non-trivial: k has two factors above 1 that do '
        'not divide the lengths exactly')
ASSUMPTIONS = ['x_len == y_len puts the larger factor on x']


def balanced(k):
    a = int(k ** 0.5) + 1
    while a * a > k or k % a:
        a -= 1
    return a, k // a


def check_one(x_len, y_len, k):
    from spta.region.partition import PartitionRegionCrisp
    small, large = balanced(k)
    dx, dy = (small, large) if x_len < y_len else (large, small)
    what = '{}x{} in {}'.format(x_len, y_len, k)
    if x_len < dx or y_len < dy:
        with must_raise(ValueError, what):
            PartitionRegionCrisp.with_regular_partition(k, x_len, y_len)
        return False
    partition = PartitionRegionCrisp.with_regular_partition(k, x_len, y_len)
    require(partition.k == k, '{}: k is {}', what, partition.k)
    matrix = np.asarray(partition.as_numpy)
    require(matrix.shape == (x_len, y_len), '{}: shape {}', what, matrix.shape)
    # extents along each axis from the first row and column
    columns = [int(v) for v in matrix[0]]
    rows = [int(v) for v in matrix[:, 0]]
    extents_y = [columns.count(j) for j in range(dy)]
    extents_x = [rows.count(i * dy) for i in range(dx)]
    require(sum(extents_y) == y_len and sum(extents_x) == x_len, '{}: labels along the axes {} {}', what, rows, columns)
    require(min(extents_x) > 0 and min(extents_y) > 0, '{}: empty rectangle, extents {} {}', what, extents_x, extents_y)
    want = np.repeat(np.arange(dx), extents_x)[:, None] * dy + np.repeat(np.arange(dy), extents_y)[None, :]
    require(np.array_equal(matrix, want), '{}: labels are not a grid of rectangles numbered row by row', what)
    for extents, length, parts in ((extents_x, x_len, dx), (extents_y, y_len, dy)):
        require(len(set(extents[:-1])) <= 1, '{}: extents {} differ before the last', what, extents)
        if length >= parts * parts:
            require(max(extents) <= 1.5 * length / parts and min(extents) >= 0.5 * length / parts,
                    '{}: extents {} are not balanced', what, extents)
    return bool(small > 1 and (x_len % dx or y_len % dy))


def run_block(spec, ctx):
    hard = 0
    for k in range(1, spec['max_k'] + 1):
        hard += check_one(spec['x'], spec['y'], k)
    ctx.nontrivial(hard >= 1)
    ctx.tag('block')


def run_random(spec, ctx):
    ctx.nontrivial(check_one(*spec['args']))
    ctx.tag('random')


def random_spec():
    return st.one_of(st.tuples(st.integers(1, 160), st.integers(1, 160), st.integers(1, 300)),
                     st.tuples(st.integers(2, 60), st.integers(2, 60), st.integers(2, 12).flatmap(
                         lambda a: st.integers(2, 12).map(lambda b: a * b)))).map(lambda t: dict(args=list(t)))


SUBS = [
    Sub('every-small', lambda: st.builds(lambda x, y: dict(x=x, y=y, max_k=70), st.integers(13, 45),
                                         st.integers(13, 45)), run_block,
        quick=100, thorough=1000, shards=(2, 8),
        examples=[dict(x=x, y=y, max_k=40) for x in range(1, 13) for y in range(1, 13)]),
    Sub('random', random_spec, run_random, quick=3000, thorough=60000, shards=(2, 8)),
]
