'''P06: fuzzy masks.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require, must_raise
from . import r02

RULE = ('memberships of 1..5 x 1..5 points in 2..5 clusters, once in a while 9..25 x 9..25 in up to 12, (multiples of 1/16 adding to one, ties included), every cluster '
        'and 2..5 thresholds, from a grid and from a point list; non-trivial: a threshold that separates some points but '
        'not all from a cluster that is not their best')
ASSUMPTIONS = ['memberships and thresholds are multiples of 1/16 so that the comparison is exact']


@st.composite
def spec(draw):
    x_len, y_len = draw(gen.sizes((1, 5), (1, 5)))
    k = draw(st.integers(2, 5)) if x_len * y_len < 80 else draw(st.integers(2, 12))
    rows = []
    raw = draw(gen.noise(x_len * y_len * k)) if x_len * y_len >= 80 else None
    for i in range(x_len * y_len):
        if raw:
            cuts = sorted(b % 17 for b in raw[i * (k - 1):(i + 1) * (k - 1)])
        else:
            cuts = sorted(draw(st.lists(st.integers(0, 16), min_size=k - 1, max_size=k - 1)))
        rows.append([b - a for a, b in zip([0] + cuts, cuts + [16])])
    return dict(shape=[x_len, y_len], k=k, rows=rows, layout=draw(st.sampled_from(gen.LAYOUTS)),
                thresholds=sorted(set([0, 16] + draw(st.lists(st.integers(0, 16), max_size=3)))))


def run(spec, ctx):
    from spta.region import Point
    from spta.region.mask import MaskRegionFuzzy
    x_len, y_len = spec['shape']
    k, rows = spec['k'], spec['rows']
    points = gen.points_of(x_len, y_len)
    uij = gen.array(dict(shape=[len(rows), k], values=[v / 16.0 for row in rows for v in row], layout=spec['layout']))
    grid = gen.array(dict(shape=[k, x_len, y_len], values=[rows[x * y_len + y][c] / 16.0 for c in range(k) for x, y in points],
                          layout=spec['layout']))
    saved = uij.copy('K'), grid.copy('K')
    for c in range(k):
        previous = None
        for threshold in spec['thresholds']:
            want = [p for p, row in zip(points, rows) if max(row) - row[c] <= threshold]
            value = threshold / 16.0
            masks = [('grid', MaskRegionFuzzy(grid, c, value)),
                     ('list', MaskRegionFuzzy.from_uij_and_region(uij, x_len, y_len, c, value))]
            masks.append(('clone', masks[-1][1].clone()))
            for how, mask in masks:
                what = '{} cluster {} threshold {}'.format(how, c, value)
                for turn in range(2):
                    if turn and threshold % 2:
                        r02.abandon(mask, c)
                    seen = []
                    for p in mask:
                        seen.append((p.x, p.y))
                        require(len(seen) <= len(points), '{}: iterates too many points', what)
                    require(seen == want, '{}: {} instead of {}', what, seen, want)
                require(mask.cluster_len == len(want), '{}: size {}', what, mask.cluster_len)
                for p in points:
                    require(bool(mask.is_member(Point(*p))) == (p in want), '{}: membership of {}', what, p)
                require(not mask.is_member(None), '{}: no point is a member', what)
            if previous is not None:
                require(set(previous) <= set(want), 'a larger threshold removed points')
            if threshold == 16:
                require(want == points, 'threshold 1 leaves points out')
            ctx.nontrivial(0 < threshold < 16 and len(want) not in (0, len(points)))
            previous = want
    require(gen.exact(uij, saved[0]) and gen.exact(grid, saved[1]), 'the memberships were modified')
    for bad in (-0.5, 1.5):
        with must_raise(Exception, 'threshold {}'.format(bad)):
            MaskRegionFuzzy(grid.copy('K'), 0, bad)
    for bad in (-1, k):
        with must_raise(Exception, 'cluster {}'.format(bad)):
            MaskRegionFuzzy(grid.copy('K'), bad, 0)
    if x_len * y_len > 1:
        with must_raise(Exception, 'memberships of another size'):
            MaskRegionFuzzy.from_uij_and_region(uij[:-1], x_len, y_len, 0, 0)
    ctx.tag('k:{}'.format(k), spec['layout'])


SUBS = [Sub('masks', spec, run, quick=300, thorough=8000, shards=(2, 8))]
