'''R01: subsets contain exactly the requested cells and instants.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require

RULE = ('datasets of 1..7 x 1..6 x 1..6 points, once in a while up to 25 x 25 (ties, distinct values, missing values), plain, scaled or clustered, with '
        'sequences of subset operations; non-trivial: at least two subset operations executed, at least one of which '
        'drops something, or a spatial subset chain of depth 2')
ASSUMPTIONS = ['rectangles and intervals are non-empty and within bounds; rectangle subsets of clusters are '
               'documented as not available and not generated']


def run_spt(spec, ctx):
    real, model, done = regions.run_chain(spec, ctx)
    cuts = [d for d in done if d in ('rect', 'time', 'both')]
    ctx.nontrivial(len(cuts) >= 2 and list(model.shape) != spec['cube']['shape'])


@st.composite
def spatial_spec(draw):
    sheet = draw(gen.sheet(x=(1, 7), y=(1, 7), kinds=('coarse', 'fine'), nan=3))
    rects = draw(st.lists(st.lists(st.integers(0, 1000), min_size=4, max_size=4), min_size=1, max_size=4))
    return dict(sheet=sheet, rects=rects)


def run_spatial(spec, ctx):
    from spta.region import Point, Region
    from spta.region.spatial import SpatialRegion
    data = gen.array(spec['sheet'])
    real = SpatialRegion(data.copy('K'))
    model = data
    for a in spec['rects']:
        x_len, y_len = model.shape
        x1, x2 = regions.pick_interval(x_len, a[0], a[1])
        y1, y2 = regions.pick_interval(y_len, a[2], a[3])
        before = np.array(real.as_numpy, copy=True)
        new = real.region_subset(Region(x1, x2, y1, y2))
        require(gen.exact(before, real.as_numpy), 'subset changed its parent')
        expected = np.array([[model[x, y] for y in range(y1, y2)] for x in range(x1, x2)])
        require(tuple(new.shape) == expected.shape, 'shape {} instead of {}', new.shape, expected.shape)
        require(isinstance(new, SpatialRegion), 'subset is a {}', type(new))
        require(gen.exact(new.as_numpy, expected), 'subset {} differs', (x1, x2, y1, y2))
        for x in range(x2 - x1):
            for y in range(y2 - y1):
                require(gen.exact(new.value_at(Point(x, y)), expected[x, y]), 'value at {}', (x, y))
        pairs = regions.list_pairs(new)
        require([(p.x, p.y) for p, _ in pairs] == gen.points_of(*expected.shape), 'iteration of the subset')
        require(gen.exact([v for _, v in pairs], expected.reshape(-1)), 'iterated values of the subset')
        real, model = new, expected
    ctx.nontrivial(len(spec['rects']) >= 2 and model.size < data.size)
    ctx.tag('depth:{}'.format(len(spec['rects'])))


OPS = ['rect', 'rect', 'time', 'time', 'both', 'both', 'repeat', 'cluster', 'function', 'descale']

SUBS = [
    Sub('spatio-temporal-chains', lambda: regions.chain_spec(OPS, nan=2, t=(1, 7), x=(1, 6), y=(1, 6)), run_spt,
        quick=700, thorough=20000, shards=(3, 8)),
    Sub('subsets-then-all', lambda: regions.chain_spec(['rect', 'both', 'time'], clustered=False, nan=2,
                                                       t=(1, 7), x=(1, 6), y=(1, 6)), run_spt,
        quick=500, thorough=12000, shards=(2, 8)),
    Sub('spatial-chains', spatial_spec, run_spatial, quick=600, thorough=12000, shards=(1, 8)),
]
