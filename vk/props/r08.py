'''R08: relative and absolute coordinates.'''
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require

RULE = ('whole datasets of up to 12 x 12 distinct values and descriptions of generated rectangles in them; every point, index '
        'and several sub-rectangles are converted; non-trivial: a rectangle with different offsets, at least 2 columns '
        'and 2 rows, that is not square')
ASSUMPTIONS = []


@st.composite
def spec(draw):
    x_len, y_len = draw(st.integers(1, 12)), draw(st.integers(2, 12))
    rect = draw(gen.rectangle(x_len, y_len))
    w, h = rect[1] - rect[0], rect[3] - rect[2]
    return dict(whole=[x_len, y_len], rect=rect, subs=draw(st.lists(gen.rectangle(w, h), min_size=1, max_size=4)),
                medoids=draw(st.lists(st.integers(0, 143), min_size=1, max_size=5)))


def run(spec, ctx):
    import numpy as np
    from spta.region import Point, Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['whole']
    data = np.arange(2 * x_len * y_len, dtype=float).reshape(2, x_len, y_len)
    whole = SpatioTemporalRegion(data)
    rect = Region(*spec['rect'])
    part = whole.region_subset(rect)
    metadata = SpatioTemporalRegionMetadata('r', rect, 2015, 2015, 1, scaled=False)
    w, h = rect.x2 - rect.x1, rect.y2 - rect.y1
    require((metadata.x_len, metadata.y_len) == (w, h), 'size {}', (metadata.x_len, metadata.y_len))
    for index, (x, y) in enumerate(gen.points_of(w, h)):
        absolute = metadata.absolute_position_of_point(Point(x, y))
        require((absolute.x, absolute.y) == (x + rect.x1, y + rect.y1), 'point {} -> {}', (x, y), absolute)
        require(gen.exact(whole.series_at(absolute), part.series_at(Point(x, y))), 'value at {}', (x, y))
        for i in (index, np.int64(index), np.uint32(index)):
            got = metadata.index_to_absolute_point(i)
            require((int(got.x), int(got.y)) == (x + rect.x1, y + rect.y1), 'index {} -> {}', index, got)
            require(gen.exact(whole.series_at(got), part.series_at(Point(x, y))), 'value at index {}', index)
    from spta.kmedoids import Medoid, get_medoid_indices, get_medoid_series, medoids_to_absolute_coordinates
    described = SpatioTemporalRegion(part.as_numpy, metadata)
    medoids = [Medoid(i % (w * h), part.as_2d[i % (w * h)]) for i in spec['medoids']]
    indices = get_medoid_indices(medoids)
    require(list(indices) == [i % (w * h) for i in spec['medoids']], 'indices {}', indices)
    require(all(gen.exact(a, part.as_2d[i]) for a, i in zip(get_medoid_series(medoids), indices)), 'series of the medoids')
    text = medoids_to_absolute_coordinates(described, indices)
    want = ['({},{})'.format(i // h + rect.x1, i % h + rect.y1) for i in indices]
    require(text.split() == want, 'medoids {} are {!r} instead of {}', indices, text, want)
    for sub in spec['subs']:
        relative = Region(*sub)
        got = metadata.absolute_coordinates_of_region(relative)
        want = Region(sub[0] + rect.x1, sub[1] + rect.x1, sub[2] + rect.y1, sub[3] + rect.y1)
        require(got == want, 'rectangle {} -> {} instead of {}', relative, got, want)
        require(gen.exact(whole.region_subset(got).as_numpy, part.region_subset(relative).as_numpy),
                'values of rectangle {}', relative)
    ctx.nontrivial(w >= 2 and h >= 2 and w != h and rect.x1 != rect.y1)
    ctx.tag('offset' if rect.x1 or rect.y1 else 'origin')


SUBS = [Sub('conversions', spec, run, quick=1000, thorough=30000, shards=(2, 8))]
