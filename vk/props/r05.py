'''R05: scaling is a per-point normalisation that can be undone.'''
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require, must_raise

RULE = ('datasets of 1..8 x 1..6 x 1..6 samples (once in a while 25 x 25) with ties, constant series, missing series and missing samples, '
        'scaled, then subset, clustered, transformed and descaled in generated order; non-trivial: at least one '
        'operation between scaling and the final descaling on a region of at least 2 points with distinct ranges')
ASSUMPTIONS = ['values are recovered up to floating-point rounding (1e-7 relative)']


def run_chain(spec, ctx):
    real, model, done = regions.run_chain(spec, ctx)
    ranges = set()
    if model.mins is not None:
        ranges = set((round(a, 6), round(b, 6)) for a, b in zip(model.mins.flat, model.maxs.flat))
    ctx.nontrivial(len([d for d in done if d != 'descale']) >= 1 and len(ranges) >= 2)


@st.composite
def scale_spec(draw):
    spec = draw(regions.chain_spec(['time'], scaled=False, clustered=False, nan=3, t=(1, 8), x=(1, 6), y=(1, 6)))
    t, x_len, y_len = spec['cube']['shape']
    n = x_len * y_len
    for index in draw(st.lists(st.integers(0, n - 1), max_size=2)):
        # constant, except for the samples that are missing
        value = draw(st.integers(-40, 40)) / 4
        for i in range(t):
            if not math.isnan(spec['cube']['values'][i * n + index]):
                spec['cube']['values'][i * n + index] = value
    spec['factor'] = draw(st.sampled_from([1.0, 1e-6, 1e6, -1.0]))
    spec['labels'] = draw(gen.labels(n))
    spec['cut'] = draw(st.lists(st.integers(0, 1000), min_size=6, max_size=6))
    return spec


def run_scale(spec, ctx):
    from spta.region import Point
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.scaling import ScaleFunction
    from spta.region.temporal import SpatioTemporalRegion
    from spta.region import Region
    data = gen.array(spec['cube']) * spec['factor']
    t, x_len, y_len = data.shape
    original = data.copy()
    region = SpatioTemporalRegion(data)
    with must_raise(NotImplementedError, 'descaling a plain region'):
        region.descale()
    require(not region.has_scaling(), 'plain region claims to be scaled')
    scaled = ScaleFunction(x_len, y_len).apply_to(region, t)
    require(gen.exact(region.as_numpy, original), 'scaling changed its input')
    require(scaled.has_scaling(), 'scaled region claims not to be scaled')
    tol = 1e-9 * max(1.0, np.nanmax(np.abs(data)) if not np.all(np.isnan(data)) else 1.0)
    for x, y in gen.points_of(x_len, y_len):
        series = original[:, x, y]
        got = scaled.series_at(Point(x, y))
        known = series[~np.isnan(series)]
        if len(known) == 0:
            require(np.all(np.isnan(got)), 'missing series at {} became {}', (x, y), got)
            continue
        low, high = known.min(), known.max()
        require(gen.same(scaled.scale_min.value_at(Point(x, y)), low, 1e-12, 0), 'minimum at {}', (x, y))
        require(gen.same(scaled.scale_max.value_at(Point(x, y)), high, 1e-12, 0), 'maximum at {}', (x, y))
        require(gen.exact(np.isnan(got), np.isnan(series)), 'missing samples at {}: {}', (x, y), got)
        if low == high:
            require(np.all(got[~np.isnan(series)] == 0), 'constant series at {} became {}', (x, y), got)
            if np.isnan(series).any():
                ctx.tag('constant with missing samples')
        else:
            require(np.nanmin(got) == 0 and abs(np.nanmax(got) - 1) < 1e-12, 'range at {}: {}', (x, y), got)
            require(gen.same(got, (series - low) / (high - low)), 'scaled series at {}: {}', (x, y), got)
            order = np.argsort(known, kind='stable')
            require(np.all(np.diff(got[~np.isnan(series)][order]) >= 0), 'order at {}', (x, y))
    restored = scaled.descale()
    require(not restored.has_scaling(), 'descaled region claims to be scaled')
    require(gen.same(restored.as_numpy, original, 1e-7, tol), 'descaled region differs from the original')
    require(gen.exact(region.as_numpy, original), 'the original changed')

    # every cluster of the scaled region descales to the same members with the original values
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    for index, cluster in enumerate(partition.create_all_spt_clusters(scaled)):
        points = gen.members(spec['labels']['labels'], y_len, index)
        require(bool(cluster.has_scaling()), 'cluster of a scaled region')
        back = cluster.descale()
        require(not back.has_scaling(), 'descaled cluster claims to be scaled')
        seen = regions.list_pairs(back)
        require([(p.x, p.y) for p, _ in seen] == points, 'members of a descaled cluster')
        require(all(gen.same(s, original[:, x, y], 1e-7, tol) for (_, s), (x, y) in zip(seen, points)),
                'series of a descaled cluster')
    # rectangle of the scaled region
    x1, x2 = regions.pick_interval(x_len, *spec['cut'][0:2])
    y1, y2 = regions.pick_interval(y_len, *spec['cut'][2:4])
    part = scaled.region_subset(Region(x1, x2, y1, y2))
    require(gen.same(part.descale().as_numpy, original[:, x1:x2, y1:y2], 1e-7, tol), 'descaled rectangle')
    ctx.nontrivial(x_len * y_len >= 2 and spec['labels']['k'] >= 1)
    ctx.tag('factor:{}'.format(spec['factor']), 'nan' if np.isnan(data).any() else 'complete')


SUBS = [
    Sub('scale-descale', scale_spec, run_scale, quick=600, thorough=15000, shards=(2, 8)),
    Sub('chains', lambda: regions.chain_spec(['time', 'rect', 'both', 'repeat', 'repeat_point', 'cluster', 'function',
                                              'descale'], scaled=True, nan=3, t=(1, 8), x=(1, 6), y=(1, 6), max_ops=7),
        run_chain, quick=900, thorough=20000, shards=(3, 8)),
]
