'''R03: a cluster exposes exactly its own members.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require, must_raise

RULE = ('clusters of plain and scaled regions (1..6 x 1..6, k 1..5, once in a while 25 x 25 and k 300, empty and full clusters) under sequences of '
        'derivations; non-trivial: a cluster that is neither empty nor the whole region')
ASSUMPTIONS = ['values of points outside the cluster in the backing arrays are unspecified']


def proper(labels, cluster):
    size = sum(1 for l in labels if l == cluster)
    return 0 < size < len(labels)


def run_spt(spec, ctx):
    from spta.region import Point, TimeInterval
    from spta.region.temporal import SpatioTemporalCluster
    real, model, done = regions.run_chain(spec, ctx)
    require(isinstance(real, SpatioTemporalCluster), 'derived region is a {}', type(real))
    points = model.points()
    require(real.cluster_index == spec['cluster'] % spec['labels']['k'], 'cluster index')
    # the flag argument forms used by the rest of the code
    half = real.interval_subset(TimeInterval(0, 1))
    require([(p.x, p.y) for p, _ in regions.list_pairs(half)] == points, 'members of a time subset')
    missing = np.asarray(real.series_at(None))
    require(missing.shape == (model.shape[0],) and np.isnan(missing).all(), 'the series of no point is {}', missing)
    empty = real.empty_region_2d()
    require([(p.x, p.y) for p, _ in regions.list_pairs(empty)] == points, 'members of an empty spatial cluster')
    require(empty.cluster_len == len(points), 'size of an empty spatial cluster')
    members = set(points)
    for x, y in gen.points_of(*model.shape[1:]):
        if (x, y) not in members:
            with must_raise(ValueError, 'value of non-member {}'.format((x, y))):
                empty.value_at(Point(x, y))
    ctx.nontrivial(proper(spec['labels']['labels'], spec['cluster'] % spec['labels']['k']) and len(done) >= 1)


@st.composite
def function_spec(draw):
    cube = draw(gen.cube(t=(1, 4), x=(1, 6), y=(1, 6)))
    n = cube['shape'][1] * cube['shape'][2]
    return dict(cube=cube, labels=draw(gen.labels(n)), scaled=draw(st.booleans()),
                same=draw(st.booleans()), out_len=draw(st.integers(1, 4)))


def run_function(spec, ctx):
    '''Functions applied to every cluster are evaluated once per member, nowhere else.'''
    from spta.region import Point
    from spta.region.spatial import SpatialRegion, SpatialCluster
    from spta.region.temporal import SpatioTemporalCluster
    from spta.region.function import (FunctionRegionScalar, FunctionRegionScalarSame, FunctionRegionSeries,
                                      FunctionRegionSeriesSame)
    base, model = regions.build(dict(cube=spec['cube'], scaled=spec['scaled']))
    t, x_len, y_len = model.shape
    out_len = spec['out_len']
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    sheet = model.data[0]
    spatial = SpatialRegion(sheet.copy('K'))
    for index in range(spec['labels']['k']):
        points = gen.members(spec['labels']['labels'], y_len, index)
        calls = []

        def record(x, y, kind):
            def scalar(v):
                calls.append((x, y, np.array(v, copy=True)))
                return float(np.sum(v)) * 2 + (0 if x is None else x * 10 + y)

            def series(v):
                calls.append((x, y, np.array(v, copy=True)))
                return np.array([float(np.sum(v)) + i + (0 if x is None else x * 10 + y) for i in range(out_len)])
            return scalar if kind == 'scalar' else series

        def grid(kind):
            g = np.empty((x_len, y_len), dtype=object)
            for x, y in gen.points_of(x_len, y_len):
                g[x, y] = record(x, y, kind)
            return g

        for domain, values in ((partition.create_spt_cluster(base, index), model.data),
                               (partition.create_spatial_cluster(spatial, index), sheet[None])):
            is_spt = domain.ndim == 3
            for kind in ('scalar', 'series'):
                del calls[:]
                if spec['same']:
                    cls = FunctionRegionScalarSame if kind == 'scalar' else FunctionRegionSeriesSame
                    function = cls(record(None, None, kind), x_len, y_len)
                else:
                    cls = FunctionRegionScalar if kind == 'scalar' else FunctionRegionSeries
                    function = cls(grid(kind))
                result = function.apply_to(domain) if kind == 'scalar' else function.apply_to(domain, out_len)
                require(len(calls) == len(points), '{} function evaluated {} times for {} members', kind, len(calls),
                        len(points))
                for (x, y, v), (px, py) in zip(calls, points):
                    require(spec['same'] or (x, y) == (px, py), 'function of {} used at {}', (x, y), (px, py))
                    own = values[:, px, py] if is_spt else values[0, px, py]
                    require(gen.same(v, own), 'function at {} received {}', (px, py), v)
                if kind == 'scalar':
                    require(isinstance(result, SpatialCluster), 'result is a {}', type(result))
                else:
                    require(isinstance(result, SpatioTemporalCluster), 'result is a {}', type(result))
                    require(tuple(result.shape) == (out_len, x_len, y_len), 'result shape {}', result.shape)
                seen = regions.list_pairs(result)
                require([(p.x, p.y) for p, _ in seen] == points, 'result iterates {}', [tuple(p) for p, _ in seen])
                require(result.cluster_len == len(points), 'size of the result')
                for (px, py), (_, got) in zip(points, seen):
                    total = float(np.sum(values[:, px, py])) if is_spt else float(values[0, px, py])
                    extra = 0 if spec['same'] else px * 10 + py
                    want = total * 2 + extra if kind == 'scalar' else [total + i + extra for i in range(out_len)]
                    require(gen.same(got, want), 'result at {} is {} instead of {}', (px, py), got, want)
                for x, y in gen.points_of(x_len, y_len):
                    if (x, y) not in points:
                        with must_raise(ValueError, 'result at non-member {}'.format((x, y))):
                            (result.value_at if kind == 'scalar' else result.series_at)(Point(x, y))
    ctx.nontrivial(spec['labels']['k'] >= 2)
    ctx.tag('same' if spec['same'] else 'grid', 'scaled' if spec['scaled'] else 'plain')


@st.composite
def spatial_spec(draw):
    sheet = draw(gen.sheet(x=(1, 6), y=(1, 6)))
    n = sheet['shape'][0] * sheet['shape'][1]
    labels = draw(gen.labels(n))
    return dict(sheet=sheet, labels=labels, pick=draw(st.integers(0, 1000)), value=draw(st.integers(-50, 50)) / 4)


def run_spatial(spec, ctx):
    from spta.region import Point
    from spta.region.spatial import SpatialRegion, SpatialCluster
    data = gen.array(spec['sheet'])
    x_len, y_len = data.shape
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    region = SpatialRegion(data.copy('K'))
    total = 0
    for index in range(spec['labels']['k']):
        points = gen.members(spec['labels']['labels'], y_len, index)
        cluster = partition.create_spatial_cluster(region, index)
        cases = [('cluster', cluster, data), ('repeated value', cluster.repeat_value(spec['value']),
                                              np.full(data.shape, spec['value']))]
        if points:
            px, py = points[spec['pick'] % len(points)]
            cases.append(('repeated point', cluster.repeat_point(Point(px, py)), np.full(data.shape, data[px, py])))
        outside = [p for p in gen.points_of(x_len, y_len) if p not in points]
        if outside:
            with must_raise(ValueError, 'repeating a non-member'):
                cluster.repeat_point(Point(*outside[spec['pick'] % len(outside)]))
        for what, real, values in cases:
            require(isinstance(real, SpatialCluster), '{} is a {}', what, type(real))
            require(real.cluster_len == len(points), '{}: {} members instead of {}', what, real.cluster_len, len(points))
            require(tuple(real.shape) == data.shape, '{}: shape', what)
            seen = regions.list_pairs(real)
            require([(p.x, p.y) for p, _ in seen] == points, '{}: iterates {}', what, [tuple(p) for p, _ in seen])
            require(gen.exact([v for _, v in seen], [values[p] for p in points]), '{}: values', what)
            for x, y in gen.points_of(x_len, y_len):
                if (x, y) in points:
                    require(gen.exact(real.value_at(Point(x, y)), values[x, y]), '{}: value at {}', what, (x, y))
                else:
                    with must_raise(ValueError, '{}: value of non-member {}'.format(what, (x, y))):
                        real.value_at(Point(x, y))
        total += cluster.cluster_len
    require(total == x_len * y_len, 'cluster sizes add up to {}', total)
    ctx.nontrivial(spec['labels']['k'] >= 2)


SUBS = [
    Sub('derived-clusters', lambda: regions.chain_spec(
        ['time', 'repeat', 'repeat_point', 'function', 'function', 'descale'], clustered=True, nan=1, x=(1, 6),
        y=(1, 6)), run_spt, quick=700, thorough=15000, shards=(2, 8)),
    Sub('functions-on-clusters', function_spec, run_function, quick=300, thorough=8000, shards=(2, 8)),
    Sub('spatial-clusters', spatial_spec, run_spatial, quick=400, thorough=8000, shards=(2, 8)),
]
