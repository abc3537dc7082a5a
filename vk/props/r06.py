'''R06: extremes and replication over regions.'''
import math

import numpy as np
from collections import namedtuple
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require, must_raise

RULE = ('spatial regions and clusters of 1..6 x 1..6 with ties and missing values; values, records, series and lists to '
        'replicate; non-trivial: a tie or missing value among the points searched, or at least 4 points replicated')
ASSUMPTIONS = ['a region without any known value has no extreme point (None)']

Record = namedtuple('Record', 'name series')


@st.composite
def extreme_spec(draw):
    sheet = draw(gen.sheet(x=(1, 6), y=(1, 6), kinds=('coarse', 'coarse', 'fine'), nan=5))
    n = sheet['shape'][0] * sheet['shape'][1]
    return dict(sheet=sheet, labels=draw(gen.labels(n)), repeat=draw(st.integers(1, 2)))


def run_extremes(spec, ctx):
    from spta.region.spatial import SpatialRegion
    data = gen.array(spec['sheet'])
    x_len, y_len = data.shape
    region = SpatialRegion(data.copy('K'))
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    searched = [('region', region, gen.points_of(x_len, y_len))]
    for index in range(spec['labels']['k']):
        searched.append(('cluster', partition.create_spatial_cluster(region, index),
                         gen.members(spec['labels']['labels'], y_len, index)))
    for what, real, points in searched:
        known = [p for p in points if not math.isnan(data[p])]
        for _ in range(spec['repeat']):
            for name, found, pick in (('minimum', real.find_minimum(), min), ('maximum', real.find_maximum(), max)):
                point, value = found
                if not known:
                    require(point is None, '{} of a {} without values is at {}', name, what, point)
                    continue
                want = pick(float(data[p]) for p in known)
                first = [p for p in known if float(data[p]) == want][0]
                require(point is not None, '{} of a {} not found', name, what)
                require(float(value) == want, '{} of a {} is {} instead of {}', name, what, value, want)
                require((point.x, point.y) == first, '{} of a {} at {} instead of {}', name, what, point, first)
                ties = sum(1 for p in known if float(data[p]) == want)
                ctx.nontrivial(ties > 1 or len(known) < len(points))
    ctx.tag('k:{}'.format(spec['labels']['k']))


@st.composite
def replicate_spec(draw):
    cube = draw(gen.cube(t=(1, 5), x=(1, 6), y=(1, 6)))
    n = cube['shape'][1] * cube['shape'][2]
    return dict(cube=cube, labels=draw(gen.labels(n)), scaled=draw(st.booleans()),
                series=draw(gen.grid_values(draw(st.integers(1, 6)))), value=draw(st.integers(-99, 99)) / 4,
                pick=draw(st.integers(0, 1000)), perm=draw(st.permutations(range(n))))


def run_replicate(spec, ctx):
    from spta.region import Point, Region
    from spta.region.spatial import SpatialRegion, SpatialCluster
    from spta.region.temporal import SpatioTemporalRegion, SpatioTemporalCluster
    from spta.region.scaling import SpatioTemporalScaled
    real, model = regions.build(dict(cube=spec['cube'], scaled=spec['scaled']))
    t, x_len, y_len = model.shape
    points = gen.points_of(x_len, y_len)
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    index = spec['pick'] % spec['labels']['k']
    own = gen.members(spec['labels']['labels'], y_len, index)
    series = np.array(spec['series'])
    # plain lists, whole numbers as such
    listed_series = [int(v) if v == int(v) else v for v in spec['series']]

    for what, region, members in (('region', real, points), ('cluster', partition.create_spt_cluster(real, index), own)):
        results = [('repeated series', region.repeat_series(series), series),
                   ('repeated list', region.repeat_series(listed_series), series)]
        if members:
            px, py = members[spec['pick'] % len(members)]
            results.append(('repeated point', region.repeat_point(Point(px, py)), model.data[:, px, py]))
        others = [p for p in points if p not in members]
        if others:
            with must_raise(ValueError, 'repeating the series of a non-member'):
                region.repeat_point(Point(*others[spec['pick'] % len(others)]))
        for name, result, want in results:
            name = '{} over a {}'.format(name, what)
            require(tuple(result.shape) == (len(want), x_len, y_len), '{}: shape {}', name, result.shape)
            require(bool(result.has_scaling()) == spec['scaled'], '{}: has_scaling', name)
            require(isinstance(result, SpatioTemporalCluster) == (what == 'cluster'), '{}: {}', name, type(result))
            if what == 'region' and spec['scaled']:
                require(isinstance(result, SpatioTemporalScaled), '{}: {}', name, type(result))
            seen = regions.list_pairs(result)
            require([(p.x, p.y) for p, _ in seen] == members, '{}: points', name)
            require(all(gen.same(s, want) for _, s in seen), '{}: series differ from {}', name, want)
    over = SpatioTemporalRegion.repeat_series_over_region(series, (x_len, y_len))
    require(tuple(over.shape) == (len(series), x_len, y_len), 'series over a shape: {}', over.shape)
    require(all(gen.exact(over.series_at(Point(x, y)), series) for x, y in points), 'series over a shape')

    sheet = model.data[0]
    spatial = SpatialRegion(sheet.copy('K'))
    record = Record('point', list(spec['series']))
    for what, region, members in (('region', spatial, points),
                                  ('cluster', partition.create_spatial_cluster(spatial, index), own)):
        results = [('value', region.repeat_value(spec['value']), spec['value']),
                   ('record', region.repeat_value(record), record)]
        if members:
            px, py = members[spec['pick'] % len(members)]
            results.append(('point', region.repeat_point(Point(px, py)), sheet[px, py]))
        for name, result, want in results:
            name = 'repeated {} over a {}'.format(name, what)
            require(tuple(result.shape) == (x_len, y_len), '{}: shape {}', name, result.shape)
            require(isinstance(result, SpatialCluster) == (what == 'cluster'), '{}: {}', name, type(result))
            seen = regions.list_pairs(result)
            require([(p.x, p.y) for p, _ in seen] == members, '{}: points', name)
            require(all(type(v) is Record and v == record if want is record else gen.exact(v, want)
                        for _, v in seen), '{}: values', name)

    flat = [float(v) for v in spec['perm']]
    listed = SpatialRegion.create_from_1d(flat, x_len, y_len)
    require(tuple(listed.shape) == (x_len, y_len), 'region from a list: {}', listed.shape)
    for i, (x, y) in enumerate(points):
        require(listed.value_at(Point(x, y)) == flat[i], 'region from a list: value at {}', (x, y))
    require(gen.exact(listed.as_array, flat), 'region from a list: flat view')
    x1, y1 = spec['pick'] % 7, spec['pick'] % 5
    zeroes = SpatialRegion.region_with_zeroes(Region(x1, x1 + x_len, y1, y1 + y_len))
    require(gen.exact(zeroes.as_numpy, np.zeros((x_len, y_len))), 'region with zeroes')
    ctx.nontrivial(x_len * y_len >= 4)
    ctx.tag('scaled' if spec['scaled'] else 'plain', 'non-square' if x_len != y_len else 'square')


SUBS = [
    Sub('extremes', extreme_spec, run_extremes, quick=800, thorough=20000, shards=(2, 8)),
    Sub('replication', replicate_spec, run_replicate, quick=600, thorough=12000, shards=(2, 8)),
]
