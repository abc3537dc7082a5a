'''R04: applying a function region evaluates each point with its own function.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require

RULE = ('regions of 1..6 x 1..6 points with 1..5 samples (plain, scaled, clustered, subsets) and grids of distinct '
        'functions (scalar / series of another length; float, integer and object results); non-trivial: at least 2 '
        'points along some axis and functions that differ between points, or a chain of at least two applications')
ASSUMPTIONS = ['function regions have the 2d shape of the region they are applied to (others are rejected)']

DTYPES = ('float', 'int', 'object')


@st.composite
def apply_spec(draw):
    cube = draw(gen.cube(t=(1, 5), x=(1, 6), y=(1, 6)))
    _, x_len, y_len = cube['shape']
    n = x_len * y_len
    spec = dict(cube=cube, kind=draw(st.sampled_from(['spatial', 'plain', 'scaled', 'cluster', 'spatial-cluster'])),
                offsets=draw(st.permutations(range(n))), out_len=draw(st.integers(1, 6)),
                dtype=draw(st.sampled_from(DTYPES)), same=draw(st.integers(0, 3)) == 0, twice=draw(st.booleans()),
                missing=draw(st.integers(0, 2)) == 0)
    if 'cluster' in spec['kind']:
        spec['labels'] = draw(gen.labels(n))
        spec['cluster'] = draw(st.integers(0, spec['labels']['k'] - 1))
    return spec


def run_apply(spec, ctx):
    from spta.region import Point
    from spta.region.spatial import SpatialRegion, SpatialCluster
    from spta.region.temporal import SpatioTemporalRegion, SpatioTemporalCluster
    from spta.region.function import (FunctionRegionScalar, FunctionRegionScalarSame, FunctionRegionSeries,
                                      FunctionRegionSeriesSame)
    kind = spec['kind']
    real, model = regions.build(dict(cube=spec['cube'], scaled=kind == 'scaled'))
    t, x_len, y_len = model.shape
    spatial = kind.startswith('spatial')
    if spatial:
        real = SpatialRegion(model.data[0].copy('K'))
    members = gen.points_of(x_len, y_len)
    if 'labels' in spec:
        partition = gen.build_partition(spec['labels'], x_len, y_len)
        real = (partition.create_spatial_cluster if spatial else partition.create_spt_cluster)(real, spec['cluster'])
        members = gen.members(spec['labels']['labels'], y_len, spec['cluster'])

    def own(x, y):
        return float(model.data[0, x, y]) if spatial else model.data[:, x, y]

    dtype = dict(float=np.float64, int=np.int64, object=object)[spec['dtype']]
    out_len = spec['out_len']
    before = np.array(real.as_numpy, copy=True)
    for turn in range(2 if spec['twice'] else 1):
        for output in ('scalar', 'series'):
            calls = []

            def expected(x, y, v):
                base = np.sum(v) + (0 if spec['same'] else 100 * spec['offsets'][x * y_len + y])
                if spec['dtype'] == 'float' and spec.get('missing') and not spec['same'] and (x + 2 * y) % 3 == 0:
                    return np.nan if output == 'scalar' else np.repeat(np.nan, out_len)
                if output == 'scalar':
                    return dict(float=float(base) / 3, int=int(np.floor(base)), object=('result', float(base)))[spec['dtype']]
                values = [base + 7 * i for i in range(out_len)]
                return np.array(values) if spec['dtype'] == 'float' else np.floor(values).astype(dtype)

            def make(x, y):
                def function(v):
                    calls.append((x, y))
                    return expected(x if x is not None else 0, y if y is not None else 0, v)
                return function

            if spec['same']:
                cls = FunctionRegionScalarSame if output == 'scalar' else FunctionRegionSeriesSame
                function = cls(make(None, None), x_len, y_len, dtype)
            else:
                grid = np.empty((x_len, y_len), dtype=object)
                for x, y in gen.points_of(x_len, y_len):
                    grid[x, y] = make(x, y)
                function = (FunctionRegionScalar if output == 'scalar' else FunctionRegionSeries)(grid, dtype)
            result = function.apply_to(real) if output == 'scalar' else function.apply_to(real, out_len)
            what = '{} result on {}'.format(output, kind)
            if spec['same']:
                require(len(calls) == len(members), '{}: {} evaluations for {} points', what, len(calls), len(members))
            else:
                require(sorted(calls) == members, '{}: evaluated {} instead of each of {} once', what, calls, members)
            require(gen.exact(before, real.as_numpy), '{}: the input changed', what)
            require(tuple(result.shape) == ((x_len, y_len) if output == 'scalar' else (out_len, x_len, y_len)),
                    '{}: shape {}', what, result.shape)
            require(isinstance(result, SpatioTemporalRegion) == (output == 'series'), '{}: type {}', what, type(result))
            if 'labels' in spec:
                require(isinstance(result, SpatialCluster if output == 'scalar' else SpatioTemporalCluster),
                        '{}: type {}', what, type(result))
            if output == 'series':
                require(bool(result.has_scaling()) == (kind == 'scaled'), '{}: has_scaling {}', what,
                        result.has_scaling())
                if kind == 'scaled' and spec['dtype'] == 'float':
                    restored = result.descale()
                    for x, y in members:
                        want = model.mins[x, y] + expected(x, y, own(x, y)) * (model.maxs[x, y] - model.mins[x, y])
                        require(gen.same(restored.series_at(Point(x, y)), want, 1e-7, 1e-7), '{}: descaled', what)
            require(result.as_numpy.dtype == np.dtype(dtype), '{}: dtype {}', what, result.as_numpy.dtype)
            for x, y in members:
                want = expected(x, y, own(x, y))
                if output == 'scalar':
                    got = result.value_at(Point(x, y))
                    ok = got == want if spec['dtype'] == 'object' else gen.same(got, want)
                else:
                    got = result.series_at(Point(x, y))
                    ok = gen.same(got, want)
                require(ok, '{}: at {} {} instead of {}', what, (x, y), got, want)
    ctx.tag(kind, spec['dtype'], 'same' if spec['same'] else 'grid')
    ctx.nontrivial(len(members) >= 2 and not spec['same'])


def run_chain(spec, ctx):
    _, model, done = regions.run_chain(spec, ctx)
    ctx.nontrivial(done.count('function') >= 2 and len(model.points()) >= 2)


SUBS = [
    Sub('apply', apply_spec, run_apply, quick=700, thorough=20000, shards=(2, 8)),
    Sub('chained', lambda: regions.chain_spec(['function', 'function', 'function', 'time', 'rect', 'repeat', 'descale'],
                                              x=(1, 6), y=(1, 6)), run_chain, quick=500, thorough=12000, shards=(2, 8)),
]
