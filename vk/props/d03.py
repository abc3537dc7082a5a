'''D03: stored distance matrices are accepted only when they fit; the spatial weight counts once.'''
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require, must_raise, scratch_dir

RULE = ('histories of 1..7 loads (fitting, too small, too large, not square, missing) through the file, the description '
        'and the region, with requests for the weighted matrix in between, for the plain and the weighted distance; '
        'regions with stored matrices of their own clustered in turn with one measure; '
        'non-trivial: a load after another one, or a rejected one, with at least 4 points, or two regions in turn')
ASSUMPTIONS = ['stored matrices are plain unweighted distances']


@st.composite
def spec(draw):
    x_len, y_len = draw(st.sampled_from([[2, 3], [3, 2], [2, 2], [1, 3], [4, 1], [1, 1]]))
    n = x_len * y_len
    steps = []
    for _ in range(draw(st.integers(1, 7))):
        steps.append(dict(kind=draw(st.sampled_from(['fit', 'fit', 'fit', 'missing', 'smaller', 'larger', 'oblong',
                                                     'same-size', 'wide', 'weight', 'weight'])),
                          how=draw(st.sampled_from(['file', 'metadata', 'region', 'lookup'])),
                          data=draw(gen.symmetric_matrix(n))))
    return dict(shape=[x_len, y_len], offset=[draw(st.integers(0, 9)), draw(st.integers(0, 9))], steps=steps,
                weight=draw(st.sampled_from([None, 1, 2, 0.5, 0, 10])))


def run(spec, ctx):
    from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
    from spta.region import Point, Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['shape']
    n = x_len * y_len
    x, y = spec['offset']
    weight = spec['weight']
    rectangle = Region(x, x + x_len, y, y + y_len)
    points = np.array(gen.points_of(x_len, y_len), dtype=float)
    euclid = np.sqrt(((points[:, None, :] - points[None, :, :]) ** 2).sum(axis=2))
    with scratch_dir():
        os.mkdir('raw')
        metadata = SpatioTemporalRegionMetadata('sp', rectangle, 2015, 2015, 1, scaled=False, dataset_dir='raw')
        region = SpatioTemporalRegion(np.zeros((2, x_len, y_len)), metadata)
        measure = DistanceByDTW() if weight is None else DistanceBySpatialDTW(weight)
        expected = None      # the matrix that the measure has to use

        def check(what):
            if expected is None:
                require(measure.distance_matrix is None, '{}: there is a matrix', what)
            else:
                require(gen.same(measure.distance_matrix, expected, atol=0), '{}: matrix {} instead of {}', what,
                        np.asarray(measure.distance_matrix).tolist(), expected.tolist())

        loads = rejected = 0
        for number, step in enumerate(spec['steps']):
            kind, how = step['kind'], step['how']
            what = 'step {}: {} through {}'.format(number, kind, how)
            if kind == 'weight':
                if weight is None:
                    continue
                if expected is None:
                    with must_raise(ValueError, what):
                        measure.weight_distance_matrix(rectangle)
                else:
                    got = measure.weight_distance_matrix(rectangle)
                    require(gen.same(got, expected, atol=0), '{}: {}', what, np.asarray(got).tolist())
                check(what)
                continue
            shape = dict(fit=(n, n), missing=None, smaller=(n - 1, n - 1), larger=(n + 1, n + 1),
                         oblong=(n, n + 1), wide=(n + 1, n), **{'same-size': (1, n * n)})[kind]
            if kind == 'same-size' and n % 2 == 0:
                shape = (n // 2, n * 2)
            if shape == (n, n):
                kind = 'fit'
            filename = metadata.distances_filename
            if os.path.exists(filename):
                os.remove(filename)
            stored = None
            if shape is not None:
                stored = np.ones(shape)
                if kind == 'fit':
                    stored = gen.full_matrix(step['data'], n)
                np.save(filename, stored)

            def load():
                if how == 'file':
                    return measure.load_distance_matrix_2d(filename, rectangle)
                if how == 'metadata':
                    return measure.load_distance_matrix_md(metadata)
                return measure.try_load_distance_matrix(region)

            if how == 'lookup':
                # a measure without a matrix loads it when distances are asked for
                fresh = DistanceByDTW() if weight is None else DistanceBySpatialDTW(weight)
                p = step['data'] and len(step['data']) % n
                point = Point((p or 0) // y_len, (p or 0) % y_len)
                if kind == 'fit':
                    got = fresh.distances_to_point(region, point, list(range(n)))
                    want = stored if weight is None else stored + weight * euclid
                    require(gen.same(got, want[p or 0], atol=0), '{}: {} instead of {}', what, got, want[p or 0])
                else:
                    with must_raise(Exception, what):
                        fresh.distances_to_point(region, point, list(range(n)))
                continue
            if kind == 'fit':
                got = load()
                expected = stored if weight is None else stored + weight * euclid
                require(gen.same(got, expected, atol=0), '{}: loaded {} instead of {}', what, np.asarray(got).tolist(),
                        expected.tolist())
                loads += 1
                # other measures that load the same file do not share what was done with this one
                for other_weight in (None, 1, weight):
                    other = DistanceByDTW() if other_weight is None else DistanceBySpatialDTW(other_weight)
                    got = other.load_distance_matrix_2d(filename, rectangle)
                    want = stored if other_weight is None else stored + other_weight * euclid
                    require(gen.same(got, want, atol=0), '{}: another measure with weight {} loaded {} instead of {}', what,
                            other_weight, np.asarray(got).tolist(), want.tolist())
            elif kind == 'missing':
                require(load() is None, '{}: something was loaded', what)
            else:
                with must_raise(ValueError, what):
                    load()
                rejected += 1
            check(what)
            if stored is not None:
                require(gen.exact(np.load(filename), stored), '{}: the stored file was changed', what)
        # a region without description has no stored matrix
        anonymous = SpatioTemporalRegion(np.zeros((2, x_len, y_len)))
        require(measure.try_load_distance_matrix(anonymous) is None, 'a matrix for a region without description')
        check('at the end')
        if expected is None:
            # usable without a matrix
            a, b = np.array([1.0, 2.0]), np.array([1.0, 3.0])
            require(measure.measure(a, b) == 1.0, 'the measure without a matrix')
    ctx.nontrivial(n >= 4 and (loads >= 2 or rejected >= 1))
    ctx.tag('weight:{}'.format(weight), 'loads:{}'.format(min(loads, 3)), 'rejected' if rejected else 'all fit')


@st.composite
def reuse_spec(draw):
    shapes = [[2, 3], [3, 2], [2, 2], [3, 3]]
    regions = []
    for _ in range(draw(st.integers(2, 3))):
        shape = draw(st.sampled_from(shapes))
        regions.append(dict(shape=shape, data=draw(gen.symmetric_matrix(shape[0] * shape[1])),
                            offset=[draw(st.integers(0, 9)), draw(st.integers(0, 9))]))
    turns = draw(st.lists(st.fixed_dictionaries(dict(
        region=st.integers(0, len(regions) - 1), k=st.integers(1, 3), seed=st.integers(0, 9),
        algorithm=st.sampled_from(['kmedoids', 'kmedoids', 'regular']))), min_size=2, max_size=6))
    return dict(regions=regions, turns=turns, weight=draw(st.sampled_from([None, None, 1, 0.5])),
                before=draw(st.booleans()))


def run_reuse(spec, ctx):
    '''One measure that clusters several regions, each with its own stored matrix.'''
    from spta.clustering.factory import ClusteringFactory
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.clustering.regular import RegularClusteringMetadata
    from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.temporal import SpatioTemporalRegion
    weight = spec['weight']
    new_measure = lambda: DistanceByDTW() if weight is None else DistanceBySpatialDTW(weight)
    with scratch_dir():
        os.mkdir('raw')
        regions, wanted = [], []
        for number, r in enumerate(spec['regions']):
            (x_len, y_len), (x, y) = r['shape'], r['offset']
            metadata = SpatioTemporalRegionMetadata('place{}'.format(number), Region(x, x + x_len, y, y + y_len), 2015, 2015, 1,
                                                    scaled=False, dataset_dir='raw')
            matrix = gen.full_matrix(r['data'], x_len * y_len)
            np.save(metadata.distances_filename, matrix)
            points = np.array(gen.points_of(x_len, y_len), dtype=float)
            euclid = np.sqrt(((points[:, None, :] - points[None, :, :]) ** 2).sum(axis=2))
            wanted.append(matrix if weight is None else matrix + weight * euclid)
            regions.append(SpatioTemporalRegion(np.arange(2.0 * x_len * y_len).reshape(2, x_len, y_len), metadata))
        measure = new_measure()
        if spec['before']:
            measure.try_load_distance_matrix(regions[-1])
        used = []
        for number, turn in enumerate(spec['turns']):
            region = regions[turn['region']]
            clustering = KmedoidsClusteringMetadata(turn['k'], random_seed=turn['seed'], verbose=False) \
                if turn['algorithm'] == 'kmedoids' else RegularClusteringMetadata(min(turn['k'], 2))
            # the answer of a measure that knows nothing else, for a region that has no stored matrix
            alone = new_measure()
            alone.distance_matrix = wanted[turn['region']].copy()
            alone = ClusteringFactory(alone).instance(clustering).partition(SpatioTemporalRegion(region.as_numpy.copy()))
            got = ClusteringFactory(measure).instance(clustering).partition(region)
            what = 'turn {}: {!r} of region {} after {}'.format(number, clustering, turn['region'], used)
            require(gen.exact(got.as_numpy, alone.as_numpy), '{}: labels {} instead of {}', what, got.as_numpy.tolist(),
                    alone.as_numpy.tolist())
            require([(p.x, p.y) for p in got.medoids] == [(p.x, p.y) for p in alone.medoids], '{}: medoids {} instead of {}',
                    what, got.medoids, alone.medoids)
            require(gen.same(measure.distance_matrix, wanted[turn['region']], atol=0), '{}: the matrix is {}', what,
                    np.asarray(measure.distance_matrix).tolist())
            used.append(turn['region'])
    ctx.nontrivial(len(set(used)) >= 2)
    ctx.tag('weight:{}'.format(weight))


SUBS = [Sub('loads', spec, run, quick=500, thorough=20000, shards=(2, 8)),
        Sub('reuse', reuse_spec, run_reuse, quick=200, thorough=4000, shards=(2, 8))]
