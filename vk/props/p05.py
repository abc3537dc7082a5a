'''P05: saved partitions are reused only for the same request.'''
import os
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require, scratch_dir
from .r07 import snapshot

RULE = ('histories of 3..10 partition requests over a small pool of region descriptions, distances, algorithms (k, seed, '
        'mode, initial medoids) and folders, the data changing before every request, mixed with damage to the stored '
        'files (truncated at any byte, garbage, removed); non-trivial: at least one request was answered from a stored '
        'partition although the data had changed, and two requests that share all but one of their parameters occurred')
ASSUMPTIONS = ['the iteration limit and tolerance are not part of a request (kept fixed)',
               'requests keep the medoids (the default)']

REGIONS = [  # name, years, spd, scaled
    ('sp', 2014, 2015, 1, False), ('sp', 2015, 2015, 1, False), ('sp', 2014, 2015, 4, False),
    ('sp', 2014, 2015, 1, True), ('rj', 2014, 2015, 1, False)]
DISTANCES = [('dtw', None), ('spatial', 1), ('spatial', 2), ('spatial', 0.5)]
HOMES = ['pickle', 'other', 'deep/er']


@st.composite
def request_spec(draw, n):
    algorithm = draw(st.sampled_from(['kmedoids', 'kmedoids', 'kmedoids', 'regular']))
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 4])) if algorithm == 'kmedoids' else draw(st.sampled_from([1, 2, 3]))
    request = dict(algorithm=algorithm, k=min(k, n), region=draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4])),
                   distance=draw(st.sampled_from([0, 0, 0, 1, 2, 3])), home=draw(st.sampled_from([0, 0, 0, 1, 2])))
    if algorithm == 'kmedoids':
        request['seed'] = draw(st.sampled_from([0, 1, 1, 2, 11, 12]))
        request['mode'] = draw(st.sampled_from(['lite', 'lite', 'robust']))
        request['initial'] = None
        if draw(st.integers(0, 4)) == 0:
            request['initial'] = draw(st.permutations(range(n)))[:request['k']]
    return request


@st.composite
def history_spec(draw):
    x_len, y_len = draw(st.sampled_from([[2, 3], [3, 2], [3, 3], [2, 4], [4, 4], [6, 2]]))
    n = x_len * y_len
    steps = []
    pool = [draw(request_spec(n)) for _ in range(draw(st.integers(1, 3)))]
    for _ in range(draw(st.integers(3, 10))):
        kind = draw(st.sampled_from(['again', 'again', 'neighbour', 'neighbour', 'new', 'damage']))
        if kind == 'damage':
            steps.append(dict(damage=draw(st.sampled_from(['truncate', 'garbage', 'remove', 'empty'])),
                              which=draw(st.integers(0, 100)), at=draw(st.integers(0, 10000))))
            continue
        base = dict(draw(st.sampled_from(pool)))
        if kind == 'neighbour':
            field = draw(st.sampled_from(sorted(base)))
            if field not in ('algorithm',):
                other = draw(request_spec(n))
                if field in other:
                    base[field] = other[field]
                    if field == 'k' and 'initial' in base:
                        base['initial'] = None
                    if field == 'initial' and other['initial'] is not None:
                        base['k'] = other['k']
            pool.append(base)
        elif kind == 'new':
            base = draw(request_spec(n))
            pool.append(base)
        steps.append(dict(request=base, data=draw(gen.symmetric_matrix(n))))
    return dict(shape=[x_len, y_len], steps=steps)


def key_of(request):
    return tuple((name, tuple(value) if isinstance(value, list) else value)
                 for name, value in sorted(request.items()))


def build_request(request, matrix, shape):
    from spta.clustering.factory import ClusteringFactory
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.clustering.regular import RegularClusteringMetadata
    from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = shape
    name, first, last, spd, scaled = REGIONS[request['region']]
    region_md = SpatioTemporalRegionMetadata(name, Region(3, 3 + x_len, 4, 4 + y_len), first, last, spd, scaled=scaled,
                                             dataset_dir='nodata')
    kind, weight = DISTANCES[request['distance']]
    distance = DistanceByDTW() if kind == 'dtw' else DistanceBySpatialDTW(weight)
    distance.distance_matrix = matrix.copy()
    if kind == 'spatial':
        distance.weight_distance_matrix(region_md.region)
    if request['algorithm'] == 'kmedoids':
        metadata = KmedoidsClusteringMetadata(request['k'], random_seed=request['seed'], mode=request['mode'],
                                              initial_medoids=request['initial'], verbose=False)
    else:
        metadata = RegularClusteringMetadata(request['k'])
    region = SpatioTemporalRegion(np.arange(2.0 * x_len * y_len).reshape(2, x_len, y_len), region_md)
    return ClusteringFactory(distance).instance(metadata), region


def answer(partition):
    return ([[int(v) for v in row] for row in partition.as_numpy],
            [(int(p.x), int(p.y)) for p in partition.medoids], int(partition.k))


def run_history(spec, ctx):
    shape = spec['shape']
    n = shape[0] * shape[1]
    stored = {}       # key -> expected answer; a key whose file was damaged is removed
    files = {}        # key -> path
    reused = neighbours = 0
    seen = []
    with scratch_dir():
        for number, step in enumerate(spec['steps']):
            if 'damage' in step:
                if not files:
                    continue
                key = sorted(files, key=lambda k: files[k])[step['which'] % len(files)]
                path = files.pop(key)
                with open(path, 'rb') as f:
                    content = f.read()
                if step['damage'] == 'remove':
                    os.remove(path)
                else:
                    damaged = dict(truncate=content[:step['at'] % len(content)], empty=b'',
                                   garbage=b'garbage' + content[7:])[step['damage']]
                    with open(path, 'wb') as f:
                        f.write(damaged)
                del stored[key]
                ctx.tag('damage:' + step['damage'])
                continue
            request = step['request']
            matrix = gen.full_matrix(step['data'], n)
            key = key_of(request)
            home = HOMES[request['home']]
            algorithm, region = build_request(request, matrix, shape)
            fresh_algorithm, _ = build_request(request, matrix, shape)
            before = snapshot()
            fresh = answer(fresh_algorithm.partition(region))
            require(snapshot() == before, 'step {}: partitioning without persistence wrote files', number)
            got = answer(algorithm.partition(region, pickle_home=home))
            after = snapshot()
            changed = sorted(p for p in after if before.get(p) != after[p])
            removed = sorted(p for p in before if p not in after)
            require(not removed, 'step {}: {} removed', number, removed)
            for path in changed:
                require(path.startswith(home + os.sep), 'step {}: asked to store under {}, wrote {}', number, home, path)
            what = 'step {} {}'.format(number, request)
            if key in stored:
                require(got == stored[key], '{}: the stored partition is {}, got {}', what, stored[key], got)
                require(not changed, '{}: rewrote {} although it was stored', what, changed)
                if fresh != got:
                    reused += 1
            else:
                require(got == fresh, '{}: not stored before, computed is {}, got {}', what, fresh, got)
                require(len(changed) == 1, '{}: stored {}', what, changed)
                for other, path in files.items():
                    require(path != changed[0], '{} and {} share the file {}', what, other, path)
                with open(changed[0], 'rb') as f:
                    require(answer(pickle.load(f)) == got, '{}: the stored partition differs', what)
                stored[key], files[key] = got, changed[0]
            for other in seen:
                if sum(request.get(f) != other.get(f) for f in set(request) | set(other)) == 1:
                    neighbours += 1
            seen.append(request)
            ctx.tag(request['algorithm'], 'reuse' if reused else 'no reuse')
        # loading explicitly gives the stored partition, or fails when there is none
        for step in spec['steps']:
            if 'request' in step:
                request = step['request']
                algorithm, region = build_request(request, np.zeros((n, n)), shape)
                loaded = algorithm.try_load_previous_partition(region.region_metadata, HOMES[request['home']])
                if key_of(request) in stored:
                    require(loaded is not None and answer(loaded) == stored[key_of(request)], 'loading {}', request)
                else:
                    require(loaded is None, 'a damaged or missing partition was loaded')
    ctx.nontrivial(reused > 0 and neighbours > 0)


SUBS = [Sub('history', history_spec, run_history, quick=600, thorough=12000, shards=(4, 8))]
