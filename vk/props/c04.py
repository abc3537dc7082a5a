'''C04: clustering descriptions identify the clustering they describe.'''
from hypothesis import strategies as st

from ..core import Sub, require

RULE = ('pools of 3..7 descriptions (k-medoids of any k, seed, mode, initial medoids; regular) in which most differ '
        'from another one in a single parameter or only swap digits between parameters, compared pairwise together with '
        'regions and distances; non-trivial: two descriptions that differ in exactly one parameter occurred')
ASSUMPTIONS = ['seeds are not negative', 'iteration limit and tolerance are not part of a description',
               'initial medoids are written, but not parsed (documented), so those descriptions are not parsed']


@st.composite
def description(draw):
    kind = draw(st.sampled_from(['kmedoids', 'kmedoids', 'kmedoids', 'regular']))
    number = st.sampled_from([1, 2, 3, 11, 12, 21, 111, 5, 150]) | st.integers(1, 1000)
    d = dict(kind=kind, k=draw(number))
    if kind == 'kmedoids':
        d['seed'] = draw(st.sampled_from([0, 1, 2, 11, 12, 21, 111]) | st.integers(0, 100000))
        d['mode'] = draw(st.sampled_from(['lite', 'robust']))
        d['initial'] = draw(st.none() | st.none() | st.lists(st.sampled_from([0, 1, 2, 11, 12, 21, 112]), min_size=1,
                                                             max_size=4))
    return d


@st.composite
def pool_spec(draw):
    pool = [draw(description())]
    for _ in range(draw(st.integers(2, 6))):
        base = dict(draw(st.sampled_from(pool)))
        change = draw(st.sampled_from(['same', 'field', 'field', 'field', 'swap', 'new']))
        if change == 'field':
            fields = sorted(f for f in base if f != 'kind')
            field = draw(st.sampled_from(fields))
            other = draw(description())
            if field in other:
                base[field] = other[field]
        elif change == 'swap' and 'seed' in base and base['seed'] >= 1:
            base['k'], base['seed'] = base['seed'], base['k']
        elif change == 'new':
            base = draw(description())
        pool.append(base)
    regions = [dict(name=draw(st.sampled_from(['sp', 'sp_2014', 'rj', 'sp_small'])),
                    first=draw(st.sampled_from([2013, 2014, 2015])), years=draw(st.integers(0, 2)),
                    spd=draw(st.sampled_from([1, 4])), scaled=draw(st.booleans())) for _ in range(2)]
    distances = [draw(st.sampled_from(['dtw', 'rmse', 1, 2, 0.5, 10])) for _ in range(2)]
    return dict(pool=pool, regions=regions, distances=distances, home=draw(st.sampled_from(['out', 'a/b', 'pickle'])),
                index=draw(st.integers(0, 200)), max_iter=draw(st.integers(0, 5)))


def build(d, max_iter=1000):
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.clustering.regular import RegularClusteringMetadata
    if d['kind'] == 'regular':
        return RegularClusteringMetadata(d['k'])
    return KmedoidsClusteringMetadata(d['k'], random_seed=d['seed'], mode=d['mode'], initial_medoids=d['initial'],
                                      max_iter=max_iter)


def build_region(r):
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    return SpatioTemporalRegionMetadata(r['name'], Region(1, 4, 2, 6), r['first'], r['first'] + r['years'], r['spd'],
                                        scaled=r['scaled'])


def build_distance(d):
    from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
    from spta.distance.rmse import DistanceByRMSE
    if d == 'dtw':
        return DistanceByDTW()
    return DistanceByRMSE() if d == 'rmse' else DistanceBySpatialDTW(d)


def attributes(metadata):
    names = ['name', 'k', 'random_seed', 'mode', 'initial_medoids']
    return {n: getattr(metadata, n) for n in names if hasattr(metadata, n)}


def wanted(d):
    if d['kind'] == 'regular':
        return dict(name='regular', k=d['k'])
    return dict(name='kmedoids', k=d['k'], random_seed=d['seed'], mode=d['mode'], initial_medoids=d['initial'])


def run_identity(spec, ctx):
    from spta.clustering.factory import ClusteringFactory, ClusteringMetadataFactory
    from spta.clustering.kmedoids import KmedoidsClusteringAlgorithm, KmedoidsClusteringMetadata
    from spta.clustering.regular import RegularClusteringAlgorithm
    pool = spec['pool']
    factory = ClusteringMetadataFactory()
    folders = {}
    texts = {}
    for i, d in enumerate(pool):
        metadata = build(d)
        require(attributes(metadata) == wanted(d), 'parameters {} instead of {}', attributes(metadata), wanted(d))
        text = repr(metadata)
        if not d.get('initial'):
            parsed = factory.from_repr(text)
            require(type(parsed) is type(metadata) and attributes(parsed) == wanted(d), '{} is parsed as {}', text,
                    attributes(parsed))
            require(parsed == metadata and not parsed != metadata and hash(parsed) == hash(metadata) and
                    repr(parsed) == text, '{} differs from the result of parsing it, {!r}', text, parsed)
            parsed_by_class = type(metadata).from_repr(text)
            require(attributes(parsed_by_class) == wanted(d), '{} is parsed as {}', text, attributes(parsed_by_class))
        if d['kind'] == 'kmedoids':
            made = factory.instance('kmedoids', k=d['k'], random_seed=d['seed'], mode=d['mode'],
                                    initial_medoids=d['initial'])
            want = dict(type='kmedoids', k=d['k'], seed=d['seed'], mode=d['mode'])
            label = '{}-{}-{}'.format(d['k'], d['seed'], spec['index'])
            from_label = KmedoidsClusteringMetadata.from_classifier_label(label, mode=d['mode'])
            require(attributes(from_label) == dict(wanted(d), initial_medoids=None), 'label {} stands for {}', label,
                    attributes(from_label))
        else:
            made = factory.instance('regular', k=d['k'])
            want = dict(type='regular', k=d['k'])
        require(attributes(made) == wanted(d) and made == metadata, 'the factory makes {} for {}', attributes(made), d)
        require(dict(metadata.as_dict()) == want, '{}: described as {}', text, dict(metadata.as_dict()))
        algorithm = ClusteringFactory(None).instance(metadata)
        expected = KmedoidsClusteringAlgorithm if d['kind'] == 'kmedoids' else RegularClusteringAlgorithm
        require(type(algorithm) is expected and algorithm.metadata is metadata and algorithm.k == d['k'],
                '{}: the algorithm is {}', text, algorithm)
        require(repr(algorithm) == text, '{}: algorithm described as {!r}', text, algorithm)

        # equal exactly when all parameters coincide
        for other in pool[:i + 1]:
            equal = wanted(d) == wanted(other)
            other_metadata = build(other, max_iter=spec['max_iter'])
            require((metadata == other_metadata) == equal, '{!r} == {!r} is {}', metadata, other_metadata, not equal)
            require((metadata != other_metadata) == (not equal), '{!r} != {!r}', metadata, other_metadata)
            require((repr(other_metadata) == text) == equal, 'text of {} and {}: {}', d, other, text)
            if equal:
                require(hash(other_metadata) == hash(metadata), 'equal descriptions with different hash: {}', text)
            a, b = wanted(d), wanted(other)
            if a['name'] == b['name'] and sum(a[f] != b[f] for f in a) == 1:
                ctx.nontrivial()
                ctx.tag('differ in ' + [f for f in a if a[f] != b[f]][0])
        texts.setdefault(text, []).append(i)

        for r, region in enumerate(spec['regions']):
            region_metadata = build_region(region)
            for distance in spec['distances']:
                measure = build_distance(distance)
                key = (text, repr(sorted(region.items())), str(distance))
                out = metadata.output_dir(spec['home'], region_metadata, measure)
                saved = metadata.pickle_dir(region_metadata, measure, spec['home'])
                require(out == algorithm_dir(metadata, measure, region_metadata, spec['home']), 'folder of algorithm')
                for kind, folder in (('output', out), ('pickle', saved)):
                    require(folder.startswith(spec['home'] + '/') and '..' not in folder,
                            '{} folder {} is outside of {}', kind, folder, spec['home'])
                    previous = folders.setdefault((kind, folder), key)
                    require(previous == key, '{} folder {} is shared by {} and {}', kind, folder, previous, key)
                full = ClusteringFactory(measure).instance(metadata).pickle_full_path(region_metadata, spec['home'])
                require(full.startswith(saved + '/'), 'the partition is kept at {}, outside of {}', full, saved)
        ctx.tag(d['kind'], 'initial' if d.get('initial') else 'no initial')
    # as dictionary keys
    table = {}
    for i, d in enumerate(pool):
        table[build(d)] = i
    distinct = []
    for d in pool:
        if wanted(d) not in distinct:
            distinct.append(wanted(d))
    require(len(table) == len(distinct), '{} keys for {} different descriptions', len(table), len(distinct))
    for i, d in enumerate(pool):
        last = max(j for j, other in enumerate(pool) if wanted(other) == wanted(d))
        require(table[build(d)] == last, 'looking up {} finds the entry of {}', d, pool[table[build(d)]])


def algorithm_dir(metadata, measure, region_metadata, home):
    from spta.clustering.factory import ClusteringFactory
    return ClusteringFactory(measure).instance(metadata).output_dir(home, region_metadata)


@st.composite
def reject_spec(draw):
    return dict(name=draw(st.sampled_from(['', 'kmean', 'dbscan', 'regula', 'kmedoid', 'k', 'other', 'medoids'])),
                k=draw(st.integers(1, 50)), seed=draw(st.integers(0, 9)))


def run_reject(spec, ctx):
    from spta.clustering.factory import ClusteringMetadataFactory
    from ..core import must_raise
    factory = ClusteringMetadataFactory()
    with must_raise(ValueError, 'instance of ' + spec['name']):
        factory.instance(spec['name'], spec['k'], random_seed=spec['seed'])
    text = '{}_k{}_seed{}_lite'.format(spec['name'], spec['k'], spec['seed'])
    with must_raise(ValueError, 'parsing ' + text):
        factory.from_repr(text)
    ctx.nontrivial()


SUBS = [Sub('identity', pool_spec, run_identity, quick=900, thorough=20000, shards=(2, 8)),
        Sub('unknown', reject_spec, run_reject, quick=60, thorough=300, shards=(1, 1))]
