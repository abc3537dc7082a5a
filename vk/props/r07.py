'''R07: saved regions reload unchanged, from their own files.'''
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require, must_raise, scratch_dir

RULE = ('1..4 described regions (distinct descriptions, 1..4 x 1..4 points, scaled and not) saved and pickled in generated '
        'order into the same folders and reloaded at the end; non-trivial: at least two regions stored, one of them '
        'scaled')
ASSUMPTIONS = ['descriptions which differ only in rectangle or folder share a name by design and are not mixed']


@st.composite
def store_spec(draw):
    entries = []
    for _ in range(draw(st.integers(1, 4))):
        cube = draw(gen.cube(t=(1, 4), x=(1, 4), y=(1, 4), nan=2))
        years = sorted([draw(st.integers(1979, 2015)), draw(st.integers(1979, 2015))])
        entries.append(dict(cube=cube, name=draw(st.sampled_from(['sp', 'sp_small', 'sp small', 'SP', 'sp-small', 'a', 'a_2014',
                                                              'nordeste'])),
                            years=draw(st.sampled_from([[2014, 2015], [2015, 2015], [2014, 2014], years])),
                            spd=draw(st.sampled_from([1, 4])), scaled=draw(st.booleans()),
                            offset=[draw(st.integers(0, 50)), draw(st.integers(0, 50))]))
    return dict(entries=entries, order=draw(st.permutations(range(2 * len(entries)))),
                replaced=draw(st.lists(st.integers(0, 3), max_size=2)),
                subset=draw(st.lists(st.integers(0, 1000), min_size=4, max_size=4)), cluster=draw(st.booleans()))


def describe(entry, x_len, y_len, home):
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    x, y = entry['offset']
    return SpatioTemporalRegionMetadata(entry['name'], Region(x, x + x_len, y, y + y_len), entry['years'][0],
                                        entry['years'][1], entry['spd'], scaled=entry['scaled'], dataset_dir=home)


def described(entry, data):
    from spta.region.scaling import ScaleFunction
    from spta.region.temporal import SpatioTemporalRegion
    t, x_len, y_len = data.shape
    metadata = describe(entry, x_len, y_len, 'data')
    region = SpatioTemporalRegion(data.copy('K'), metadata)
    if not entry['scaled']:
        return metadata, region, regions.Model(data)
    return metadata, ScaleFunction(x_len, y_len).apply_to(region, t), regions.Model(*regions.scale_reference(data))


def run_store(spec, ctx):
    from spta.region.temporal import SpatioTemporalRegion
    with scratch_dir():
        os.mkdir('data')
        stored = {}
        for index, entry in enumerate(spec['entries']):
            key = (entry['name'], tuple(entry['years']), entry['spd'], entry['scaled'])
            if key in stored:
                continue
            metadata, region, model = described(entry, gen.array(entry['cube']))
            stored[key] = (index, metadata, region, model)
        names = ['dataset_filename', 'distances_filename', 'scaled_min_filename', 'scaled_max_filename']
        seen = {}
        for key, (_, metadata, _, _) in stored.items():
            for filename in [getattr(metadata, n) for n in names] + [metadata.pickle_filename('pickles')]:
                path = os.path.normpath(filename)
                require(path not in seen, '{} and {} share the file {}', key, seen.get(path), path)
                seen[path] = key
        by_index = {v[0]: v for v in stored.values()}
        again = [None] * (3 * len(spec.get('replaced', [])))
        # the newer region of a replaced description has other values
        for turn, step in enumerate(spec['order'] + again):
            if step is not None:
                index, action = step // 2, step % 2
            else:
                index, action = spec['replaced'][(turn - len(spec['order'])) // 3], (turn - len(spec['order'])) % 3
            if index not in by_index:
                continue
            if step is None:
                if action == 0:
                    entry = spec['entries'][index]
                    metadata, region, model = described(entry, gen.array(entry['cube']) * 2 + turn)
                    by_index[index] = (index, metadata, region, model)
                    continue
                action -= 1
            _, metadata, region, _ = by_index[index]
            before = snapshot()
            if action == 0:
                region.save()
                own = set([metadata.dataset_filename, metadata.scaled_min_filename, metadata.scaled_max_filename])
            else:
                region.pickle('pickles')
                own = set([metadata.pickle_filename('pickles')])
            own = set(os.path.normpath(p) for p in own)
            for path, content in snapshot().items():
                require(path in own or before.get(path) == content, 'storing {} wrote {}', metadata, path)
            for path in before:
                require(os.path.exists(path), 'storing {} removed {}', metadata, path)
        for index, metadata, region, model in by_index.values():
            require(gen.exact(np.load(metadata.dataset_filename), region.as_numpy), '{}: saved dataset', metadata)
            require(gen.same(np.load(metadata.dataset_filename), model.data), '{}: saved dataset values', metadata)
            if metadata.scaled:
                require(gen.same(np.load(metadata.scaled_min_filename), model.mins), '{}: saved minima', metadata)
                require(gen.same(np.load(metadata.scaled_max_filename), model.maxs), '{}: saved maxima', metadata)
            loaded = SpatioTemporalRegion.from_pickle(metadata.pickle_filename('pickles'))
            require(type(loaded) is type(region), '{}: reloaded as {}', metadata, type(loaded))
            regions.compare(loaded, model, '{} reloaded'.format(metadata))
            regions.compare_scaling(loaded, model, '{} reloaded'.format(metadata))
            require(gen.exact(loaded.as_numpy, region.as_numpy), '{}: reloaded values', metadata)
            require(repr(loaded.region_metadata) == repr(metadata), 'reloaded description {}', loaded.region_metadata)
            for attribute in ('region', 'year_start', 'year_end', 'spd', 'scaled', 'name', 'x_len', 'y_len'):
                require(getattr(loaded.region_metadata, attribute) == getattr(metadata, attribute),
                        'reloaded description: {}', attribute)
        anonymous = SpatioTemporalRegion(np.zeros((1, 1, 1)))
        with must_raise(ValueError, 'saving a region without description'):
            anonymous.save()
        with must_raise(ValueError, 'pickling a region without description'):
            anonymous.pickle('pickles')
        ctx.nontrivial(len(stored) >= 2 and any(k[3] for k in stored))
        ctx.tag('stored:{}'.format(len(stored)))


def snapshot():
    content = {}
    for folder, _, files in os.walk('.'):
        for name in files:
            path = os.path.normpath(os.path.join(folder, name))
            with open(path, 'rb') as f:
                content[path] = f.read()
    return content


@st.composite
def derived_spec(draw):
    spec = draw(regions.chain_spec(['time', 'rect', 'both', 'repeat', 'cluster', 'function', 'descale'], nan=1,
                                   t=(1, 4), x=(1, 4), y=(1, 4), max_ops=3))
    spec['consumed'] = draw(st.integers(0, 3))
    return spec


def run_derived(spec, ctx):
    '''pickle_to / save_to any region, clusters included; then keep working with the reloaded one.'''
    from spta.region import TimeInterval
    from spta.region.temporal import SpatioTemporalRegion
    real, model, done = regions.run_chain(spec, ctx, check_scaling=False)
    with scratch_dir():
        real.pickle_to('region.pickle')
        real.save_to('region.npy')
        loaded = SpatioTemporalRegion.from_pickle('region.pickle')
        require(gen.exact(np.load('region.npy'), real.as_numpy), 'saved values')
    require(type(loaded) is type(real), 'reloaded as {}', type(loaded))
    regions.compare(loaded, model, 'reloaded')
    regions.compare_scaling(loaded, model, 'reloaded')
    t = model.shape[0]
    regions.compare(loaded.interval_subset(TimeInterval(0, t)), model, 'time subset of the reloaded region')
    ctx.nontrivial(len(done) >= 1 and len(model.points()) >= 2)


SUBS = [
    Sub('described', store_spec, run_store, quick=400, thorough=8000, shards=(3, 8)),
    Sub('derived', derived_spec, run_derived, quick=400, thorough=8000, shards=(2, 8)),
]
