'''R09: a description always loads the described slice of the dataset.'''
import datetime
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require, must_raise, scratch_dir

RULE = ('a complete 1979-2015 dataset (4 samples per day, HDF5, 1..4 x 1..4 points, random values, some missing) and sequences of 1..6 '
        'loads by description (years, rate, rectangle, scaling) sharing one cache folder, with invalid years and a '
        'damaged cache in between; non-trivial: at least two loads whose years contain a leap day, or a repeated load')
ASSUMPTIONS = ['the dataset is complete: 54056 samples from 1979-01-01', 'the mean of a day with a missing sample is missing', 'rates of 1 and 4 samples per day (documented)']

FIRST, LAST = 1979, 2015
TOTAL = (datetime.date(LAST + 1, 1, 1) - datetime.date(FIRST, 1, 1)).days * 4


def years():
    def pair(start, length):
        return [start, min(LAST, start + length)]
    valid = st.builds(pair, st.one_of(st.integers(FIRST, LAST), st.sampled_from([1979, 1980, 1999, 2000, 2012, 2015])),
                      st.sampled_from([0, 0, 0, 1, 1, 2, 4]))
    invalid = st.sampled_from([[1978, 1979], [2015, 2016], [2016, 2016], [2001, 2000], [1970, 1978], [1978, 2016]])
    return st.one_of(valid, valid, valid, valid, invalid)


@st.composite
def spec(draw):
    x_len, y_len = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    loads = []
    # most loads are about the same few years: each alone, several together
    base = draw(st.sampled_from([1979, 2011, 1991, 1999, 2003, 2007, 2012, 2013]))
    rate = draw(st.sampled_from([1, 4]))
    near = draw(st.permutations([[a, b] for a in range(base, base + 3) for b in range(a, base + 3)]))
    related = draw(st.booleans())
    for index in range(draw(st.integers(3, 6)) if related else draw(st.integers(1, 6))):
        load = dict(years=near[index] if related else draw(years()),
                    spd=draw(st.sampled_from([rate, rate, rate, 5 - rate])), rect=draw(gen.rectangle(x_len, y_len)),
                    scaled=draw(st.integers(0, 3)) == 0)
        if loads and not related and draw(st.integers(0, 2)) == 0:
            load['years'] = loads[draw(st.integers(0, len(loads) - 1))]['years']
        load['damage'] = not related and draw(st.integers(0, 7)) == 0
        loads.append(load)
    return dict(shape=[x_len, y_len], seed=draw(st.integers(0, 10 ** 6)), loads=loads,
                dtype=draw(st.sampled_from(['f8', 'f8', 'i2', 'f4'])), missing=draw(st.sampled_from([False, False, True])))


def reference(data, load):
    start, end = [(datetime.date(y, 1, 1) - datetime.date(FIRST, 1, 1)).days
                  for y in (load['years'][0], load['years'][1] + 1)]
    x1, x2, y1, y2 = load['rect']
    if load['spd'] == 4:
        return data[start * 4:end * 4, x1:x2, y1:y2]
    data = data.astype(np.float64)
    total = data[start * 4:end * 4:4] + data[start * 4 + 1:end * 4:4] + data[start * 4 + 2:end * 4:4] \
        + data[start * 4 + 3:end * 4:4]
    return (total / 4.0)[:, x1:x2, y1:y2]


def run(spec, ctx):
    import h5py
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    x_len, y_len = spec['shape']
    data = np.random.RandomState(spec['seed']).uniform(-30, 310, size=(TOTAL, x_len, y_len)) \
        .astype(spec.get('dtype', 'f8'))
    if spec.get('missing') and data.dtype.kind == 'f' and not any(load['scaled'] for load in spec['loads']):
        # some samples are missing, and some whole days
        holes = np.random.RandomState(spec['seed'] + 1)
        data[holes.uniform(size=data.shape) < 0.05] = np.nan
        data[np.repeat(holes.uniform(size=TOTAL // 4) < 0.01, 4)] = np.nan
        ctx.tag('missing samples')
    with scratch_dir():
        os.mkdir('raw')
        with h5py.File('raw/TEMPERATURE_1979-2015.hdf', 'w') as f:
            f['real'] = data
        source = os.stat('raw/TEMPERATURE_1979-2015.hdf')
        loaded = []
        leap = 0
        for load in spec['loads']:
            ys, ye = load['years']
            metadata = SpatioTemporalRegionMetadata('r', Region(*load['rect']), ys, ye, load['spd'],
                                                    scaled=load['scaled'])
            what = '{} {}'.format(metadata, load['rect'])
            if ys > ye or ys < FIRST or ye > LAST:
                with must_raise(ValueError, what):
                    metadata.create_instance()
                continue
            if load['damage']:
                for name in os.listdir('raw'):
                    if name.endswith('.npy'):
                        with open(os.path.join('raw', name), 'wb') as f:
                            f.write(b'not numpy')
            region = metadata.create_instance()
            want = reference(data, load)
            require(tuple(region.shape) == want.shape, '{}: shape {} instead of {}', what, region.shape, want.shape)
            require(bool(region.has_scaling()) == load['scaled'], '{}: has_scaling', what)
            require(region.region_metadata is not None and repr(region.region_metadata) == repr(metadata),
                    '{}: description of the region is {}', what, region.region_metadata)
            if load['scaled']:
                low, high = want.min(axis=0), want.max(axis=0)
                tol = 1e-9 if spec.get('dtype') != 'f4' else 1e-5
                require(gen.same(region.as_numpy, (want - low) / (high - low), tol, tol), '{}: scaled values', what)
                require(gen.same(region.scale_min.as_numpy, low, tol, tol) and
                        gen.same(region.scale_max.as_numpy, high, tol, tol), '{}: scaling data', what)
            else:
                # means of single precision samples are single precision themselves
                tol = 1e-12 if spec.get('dtype') != 'f4' or load['spd'] == 4 else 1e-6
                require(gen.same(region.as_numpy, want, tol, tol), '{}: values differ', what)
            if any(y % 4 == 0 for y in range(ys, ye + 1)):
                leap += 1
            loaded.append((tuple(load['years']), load['spd']))
        after = os.stat('raw/TEMPERATURE_1979-2015.hdf')
        require((after.st_size, after.st_mtime_ns) == (source.st_size, source.st_mtime_ns), 'the dataset was written')
    ctx.nontrivial(leap >= 2 or len(set(loaded)) < len(loaded))
    ctx.tag('loads:{}'.format(len(loaded)), 'repeated' if len(set(loaded)) < len(loaded) else 'distinct')


# ------------------------------------------------------------------ predefined regions

# longer than the largest predefined rectangle reaches
PREDEFINED_SHAPE = (107, 106)


def predefined():
    from experiments.metadata.region import predefined_regions
    return sorted(predefined_regions())


def run_predefined(spec, ctx):
    '''The identifier of a predefined region spells out its years, rate and scaling; equal names, equal rectangles.'''
    import re
    from experiments.metadata.region import predefined_regions
    ids = predefined()
    chosen = sorted(set(ids[i % len(ids)] for i in spec['ids']))
    rng = np.random.RandomState(spec['seed'])
    rectangles = {}
    with scratch_dir():
        os.mkdir('raw')
        for key in chosen:
            match = re.match(r'^(\w+)_(\d{4})_(\d{4})_(\d)spd(_scaled)?$', key)
            require(match is not None, 'predefined region with the identifier {}', key)
            name, first, last, rate, scaled = match.groups()
            path = 'raw/SouthAmerica_{}_{}_{}spd.npy'.format(first, last, rate)
            if not os.path.exists(path):
                instants = (datetime.date(int(last) + 1, 1, 1) - datetime.date(int(first), 1, 1)).days * int(rate)
                np.save(path, rng.randint(0, 3000, size=(instants,) + PREDEFINED_SHAPE).astype('i2'))
            data = np.load(path)
            metadata = predefined_regions()[key]
            require(repr(metadata) == key, 'the identifier {} describes {!r}', key, metadata)
            region = metadata.create_instance()
            r = metadata.region
            rectangles.setdefault(name, tuple(r))
            require(rectangles[name] == tuple(r), '{}: rectangle {} where another region of that name has {}', key, r,
                    rectangles[name])
            want = data[:, r.x1:r.x2, r.y1:r.y2]
            require(tuple(region.shape) == want.shape and 0 not in want.shape, '{}: shape {}', key, region.shape)
            require(bool(region.has_scaling()) == bool(scaled), '{}: has_scaling', key)
            if scaled:
                low, high = want.min(axis=0), want.max(axis=0)
                want = (want - low.astype('f8')) / (high - low)
            require(gen.same(region.as_numpy, want, 1e-9, 1e-9), '{}: values differ', key)
            ctx.tag('predefined:' + key)
    ctx.nontrivial(len(chosen) >= 2)


def predefined_spec():
    return st.fixed_dictionaries(dict(ids=st.lists(st.integers(0, 60), min_size=2, max_size=3),
                                      seed=st.integers(0, 10 ** 6)))


EVERY_PREDEFINED = [dict(ids=list(range(60)), seed=5)]

# one load per year and rate: every leap year and both ends of the dataset
EVERY_YEAR = [dict(shape=[1, 2], seed=year, loads=[
    dict(years=[year, min(LAST, year + span)], spd=spd, rect=[0, 1, 0, 2], scaled=False, damage=False)
    for spd in (1, 4, 1) for span in (0, 1)]) for year in range(FIRST, LAST + 1)]


@st.composite
def calendar_spec(draw):
    first = draw(st.integers(1600, 2400))
    start = first + draw(st.one_of(st.integers(0, 3), st.integers(0, 200)))
    return [first, start, start + draw(st.one_of(st.integers(0, 3), st.integers(0, 120))), draw(st.sampled_from([1, 4, 24]))]


def days_before(year):
    '''Days before a year in the Gregorian calendar'''
    return 365 * (year - 1) + (year - 1) // 4 - (year - 1) // 100 + (year - 1) // 400


def run_calendar(spec, ctx):
    '''Any years: the samples between two dates, century years included.'''
    from spta.util import maths
    first, start, end, rate = spec
    interval = maths.years_to_series_interval(year_start=start, year_end=end, first_year_in_sample=first,
                                              samples_per_day=rate)
    want = ((days_before(start) - days_before(first)) * rate, (days_before(end + 1) - days_before(first)) * rate)
    require(tuple(interval) == want, 'years {}-{} of a dataset from {}: {} instead of {}', start, end, first, interval, want)
    ctx.nontrivial(days_before(end + 1) - days_before(first) > 365 * (end + 1 - first))


SUBS = [Sub('calendar', calendar_spec, run_calendar, quick=400, thorough=10000, shards=(1, 4)),
        Sub('loads', spec, run, quick=800, thorough=3000, examples=EVERY_YEAR, shards=(6, 8)),
        # the predefined regions are few: all of them in one case, then small groups
        Sub('predefined', predefined_spec, run_predefined, quick=6, thorough=60, examples=EVERY_PREDEFINED, shards=(1, 4))]
