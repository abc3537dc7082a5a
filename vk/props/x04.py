'''X04: the region and silhouette commands.'''
import logging
import math
import os
import re
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from .. import commands, figures, gen, series, solve
from ..core import Sub, require, scratch_dir
from . import c07, d04, s06, u03

RULE = ('the commands themselves (main function and arguments) on described regions of 4..16 points at some corner of the '
        'dataset, plain or scaled: the centroid with distances stored or missing, centroids of up to 4 regions one after another, some of them known, figures of distances from both commands, '
        'and the silhouette command in its steps with distances computed by it or stored before; what is saved, logged and '
        'drawn is compared with what follows from the data; non-trivial: a region that is not square and an answer that is not '
        'the first point or clustering')
ASSUMPTIONS = ['among equally good clusterings any may be the best', 'folders for figures exist', 'points of a region differ']


@st.composite
def place(draw, shapes, name='place'):
    shape = draw(st.sampled_from(shapes))
    n = shape[0] * shape[1]
    t = draw(st.sampled_from([6, 8, 11]))
    return dict(shape=shape, name=name, t=t, train=t - 2, test=2, values=s06.distinct_values(draw, shape, t),
                factors=[1.0 + b / 32.0 for b in draw(gen.noise(n))], triangle=draw(gen.symmetric_matrix(n)),
                corner=draw(st.sampled_from([[3, 7], [0, 0], [20, 2], [0, 5], [31, 40]])),
                scaled=draw(st.sampled_from([False, True])), spd=draw(st.sampled_from([1, 4])))


def measured(world):
    points = world.points()
    return np.array([[np.sqrt(series.dtw_squared(list(world.seen[:, a[0], a[1]]), list(world.seen[:, b[0], b[1]])))
                      for b in points] for a in points])


def describe(world):
    commands.forget()
    commands.REGIONS[world.spec['name']] = lambda: world.region_metadata


def check_distance_figures(seen, world, matrix):
    x_len, y_len = world.x_len, world.y_len
    center = (x_len // 2) * y_len + y_len // 2
    for path, index in (('plots/distances_0_0_{}.eps', 0), ('plots/distances_center_{}.eps', center)):
        path = path.format(world.spec['name'])
        found = seen.at(path)
        require(found is not None, 'no figure {} among {}', path, [f.path for f in seen.saved])
        require(len(found.axes) == 1 and len(found.axes[0].images) == 1, '{}: {} subplots', path, len(found.axes))
        image = np.array(found.axes[0].images[0], dtype=float)
        require(gen.exact(image, matrix[index].reshape(x_len, y_len)), '{}: shows {} instead of the distances to {}', path,
                image.tolist(), (index // y_len, index % y_len))


# ---------------------------------------------------------------- centroid and distances

@st.composite
def region_spec(draw):
    one = draw(place([[2, 3], [3, 2], [3, 3], [2, 4], [4, 3], [1, 5], [5, 1], [3, 4], [2, 2]]))
    one['stored'] = draw(st.booleans())
    one['figures'] = draw(st.sampled_from([True, True, False]))
    return one


def run_region(spec, ctx):
    with scratch_dir():
        os.mkdir('plots')
        world = solve.World(spec)
        describe(world)
        filename = world.region_metadata.distances_filename
        if not spec['stored']:
            os.remove(filename)
        logs = []
        commands.call('experiments.region.centroid', 'processRequest', ['place'], logs)
        found = [m for level, m in logs if level >= logging.INFO and 'Point(' in m]
        require(len(found) >= 1, 'no centroid is logged: {}', logs)
        got = tuple(int(v) for v in re.search(r'Point\(x=(\d+), y=(\d+)\)', found[-1]).groups())
        matrix = world.matrix if spec['stored'] else measured(world)
        n = len(matrix)
        sums = [math.fsum(row) for row in matrix]
        best = [divmod(i, world.y_len) for i in range(n) if sums[i] <= min(sums) * (1 + 1e-9)]
        require(got in best, 'centroid {} instead of {}', got, best)
        if spec['stored']:
            # those sums are exact
            require(got == best[0], 'centroid {} although {} comes first', got, best)
        numbers = [float(v) for v in re.findall(r'\d+\.\d+', found[-1])]
        require(len(numbers) == 1 and abs(numbers[0] - min(sums)) <= 0.0005 + 1e-6, 'sum of distances {} instead of {}', numbers, min(sums))
        if spec['figures']:
            with figures.watch() as seen:
                commands.call('experiments.region.distance', 'processRequest', ['place', 'dtw', '--plots'])
            got_matrix = np.load(filename)
            want = measured(world)
            require(gen.same(got_matrix, want, 1e-6, 1e-9), 'matrix {} instead of {}', got_matrix.tolist(), want.tolist())
            check_distance_figures(seen, world, got_matrix)
    ctx.nontrivial(best[0] != (0, 0) and world.x_len != world.y_len)
    ctx.tag('stored' if spec['stored'] else 'missing', 'figures' if spec['figures'] else 'centroid only')


# ---------------------------------------------------------------- centroids of several regions, one after another

@st.composite
def centroids_spec(draw):
    one = draw(place([[3, 4], [4, 3], [4, 4], [3, 5], [2, 5]]))
    x_len, y_len = one['shape']
    one['parts'] = []
    for _ in range(draw(st.integers(1, 3))):
        # parts of the place, often of equal shape
        a = draw(st.integers(1, x_len)) if draw(st.booleans()) else 2
        b = draw(st.integers(1, y_len)) if draw(st.booleans()) else 3 if y_len > 3 else 2
        part = dict(x=draw(st.integers(0, x_len - a)), y=draw(st.integers(0, y_len - b)), shape=[a, b])
        part['triangle'] = draw(st.none() | gen.symmetric_matrix(a * b)) if a * b > 1 else None
        one['parts'].append(part)
    one['order'] = draw(st.lists(st.integers(0, len(one['parts']) - 1), min_size=draw(st.sampled_from([1, 2, 2])), max_size=4))
    one['call'] = draw(st.sampled_from(['by name', 'one measure', 'default measure', 'by name, one measure']))
    # centroids that are in the table of known ones, for some parts
    one['known'] = {str(i): [draw(st.integers(0, 9)), draw(st.integers(0, 9))] for i in range(len(one['parts']))
                    if draw(st.sampled_from([False, False, True]))}
    return one


def run_centroids(spec, ctx):
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Point, Region
    from spta.region.centroid import CalculateCentroid
    from spta.region.metadata import SpatioTemporalRegionMetadata
    table = commands.load('experiments.metadata.centroid')
    by_name = table.centroid_by_region_and_distance
    known = {('part' + i, 'DistanceByDTW'): Point(*place) for i, place in spec.get('known', {}).items()}
    known['part0', 'DistanceBySpatialDTW'] = Point(77, 77)
    with scratch_dir(), commands.quiet(), mock.patch.object(table, 'precalculated_centroids', lambda: dict(known)):
        world = solve.World(spec)
        commands.forget()
        all_distances = measured(world)
        index = np.arange(world.x_len * world.y_len).reshape(world.x_len, world.y_len)
        described, wanted = [], []
        for i, part in enumerate(spec['parts']):
            a, b = part['shape']
            x, y = spec['corner'][0] + part['x'], spec['corner'][1] + part['y']
            metadata = SpatioTemporalRegionMetadata('part{}'.format(i), Region(x, x + a, y, y + b), 2015, 2015, spec['spd'],
                                                    scaled=spec['scaled'])
            commands.REGIONS[metadata.name] = lambda metadata=metadata: metadata
            described.append(metadata)
            inside = index[part['x']:part['x'] + a, part['y']:part['y'] + b].reshape(-1)
            if part['triangle'] is None:
                matrix = all_distances[np.ix_(inside, inside)]
            else:
                matrix = gen.full_matrix(part['triangle'], a * b)
                np.save(metadata.distances_filename, matrix)
            sums = [math.fsum(row) for row in matrix]
            wanted.append([divmod(j, b) for j in range(a * b) if sums[j] <= min(sums) * (1 + 1e-9)])
        measure = DistanceByDTW()
        answers = set()
        for step, i in enumerate(spec['order']):
            if spec['call'] == 'default measure':
                got = CalculateCentroid.for_sptr_metadata(described[i])
            elif spec['call'] == 'one measure':
                got = CalculateCentroid.for_sptr_metadata(described[i], measure)
            elif spec['call'] == 'by name':
                got = by_name('part{}'.format(i), DistanceByDTW())
            else:
                got = by_name('part{}'.format(i), measure)
            answers.add((i, tuple(got)))
            if spec['call'].startswith('by name') and ('part{}'.format(i), 'DistanceByDTW') in known:
                require(got == known['part{}'.format(i), 'DistanceByDTW'], 'call {}: the known centroid of part {} is not {}', step, i, got)
                continue
            require(tuple(got) in wanted[i], 'call {}: the centroid of part {} is {} instead of {}', step, i, tuple(got), wanted[i])
    ctx.nontrivial(len(answers) > 1 and any(place != (0, 0) for _, place in answers))
    ctx.tag(spec['call'], 'missing' if any(spec['parts'][i]['triangle'] is None for i in spec['order']) else 'stored',
            'again' if len(set(spec['order'])) < len(spec['order']) else 'once')


# ---------------------------------------------------------------- silhouettes

# counts and seeds of the analyses the command knows by name
NAMES = {'sp_small': ([2, 3, 4], [0]), 'sp_rj': ([2, 3, 4], [0]), 'brian': ([2, 3, 4, 5], [0, 1, 2]),
         'whole_brazil': ([12], [0, 1, 2, 3])}


@st.composite
def silhouette_spec(draw):
    name = draw(st.sampled_from(['brian', 'sp_small', 'brian', 'sp_rj', 'whole_brazil']))
    shapes = {'brian': [[3, 3], [2, 4]], 'whole_brazil': [[4, 4], [3, 5], [5, 3], [2, 7]]}
    one = draw(place(shapes.get(name, [[2, 3], [3, 3], [2, 4], [4, 3], [3, 4], [2, 5], [4, 4]]), name))
    one['compute'] = draw(st.booleans())
    return one


def run_silhouette(spec, ctx):
    from spta.distance.dtw import DistanceByDTW
    from spta.kmedoids.kmedoids import run_kmedoids
    name = spec['name']
    program = 'experiments.clustering.silhouette'
    with scratch_dir():
        os.mkdir('plots')
        world = solve.World(spec)
        describe(world)
        metadata = world.region_metadata
        x_len, y_len = world.x_len, world.y_len
        n = x_len * y_len
        commands.call(program, 'processRequest', [name, 'save'])
        saved = np.load(metadata.dataset_filename)
        require(gen.same(saved, world.seen, 1e-12, 1e-12), 'the dataset saved is {} instead of {}', saved.tolist(), world.seen.tolist())
        matrix = world.matrix
        if spec['compute']:
            commands.call(program, 'processRequest', [name, 'distances'])
            matrix = np.load(metadata.distances_filename)
            want = measured(world)
            require(gen.same(matrix, want, 1e-6, 1e-9), 'matrix {} instead of {}', matrix.tolist(), want.tolist())
        logs = []
        with figures.watch() as seen:
            commands.call(program, 'processRequest', [name, 'kmedoids'], logs)
        ks, seeds = NAMES[name]
        measure = DistanceByDTW()
        measure.distance_matrix = matrix.copy()
        flat = world.seen.reshape(len(world.seen), n).T
        scores, labels_of, medoids_of = {}, {}, {}
        for seed in seeds:
            for k in ks:
                result = run_kmedoids(flat, k, measure, random_seed=seed, mode='lite', verbose=False)
                labels_of[seed, k] = [int(v) for v in result.labels]
                medoids_of[seed, k] = [int(v) for v in result.medoids]
                scores[seed, k] = c07.silhouette(matrix, labels_of[seed, k])
                figure = seen.at('plots/{}_k{}_seed{}.eps'.format(name, k, seed))
                what = 'k={} seed={}'.format(k, seed)
                require(figure is not None, '{}: no figure among {}', what, [f.path for f in seen.saved])
                require('k={}'.format(k) in figure.title and 'seed={}'.format(seed) in figure.title, '{}: title {!r}', what, figure.title)
                u03.check_clusters(figure.axes[0], np.array(labels_of[seed, k]).reshape(x_len, y_len), what)
                shown = float(figure.axes[1].title.split('=')[-1])
                require(abs(shown - scores[seed, k]) <= 0.0005 + 1e-9, '{}: score {} instead of {}', what, shown, scores[seed, k])
        require(len({f.path for f in seen.saved}) == len(ks) * len(seeds), 'figures {}', [f.path for f in seen.saved])
        reported = {}
        for _, message in logs:
            match = re.match(r'Best (k|seed|medoids|labels): (.*)', message, re.S)
            if match:
                reported[match.group(1)] = [int(v) for v in re.findall(r'\d+', match.group(2))]
        require(sorted(reported) == ['k', 'labels', 'medoids', 'seed'], 'reported {}', reported)
        best = reported['seed'][0], reported['k'][0]
        require(best in scores and max(scores.values()) - scores[best] < 1e-9, 'best is seed and k {}, but the scores are {}', best, scores)
        require(reported['labels'] == labels_of[best] and reported['medoids'] == medoids_of[best], '{}: reported {} instead of {} and {}',
                best, reported, medoids_of[best], labels_of[best])
        last = seen.shown[-1]
        require('k={}'.format(best[1]) in last.title, 'the best is shown as {!r}', last.title)
        u03.check_clusters(last.axes[0], np.array(labels_of[best]).reshape(x_len, y_len), 'best')
        require(len(last.axes) == 2 and '=' in last.axes[1].title, 'the best is shown without its score: {}',
                [axes.title for axes in last.axes])
        shown = float(last.axes[1].title.split('=')[-1])
        require(abs(shown - scores[best]) <= 0.0005 + 1e-9, 'best: score {} instead of {}', shown, scores[best])
        with figures.watch() as seen:
            commands.call(program, 'processRequest', [name, 'show_distances'])
        check_distance_figures(seen, world, matrix)
        require(gen.exact(np.load(metadata.distances_filename), matrix), 'the stored distances changed')
    ctx.nontrivial(x_len != y_len and best != (seeds[0], ks[0]))
    ctx.tag(name, 'computed' if spec['compute'] else 'stored', 'scaled' if spec['scaled'] else 'unscaled')


SUBS = [
    Sub('region', region_spec, run_region, quick=120, thorough=3000, shards=(3, 8)),
    Sub('centroids', centroids_spec, run_centroids, quick=200, thorough=6000, shards=(2, 8)),
    Sub('silhouette', silhouette_spec, run_silhouette, quick=100, thorough=1000, shards=(6, 8)),
]
