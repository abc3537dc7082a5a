'''U03: figures show the data they are drawn from.'''
import math
import os

import numpy as np
from hypothesis import strategies as st

from .. import figures, gen, solve
from ..core import Sub, require, must_raise, scratch_dir
from . import c07

RULE = ('figures of partitions of 1..8 clusters (not all used) and of values over regions of any shape, with marked points and '
        'rectangles, alone or in a given subplot; silhouettes of 2..5 clusters; groups of series, distances against errors, '
        'heat maps and the figures of solver queries; what the figure contains when it is saved or shown is compared with the '
        'data; non-trivial: a region that is not square with at least two clusters, or at least 3 series, samples or tiles')
ASSUMPTIONS = ['rows of an image are x (north to south), columns are y, as documented', 'labels of silhouettes are 0..k-1']


def white(color):
    return tuple(color) == (1.0, 1.0, 1.0, 1.0)


def black(color):
    return tuple(color) == (0.0, 0.0, 0.0, 1.0)


def check_clusters(ax, labels, what):
    '''One image: equal colours exactly for equal labels.'''
    require(len(ax.images) == 1, '{}: {} images', what, len(ax.images))
    image = ax.images[0]
    require(image.shape[:2] == labels.shape and image.ndim == 3, '{}: image of shape {} for {}', what, image.shape, labels.shape)
    colors = {}
    for (x, y), label in np.ndenumerate(labels):
        color = tuple(float(v) for v in image[x, y])
        require(colors.setdefault(int(label), color) == color, '{}: point {} of cluster {} has another colour', what, (x, y), label)
    require(len(set(colors.values())) == len(colors), '{}: clusters share colours {}', what, colors)
    return image, colors


def check_marks(ax, image, marks, what):
    got = []
    for xs, ys, color, marker, _ in ax.lines:
        require(len(xs) == 1 and len(ys) == 1 and marker == 'x', '{}: mark {} {} {}', what, xs, ys, marker)
        point = (int(ys[0]), int(xs[0]))
        got.append(point)
        require(0 <= point[0] < image.shape[0] and 0 <= point[1] < image.shape[1], '{}: mark outside at {}', what, point)
        require(white(color) if black(image[point]) else black(color), '{}: the mark at {} cannot be seen', what, point)
    require(got == [tuple(m) for m in marks], '{}: marks at {} instead of {}', what, got, marks)


def check_rectangle(ax, rectangle, what):
    '''It encloses exactly the centers of its points.'''
    require(len(ax.rectangles) == 1, '{}: {} rectangles', what, len(ax.rectangles))
    left, top, width, height, edge, fill = ax.rectangles[0]
    x1, x2, y1, y2 = rectangle
    require(not fill, '{}: the rectangle hides the clusters', what)
    require((left, left + width, top, top + height) == (y1 - 0.5, y2 - 0.5, x1 - 0.5, x2 - 0.5), '{}: rectangle {} for {}', what,
            (left, top, width, height), rectangle)


# ---------------------------------------------------------------- regions

@st.composite
def region_spec(draw):
    x_len, y_len = draw(st.sampled_from([[3, 4], [4, 2], [2, 5], [5, 5], [1, 6], [6, 1], [1, 1], [7, 3], [3, 11]]))
    n = x_len * y_len
    return dict(shape=[x_len, y_len], labels=draw(gen.labels(n, k=min(n, draw(st.sampled_from([3, 2, 5, 1, 8]))))),
                values=draw(gen.grid_values(n, ('coarse', 'fine', 'temperature'))), layout=draw(st.sampled_from(gen.LAYOUTS)),
                marks=[[i // y_len, i % y_len] for i in draw(st.none() | st.lists(st.integers(0, n - 1), max_size=6)) or []],
                rectangle=draw(st.none() | gen.rectangle(x_len, y_len)), subplot=draw(st.booleans()),
                title=draw(st.sampled_from(['Some title', ''])))


def run_region(spec, ctx):
    from matplotlib import pyplot as plt
    from spta.region import Point, Region
    from spta.region.spatial import SpatialRegion
    from spta.util import plot as plot_util
    x_len, y_len = spec['shape']
    labels = np.array(spec['labels']['labels']).reshape(x_len, y_len)
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    before = np.array(partition.as_numpy, copy=True)
    marks = [Point(*m) for m in spec['marks']]

    def draw(function, *args, **kwargs):
        with figures.watch() as seen:
            subplot = None
            if spec['subplot']:
                fig, both = plt.subplots(1, 2)
                subplot = both[1]
            function(*args, subplot=subplot, **kwargs)
            fig = plt.gcf()
            ax = figures.Axes(subplot) if subplot is not None else (seen.shown or [figures.Figure(fig)])[0].axes[0]
            if spec['subplot']:
                require(not seen.shown, 'shown although it belongs to another figure')
                require(len(fig.axes) == 2 and not fig.axes[0].images, 'drawn in another subplot')
            else:
                require(len(fig.axes) == 1 and len(seen.shown) == 1, 'shown {} times', len(seen.shown))
        require(ax.title == spec['title'], 'title {!r} instead of {!r}', ax.title, spec['title'])
        return ax

    ax = draw(plot_util.plot_partition, partition, title=spec['title'], mark_points=marks or None,
              rectangle_region=Region(*spec['rectangle']) if spec['rectangle'] else None)
    image, _ = check_clusters(ax, labels, 'partition')
    check_marks(ax, image, spec['marks'], 'partition')
    if spec['rectangle']:
        check_rectangle(ax, spec['rectangle'], 'partition')
    else:
        require(not ax.rectangles, 'partition: a rectangle')
    ax = draw(plot_util.plot_2d_clusters, labels.reshape(x_len * y_len), (x_len, y_len), title=spec['title'])
    again, _ = check_clusters(ax, labels, 'labels')
    require(gen.exact(again, image) and not ax.lines, 'labels: other figure than of the partition')
    values = gen.array(dict(values=spec['values'], shape=[x_len, y_len], layout=spec['layout']))
    ax = draw(plot_util.plot_discrete_spatial_region, SpatialRegion(values), spec['title'], False)
    require(len(ax.images) == 1 and gen.exact(np.array(ax.images[0], dtype=float), np.array(values, dtype=float)),
            'values {} instead of {}', ax.images, values.tolist())
    require(gen.exact(np.asarray(partition.as_numpy), before), 'the partition was modified')
    ctx.nontrivial(x_len != y_len and len(set(spec['labels']['labels'])) >= 2)
    ctx.tag('marks' if spec['marks'] else 'no marks', 'rectangle' if spec['rectangle'] else 'whole',
            'subplot' if spec['subplot'] else 'alone')


# ---------------------------------------------------------------- silhouettes

def widths(matrix, labels):
    '''The silhouette of each sample, by definition.'''
    n = len(labels)
    out = []
    for i in range(n):
        own = [j for j in range(n) if j != i and labels[j] == labels[i]]
        if not own:
            out.append(0.0)
            continue
        a = sum(float(matrix[i, j]) for j in own) / len(own)
        b = math.inf
        for other in set(labels) - {labels[i]}:
            members = [j for j in range(n) if labels[j] == other]
            b = min(b, sum(float(matrix[i, j]) for j in members) / len(members))
        out.append((b - a) / max(a, b))
    return out


def run_silhouette(spec, ctx):
    from matplotlib import pyplot as plt
    from spta.util import plot as plot_util
    matrix, labels, n = gen.full_matrix(spec['triangle'], spec['n']), spec['labels']['labels'], spec['n']
    k = len(set(labels))
    with figures.watch():
        fig, (left, right) = plt.subplots(1, 2)
        plot_util.plot_2d_clusters(np.array(labels), (1, n), subplot=left)
        score = plot_util.plot_clustering_silhouette(matrix, np.array(labels), subplot=right)
        image, ax = figures.Axes(left), figures.Axes(right)
    _, colors = check_clusters(image, np.array(labels).reshape(1, n), 'clusters')
    want = widths(matrix, labels)
    require(len(ax.areas) == k, '{} silhouettes for {} clusters', len(ax.areas), k)
    lowest = 0
    for c, (paths, color) in enumerate(ax.areas):
        bars = {}
        for vertices in paths:
            for x, y in vertices:
                bars.setdefault(float(y), []).append(float(x))
        lengths = [max(xs, key=abs) for _, xs in sorted(bars.items())]
        mine = sorted(want[i] for i in range(n) if labels[i] == c)
        require(len(lengths) == len(mine) and all(abs(a - b) < 1e-9 for a, b in zip(lengths, mine)),
                'cluster {}: silhouette {} instead of {}', c, lengths, mine)
        require(color[:3] == colors[c][:3], 'cluster {}: silhouette in colour {}, but {} on the map', c, color, colors[c])
        require(min(bars) >= lowest, 'cluster {}: overlaps another one', c)
        lowest = max(bars)
    require(ax.ylim[0] <= 0 and ax.ylim[1] >= lowest, 'silhouettes outside the figure')
    require([t for t in ax.texts] == [str(c) for c in range(k)], 'names {}', ax.texts)
    mean = sum(want) / n
    require(len(ax.lines) == 1 and np.all(np.abs(ax.lines[0][0] - mean) < 1e-9), 'mean at {} instead of {}', ax.lines[0][0], mean)
    require(abs(score - mean) < 1e-9 and '{:1.3f}'.format(mean) in (ax.title + ' {:1.3f}'.format(score)), 'score {}', score)
    require(abs(float(ax.title.split('=')[-1]) - mean) <= 0.0005 + 1e-9, 'title {!r} for the score {}', ax.title, mean)
    ctx.nontrivial(n >= 3 * k)
    ctx.tag('k:{}'.format(k))


# ---------------------------------------------------------------- lines, points, tiles

@st.composite
def lines_spec(draw):
    count, length = draw(st.sampled_from([3, 1, 5, 9])), draw(st.sampled_from([6, 1, 2, 30]))
    w, h = draw(st.sampled_from([2, 1, 3, 5])), draw(st.sampled_from([3, 1, 2, 4]))
    return dict(series=draw(gen.grid_values(count * length, ('fine', 'temperature'))), count=count, length=length,
                colors=[draw(st.integers(0, 6)) for _ in range(count)], distances=draw(gen.grid_values(count, ('positive',))),
                tiles=draw(gen.grid_values(w * h, ('fine', 'temperature'))), grid=[w, h], order=draw(st.permutations(range(w * h))),
                steps=draw(st.sampled_from([[10, 7], [1, 1], [5, 20]])), scale=draw(st.sampled_from([[0, 1], [-2, 2], [280, 330]])),
                save=draw(st.booleans()), own_axes=draw(st.booleans()), many=draw(st.booleans()), info=draw(st.sampled_from(['some text', ''])))


def run_lines(spec, ctx):
    import pandas as pd
    from matplotlib import colors, pyplot as plt
    from spta.distance.dtw import DistanceByDTW
    from spta.util import plot as plot_util
    count, length = spec['count'], spec['length']
    group = np.array(spec['series']).reshape(count, length)

    def check_group(seen, used):
        require(len(seen.shown) == 1 and len(seen.shown[0].axes) == 1, 'shown {} figures', len(seen.shown))
        lines = seen.shown[0].axes[0].lines
        require(len(lines) == count, '{} lines for {} series', len(lines), count)
        for i, (xs, ys, color, _, _) in enumerate(lines):
            require(xs.tolist() == list(range(length)) and gen.exact(ys, group[i]), 'line {}: {} {}', i, xs, ys)
            require(used is None or color == colors.to_rgba(plot_util.PALETTE[used[i]]), 'line {} in colour {}', i, color)

    with figures.watch() as seen:
        plot_util.plot_series_group(list(group), length)
        check_group(seen, None)
    with figures.watch() as seen:
        plot_util.plot_series_group_by_color(list(group), length, spec['colors'])
        check_group(seen, spec['colors'])
    if spec['many']:
        with figures.watch() as seen, must_raise(ValueError, 'more colours than there are'):
            plot_util.plot_series_group_by_color(list(group) * 8, length, list(range(8 * count)))

    errors = [float(v) for v in group[:, 0]]
    with scratch_dir(), figures.watch() as seen:
        plot_util.plot_distances_vs_forecast_errors(np.array(spec['distances']), errors, DistanceByDTW(), 'sMAPE', spec['info'],
                                                    plot_filename='points.pdf' if spec['save'] else None, title='A title')
        require(len(seen.shown) == 1 and len(seen.saved) == spec['save'], 'figures saved {} and shown {}', seen.saved, seen.shown)
        for fig in seen.shown + seen.saved:
            ax = fig.axes[0]
            xs, ys, _, marker, style = ax.lines[0]
            require(len(ax.lines) == 1 and xs.tolist() == spec['distances'] and ys.tolist() == errors and marker == 'o' and
                    style in ('None', '', ' '), 'points {} instead of {}', ax.lines, (spec['distances'], errors))
            require(ax.title == 'A title' and 'sMAPE' in ax.ylabel and str(DistanceByDTW()) in ax.xlabel, 'labels {!r} {!r} {!r}',
                    ax.title, ax.xlabel, ax.ylabel)
            require(ax.texts == ([spec['info']] if spec['info'] else []), 'texts {}', ax.texts)

    w, h = spec['grid']
    dx, dy = spec['steps']
    rows = [dict(x=i // h * dx, y=i % h * dy, v=spec['tiles'][i], other=-1.0) for i in spec['order']]
    with figures.watch():
        axes = plt.subplots(1, 2)[1] if spec['own_axes'] else None
        got = plot_util.plot_pandas_heatmap(pd.DataFrame(rows), 'x', 'y', 'v', scale=tuple(spec['scale']),
                                            **(dict(ax=axes[0]) if axes is not None else {}))
        require(axes is None or (got is axes[0] and not axes[1].collections), 'drawn in another subplot')
        mesh = got.collections[0]
        values = np.array(mesh.get_array()).reshape(w, h)
        require(gen.exact(values, np.array(spec['tiles']).reshape(w, h)), 'tiles {} instead of {}', values, spec['tiles'])
        require(tuple(mesh.get_clim()) == tuple(spec['scale']), 'scale {} instead of {}', mesh.get_clim(), spec['scale'])
        require(len(got.texts) == w * h, '{} numbers for {} tiles', len(got.texts), w * h)
    ctx.nontrivial(count >= 3 and w != h)


# ---------------------------------------------------------------- queries of solvers

@st.composite
def query_spec(draw):
    one = draw(solve.solver_spec(trainers=['mean', 'mean', 'knn']))
    one['rectangles'] = draw(st.lists(gen.rectangle(*one['shape']), min_size=1, max_size=2))
    return one


def run_query(spec, ctx):
    from spta.region import Region
    with scratch_dir(), figures.watch() as seen:
        world = solve.World(spec)
        labels, medoids = world.find_partition()
        solver = world.solver_trainer().train('outputs')
        for rectangle in spec['rectangles']:
            count = len(seen.saved)
            solver.predict(Region(*rectangle), 0, output_home='place', plot=True)
            require(len(seen.saved) == count + 1, '{} figures for a query', len(seen.saved) - count)
            fig = seen.saved[-1]
            require(os.path.normpath(fig.path).startswith('place' + os.sep), 'figure at {}', fig.path)
            what = 'query for {}'.format(rectangle)
            ax = fig.axes[0]
            image, _ = check_clusters(ax, labels, what)
            check_marks(ax, image, medoids, what)
            check_rectangle(ax, rectangle, what)
            x, y = spec['corner']
            for corner in ((rectangle[0] + x, rectangle[2] + y), (rectangle[1] + x, rectangle[3] + y)):
                require('({}, {})'.format(*corner) in ax.title, '{}: title {!r} without {}', what, ax.title, corner)
            require(str(world.clustering_metadata()) in ax.title, '{}: title {!r}', what, ax.title)
        paths = [f.path for f in seen.saved]
        different = {tuple(r) for r in spec['rectangles']}
        require(len(set(paths)) == len(different), 'figures {} for the rectangles {}', paths, sorted(different))
    ctx.nontrivial(len(medoids) >= 2 and world.x_len != world.y_len)
    solve.tag(spec, ctx)


SUBS = [
    Sub('regions', region_spec, run_region, quick=200, thorough=4000, shards=(3, 8)),
    Sub('silhouettes', c07.score_spec, run_silhouette, quick=120, thorough=3000, shards=(2, 8)),
    Sub('lines', lines_spec, run_lines, quick=100, thorough=2000, shards=(3, 8)),
    Sub('queries', query_spec, run_query, quick=60, thorough=1500, shards=(3, 8)),
]
