'''
Reference model of spatio-temporal regions and an interpreter of operation sequences: every operation
is applied to the real region and to plain numpy data, then the two are compared completely.
'''
import math

import numpy as np
from hypothesis import strategies as st

from . import gen
from .core import require, must_raise, Violation


class Model(object):
    '''What a region must be: its data, its members and its scaling data.'''

    def __init__(self, data, mins=None, maxs=None, labels=None, cluster=None):
        self.data = data
        self.mins = mins
        self.maxs = maxs
        self.labels = labels
        self.cluster = cluster

    @property
    def shape(self):
        return self.data.shape

    def points(self):
        _, x_len, y_len = self.data.shape
        return [(x, y) for x in range(x_len) for y in range(y_len)
                if self.labels is None or self.labels[x, y] == self.cluster]

    def copy(self, **changes):
        d = dict(data=self.data, mins=self.mins, maxs=self.maxs, labels=self.labels, cluster=self.cluster)
        d.update(changes)
        return Model(**d)


def scale_reference(data):
    '''Per-point scaling, written with scalar loops.'''
    t, x_len, y_len = data.shape
    scaled = np.empty(data.shape)
    mins, maxs = np.empty((x_len, y_len)), np.empty((x_len, y_len))
    for x in range(x_len):
        for y in range(y_len):
            series = [float(v) for v in data[:, x, y]]
            known = [v for v in series if not math.isnan(v)]
            if not known:
                mins[x, y] = maxs[x, y] = math.nan
                scaled[:, x, y] = math.nan
                continue
            low, high = min(known), max(known)
            mins[x, y], maxs[x, y] = low, high
            for i, v in enumerate(series):
                scaled[i, x, y] = v - low if low == high else (v - low) / (high - low)
    return scaled, mins, maxs


def build(spec):
    '''(real region, model) for {'cube', 'scaled', 'labels' or None, 'cluster'}'''
    from spta.region.temporal import SpatioTemporalRegion
    from spta.region.scaling import ScaleFunction
    data = gen.array(spec['cube'])
    model = Model(data.copy())
    real = SpatioTemporalRegion(data)
    t, x_len, y_len = data.shape
    if spec.get('scaled'):
        real = ScaleFunction(x_len, y_len).apply_to(real, t)
        scaled, mins, maxs = scale_reference(data)
        model = Model(scaled, mins, maxs)
    if spec.get('labels'):
        real, model = to_cluster(real, model, spec['labels'], spec['cluster'])
    return real, model


def to_cluster(real, model, labels_spec, cluster):
    _, x_len, y_len = model.shape
    partition = gen.build_partition(labels_spec, x_len, y_len)
    index = cluster % labels_spec['k']
    real = partition.create_spt_cluster(real, index)
    return real, model.copy(labels=np.array(labels_spec['labels']).reshape(x_len, y_len), cluster=index)


def compare(real, model, what, tol=1e-9, deep=True):
    '''The real region is the model, by every way of reading it.'''
    from spta.region import Point
    t, x_len, y_len = model.shape
    require(tuple(real.shape) == model.shape, '{}: shape {} instead of {}', what, real.shape, model.shape)
    require((real.x_len, real.y_len, real.series_len) == (x_len, y_len, t),
            '{}: lengths {} instead of {}', what, (real.x_len, real.y_len, real.series_len), (x_len, y_len, t))
    require(tuple(real.shape_2d) == (x_len, y_len), '{}: shape_2d {}', what, real.shape_2d)
    points = model.points()
    passes = 2 if deep else 1
    for turn in range(passes):
        seen = list_pairs(real)
        require([(int(p.x), int(p.y)) for p, _ in seen] == points,
                '{}: pass {} iterated {} instead of {}', what, turn + 1, [tuple(p) for p, _ in seen], points)
        for p, series in seen:
            require(gen.same(series, model.data[:, p.x, p.y], tol, tol),
                    '{}: iterated series at {} is {} instead of {}', what, p, series, model.data[:, p.x, p.y])
    for x, y in points:
        series = real.series_at(Point(x, y))
        require(gen.same(series, model.data[:, x, y], tol, tol),
                '{}: series at ({},{}) is {} instead of {}', what, x, y, series, model.data[:, x, y])
    if model.labels is None:
        require(gen.same(real.as_numpy, model.data, tol, tol), '{}: dataset differs', what)
    else:
        inside = set(points)
        for x, y in gen.points_of(x_len, y_len):
            if (x, y) not in inside:
                with must_raise(ValueError, '{}: series of non-member ({},{})'.format(what, x, y)):
                    real.series_at(Point(x, y))
        require(real.cluster_len == len(points), '{}: cluster_len {} instead of {}', what, real.cluster_len, len(points))
    if deep:
        as_list = real.as_list
        require(len(as_list) == len(points) and
                all(gen.same(s, model.data[:, x, y], tol, tol) for s, (x, y) in zip(as_list, points)),
                '{}: as_list differs from row-major series', what)
        if points:
            as_2d = real.as_2d
            require(as_2d.shape == (len(points), t), '{}: as_2d shape {}', what, as_2d.shape)
            require(gen.same(as_2d, np.array([model.data[:, x, y] for x, y in points]), tol, tol),
                    '{}: as_2d differs', what)
        indices = [int(i) for i in real.all_point_indices]
        require(indices == [x * y_len + y for x, y in points],
                '{}: all_point_indices {} for points {}', what, indices, points)
    require(bool(real.has_scaling()) == (model.mins is not None), '{}: has_scaling is {}', what, real.has_scaling())


def list_pairs(region):
    '''One complete pass, bounded: an iteration without end is a violation, not a hang.'''
    limit = int(region.x_len) * int(region.y_len) + 5
    pairs = []
    for pair in region:
        pairs.append(pair)
        if len(pairs) > limit:
            raise Violation('iteration yields more points than the region has')
    return pairs


def compare_scaling(real, model, what, tol=1e-9):
    '''Scaling data of an undecorated scaled region, and the result of descaling.'''
    if model.mins is None:
        with must_raise(NotImplementedError, '{}: descaling a region that was never scaled'.format(what)):
            real.descale()
        return
    if model.labels is None:
        require(gen.same(real.scale_min.as_numpy, model.mins), '{}: scale_min {} instead of {}', what,
                real.scale_min.as_numpy, model.mins)
        require(gen.same(real.scale_max.as_numpy, model.maxs), '{}: scale_max {} instead of {}', what,
                real.scale_max.as_numpy, model.maxs)
    descaled = real.descale()
    compare(descaled, descale_reference(model), what + ' descaled', 1e-7, deep=False)


def descale_reference(model):
    data = np.empty(model.shape)
    _, x_len, y_len = model.shape
    for x in range(x_len):
        for y in range(y_len):
            low, high = model.mins[x, y], model.maxs[x, y]
            data[:, x, y] = [low + v * (high - low) for v in model.data[:, x, y]]
    return Model(data, None, None, model.labels, model.cluster)


# ------------------------------------------------------------------ operation sequences

def ops_strategy(names, max_size=6):
    return st.lists(st.tuples(st.sampled_from(names), st.lists(st.integers(0, 1000), min_size=6, max_size=6))
                    .map(list), min_size=1, max_size=max_size)


@st.composite
def chain_spec(draw, names, scaled=None, clustered=None, max_ops=6, nan=0, t=(1, 6), x=(1, 5), y=(1, 5)):
    cube = draw(gen.cube(t=t, x=x, y=y, nan=0, often=60, kinds=('coarse', 'fine', 'temperature', 'nearly', 'tiny')))
    shape = cube['shape']
    if all(v == int(v) for v in cube['values']) and draw(st.booleans()):
        cube['dtype'] = draw(st.sampled_from(['i8', 'i2']))
    elif nan and draw(st.integers(0, 2)) == 0:
        # completely missing series (e.g. the sea) and single missing samples
        n = shape[1] * shape[2]
        for index in draw(st.lists(st.integers(0, n - 1), max_size=nan)):
            for i in range(shape[0]):
                cube['values'][i * n + index] = math.nan
        for index in draw(st.lists(st.integers(0, shape[0] * n - 1), max_size=nan)):
            point = index % n
            known = set(cube['values'][i * n + point] for i in range(shape[0]) if i * n + point != index)
            # (a series whose known values are all equal may have lost a sample too)
            if not any(math.isnan(v) for v in known):
                cube['values'][index] = math.nan
    spec = dict(cube=cube)
    spec['scaled'] = draw(st.booleans()) if scaled is None else scaled
    is_cluster = draw(st.booleans()) if clustered is None else clustered
    if is_cluster:
        spec['labels'] = draw(gen.labels(shape[1] * shape[2]))
        spec['cluster'] = draw(st.integers(0, spec['labels']['k'] - 1))
    spec['ops'] = draw(ops_strategy(names, max_ops))
    return spec


def pick_interval(limit, a, b):
    a = a % limit
    return a, a + 1 + b % (limit - a)


def run_chain(spec, ctx, check_scaling=True):
    '''Interprets spec['ops'], comparing after every step; also that no operation changes its input.'''
    real, model = build(spec)
    compare(real, model, 'initial')
    if check_scaling:
        compare_scaling(real, model, 'initial')
    done = []
    for name, args in spec['ops']:
        before = np.array(real.as_numpy, copy=True)
        new_real, new_model = apply_op(name, args, real, model)
        if new_model is None:
            continue
        done.append(name)
        what = '->'.join(done)
        require(gen.exact(before, real.as_numpy), '{}: the operation changed its input', what)
        compare(real, model, what + ' (input region)', deep=False)
        compare(new_real, new_model, what)
        if check_scaling:
            compare_scaling(new_real, new_model, what)
        ctx.tag('op:' + name)
        real, model = new_real, new_model
    ctx.tag('scaled' if spec.get('scaled') else 'unscaled', 'cluster' if spec.get('labels') else 'whole',
            'ops:{}'.format(len(done)))
    if model.shape[1] != model.shape[2]:
        ctx.tag('non-square')
    return real, model, done


def apply_op(name, args, real, model):
    from spta.region import Region, TimeInterval, Point
    t, x_len, y_len = model.shape
    if name == 'rect':
        if model.labels is not None:
            return real, None
        x1, x2 = pick_interval(x_len, args[0], args[1])
        y1, y2 = pick_interval(y_len, args[2], args[3])
        new = real.region_subset(Region(x1, x2, y1, y2))
        cut = lambda m: None if m is None else m[x1:x2, y1:y2]
        return new, model.copy(data=model.data[:, x1:x2, y1:y2].copy(), mins=cut(model.mins), maxs=cut(model.maxs))
    if name == 'time':
        t1, t2 = pick_interval(t, args[0], args[1]) if t else (0, 0)
        if args[2] % 12 == 0:
            # an interval without instants
            t2 = t1 = args[0] % (t + 1)
        return real.interval_subset(TimeInterval(t1, t2)), model.copy(data=model.data[t1:t2].copy())
    if name == 'both':
        if model.labels is not None:
            return real, None
        x1, x2 = pick_interval(x_len, args[0], args[1])
        y1, y2 = pick_interval(y_len, args[2], args[3])
        t1, t2 = pick_interval(t, args[4], args[5]) if t else (0, 0)
        new = real.subset(Region(x1, x2, y1, y2), TimeInterval(t1, t2))
        cut = lambda m: None if m is None else m[x1:x2, y1:y2]
        return new, model.copy(data=model.data[t1:t2, x1:x2, y1:y2].copy(), mins=cut(model.mins),
                               maxs=cut(model.maxs))
    if name == 'repeat':
        series = np.array([(a % 17) / 4.0 for a in args[:1 + args[0] % 5]])
        data = np.empty((len(series), x_len, y_len))
        for i, v in enumerate(series):
            data[i, :, :] = v
        return real.repeat_series(series), model.copy(data=data)
    if name == 'repeat_point':
        points = model.points()
        if not points:
            return real, None
        x, y = points[args[0] % len(points)]
        data = np.empty(model.shape)
        for i in range(t):
            data[i, :, :] = model.data[i, x, y]
        return real.repeat_point(Point(x, y)), model.copy(data=data)
    if name == 'cluster':
        if model.labels is not None:
            return real, None
        n = x_len * y_len
        k = 1 + args[0] % min(4, n)
        labels = [((i * (args[1] + 1) + args[2]) % 7 + (i // 3)) % k for i in range(n)]
        labels[args[3] % n] = k - 1
        return to_cluster(real, model, dict(k=k, labels=labels), args[4])
    if name == 'function':
        # a different affine function at each point, with another output length
        from spta.region.function import FunctionRegionSeries
        out_len = 1 + args[0] % 4
        functions = np.empty((x_len, y_len), dtype=object)
        data = np.zeros((out_len, x_len, y_len))
        for x in range(x_len):
            for y in range(y_len):
                def function(series, factor=1.0 + x * 7 + y, shift=args[1] % 5):
                    return np.array([np.sum(series) * factor + shift + i for i in range(out_len)])
                functions[x, y] = function
        for x, y in model.points():
            data[:, x, y] = functions[x, y](model.data[:, x, y])
        return FunctionRegionSeries(functions).apply_to(real, out_len), model.copy(data=data)
    if name == 'descale':
        if model.mins is None:
            return real, None
        return real.descale(), descale_reference(model)
    raise ValueError(name)
