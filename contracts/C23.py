"""C23  extremes are found at the right place and repetition copies exactly"""
import numpy as np
from . import common as cm
from .asked import h_asked_extremes

MODULES = ['spta.region', 'spta.region.base', 'spta.region.spatial', 'spta.region.temporal', 'spta.region.scaling',
           'spta.region.partition', 'spta.util.arrays']


def h_find(H):
    """find_minimum / find_maximum: a member holding the extreme, the first in row-major order, with its value"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H)
    kind = H.choice('kind', ['region', 'cluster'])
    which = H.choice('which', ['minimum', 'maximum'])
    r, v = cm.spatial(H, xl, yl, nan=True)
    member = lambda x, y: True      # noqa: E731
    if kind == 'cluster':
        p, lab = cm.partition(H, xl, yl)
        c = H.index('cluster', p.k)
        r = p.create_spatial_cluster(r, c)
        member = lambda x, y: H.eq(lab[x, y], c)        # noqa: E731
    pt, val = r.find_minimum() if which == 'minimum' else r.find_maximum()
    label = '%s of a %s' % (which, kind)
    counts = lambda x, y: H.and_(member(x, y), H.not_(H.isnan(v[x, y])))        # noqa: E731
    if pt is None:
        H.forall('nothing found only without values (' + label + ')', [xl, yl], lambda x, y: H.not_(counts(x, y)))
        return
    H.check('a point of the grid (' + label + ')', H.and_(0 <= pt.x, pt.x < xl, 0 <= pt.y, pt.y < yl))
    H.check('a member (' + label + ')', member(pt.x, pt.y))
    H.check('its own value (' + label + ')', H.and_(H.not_(H.isnan(v[pt.x, pt.y])), H.eq(val, v[pt.x, pt.y])))
    better = (lambda a: a >= val) if which == 'minimum' else (lambda a: a <= val)
    strict = (lambda a: a > val) if which == 'minimum' else (lambda a: a < val)
    H.forall('none is beyond (' + label + ')', [xl, yl], lambda x, y: H.imp(counts(x, y), better(v[x, y])))
    H.forall('the first such (' + label + ')', [xl, yl], lambda x, y: H.imp(
        H.and_(counts(x, y), x * yl + y < pt.x * yl + pt.y), strict(v[x, y])))


def h_array_extremes(H):
    """value and first index of the extreme of an array of 1 to 3 dimensions, ignoring missing values"""
    H.concrete_only('numpy where over any number of dimensions')
    arrays = H.load('spta.util.arrays')
    nd = H.int('nd', 1, 3)
    shape = tuple(H.int('d%d' % j, 1, None, 4) for j in range(nd))
    a = H.array('a', shape, nan=True)
    H.assume(not np.isnan(a).all())
    kind = H.choice('kind of number', ['float64', 'float64', 'float32', 'int64', 'int32', 'int8', 'uint8', 'uint32', 'bool'])
    if kind != 'float64':
        a = np.nan_to_num(a)
        a = np.abs(a) if kind[0] == 'u' else a != 0 if kind == 'bool' else a
        a = a.clip(-100, 100).astype(kind) if kind != 'float32' else a.astype(kind)
    for which, f, g in (('minimum', arrays.minimum_value_and_index, min), ('maximum', arrays.maximum_value_and_index, max)):
        val, ix = f(a)
        cells = [(tuple(i), a[tuple(i)]) for i in np.ndindex(*shape) if not np.isnan(a[tuple(i)])]
        want = g(w for _, w in cells)
        H.check('value of the ' + which, H.eq(val, want))
        H.check('index of the ' + which, H.eq(a[tuple(ix)], want))
        firsts = [i for i, w in cells if w == want]
        H.check('first position of the ' + which, tuple(int(i) for i in ix) == firsts[0], '%s for %s' % (ix, firsts[0]))


def h_array_extremes_1d(H):
    """the same for one dimension, for every length"""
    arrays = H.load('spta.util.arrays')
    n = H.size('n', 1, 8)
    a = H.array('a', (n,))
    which = H.choice('which', ['minimum', 'maximum'])
    val, ix = arrays.minimum_value_and_index(a) if which == 'minimum' else arrays.maximum_value_and_index(a)
    H.check('one index (' + which + ')', H.eq(H.len(ix), 1))
    i = ix[0]
    H.check('an index of the array (' + which + ')', H.and_(i >= 0, i < n))
    H.check('holds the value (' + which + ')', H.eq(a[i], val))
    H.forall('none is beyond (' + which + ')', [n], lambda j: (a[j] >= val) if which == 'minimum' else (a[j] <= val))
    H.forall('first (' + which + ')', [n], lambda j: H.imp(j < i, H.not_(H.eq(a[j], val))))


def h_array_extremes_nd(H):
    """the same for two and three dimensions and missing values, for every size"""
    arrays = H.load('spta.util.arrays')
    nd = H.choice('dimensions', [2, 3])
    shape = tuple(H.size('d%d' % j, 1, 4) for j in range(nd))
    a = H.array('a', shape, nan=True)
    here = tuple(H.index('at %d' % j, shape[j]) for j in range(nd))
    H.assume(H.not_(H.isnan(a[here])))
    which = H.choice('which', ['minimum', 'maximum'])
    val, ix = arrays.minimum_value_and_index(a) if which == 'minimum' else arrays.maximum_value_and_index(a)
    label = '%s, %d dimensions' % (which, nd)
    H.check('an index per dimension (' + label + ')', H.eq(H.len(ix), nd))
    ix = tuple(ix[j] for j in range(nd))
    H.check('a position of the array (' + label + ')', H.and_(*[H.and_(i >= 0, i < n) for i, n in zip(ix, shape)]))
    H.check('holds the value (' + label + ')', H.eq(a[ix], val))
    H.check('none is beyond (' + label + ')', (a[here] >= val) if which == 'minimum' else (a[here] <= val))
    before = (H.or_(here[0] < ix[0], H.and_(H.eq(here[0], ix[0]), here[1] < ix[1])) if nd == 2 else
                                        H.or_(here[0] < ix[0], H.and_(H.eq(here[0], ix[0]), here[1] < ix[1]),
                                              H.and_(H.eq(here[0], ix[0]), H.eq(here[1], ix[1]), here[2] < ix[2])))
    H.check('first (' + label + ')', H.imp(before, H.not_(H.eq(a[here], val))))


def h_repeat_value(H):
    """a value, or the value of a point, at every point of a region of the same grid and kind"""
    xl, yl = cm.grid(H)
    sp = H.load('spta.region.spatial')
    P = H.load('spta.region').Point
    kind = H.choice('kind', ['region', 'cluster'])
    how = H.choice('how', ['value', 'point'])
    r, v = cm.spatial(H, xl, yl)
    x, y = H.index('x', xl), H.index('y', yl)
    if kind == 'cluster':
        p, lab = cm.partition(H, xl, yl)
        c = lab[x, y]
        r = p.create_spatial_cluster(r, c)
    val = H.real('value') if how == 'value' else v[x, y]
    out = r.repeat_value(val) if how == 'value' else r.repeat_point(P(x, y))
    a = out.as_numpy
    label = '%s over a %s' % (how, kind)
    H.check('same grid (' + label + ')', H.eq(H.shape(a), (xl, yl)))
    H.forall('that value everywhere (' + label + ')', [xl, yl], lambda i, j: H.eq(a[i, j], val))
    if kind == 'cluster':
        H.check('same kind (' + label + ')', isinstance(out, sp.SpatialCluster))
        H.check('same cluster (' + label + ')', H.and_(H.same(out.partition, p), H.eq(out.cluster_index, c)))
    else:
        H.check('same kind (' + label + ')', isinstance(out, sp.SpatialRegion))
    H.series_equal('original unchanged (' + label + ')', r.as_numpy, v)


def h_repeat_series(H):
    """a series, or the series of a point, at every point of a region of the same grid and kind"""
    tl = H.size('tl', 1, 4)
    xl, yl = cm.grid(H)
    t = H.load('spta.region.temporal')
    s = H.load('spta.region.scaling')
    P = H.load('spta.region').Point
    kind = H.choice('kind', ['region', 'scaled', 'cluster', 'cluster of scaled'])
    how = H.choice('how', ['series', 'point', 'class method'])
    r, d = cm.wrap_scaled(H, tl, xl, yl)[:2] if 'scaled' in kind else cm.spt(H, tl, xl, yl)
    x, y = H.index('x', xl), H.index('y', yl)
    if 'cluster' in kind:
        p, lab = cm.partition(H, xl, yl)
        c = lab[x, y]
        r = p.create_spt_cluster(r, c)
    label = '%s over a %s' % (how, kind)
    if how == 'point':
        w, n = d[:, x, y], tl
        out = r.repeat_point(P(x, y))
    else:
        n = H.size('n', 1, 5)
        w = H.array('series', (n,))
        out = r.repeat_series(w) if how == 'series' else t.SpatioTemporalRegion.repeat_series_over_region(w, (xl, yl))
    a = out.as_numpy
    H.check('same grid (' + label + ')', H.eq(H.shape(a), (n, xl, yl)))
    H.check('series length (' + label + ')', H.eq(out.series_len, n))
    H.forall('that series everywhere (' + label + ')', [n, xl, yl], lambda q, i, j: H.eq(a[q, i, j], w[q]))
    if how != 'class method':
        if 'cluster' in kind:
            H.check('same cluster (' + label + ')', H.and_(
                isinstance(out, t.SpatioTemporalCluster), H.same(out.partition, p), H.eq(out.cluster_index, c)))
        else:
            H.check('same kind (' + label + ')', isinstance(
                out, s.SpatioTemporalScaled if kind == 'scaled' else t.SpatioTemporalRegion))
        H.check('scaling kept (' + label + ')', H.eq(bool(out.has_scaling()), 'scaled' in kind))
    H.series_equal('original unchanged (' + label + ')', r.as_numpy, d)


def h_repeat_tuple(H):
    """a namedtuple is repeated as a whole"""
    from collections import namedtuple
    xl, yl = cm.grid(H)
    r, v = cm.spatial(H, xl, yl)
    T = namedtuple('Model', 'a series')
    val = T(H.int('a', 0, 5), H.array('s', (H.size('n', 1, 4),)))
    out = r.repeat_value(val)
    H.check('grid', H.and_(H.eq(out.as_numpy.shape[0], xl), H.eq(out.as_numpy.shape[1], yl)))
    H.forall('the same tuple everywhere', [xl, yl], lambda x, y: out.as_numpy[x, y] is val)
    e = r.empty_region_2d()
    H.check('an empty region has the grid', H.and_(H.eq(e.as_numpy.shape[0], xl), H.eq(e.as_numpy.shape[1], yl)))


h_history_extremes = cm.history(h_asked_extremes)

SPEC = [
    (h_find, {'sym': True, 'runs': 500}),
    (h_array_extremes_1d, {'sym': True, 'runs': 300}),
    (h_array_extremes_nd, {'sym': True, 'runs': 300}),
    (h_array_extremes, {'runs': 500, 'why': 'np.where over any number of dimensions'}),
    (h_repeat_value, {'sym': True, 'runs': 300}),
    (h_repeat_series, {'sym': True, 'runs': 400}),
    (h_repeat_tuple, {'sym': True, 'runs': 60}),
    (h_history_extremes, {'sym': True, 'runs': 150}),
]
