"""C05  subsets and train/test splits select exactly the requested data"""
import numpy as np
from . import common as cm
from .asked import h_asked_subset, h_asked_split

MODULES = ['spta.region', 'spta.region.base', 'spta.region.spatial', 'spta.region.temporal', 'spta.region.scaling',
           'spta.region.partition', 'spta.model.train']


def rect(H, xl, yl):
    R = H.load('spta.region').Region
    x1 = H.int('x1', 0, xl)
    x2 = H.int('x2', x1, xl)
    y1 = H.int('y1', 0, yl)
    y2 = H.int('y2', y1, yl)
    return R(x1, x2, y1, y2), x1, x2, y1, y2


def times(H, tl):
    T = H.load('spta.region').TimeInterval
    t1 = H.int('t1', 0, tl)
    t2 = H.int('t2', t1, tl)
    return T(t1, t2), t1, t2


def region(H, kind, tl, xl, yl):
    md = cm.metadata(H, xl, yl) if kind != 'scaled' else None
    if kind == 'scaled':
        return cm.wrap_scaled(H, tl, xl, yl)[:2]
    return cm.spt(H, tl, xl, yl, metadata=md)


def kind_of(H, kind):
    t = H.load('spta.region.temporal')
    s = H.load('spta.region.scaling')
    return {'spatio-temporal': t.SpatioTemporalRegion, 'scaled': s.SpatioTemporalScaled}[kind]


def selected(H, label, sub, d, t1, x1, y1, shape):
    a = sub.as_numpy
    H.check('shape (' + label + ')', H.eq(H.shape(a), shape))
    H.check('sizes of the region (' + label + ')', H.and_(
        H.eq(sub.series_len, shape[0]), H.eq(sub.x_len, shape[1]), H.eq(sub.y_len, shape[2])))
    H.forall('exactly the requested samples (' + label + ')', list(shape), lambda t, x, y: H.eq(
        a[t, x, y], d[t1 + t, x1 + x, y1 + y]))


def h_spatial(H):
    """a rectangle of a spatial region"""
    xl, yl = cm.grid(H, 5)
    r, v = cm.spatial(H, xl, yl)
    before = cm.frozen(H, v)
    rg, x1, x2, y1, y2 = rect(H, xl, yl)
    s = r.region_subset(rg)
    a = s.as_numpy
    H.check('shape', H.and_(H.eq(H.shape(a), (x2 - x1, y2 - y1)), H.eq(s.x_len, x2 - x1), H.eq(s.y_len, y2 - y1)))
    H.forall('exactly the requested values', [x2 - x1, y2 - y1], lambda x, y: H.eq(a[x, y], v[x1 + x, y1 + y]))
    H.series_equal('original unchanged', r.as_numpy, before)


def h_subset(H):
    """rectangle, interval, and both"""
    tl = H.size('tl', 1, 5)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', ['spatio-temporal', 'scaled'])
    r, d = region(H, kind, tl, xl, yl)
    before = cm.frozen(H, d)
    rg, x1, x2, y1, y2 = rect(H, xl, yl)
    ti, t1, t2 = times(H, tl)
    what = H.choice('what', ['rectangle', 'interval', 'both', 'one after the other'])
    label = kind + ', ' + what
    if what == 'rectangle':
        s = r.region_subset(rg)
        selected(H, label, s, d, 0, x1, y1, (tl, x2 - x1, y2 - y1))
        H.check('kind kept (' + label + ')', isinstance(s, kind_of(H, kind)))
    elif what == 'interval':
        s = r.interval_subset(ti)
        selected(H, label, s, d, t1, 0, 0, (t2 - t1, xl, yl))
        H.check('kind kept (' + label + ')', isinstance(s, kind_of(H, kind)))
    elif what == 'both':
        selected(H, label, r.subset(rg, ti), d, t1, x1, y1, (t2 - t1, x2 - x1, y2 - y1))
    else:
        selected(H, label, r.region_subset(rg).interval_subset(ti), d, t1, x1, y1, (t2 - t1, x2 - x1, y2 - y1))
        selected(H, label, r.interval_subset(ti).region_subset(rg), d, t1, x1, y1, (t2 - t1, x2 - x1, y2 - y1))
    H.series_equal('original unchanged (' + label + ')', r.as_numpy, before)


def h_split(H):
    """the test part has exactly the last test_len samples, the training part all earlier ones"""
    tl = H.size('tl', 1, 7)
    xl, yl = cm.grid(H, 3)
    kind = H.choice('kind', ['spatio-temporal', 'scaled'])
    r, d = region(H, kind, tl, xl, yl)
    before = cm.frozen(H, d)
    n = H.int('test_len', 0, tl)
    train, test = H.load('spta.model.train').SplitTrainingAndTestLast(n).split(r)
    selected(H, 'training, ' + kind, train, d, 0, 0, 0, (tl - n, xl, yl))
    selected(H, 'test, ' + kind, test, d, tl - n, 0, 0, (n, xl, yl))
    both = np.concatenate((train.as_numpy, test.as_numpy), axis=0)
    H.series_equal('concatenated in time they are the original (' + kind + ')', both, d)
    H.series_equal('original unchanged (' + kind + ')', r.as_numpy, before)


def h_cluster(H):
    """interval subsets and splits of a cluster are clusters of the same partition and index, with its data"""
    tl = H.size('tl', 1, 6)
    xl, yl = cm.grid(H, 3)
    kind = H.choice('kind', ['spatio-temporal', 'scaled'])
    r, d = region(H, kind, tl, xl, yl)
    p, lab = cm.partition(H, xl, yl)
    c = H.index('cluster', p.k)
    cl = p.create_spt_cluster(r, c)
    t = H.load('spta.region.temporal')
    P = H.load('spta.region').Point
    what = H.choice('what', ['interval', 'split'])
    if what == 'interval':
        ti, t1, t2 = times(H, tl)
        parts = [(cl.interval_subset(ti), t1, t2 - t1)]
    else:
        n = H.int('test_len', 0, tl)
        train, test = H.load('spta.model.train').SplitTrainingAndTestLast(n).split(cl)
        parts = [(train, 0, tl - n), (test, tl - n, n)]
    x, y = H.index('px', xl), H.index('py', yl)
    for s, t1, n in parts:
        H.check('a cluster (' + kind + ')', isinstance(s, t.SpatioTemporalCluster))
        H.check('of the same partition (' + kind + ')', H.same(s.partition, p))
        H.check('with the same index (' + kind + ')', H.eq(s.cluster_index, c))
        H.check('and size (' + kind + ')', H.and_(H.eq(s.cluster_len, cl.cluster_len), H.eq(s.series_len, n)))
        selected(H, 'cluster, ' + kind, s, d, t1, 0, 0, (n, xl, yl))
        H.check('scaling kept (' + kind + ')', H.eq(bool(s.has_scaling()), kind == 'scaled'))
        H.check('member (' + kind + ')', H.eq(s.partition.is_member(P(x, y), s.cluster_index), H.eq(lab[x, y], c)))
    if what == 'interval':
        H.check('the cluster keeps its own length (' + kind + ')', H.eq(cl.series_len, tl))


def h_cluster_iteration(H):
    """the split clusters iterate over the same members"""
    H.use_iteration_contracts()
    tl = H.size('tl', 2, 6)
    xl, yl = cm.grid(H, 4)
    kind = H.choice('kind', ['spatio-temporal', 'scaled'])
    r, d = region(H, kind, tl, xl, yl)
    p, lab = cm.partition(H, xl, yl)
    n = H.int('test_len', 1, tl - 1)
    c = H.index('cluster', p.k)
    train, test = H.load('spta.model.train').SplitTrainingAndTestLast(n).split(p.create_spt_cluster(r, c))
    want = [(x, y) for x in range(xl) for y in range(yl) if lab[x, y] == c]
    members = H.len(want)
    if not H.symbolic:
        H.assume(members)
    q = H.index('member', members)
    x, y = want[q]
    for s, lo, hi in ((train, 0, tl - n), (test, tl - n, tl)):
        got = [item for item in s]
        H.check('as many as members (' + kind + ')', H.eq(H.len(got), members))
        pt, v = got[q]
        H.check('members (' + kind + ')', H.and_(H.eq(pt.x, x), H.eq(pt.y, y)))
        H.series_equal('series (' + kind + ')', v, d[lo:hi, x, y])


h_history_subset = cm.history(h_asked_subset)

h_history_split = cm.history(h_asked_split)

SPEC = [
    (h_spatial, {'sym': True, 'runs': 300}),
    (h_subset, {'sym': True, 'runs': 400}),
    (h_split, {'sym': True, 'runs': 400}),
    (h_cluster, {'sym': True, 'runs': 400}),
    (h_cluster_iteration, {'sym': True, 'runs': 200}),
    (h_history_subset, {'sym': True, 'runs': 150}),
    (h_history_split, {'sym': True, 'runs': 150}),
]
