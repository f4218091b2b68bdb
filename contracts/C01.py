"""C01  iterating a region visits every point once, in row-major order"""
import numpy as np
from . import common as cm
from .asked import h_asked_iteration

MODULES = ['spta.region', 'spta.region.base', 'spta.region.spatial', 'spta.region.temporal', 'spta.region.scaling',
           'spta.region.mask', 'spta.region.partition', 'spta.region.metadata']


def build(H, kind, tl, xl, yl):
    """-> region, what(x, y) it holds, member(x, y)"""
    every = lambda x, y: True       # noqa: E731
    if kind == 'spatial':
        r, v = cm.spatial(H, xl, yl)
        return r, (lambda x, y: v[x, y]), every
    if kind == 'spatio-temporal':
        r, d = cm.spt(H, tl, xl, yl)
        return r, (lambda x, y: d[:, x, y]), every
    if kind == 'scaled':
        r, d, _, _ = cm.wrap_scaled(H, tl, xl, yl)
        return r, (lambda x, y: d[:, x, y]), every
    if kind == 'partition':
        r, lab = cm.partition(H, xl, yl)
        return r, None, every
    if kind == 'mask' and H.symbolic:
        # any mask: the iterator of MaskRegion over an arbitrary membership predicate
        m = H.load('spta.region.mask')
        f = H.fn('in_mask', 'ii', 'b')

        class AnyMask(m.MaskRegion):
            def is_member(self, point):
                return f(point.x, point.y)
        return AnyMask(H.array('u', (2, xl, yl)), 0), None, f
    if kind == 'mask':
        m = H.load('spta.region.mask')
        k = H.int('k', 1, None, 3)
        u = H.array('u', (k, xl, yl), 'f', 0, 1)
        c = H.index('cluster', k)
        th = H.real('threshold', 0, 1)
        r = m.MaskRegionFuzzy(u, c, th)
        P = H.load('spta.region').Point
        return r, None, (lambda x, y: r.is_member(P(x, y)))
    p, lab = cm.partition(H, xl, yl)
    c = H.index('cluster', p.k)
    if kind == 'spatial cluster':
        r, v = cm.spatial(H, xl, yl)
        return p.create_spatial_cluster(r, c), (lambda x, y: v[x, y]), (lambda x, y: lab[x, y] == c)
    if kind == 'spatio-temporal cluster':
        r, d = cm.spt(H, tl, xl, yl)
        return p.create_spt_cluster(r, c), (lambda x, y: d[:, x, y]), (lambda x, y: lab[x, y] == c)
    if kind == 'cluster of a scaled region':
        r, d, _, _ = cm.wrap_scaled(H, tl, xl, yl)
        return p.create_spt_cluster(r, c), (lambda x, y: d[:, x, y]), (lambda x, y: lab[x, y] == c)
    if kind == 'scaled region of a cluster':
        r, d = cm.spt(H, tl, xl, yl)
        lo, hi = cm.spatial(H, xl, yl, 'min')[0], cm.spatial(H, xl, yl, 'max')[0]
        r = H.load('spta.region.scaling').SpatioTemporalScaled(p.create_spt_cluster(r, c), lo, hi)
        return r, (lambda x, y: d[:, x, y]), (lambda x, y: lab[x, y] == c)
    raise ValueError(kind)


WHOLE = ['spatial', 'spatio-temporal', 'scaled', 'partition']
FILTER = ['mask', 'spatial cluster', 'spatio-temporal cluster', 'cluster of a scaled region',
          'scaled region of a cluster']


def item_is(H, kind, item, x, y, what):
    if what is None:
        H.check('the point itself (' + kind + ')', H.and_(H.eq(item.x, x), H.eq(item.y, y)))
        return
    pt, v = item
    H.check('next point (' + kind + ')', H.and_(H.eq(pt.x, x), H.eq(pt.y, y)))
    w = what(x, y)
    if len(H.shape(w)) == 0:
        H.check('its own value (' + kind + ')', H.eq(v, w))
    else:
        H.series_equal('its own series (' + kind + ')', v, w)


def h_next(H):
    """after p steps from the start, the next step gives the point number p in row-major order, with its own
    value or series"""
    tl = H.size('tl', 1, 4)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', WHOLE)
    r, what, member = build(H, kind, tl, xl, yl)
    it = iter(r)
    p = H.index('p', xl * yl)
    for _ in range(p):
        next(it)
    item = next(it)
    item_is(H, kind, item, H.div(p, yl), H.mod(p, yl), what)


def h_end(H):
    """after as many steps as there are points the iteration stops, and a new one starts at the first point"""
    tl = H.size('tl', 1, 4)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', WHOLE)
    r, what, member = build(H, kind, tl, xl, yl)
    it = iter(r)
    for _ in range(xl * yl):
        next(it)
    stopped = False
    try:
        next(it)
    except StopIteration:
        stopped = True
    H.check('stops after the last point (' + kind + ')', stopped)
    item_is(H, kind + ', again', next(iter(r)), 0, 0, what)


def h_loop(H):
    """a for loop over any region yields exactly its (member) points in row-major order, twice the same"""
    H.concrete_only('whole loops over a region; their single steps are the proved parts')
    tl = H.size('tl', 1, 4)
    xl, yl = cm.grid(H, 5)
    kind = H.choice('kind', WHOLE + FILTER)
    r, what, member = build(H, kind, tl, xl, yl)
    want = [(x, y) for x in range(xl) for y in range(yl) if member(x, y)]
    for again in ('', ', again'):
        got = [item for item in r]
        H.check('number of points (' + kind + again + ')', len(got) == len(want), '%d for %d' % (len(got), len(want)))
        for item, (x, y) in zip(got, want):
            item_is(H, kind + again, item, x, y, what)


def h_lists(H):
    """as_list, as_2d and as_array hold the series (values) of the points in iteration order"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 4)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', ['spatial', 'spatio-temporal', 'scaled'])
    r, what, member = build(H, kind, tl, xl, yl)
    if kind == 'spatial':
        a = r.as_array
        H.check('as many values as points', H.eq(H.shape(a)[0], xl * yl))
        H.forall('as_array', [xl, yl], lambda x, y: H.eq(a[x * yl + y], what(x, y)))
        return
    ls = r.as_list
    H.check('as many series as points (' + kind + ')', H.eq(H.len(ls), xl * yl))
    H.forall('as_list (' + kind + ')', [xl, yl, tl], lambda x, y, t: H.eq(ls[x * yl + y][t], what(x, y)[t]))
    a = r.as_2d
    H.check('as_2d shape (' + kind + ')', H.and_(H.eq(H.shape(a)[0], xl * yl), H.eq(H.shape(a)[1], tl)))
    H.forall('as_2d (' + kind + ')', [xl, yl, tl], lambda x, y, t: H.eq(a[x * yl + y, t], what(x, y)[t]))


def h_cluster_lists(H):
    """as_list and as_2d of a cluster: the member series in order"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 4)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', ['spatio-temporal cluster', 'cluster of a scaled region'])
    r, what, member = build(H, kind, tl, xl, yl)
    want = [(x, y) for x in range(xl) for y in range(yl) if member(x, y)]
    got = r.as_list
    n = H.len(want)
    H.check('as many as members', H.eq(H.len(got), n))
    some = n > 0
    if some:
        q = H.index('member', n)
        x, y = want[q]
        H.series_equal('as_list', got[q], what(x, y))
        a = r.as_2d
        H.check('a row per member', H.and_(H.eq(H.shape(a)[0], n), H.eq(H.shape(a)[1], tl)))
        H.series_equal('as_2d', a[q], what(x, y))


def h_filter_next(H):
    """from any position p of a cluster or mask, the next step gives the first member at or after p, and stops
    (restarting at the first point) when there is none"""
    tl = H.size('tl', 1, 4)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', FILTER)
    r, what, member = build(H, kind, tl, xl, yl)
    n = xl * yl
    at = lambda q: member(H.div(q, yl), H.mod(q, yl))       # noqa: E731
    p = H.int('p', 0, n)
    place = r.decorated_region if kind == 'scaled region of a cluster' else r       # where its position is kept
    place.point_index = p
    stopped = False
    item = None
    try:
        item = next(iter(r))
    except StopIteration:
        stopped = True
    if stopped:
        H.forall('stops only when no member is left (' + kind + ')', [n], lambda q: H.not_(H.and_(q >= p, at(q))))
        H.check('starts again (' + kind + ')', H.eq(place.point_index, 0))
        return
    pt = item if what is None else item[0]
    q = pt.x * yl + pt.y
    H.check('a point of the grid (' + kind + ')', H.and_(0 <= pt.x, pt.x < xl, 0 <= pt.y, pt.y < yl))
    H.check('not before the position (' + kind + ')', q >= p)
    H.check('a member (' + kind + ')', member(pt.x, pt.y))
    H.forall('no member skipped (' + kind + ')', [n], lambda s: H.not_(H.and_(s >= p, s < q, at(s))))
    H.check('positioned after it (' + kind + ')', H.eq(place.point_index, q + 1))
    if what is not None:
        item_is(H, kind, item, pt.x, pt.y, what)


h_history_iteration = cm.history(h_asked_iteration)

SPEC = [
    (h_next, {'sym': True, 'runs': 400}),
    (h_end, {'sym': True, 'runs': 300}),
    (h_filter_next, {'sym': True, 'concrete': False}),
    (h_loop, {'runs': 800, 'why': 'whole for loops over a region object run on generated regions; their steps are proved by h_next, h_end and h_filter_next'}),
    (h_lists, {'sym': True, 'runs': 300}),
    (h_cluster_lists, {'sym': True, 'runs': 200}),
    (h_history_iteration, {'sym': True, 'runs': 150}),
]
