"""C02  the clusters of a crisp partition split the region consistently"""
import numpy as np
from . import common as cm
from .asked import h_asked_partition

MODULES = ['spta.region', 'spta.region.base', 'spta.region.spatial', 'spta.region.temporal', 'spta.region.scaling',
           'spta.region.partition', 'spta.region.mask']


def make(H, kind, p, tl, xl, yl, c, name='data'):
    """-> cluster, what(x, y), how to read it at a point"""
    if kind == 'spatial':
        r, v = cm.spatial(H, xl, yl, name)
        cl = p.create_spatial_cluster(r, c)
        return cl, (lambda x, y: v[x, y]), cl.value_at
    if kind == 'scaled':
        r, d, _, _ = cm.wrap_scaled(H, tl, xl, yl, name)
    else:
        r, d = cm.spt(H, tl, xl, yl, name)
    cl = p.create_spt_cluster(r, c)
    return cl, (lambda x, y: d[:, x, y]), cl.series_at


KINDS = ['spatial', 'spatio-temporal', 'scaled']


def same(H, name, a, b):
    if len(H.shape(b)) == 0:
        H.check(name, H.eq(a, b))
    else:
        H.series_equal(name, a, b)


def h_membership(H):
    """is_member, membership of points and membership of point indices are the label of the point"""
    xl, yl = cm.grid(H, 5)
    p, lab = cm.partition(H, xl, yl)
    P = H.load('spta.region').Point
    H.check('k is the largest label plus one', H.eq(p.k, H.maximum([xl, yl], lambda x, y: lab[x, y]) + 1))
    c = H.index('cluster', p.k)
    x, y = H.index('x', xl), H.index('y', yl)
    H.check('is_member', H.eq(p.is_member(P(x, y), c), H.eq(lab[x, y], c)))
    H.check('no point is no member', H.not_(p.is_member(None, c)))
    x2, y2 = H.index('x2', xl), H.index('y2', yl)
    m = p.membership_of_points([P(x, y), P(x2, y2)])
    H.check('one membership per point', H.eq(H.len(m), 2))
    H.check('membership of points', H.and_(H.eq(m[0], lab[x, y]), H.eq(m[1], lab[x2, y2])))
    n = H.int('n', 1, None, 6)
    ix = H.array('indices', (n,), 'i', 0, xl * yl - 1)
    mi = p.membership_of_point_indices(ix)
    H.check('one membership per index', H.eq(H.len(mi), n))
    H.forall('membership of indices', [n], lambda q: H.eq(mi[q], lab[H.div(ix[q], yl), H.mod(ix[q], yl)]))


def h_exactly_one(H):
    """every point is a member of exactly one cluster, the one its label names"""
    xl, yl = cm.grid(H)
    p, lab = cm.partition(H, xl, yl)
    P = H.load('spta.region').Point
    x, y = H.index('x', xl), H.index('y', yl)
    own = lab[x, y]
    H.check('its label is a cluster', H.and_(own >= 0, own < p.k))
    H.check('member of its own cluster', p.is_member(P(x, y), own))
    c = H.index('cluster', p.k)
    H.check('of no other', H.imp(H.not_(H.eq(c, own)), H.not_(p.is_member(P(x, y), c))))


def h_size(H):
    """partition.cluster_len and cluster.cluster_len count the members"""
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H, 5)
    p, lab = cm.partition(H, xl, yl)
    c = H.index('cluster', p.k)
    n = H.count([xl, yl], lambda x, y: H.eq(lab[x, y], c))
    H.check('cluster size of the partition', H.eq(p.cluster_len(c), n))
    kind = H.choice('kind', KINDS)
    cl, what, read = make(H, kind, p, tl, xl, yl, c)
    H.check('size of the cluster (' + kind + ')', H.eq(cl.cluster_len, n))


def h_indices(H):
    """a cluster's point indices are exactly its members, increasing"""
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H, 5)
    p, lab = cm.partition(H, xl, yl)
    c = H.index('cluster', p.k)
    kind = H.choice('kind', ['spatio-temporal', 'scaled'])
    cl, what, read = make(H, kind, p, tl, xl, yl, c)
    ix = cl.all_point_indices
    n = H.shape(ix)[0]
    H.check('as many as members', H.eq(n, H.count([xl * yl], lambda q: H.eq(lab[H.div(q, yl), H.mod(q, yl)], c))))
    H.forall('each is a member', [n], lambda q: H.and_(
        ix[q] >= 0, ix[q] < xl * yl, H.eq(lab[H.div(ix[q], yl), H.mod(ix[q], yl)], c)))
    H.forall('increasing', [n, n], lambda a, b: H.imp(a < b, ix[a] < ix[b]))
    whole = cl.decorated_region.all_point_indices
    H.check('a region has all indices', H.eq(H.shape(whole)[0], xl * yl))
    H.forall('a region has index q at q', [xl * yl], lambda q: H.eq(whole[q], q))


def h_iteration_set(H):
    """iteration, point indices, size and membership describe the same set"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H, 5)
    p, lab = cm.partition(H, xl, yl)
    P = H.load('spta.region').Point
    kind = H.choice('kind', KINDS)
    c = H.index('cluster', p.k)
    cl, what, read = make(H, kind, p, tl, xl, yl, c)
    got = [item for item in cl]
    want = [(x, y) for x in range(xl) for y in range(yl) if lab[x, y] == c]
    n = H.len(want)
    H.check('as many as cluster_len (' + kind + ')', H.and_(H.eq(H.len(got), n), H.eq(cl.cluster_len, n), H.eq(p.cluster_len(c), n)))
    H.check('inherited count', H.eq(type(p).__mro__[1].cluster_len(p, c), n))
    if not H.symbolic:
        H.assume(n)
    q = H.index('member', n)
    x, y = want[q]
    pt, _ = got[q]
    H.check('iteration gives the members (' + kind + ')', H.and_(H.eq(pt.x, x), H.eq(pt.y, y)))
    if kind != 'spatial':
        ix = cl.all_point_indices
        H.check('as many indices (' + kind + ')', H.eq(H.len(ix), n))
        H.check('all_point_indices (' + kind + ')', H.eq(ix[q], x * yl + y))
    ms = p.membership_of_points([pt for pt, _ in cl])
    H.check('as many memberships (' + kind + ')', H.eq(H.len(ms), n))
    H.check('membership of the points (' + kind + ')', H.eq(ms[q], c))


def h_read(H):
    """a cluster read at a member gives the region's own value or series, elsewhere ValueError"""
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H)
    p, lab = cm.partition(H, xl, yl)
    c = H.index('cluster', p.k)
    P = H.load('spta.region').Point
    kind = H.choice('kind', KINDS)
    cl, what, read = make(H, kind, p, tl, xl, yl, c)
    x, y = H.index('x', xl), H.index('y', yl)
    refused = False
    try:
        v = read(P(x, y))
    except ValueError:
        refused = True
    if refused:
        H.check('refused only outside (' + kind + ')', H.not_(H.eq(lab[x, y], c)))
        return
    H.check('given only at members (' + kind + ')', H.eq(lab[x, y], c))
    same(H, 'its own value (' + kind + ')', v, what(x, y))
    H.check('same grid (' + kind + ')', H.and_(H.eq(cl.x_len, xl), H.eq(cl.y_len, yl)))


def h_all_clusters(H):
    """one cluster per label, in label order, with the centroid asked for"""
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H)
    p, lab = cm.partition(H, xl, yl)
    P = H.load('spta.region').Point
    kind = H.choice('kind', KINDS)
    if kind == 'spatial':
        r, v = cm.spatial(H, xl, yl)
        cls = p.create_all_spatial_clusters(r)
        H.check('one per label (' + kind + ')', H.eq(H.len(cls), p.k))
        H.each('in label order (' + kind + ')', cls, lambda q, cl: H.and_(
            H.eq(cl.cluster_index, q), H.same(cl.partition, p), H.same(cl.decorated_region, r)))
        return
    r, d = cm.spt(H, tl, xl, yl) if kind != 'scaled' else cm.wrap_scaled(H, tl, xl, yl)[:2]
    how = H.choice('centroids', ['none', 'indices', 'medoids', 'index array'])
    if how == 'none':
        cls = p.create_all_spt_clusters(r)
        want = None
    elif how == 'medoids':
        mx = H.array('mx', (p.k,), 'i', 0, xl - 1)
        my = H.array('my', (p.k,), 'i', 0, yl - 1)
        cls = p.create_all_spt_clusters(r, medoids=[P(mx[q], my[q]) for q in range(p.k)])
        want = lambda q: (mx[q], my[q])         # noqa: E731
    else:
        ci = H.array('ci', (p.k,), 'i', 0, xl * yl - 1)
        given = ci if how == 'index array' else [ci[q] for q in range(p.k)]
        cls = p.create_all_spt_clusters(r, centroid_indices=given)
        want = lambda q: (H.div(ci[q], yl), H.mod(ci[q], yl))       # noqa: E731
    H.check('one per label (' + kind + ')', H.eq(H.len(cls), p.k))
    H.each('in label order (' + kind + ')', cls, lambda q, cl: H.and_(
        H.eq(cl.cluster_index, q), H.same(cl.partition, p), H.same(cl.decorated_region, r)))
    if want is None:
        H.each('no centroid (' + how + ')', cls, lambda q, cl: H.not_(cl.has_centroid()))
    else:
        H.each('the centroid asked for (' + how + ')', cls, lambda q, cl: H.and_(
            H.eq(cl.centroid.x, want(q)[0]), H.eq(cl.centroid.y, want(q)[1])))
        H.each('reported by get_centroid (' + how + ')', cls, lambda q, cl: H.and_(
            cl.has_centroid(), H.eq(cl.get_centroid().x, want(q)[0]), H.eq(cl.get_centroid().y, want(q)[1])))


def h_intersect(H):
    """clusters intersecting a rectangle: exactly those owning a point of it, each once; their medoids likewise"""
    xl, yl = cm.grid(H, 6)
    p, lab = cm.partition(H, xl, yl, 5)
    R = H.load('spta.region').Region
    P = H.load('spta.region').Point
    x1, y1 = H.index('x1', xl), H.index('y1', yl)
    x2, y2 = H.int('x2', x1 + 1, xl), H.int('y2', y1 + 1, yl)
    got = p.find_indices_of_clusters_intersecting_with(R(x1, x2, y1, y2))
    inside = lambda x, y: H.and_(x1 <= x, x < x2, y1 <= y, y < y2)      # noqa: E731
    H.each('owns a point of it', got, lambda i, c: H.any([xl, yl], lambda x, y: H.and_(inside(x, y), H.eq(lab[x, y], c))))
    H.forall('every owner', [xl, yl], lambda x, y: H.imp(inside(x, y), H.any([H.len(got)], lambda i: H.eq(
        got[i], lab[x, y]))))
    H.forall('each once', [H.len(got), H.len(got)], lambda i, j: H.or_(H.eq(i, j), H.not_(H.eq(got[i], got[j]))))


def h_intersect_medoids(H):
    """the medoids of the clusters intersecting a rectangle: exactly those of the owners of its points, each once"""
    xl, yl = cm.grid(H, 6)
    p, lab = cm.partition(H, xl, yl, 5)
    R = H.load('spta.region').Region
    P = H.load('spta.region').Point
    x1, y1 = H.index('x1', xl), H.index('y1', yl)
    x2, y2 = H.int('x2', x1 + 1, xl), H.int('y2', y1 + 1, yl)
    inside = lambda x, y: H.and_(x1 <= x, x < x2, y1 <= y, y < y2)      # noqa: E731
    mx = H.array('mx', (p.k,), 'i', 0, 99, distinct=True)
    my = H.array('my', (p.k,), 'i', 0, 99)
    p.medoids = [P(mx[q], my[q]) for q in range(p.k)]
    md = p.find_medoids_of_clusters_intersecting_with(R(x1, x2, y1, y2))
    if not H.symbolic:
        got = p.find_indices_of_clusters_intersecting_with(R(x1, x2, y1, y2))
        H.check('medoids in the order of the clusters', [tuple(m) for m in md] == [tuple(p.medoids[int(i)]) for i in got])
    H.each('medoid of an owner', md, lambda i, m: H.any([xl, yl], lambda x, y: H.and_(
        inside(x, y), H.eq(m.x, mx[lab[x, y]]), H.eq(m.y, my[lab[x, y]]))))
    H.forall('medoid of every owner', [xl, yl], lambda x, y: H.imp(inside(x, y), H.any([H.len(md)], lambda i: H.and_(
        H.eq(md[i].x, mx[lab[x, y]]), H.eq(md[i].y, my[lab[x, y]])))))
    H.forall('each medoid once', [H.len(md), H.len(md)], lambda i, j: H.or_(H.eq(i, j), H.not_(H.eq(md[i].x, md[j].x))))


def h_clone(H):
    """a copy of a partition has the same labels and k, and its own array"""
    xl, yl = cm.grid(H, 6)
    p, lab = cm.partition(H, xl, yl, 5)
    before = lab.copy()
    q = p.clone()
    H.check('a clone: k', H.eq(q.k, p.k))
    H.series_equal('a clone has the same labels', q.as_numpy, lab)
    q.as_numpy[0, 0] = q.as_numpy[0, 0] + 1
    H.series_equal('the original keeps its labels', p.as_numpy, before)


h_history_partition = cm.history(h_asked_partition)

SPEC = [
    (h_membership, {'sym': True, 'runs': 400}),
    (h_exactly_one, {'sym': True, 'runs': 200}),
    (h_size, {'sym': True, 'runs': 300}),
    (h_indices, {'sym': True, 'runs': 300}),
    (h_iteration_set, {'sym': True, 'runs': 300}),
    (h_read, {'sym': True, 'runs': 400}),
    (h_all_clusters, {'sym': True, 'runs': 400}),
    (h_intersect, {'sym': True, 'runs': 400}),
    (h_intersect_medoids, {'sym': True, 'runs': 400}),
    (h_clone, {'sym': True, 'runs': 100}),
    (h_history_partition, {'sym': True, 'runs': 150}),
]
