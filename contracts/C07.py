"""C07  point indices and absolute coordinates identify points one to one"""
import numpy as np
from . import common as cm
from .asked import h_asked_metadata

MODULES = ['spta.region', 'spta.region.metadata', 'spta.region.base', 'spta.region.spatial', 'spta.region.temporal',
           'spta.region.partition', 'spta.distance', 'spta.clustering.kmedoids', 'spta.util.arrays', 'spta.solver.result']


def offset_metadata(H):
    """a region of any size at any place of the dataset"""
    xl, yl = cm.grid(H, 7)
    x1, y1 = H.int('x1', 0, None, 60), H.int('y1', 0, None, 60)
    return cm.metadata(H, xl, yl, x1=x1, y1=y1), xl, yl, x1, y1


def h_index_to_absolute(H):
    """the absolute point of a flat index is the corner plus (index // height, index % height); the offset and the
    index can be recovered; different indices give different points"""
    md, xl, yl, x1, y1 = offset_metadata(H)
    i = H.index('i', xl * yl)
    j = H.index('j', xl * yl)
    p, q = md.index_to_absolute_point(i), md.index_to_absolute_point(j)
    H.check('corner plus quotient and remainder', H.and_(
        H.eq(p.x, x1 + H.div(i, yl)), H.eq(p.y, y1 + H.mod(i, yl))))
    H.check('inside the region', H.and_(x1 <= p.x, p.x < x1 + xl, y1 <= p.y, p.y < y1 + yl))
    H.check('the index can be recovered', H.eq((p.x - x1) * yl + (p.y - y1), i))
    H.check('one to one', H.imp(H.and_(H.eq(p.x, q.x), H.eq(p.y, q.y)), H.eq(i, j)))


def h_point_to_absolute(H):
    """a point of the region moves by exactly the corner of the region"""
    md, xl, yl, x1, y1 = offset_metadata(H)
    P = H.load('spta.region').Point
    x, y = H.index('x', xl), H.index('y', yl)
    p = md.absolute_position_of_point(P(x, y))
    H.check('adds the corner', H.and_(H.eq(p.x, x + x1), H.eq(p.y, y + y1)))
    H.check('is a point', isinstance(p, P))
    q = md.index_to_absolute_point(x * yl + y)
    H.check('agrees with the flat index', H.and_(H.eq(p.x, q.x), H.eq(p.y, q.y)))


def h_rectangle_to_absolute(H):
    """a rectangle moves by exactly the corner of the region"""
    md, xl, yl, x1, y1 = offset_metadata(H)
    R = H.load('spta.region').Region
    a, b = H.int('a', 0, xl), H.int('b', 0, xl)
    c, d = H.int('c', 0, yl), H.int('d', 0, yl)
    r = md.absolute_coordinates_of_region(R(a, b, c, d))
    H.check('is a rectangle', isinstance(r, R))
    H.check('adds the corner', H.and_(H.eq(r.x1, a + x1), H.eq(r.x2, b + x1), H.eq(r.y1, c + y1), H.eq(r.y2, d + y1)))
    H.check('same size', H.and_(H.eq(r.x2 - r.x1, b - a), H.eq(r.y2 - r.y1, d - c)))


def h_membership_index(H):
    """the partition finds the label of a point at x * height + y"""
    xl, yl = cm.grid(H)
    P = H.load('spta.region').Point
    part = H.load('spta.region.partition')
    flat = H.array('labels', (xl * yl,), 'i', 0, None if H.symbolic else 3)
    p = part.PartitionRegionCrisp.from_membership_array(flat, xl, yl)
    x, y = H.index('x', xl), H.index('y', yl)
    c = H.index('c', p.k)
    H.check('membership of an index', H.eq(p.membership_of_point_indices([x * yl + y])[0], flat[x * yl + y]))
    H.check('membership of a point', H.eq(p.membership_of_points([P(x, y)])[0], flat[x * yl + y]))
    H.check('is member', H.eq(p.is_member(P(x, y), c), H.eq(flat[x * yl + y], c)))


def h_series_index(H):
    """row x * height + y of the list of series is the series of the point; so is the list of values, and of indices"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H)
    r, d = cm.spt(H, tl, xl, yl)
    s, v = cm.spatial(H, xl, yl)
    a = r.as_2d
    x, y = H.index('x', xl), H.index('y', yl)
    t = H.index('t', tl)
    H.check('rows and samples', H.eq(H.shape(a), (xl * yl, tl)))
    H.check('series of the point', H.eq(a[x * yl + y, t], d[t, x, y]))
    f = s.as_array
    H.check('number of values', H.eq(H.shape(f), (xl * yl,)))
    H.check('value of the point', H.eq(f[x * yl + y], v[x, y]))
    ix = r.all_point_indices
    H.check('number of indices', H.eq(H.len(ix), xl * yl))
    H.check('indices in order', H.eq(ix[x * yl + y], x * yl + y))


def h_distance_index(H):
    """distances to a point are read from row x * height + y of the distance matrix"""
    xl, yl = cm.grid(H)
    tl = H.size('tl', 1, 2)
    r, d = cm.spt(H, tl, xl, yl)
    P = H.load('spta.region').Point
    dm = H.load('spta.distance').DistanceBetweenSeries()
    dm.distance_matrix = H.array('matrix', (xl * yl, xl * yl))
    x, y = H.index('x', xl), H.index('y', yl)
    n = H.size('n', 1, 4)
    ix = H.array('indices', (n,), 'i', 0, xl * yl - 1)
    out = dm.distances_to_point(r, P(x, y), ix)
    H.check('one for each index', H.eq(H.shape(out), (n,)))
    H.forall('row of the point', [n], lambda k: H.eq(out[k], dm.distance_matrix[x * yl + y, ix[k]]))


def h_centroids(H):
    """centroid indices become the points they denote"""
    xl, yl = cm.grid(H)
    tl = H.size('tl', 1, 2)
    r, d = cm.spt(H, tl, xl, yl)
    p, lab = cm.partition(H, xl, yl)
    ci = H.array('centroids', (p.k,), 'i', 0, xl * yl - 1)
    cs = p.create_all_spt_clusters(r, centroid_indices=ci)
    H.check('a cluster per label', H.eq(H.len(cs), p.k))
    H.each('centroid is the point of its index', cs, lambda c, cl: H.and_(
        H.eq(cl.centroid.x, H.div(ci[c], yl)), H.eq(cl.centroid.y, H.mod(ci[c], yl))))


def h_medoids(H):
    """the region-level k-medoids turns medoid indices into the points they denote, and labels into the partition
    (run_kmedoids is replaced by its contract: labels and medoid indices of any k-medoids result)"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H)
    tl = H.size('tl', 1, 2)
    r, d = cm.spt(H, tl, xl, yl)
    km = H.load('spta.clustering.kmedoids')
    k = H.int('k', 1, None, 4)
    labels = H.array('labels', (xl * yl,), 'i', 0, k - 1)
    medoids = H.array('medoids', (k,), 'i', 0, xl * yl - 1)
    H.assume(H.any([xl * yl], lambda i: H.eq(labels[i], k - 1)))
    got = []

    class Result:
        pass

    def contract(X, kk, distance_measure, **kw):
        got.append((X, kk, distance_measure, kw))
        res = Result()
        res.labels, res.medoids = labels, medoids
        return res
    orig = km.run_kmedoids
    km.run_kmedoids = contract
    try:
        dist = H.load('spta.distance').DistanceBetweenSeries()
        seed, it = H.int('seed', 0, None, 50), H.int('max_iter', 1, None, 50)
        tol = H.real('tol')
        md = km.KmedoidsClusteringMetadata(k, random_seed=seed, mode='lite', max_iter=it, tol=tol)
        part = km.KmedoidsClusteringAlgorithm(md, dist).partition(r)
    finally:
        km.run_kmedoids = orig
    X, kk, dd, kw = got[0]
    H.check('its own k, distance, seed, mode, limits', H.and_(
        H.eq(kk, k), H.same(dd, dist), H.eq(kw['random_seed'], seed), kw['mode'] == 'lite', H.eq(kw['max_iter'], it),
        H.eq(kw['tol'], tol), kw['initial_medoids'] is None))
    x, y, t = H.index('x', xl), H.index('y', yl), H.index('t', tl)
    H.check('items in point order', H.and_(H.eq(H.shape(X), (xl * yl, tl)), H.eq(X[x * yl + y, t], d[t, x, y])))
    H.check('label of the point', H.and_(H.eq(part.as_numpy[x, y], labels[x * yl + y]), H.eq(part.k, k)))
    H.check('a medoid per cluster', H.eq(H.len(part.medoids), k))
    H.each('medoid is the point of its index', part.medoids, lambda c, m: H.and_(
        H.eq(m.x, H.div(medoids[c], yl)), H.eq(m.y, H.mod(medoids[c], yl))))


def h_list_of_points(H):
    """row x * height + y of the list of points of a grid is (x, y)"""
    xl, yl = cm.grid(H, 6)
    a = H.load('spta.util.arrays').list_of_2d_points(xl, yl)
    H.check('shape', H.eq(H.shape(a), (xl * yl, 2)))
    H.forall('the point of each index', [xl, yl], lambda x, y: H.and_(
        H.eq(a[x * yl + y, 0], x), H.eq(a[x * yl + y, 1], y)))


def h_from_list(H):
    """element x * height + y of a list becomes the value of the point (x, y); the series listed there is its own"""
    xl, yl = cm.grid(H, 6)
    a = H.array('list', (xl * yl,))
    r = H.load('spta.region.spatial').SpatialRegion.create_from_1d(a, xl, yl)
    H.check('grid', H.eq(H.shape(r.as_numpy), (xl, yl)))
    P = H.load('spta.region').Point
    x, y = H.index('x', xl), H.index('y', yl)
    H.check('the element of its index', H.eq(r.value_at(P(x, y)), a[x * yl + y]))
    n = H.size('n', 1, 4)
    d = H.array('series', (n, xl, yl))
    s = H.load('spta.util.arrays').spatio_temporal_to_list_of_time_series(d)
    H.check('a series per point', H.eq(H.len(s), xl * yl))
    t = H.index('t', n)
    H.check('the series of its index', H.eq(s[x * yl + y][t], d[t, x, y]))


def h_straight(H):
    """straight distances to a point of a grid, by the index of the other point"""
    xl, yl = cm.grid(H, 6)
    x, y = H.index('x', xl), H.index('y', yl)
    a = H.load('spta.util.arrays').distances_to_point_in_2d_region(x, y, xl, yl)
    H.check('one per point', H.eq(H.shape(a), (xl * yl,)))
    H.forall('of the point of that index', [xl, yl], lambda i, j: H.and_(
        a[i * yl + j] >= 0, H.eq(a[i * yl + j] ** 2, (i - x) ** 2 + (j - y) ** 2)))


def h_result_coordinates(H):
    """domain and relative coordinates of a prediction invert each other; absolute ones add the corner of the region"""
    res = H.load('spta.solver.result')
    P, R = H.load('spta.region').Point, H.load('spta.region').Region
    md, xl, yl, x1, y1 = offset_metadata(H)
    a, c = H.index('a', xl), H.index('c', yl)
    b, e = H.int('b', a + 1, xl), H.int('e', c + 1, yl)

    class SolverMetadata:
        region_metadata = md
        model_params = None
        test_len = 1
        error_type = 'MSE'
    n = H.size('forecast', 1, 2)
    f, _ = cm.spt(H, n, b - a, e - c, 'forecasts')
    er, _ = cm.spatial(H, b - a, e - c, 'errors')
    q = res.PredictionQueryResult(solver_metadata=SolverMetadata(), forecast_len=n, forecast_subregion=f, error_subregion=er,
                                  prediction_region=R(a, b, c, e), spt_region=None, output_home='outputs')
    x, y = H.index('x', b - a), H.index('y', e - c)
    d = q.to_domain_coordinates(P(x, y))
    H.check('domain point', H.and_(H.eq(d.x, a + x), H.eq(d.y, c + y)))
    back = q.to_relative_coordinates(d)
    H.check('back to the relative point', H.and_(H.eq(back.x, x), H.eq(back.y, y)))
    u, v = H.index('u', xl), H.index('v', yl)
    again = q.to_domain_coordinates(q.to_relative_coordinates(P(u, v)))
    H.check('and the other way round', H.and_(H.eq(again.x, u), H.eq(again.y, v)))
    ab = q.absolute_coordinates_of(d)
    H.check('absolute point', H.and_(H.eq(ab.x, x1 + a + x), H.eq(ab.y, y1 + c + y)))


def h_medoids_text(H):
    """medoid indices listed as absolute coordinates"""
    H.concrete_only('text')
    md, xl, yl, x1, y1 = offset_metadata(H)
    tl = H.size('tl', 1, 2)
    r, d = cm.spt(H, tl, xl, yl, metadata=md)
    n = H.int('n', 1, 5)
    ix = [H.index('i%d' % j, xl * yl) for j in range(n)]
    text = H.load('spta.kmedoids').medoids_to_absolute_coordinates(r, ix)
    want = ''.join('(%d,%d) ' % (x1 + i // yl, y1 + i % yl) for i in ix)
    H.check('each medoid at its place', text == want, '%r for %r' % (text, want))


h_history_metadata = cm.history(h_asked_metadata)

SPEC = [
    (h_index_to_absolute, {'sym': True, 'runs': 400}),
    (h_point_to_absolute, {'sym': True, 'runs': 300}),
    (h_rectangle_to_absolute, {'sym': True, 'runs': 300}),
    (h_membership_index, {'sym': True, 'runs': 300}),
    (h_series_index, {'sym': True, 'runs': 300}),
    (h_distance_index, {'sym': True, 'runs': 300}),
    (h_centroids, {'sym': True, 'runs': 300}),
    (h_medoids, {'sym': True, 'runs': 200}),
    (h_list_of_points, {'sym': True, 'runs': 200}),
    (h_from_list, {'sym': True, 'runs': 200}),
    (h_straight, {'sym': True, 'runs': 200}),
    (h_result_coordinates, {'sym': True, 'runs': 300}),
    (h_medoids_text, {'runs': 200, 'why': 'text'}),
    (h_history_metadata, {'sym': True, 'runs': 150}),
]
