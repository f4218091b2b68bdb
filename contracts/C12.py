"""C12  centroids minimise total distance and costs add up"""
import numpy as np
from . import common as cm
from .asked import h_asked_centroid, h_asked_cost

MODULES = ['spta.region.centroid', 'spta.region.partition', 'spta.region.temporal', 'spta.distance', 'spta.distance.dtw',
           'spta.util.arrays']


def with_matrix(H, xl, yl, **kw):
    """a distance object that has the distances between all points of a grid"""
    dm = H.load('spta.distance.dtw').DistanceByDTW()
    n = xl * yl
    m = H.array('matrix', (n, n), **kw)
    dm.distance_matrix = m
    return dm, m


def h_centroid(H):
    """the centroid of a region: its summed distance is least, the first such point in row-major order"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 2)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl)
    dm, m = with_matrix(H, xl, yl)
    c, dist = H.load('spta.region.centroid').CalculateCentroid(dm).find_centroid_and_distances(r)
    n = xl * yl
    total = lambda i: H.sum([n], lambda j: m[i, j])
    ci = c.x * yl + c.y
    H.check('a point of the region', H.and_(0 <= c.x, c.x < xl, 0 <= c.y, c.y < yl))
    H.check('a distance per point', H.eq(H.shape(dist), (n,)))
    H.forall('the distances of the centroid', [n], lambda j: H.eq(dist[j], m[ci, j]))
    x, y = H.index('x', xl), H.index('y', yl)
    H.check('no point has a smaller sum', total(ci) <= total(x * yl + y))
    H.check('earlier points have a larger sum', H.imp(x * yl + y < ci, total(ci) < total(x * yl + y)))


def h_centroid_cluster(H):
    """the centroid of a cluster: a member whose summed distance to the members is least, the first of those"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 2)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl)
    p, lab = cm.partition(H, xl, yl, 3)
    mx, my = H.index('mx', xl), H.index('my', yl)
    k = lab[mx, my]
    cl = p.create_spt_cluster(r, k)
    dm, m = with_matrix(H, xl, yl)
    c, dist = H.load('spta.region.centroid').CalculateCentroid(dm).find_centroid_and_distances(cl)
    member = lambda x, y: H.eq(lab[x, y], k)
    total = lambda i: H.sum([xl, yl], lambda x, y: m[i, x * yl + y], member)
    ci = c.x * yl + c.y
    H.check('a member', H.and_(0 <= c.x, c.x < xl, 0 <= c.y, c.y < yl, member(c.x, c.y)))
    H.check('a distance per member', H.eq(H.len(dist), H.count([xl, yl], member)))
    H.check('the distances of the centroid', H.eq(H.sum([H.len(dist)], lambda j: dist[j]), total(ci)))
    x, y = H.index('x', xl), H.index('y', yl)
    H.assume(member(x, y))
    H.check('no member has a smaller sum', total(ci) <= total(x * yl + y))
    H.check('earlier members have a larger sum', H.imp(x * yl + y < ci, total(ci) < total(x * yl + y)))


def h_cost(H):
    """the cost of a partition: the sum over all points of the squared distance to the medoid of their cluster"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 2)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl)
    p, lab = cm.partition(H, xl, yl, 3)
    dm, m = with_matrix(H, xl, yl)
    k = p.k
    P = H.load('spta.region').Point
    med = H.array('medoid_indices', (k,), 'i', 0, xl * yl - 1)
    p.medoids = [P(H.div(med[j], yl), H.mod(med[j], yl)) for j in range(k)]
    cost = H.load('spta.region.partition').intra_cluster_cost(p, r, dm)
    H.check('sum of squares', H.eq(cost, H.sum([xl, yl], lambda x, y: m[med[lab[x, y]], x * yl + y] * m[med[lab[x, y]], x * yl + y])))


def dtw_table(d):
    tl = d.shape[0]
    s = d.reshape(tl, -1).T
    n = len(s)
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            D = np.full((tl + 1, tl + 1), np.inf)
            D[0, 0] = 0
            for a in range(tl):
                for b in range(tl):
                    D[a + 1, b + 1] = (s[i][a] - s[j][b]) ** 2 + min(D[a, b], D[a, b + 1], D[a + 1, b])
            out[i, j] = np.sqrt(D[tl, tl])
    return out


def is_best(H, name, m, members, c, yl):
    """c is a point of members with the least sum, the first of those (sums closer than rounding count as equal)"""
    sums = {i: sum(m[i, j] for j in members) for i in members}
    ci = c.x * yl + c.y
    H.check(name + ': a member', ci in members)
    lo = min(sums.values())
    H.check(name + ': least sum', sums[ci] <= lo + 1e-9 * (1 + abs(lo)))
    H.check(name + ': the first', not any(i < ci and sums[i] < sums[ci] - 1e-9 * (1 + abs(lo)) for i in members))


def h_measured(H):
    """with the real measure: centroids of regions and clusters, medoids of a partition, cost of a partition"""
    H.concrete_only('tslearn')
    tl = H.size('tl', 1, 4)
    xl, yl = cm.grid(H, 4)
    r, d = cm.spt(H, tl, xl, yl)
    n = xl * yl
    dm = H.load('spta.distance.dtw').DistanceByDTW()
    dm.compute_distance_matrix(r)
    m = dtw_table(d)
    cc = H.load('spta.region.centroid').CalculateCentroid(dm)
    c, dist = cc.find_centroid_and_distances(r)
    is_best(H, 'region', m, range(n), c, yl)
    H.check('distances of the centroid', np.allclose(dist, m[c.x * yl + c.y]))
    c2 = r.get_centroid(dm)
    H.check('the region finds the same', (c2.x, c2.y) == (c.x, c.y))
    H.check('and keeps it', r.has_centroid() and r.get_centroid() is c2)
    p, lab = cm.partition(H, xl, yl, 3)
    lf = lab.reshape(n)
    H.assume(all((lf == k).any() for k in range(p.k)))
    clusters = p.create_all_spt_clusters(r)
    for k in range(p.k):
        mem = [i for i in range(n) if lf[i] == k]
        ck, dk = cc.find_centroid_and_distances(clusters[k])
        is_best(H, 'cluster', m, mem, ck, yl)
        H.check('distances within the cluster', np.allclose(dk, m[ck.x * yl + ck.y, mem]))
        g = clusters[k].get_centroid(dm)
        H.check('the cluster finds the same', (g.x, g.y) == (ck.x, ck.y))
    alg = H.load('spta.clustering.regular')
    a = alg.RegularClusteringAlgorithm(alg.RegularClusteringMetadata(p.k), dm)
    meds = a.find_medoids_for_partition(r, p)
    H.check('a medoid per cluster', len(meds) == p.k)
    for k in range(p.k):
        is_best(H, 'medoid', m, [i for i in range(n) if lf[i] == k], meds[k], yl)
    p.medoids = meds
    cost = H.load('spta.region.partition').intra_cluster_cost(p, r, dm)
    want = sum(m[meds[lf[i]].x * yl + meds[lf[i]].y, i] ** 2 for i in range(n))
    H.check('cost', H.eq(cost, want))


def h_region_centroid(H):
    """asking a region, or what wraps it, for its centroid: the least one, found once; none without a measure"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 4)
    xl, yl = cm.grid(H, 4)
    cc = H.load('spta.region.centroid').CalculateCentroid
    scaled = H.bool('scaled')
    r, d = cm.spt(H, tl, xl, yl)[:2] if not scaled else cm.wrap_scaled(H, tl, xl, yl)[:2]
    dm, m = with_matrix(H, xl, yl, lo=0, hi=9)
    n = xl * yl

    class Settings(object):
        def create_instance(self):
            return r
    how = H.choice('how', ['settings', 'asked', 'inner'])
    ok = False
    try:
        r.get_centroid()
    except ValueError:
        ok = True
    H.check('refused without a measure', ok)
    H.check('not known yet', not r.has_centroid())
    if how == 'settings':
        c = cc.for_sptr_metadata(Settings(), dm)
    elif how == 'asked':
        c = r.get_centroid(dm)
    else:
        c = (r.decorated_region if scaled else r).get_centroid(dm)
    if H.symbolic:
        total = lambda i: H.sum([n], lambda j: m[i, j])     # noqa: E731
        ci = c.x * yl + c.y
        H.check('a point of the region', H.and_(0 <= c.x, c.x < xl, 0 <= c.y, c.y < yl))
        x, y = H.index('x', xl), H.index('y', yl)
        H.check('no point has a smaller sum', total(ci) <= total(x * yl + y))
        H.check('earlier points have a larger sum', H.imp(x * yl + y < ci, total(ci) < total(x * yl + y)))
    else:
        is_best(H, how, m, range(n), c, yl)
    if how != 'settings':
        again = r.get_centroid()
        H.check('known now', r.has_centroid())
        H.check('and kept', H.and_(H.eq(again.x, c.x), H.eq(again.y, c.y)))


h_history_centroid = cm.history(h_asked_centroid)

h_history_cost = cm.history(h_asked_cost)

SPEC = [
    (h_centroid, {'sym': True, 'runs': 200}),
    (h_centroid_cluster, {'sym': True, 'runs': 200}),
    (h_cost, {'sym': True, 'runs': 200, 'cost': 9}),
    (h_region_centroid, {'sym': True, 'runs': 200}),
    (h_measured, {'runs': 200, 'why': 'tslearn DTW'}),
    (h_history_centroid, {'sym': True, 'seconds': 150, 'cost': 10, 'runs': 150}),
    (h_history_cost, {'sym': True, 'runs': 150}),
]
ASSUMPTIONS = ['in the proved part the distances are an arbitrary matrix of real numbers held by a real distance object']
