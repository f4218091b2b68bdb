"""C14  fuzzy memberships are a distribution and fuzzy masks apply the threshold"""
import numpy as np
from . import common as cm
from .asked import h_asked_mask

MODULES = ['spta.region.mask', 'spta.kmedoids', 'spta.kmedoids.kmedoids_fuzzy', 'spta.distance.dtw']


def mask_of(H, k, xl, yl):
    M = H.load('spta.region.mask').MaskRegionFuzzy
    u = H.array('u', (k, xl, yl), lo=0, hi=1)
    c = H.index('cluster', k)
    t = H.real('threshold', 0, 1)
    return M(u, c, t), u, c, t


def h_member(H):
    """a point is in the mask exactly when its best membership exceeds the one in this cluster by at most the threshold"""
    xl, yl = cm.grid(H, 3)
    k = H.size('k', 1, 4)
    mask, u, c, t = mask_of(H, k, xl, yl)
    P = H.load('spta.region').Point
    x, y = H.index('x', xl), H.index('y', yl)
    best = H.maximum([k], lambda j: u[j, x, y])
    H.check('member', H.eq(mask.is_member(P(x, y)), best - u[c, x, y] <= t))
    H.check('no point', H.not_(mask.is_member(None)))
    cl = mask.clone()
    H.check('a clone has the same members', H.eq(cl.is_member(P(x, y)), mask.is_member(P(x, y))))


def h_threshold(H):
    """threshold zero keeps the best clusters only; a larger threshold loses no member; one keeps all"""
    xl, yl = cm.grid(H, 3)
    k = H.size('k', 1, 4)
    mask, u, c, t = mask_of(H, k, xl, yl)
    M = H.load('spta.region.mask').MaskRegionFuzzy
    P = H.load('spta.region').Point
    x, y = H.index('x', xl), H.index('y', yl)
    t2 = H.real('larger', 0, 1)
    H.assume(t <= t2)
    p = P(x, y)
    H.check('a larger threshold loses no member', H.imp(mask.is_member(p), M(u, c, t2).is_member(p)))
    H.check('threshold one', M(u, c, 1).is_member(p))
    H.check('threshold zero', H.eq(M(u, c, 0).is_member(p), H.all([k], lambda j: u[j, x, y] <= u[c, x, y])))
    H.check('zero is the default', H.eq(M(u, c).is_member(p), M(u, c, 0).is_member(p)))


def h_size(H):
    """the reported size is the number of members"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H, 3)
    k = H.size('k', 1, 4)
    mask, u, c, t = mask_of(H, k, xl, yl)
    H.check('size', H.eq(mask.cluster_len, H.count(
        [xl, yl], lambda x, y: H.maximum([k], lambda j: u[j, x, y]) - u[c, x, y] <= t)))


def h_from_memberships(H):
    """a mask made from memberships per item holds them at the points of the items"""
    xl, yl = cm.grid(H, 3)
    k = H.size('k', 1, 4)
    M = H.load('spta.region.mask').MaskRegionFuzzy
    P = H.load('spta.region').Point
    u = H.array('uij', (xl * yl, k), lo=0, hi=1)
    c = H.index('cluster', k)
    t = H.real('threshold', 0, 1)
    m = M.from_uij_and_region(u, xl, yl, c, t)
    x, y = H.index('x', xl), H.index('y', yl)
    i = x * yl + y
    H.check('member', H.eq(m.is_member(P(x, y)), H.maximum([k], lambda j: u[i, j]) - u[i, c] <= t))


def measured(H, fz, n, tl, k, m_lo=1.2):
    X = H.array('X', (n, tl))
    d = np.array([[np.sqrt(np.sum((a - b) ** 2)) for b in X] for a in X])
    H.assume(all(d[i, j] > 0.01 for i in range(n) for j in range(i)))
    dtw = H.load('spta.distance.dtw')

    class Euclid(dtw.DistanceByDTW):
        def measure(self, a, b):
            return float(np.sqrt(np.sum((np.asarray(a) - np.asarray(b)) ** 2)))
    dm = Euclid()
    if H.bool('matrix'):
        dm.distance_matrix = d.copy()
    return X, d, dm


def fcm(d, med, m):
    """memberships by definition"""
    n, k = len(d), len(med)
    u = np.zeros((n, k))
    for i in range(n):
        if i in med:
            u[i, med.index(i)] = 1
        else:
            for j in range(k):
                u[i, j] = 1 / sum((d[i, med[j]] / d[i, med[q]]) ** (1 / (m - 1)) for q in range(k))
    return u


def distribution(H, u, d, med, m, n, k):
    H.check('a membership per item and cluster', u.shape == (n, k))
    H.check('in [0, 1]', bool(np.all(u >= -1e-12) and np.all(u <= 1 + 1e-9)))
    H.check('sum to one', np.allclose(u.sum(axis=1), 1, atol=1e-9))
    for c, i in enumerate(med):
        H.check('a medoid belongs to its cluster only', u[i, c] == 1 and all(u[i, q] == 0 for q in range(k) if q != c))
    H.check('memberships by definition', np.allclose(u, fcm(d, med, m), atol=1e-9))


def h_memberships(H):
    """memberships for given medoids"""
    H.concrete_only('powers and infinities')
    fz = H.load('spta.kmedoids.kmedoids_fuzzy')
    n, tl = H.int('n', 1, 8), H.int('tl', 1, 3)
    k = H.int('k', 1, min(n, 4))
    X, d, dm = measured(H, fz, n, tl, k)
    med = H.array('medoids', (n,), 'i', 0, n - 1, distinct=True).tolist()[:k]
    m = H.choice('m', [2, 1.5, 3, 1.25, 5])
    Md = H.load('spta.kmedoids').Medoid
    u, costs, total, dist = fz.compute_membership_fcm(X, m, [Md(i, X[i]) for i in med], dm, 0.001)
    distribution(H, u, d, med, m, n, k)
    H.check('weighted costs', np.allclose(costs, [(u[:, c] * d[:, med[c]]).sum() for c in range(k)]))
    H.check('total cost', np.isclose(total, np.sum(costs)))


def h_run(H):
    """the memberships, medoids and costs of a run"""
    H.concrete_only('powers and infinities')
    fz = H.load('spta.kmedoids.kmedoids_fuzzy')
    n, tl = H.int('n', 1, 6), H.int('tl', 1, 3)
    k = H.int('k', 1, min(n, 3))
    X, d, dm = measured(H, fz, n, tl, k)
    m = H.choice('m', [2, 1.5, 3])
    seed = H.int('seed', 0, 50)
    tol = H.choice('tol', [0.001, 0.1])
    max_iter = H.choice('max_iter', [1000, 0])
    initial = None
    if H.bool('initial medoids'):
        initial = H.array('initial', (n,), 'i', 0, n - 1, distinct=True).tolist()[:k]
    res = fz.run_kmedoids_fuzzy(X, k, m, dm, initial_medoids=initial, random_seed=seed, max_iter=max_iter, tol=tol,
                                verbose=H.bool('verbose'))
    med = [int(i) for i in res.medoids]
    H.check('k distinct medoids', len(med) == k and len(set(med)) == k)
    distribution(H, res.uij, d, med, m, n, k)
    H.check('costs', np.allclose(res.costs, [(res.uij[:, c] * d[:, med[c]]).sum() for c in range(k)]))
    H.check('total', np.isclose(res.total_cost, np.sum(res.costs)))
    if max_iter:
        def cost(of):
            with np.errstate(all='ignore'):
                w = fcm(d, of, m)
            return sum((w[:, c] * d[:, of[c]]).sum() for c in range(k))
        for i in range(n):
            for j in range(k):
                if i not in med:
                    H.check('no single replacement is cheaper by more than the tolerance',
                            not cost(med) - cost(med[:j] + [i] + med[j + 1:]) > tol + 1e-7 * (1 + abs(cost(med))),
                            '%s: %d for %d' % (med, i, j))
    if initial is not None:
        with np.errstate(all='ignore'):
            w = fcm(d, initial, m)
        H.check('not costlier than the medoids it started from',
                not res.total_cost > sum((w[:, c] * d[:, initial[c]]).sum() for c in range(k)) + 1e-7 * (1 + abs(res.total_cost)))
    M = H.load('spta.region.mask').MaskRegionFuzzy
    for c in range(k):
        mask = M.from_uij_and_region(res.uij, 1, n, c, 0)
        mem = [(int(p.x), int(p.y)) for p in mask]
        H.check('mask of a cluster', mem == [(0, i) for i in range(n) if res.uij[i].max() - res.uij[i, c] <= 0])
        H.check('size', mask.cluster_len == len(mem))


h_history_mask = cm.history(h_asked_mask)

SPEC = [
    (h_member, {'sym': True, 'runs': 200}),
    (h_threshold, {'sym': True, 'runs': 200}),
    (h_size, {'sym': True, 'runs': 200}),
    (h_from_memberships, {'sym': True, 'runs': 200}),
    (h_memberships, {'runs': 200, 'why': 'powers and infinities'}),
    (h_run, {'runs': 150, 'why': 'powers and infinities'}),
    (h_history_mask, {'sym': True, 'runs': 150}),
]
