"""C13  k-medoids returns a consistent clustering never worse than its start"""
import numpy as np
from . import common as cm
from .asked import h_asked_kmedoids

ASSUMPTIONS = ['partial correctness: the loops of the search have contracts, their termination is not proved (the bounded runs end)',
               'h_search: distances come from the contract of _get_cost that h_get_cost proves; the labels, costs and '
               'distances of a list of medoids are functions of the medoids (the same medoids are measured the same way again)',
               'h_search, h_start: numpy.random.choice without replacement returns distinct items in range']
MODULES = ['spta.kmedoids', 'spta.kmedoids.kmedoids', 'spta.distance', 'spta.distance.dtw', 'spta.clustering.kmedoids']


def euclid(H):
    """a distance object that measures euclidean distances (any symmetric measure would do)"""
    dtw = H.load('spta.distance.dtw')

    class Euclid(dtw.DistanceByDTW):
        def measure(self, a, b):
            return float(np.sqrt(np.sum((np.asarray(a) - np.asarray(b)) ** 2)))
    return Euclid()


def table(X):
    return np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2))


def cost_of(m, medoids):
    return float(np.min(m[:, list(medoids)], axis=1).sum())


def consistent(H, res, m, n, k, name=''):
    med = [int(i) for i in res.medoids]
    H.check(name + 'k distinct items as medoids', len(med) == k and len(set(med)) == k and all(0 <= i < n for i in med))
    lab = [int(c) for c in res.labels]
    H.check(name + 'a label per item', len(lab) == n and all(0 <= c < k for c in lab))
    near = m[:, med].min(axis=1)
    H.check(name + 'labelled with a nearest medoid', all(m[i, med[lab[i]]] <= near[i] + 1e-9 for i in range(n)))
    H.check(name + 'a cost per cluster', len(res.costs) == k)
    H.check(name + 'cost of each cluster', np.allclose(
        [res.costs[c] for c in range(k)], [sum(m[i, med[c]] for i in range(n) if lab[i] == c) for c in range(k)], atol=1e-9))
    H.check(name + 'total cost', np.isclose(res.total_cost, sum(res.costs), atol=1e-9))
    return med, lab


def no_better_swap(H, m, med, lab, mode, tol):
    """no swap of a medoid with another item (robust), or with another member of its cluster (lite), gains more than tol"""
    total = cost_of(m, med)
    for c in range(len(med)):
        others = [q for j, q in enumerate(med) if j != c]
        rest = m[:, others].min(axis=1) if others else np.full(len(m), np.inf)
        totals = np.minimum(rest[:, None], m).sum(axis=0)
        for i in range(len(m)):
            if i in med or mode == 'lite' and lab[i] != c:
                continue
            H.check('no better swap', total - totals[i] <= tol + 1e-9,
                    'medoids %s cost %s; medoid %s for %s: cost %s' % (med, total, c, i, totals[i]))

def distances(H, n, tl):
    """(data, distance object, distance between items): a matrix that was computed before, or measured when needed"""
    dtw = H.load('spta.distance.dtw')
    X = H.array('X', (n, tl))
    if H.bool('matrix'):
        f = H.fn('entry', 'ii')

        def dist(i, j):
            return H.ite(i == j, 0.0, f(H.ite(i < j, i, j), H.ite(i < j, j, i)))
        dm = dtw.DistanceByDTW()
        dm.distance_matrix = np.array([[dist(i, j) for j in range(n)] for i in range(n)])
        return X, dm, dist
    f = H.fn('measure', 'ff')
    q = H.index('q', tl)

    def between(a, b):
        return H.ite(a <= b, f(a, b), f(b, a))

    class AnyMeasure(dtw.DistanceByDTW):
        def measure(self, first_series, second_series):
            return between(first_series[q], second_series[q])
    return X, AnyMeasure(), lambda i, j: H.ite(i == j, 0.0, between(X[i, q], X[j, q]))


def h_get_cost(H):
    """labels, costs and distances for some medoids: the first nearest medoid, sums of the members' distances"""
    km = H.load('spta.kmedoids.kmedoids')
    n, tl, k = H.size('n', 1, 6), H.size('tl', 1, 3), H.size('k', 1, 4)
    X, dm, dist = distances(H, n, tl)
    med = H.array('medoids', (k,), 'i', 0, n - 1)
    labels, costs, total, table = km._get_cost(X, [km.Medoid(i, X[i]) for i in med], dm)
    H.check('a label per item', H.eq(H.shape(labels), (n,)))
    H.check('a cost per cluster', H.eq(H.shape(costs), (k,)))
    H.check('a row per item, a column per medoid', H.eq(H.shape(table), (n, k)))
    H.forall('distances to the medoids', [n, k], lambda p, c: H.eq(table[p, c], dist(p, med[c])))
    H.forall('a label is a cluster', [n], lambda p: H.and_(labels[p] >= 0, labels[p] < k))
    H.forall('labelled with a nearest medoid', [n, k], lambda p, c: dist(p, med[labels[p]]) <= dist(p, med[c]))
    H.forall('labelled with the first one', [n, k], lambda p, c: H.imp(
        c < labels[p], dist(p, med[labels[p]]) < dist(p, med[c])))
    H.forall('cost of each cluster', [k], lambda c: H.eq(costs[c], H.sum(
        [n], lambda p: dist(p, med[c]), lambda p: labels[p] == c)))
    H.check('total cost', H.eq(total, H.sum([k], lambda c: costs[c])))



class Search:
    """the contract of run_kmedoids' three loops, over ghost medoids M (position of a cluster -> item). The results of
    _get_cost are functions of the medoids (h_get_cost says which ones)."""

    def __init__(self, H, km, X, n, k, mode, tol):
        self.H, self.km, self.X, self.n, self.k, self.mode, self.tol = H, km, X, n, k, mode, tol
        self.label, self.cost = H.fn('label', 'mi', 'i'), H.fn('cost', 'mi')
        self.total, self.far = H.fn('total', 'm'), H.fn('far', 'mii')
        self.start = None

    # what _get_cost gives for some medoids
    def labels(self, M):
        return self.H.tabulate((self.n,), lambda p: self.label(M, p), 'i')

    def costs(self, M):
        return self.H.tabulate((self.k,), lambda c: self.cost(M, c))

    def table(self, M):
        return self.H.tabulate((self.n, self.k), lambda p, c: self.far(M, p, c))

    def get_cost(self, X, medoids, dm):
        """stands for _get_cost: requires k medoids that are items of the data, with their series"""
        H = self.H
        H.check('costs: of the data', X is self.X)
        H.check('costs: k medoids', H.eq(H.len(medoids), self.k))
        H.forall('costs: medoids are items', [self.k], lambda c: H.and_(
            H.element(medoids, c).index >= 0, H.element(medoids, c).index < self.n))
        H.forall('costs: medoids come with their series', [self.k, H.shape(X)[1]], lambda c, t: H.eq(
            H.element(medoids, c).series[t], X[H.element(medoids, c).index, t]))
        M = self.of(medoids)
        if self.start is None:
            self.start = M
        return self.labels(M), self.costs(M), self.total(M), self.table(M)

    def of(self, medoids):
        return self.H.mapping_of(lambda c: self.H.element(medoids, c).index)

    # propositions
    def valid(self, M):
        H = self.H
        return [('medoids are items', H.all([self.k], lambda c: H.and_(M[c] >= 0, M[c] < self.n))),
                ('medoids differ', H.all([self.k, self.k], lambda c, d: H.imp(c < d, H.not_(H.eq(M[c], M[d])))))]

    def state(self, S):
        """medoids, labels, costs and distances belong together"""
        H, M = self.H, self.of(S.medoids)
        X = self.X
        return M, [
            ('k medoids', H.eq(H.len(S.medoids), self.k)),
            ('series of the medoids', H.all([self.k, H.shape(X)[1]], lambda c, t: H.eq(
                H.element(S.medoids, c).series[t], X[M[c], t]))),
            ('labels of the medoids', H.and_(H.eq(H.shape(S.labels), (self.n,)), H.all(
                [self.n], lambda p: H.eq(S.labels[p], self.label(M, p))))),
            ('costs of the medoids', H.and_(H.eq(H.shape(S.costs), (self.k,)), H.all(
                [self.k], lambda c: H.eq(S.costs[c], self.cost(M, c))))),
            ('total of the medoids', H.eq(S.tot_cost, self.total(M))),
            ('not worse than the start', self.total(M) <= self.total(self.start))] + self.valid(M)

    def arbitrary(self, S):
        """any medoids, with what belongs to them"""
        H, M = self.H, self.H.mapping('medoids')
        for _, c in self.valid(M):
            H.assume(c)
        S.medoids = H.listed(self.k, lambda c: self.km.Medoid(M[c], H.row(self.X, M[c])))
        S.labels, S.costs, S.tot_cost, S.dist_mat = self.labels(M), self.costs(M), self.total(M), self.table(M)
        return M

    def indices(self, S, M):
        H = self.H
        return ('indices of the medoids', H.and_(H.eq(H.len(S.medoid_indices), self.k), H.all(
            [self.k], lambda c: H.eq(H.element(S.medoid_indices, c), M[c]))))

    def candidate(self, M, c, i):
        return True if self.mode == 'robust' else self.H.eq(self.label(M, i), c)

    def no_gain(self, M, c, i):
        """item i, when it is no medoid, does not lower the cost by more than the tolerance in place of medoid c"""
        H = self.H
        return H.imp(H.not_(H.any([self.k], lambda d: H.eq(M[d], i))),
                     self.total(M) - self.total(M.with_(c, i)) <= self.tol)


def contracts_of(search):
    H = search.H

    class Passes(H.LoopSpec):
        func, depth, needs = 'run_kmedoids', 1, ('medoids', 'labels', 'costs', 'tot_cost', 'dist_mat', 'SWAPPED', 'cc')
        passes = 0

        def havoc(self, S, g, t):
            self.passes = t
            search.arbitrary(S)
            S.SWAPPED, S.cc = H.flag('swapped'), t

        def inv(self, S, g, t):
            M, st = search.state(S)
            return st + [('passes are counted', H.eq(S.cc, t))]

    class Clusters(H.LoopSpec):
        func, depth, needs = 'run_kmedoids', 2, ('medoids', 'labels', 'costs', 'tot_cost', 'dist_mat', 'SWAPPED',
                                                 'medoid_indices')

        def entry(self, S):
            return search.of(S.medoids)

        def havoc(self, S, g, j):
            M = search.arbitrary(S)
            S.SWAPPED = H.flag('swapped')
            S.medoid_indices = H.listed(search.k, lambda c: M[c])

        def inv(self, S, g, j):
            M, st = search.state(S)
            return st + [
                search.indices(S, M),
                ('no swap, same medoids', H.imp(H.not_(S.SWAPPED), M.same(g))),
                ('no swap, nothing gained so far', H.imp(H.not_(S.SWAPPED), H.all([j, search.n], lambda c, i: H.imp(
                    search.candidate(M, c, i), search.no_gain(M, c, i)))))]

    class Candidates(H.LoopSpec):
        func, depth, needs = 'run_kmedoids', 3, ('medoids', 'labels', 'costs', 'tot_cost', 'dist_mat', 'SWAPPED',
                                                 'medoid_indices', 'j')

        def entry(self, S):
            return search.of(S.medoids), S.SWAPPED, S.j

        def havoc(self, S, g, t):
            M = search.arbitrary(S)
            S.SWAPPED = H.flag('swapped')
            S.medoid_indices = H.listed(search.k, lambda c: M[c])

        def inv(self, S, g, t):
            M, st = search.state(S)
            old, swapped, j = g
            return st + [
                search.indices(S, M),
                ('a swap stays', H.imp(swapped, S.SWAPPED)),
                ('no swap, same medoids', H.imp(H.not_(S.SWAPPED), M.same(old))),
                ('no swap, nothing gained so far', H.imp(H.not_(S.SWAPPED), H.all([t], lambda i: H.imp(
                    self.visits(i), search.no_gain(M, j, self.item(i))))))]
    return Passes(), Clusters(), Candidates()


def h_search(H):
    """one run: medoids, labels and costs belong together; not worse than the start; locally optimal at the end"""
    if not H.symbolic:
        return search_some(H)
    km = H.load('spta.kmedoids.kmedoids')
    n, tl, k = H.size('n'), H.size('tl'), H.size('k')
    H.assume(k <= n)
    X = H.array('X', (n, tl))
    mode, tol, max_iter = H.choice('mode', ['lite', 'robust']), H.real('tol', 0), H.int('max_iter', 0)
    search = Search(H, km, X, n, k, mode, tol)
    loops = contracts_of(search)
    for spec in loops:
        H.loop_contract(spec)
    km._get_cost = search.get_cost
    res = km.run_kmedoids(X, k, H.load('spta.distance.dtw').DistanceByDTW(), random_seed=H.int('seed', 0), mode=mode,
                          max_iter=max_iter, tol=tol, verbose=False)
    H.check('k medoids', H.eq(H.len(res.medoids), k))
    M = H.mapping_of(lambda c: H.element(res.medoids, c))
    H.forall('medoids are items', [k], lambda c: H.and_(M[c] >= 0, M[c] < n))
    H.forall('medoids differ', [k, k], lambda c, d: H.imp(c < d, H.not_(H.eq(M[c], M[d]))))
    H.check('sizes', H.and_(H.eq(H.shape(res.labels), (n,)), H.eq(H.shape(res.costs), (k,))))
    H.forall('labels of these medoids', [n], lambda p: H.eq(res.labels[p], search.label(M, p)))
    H.forall('costs of these medoids', [k], lambda c: H.eq(res.costs[c], search.cost(M, c)))
    H.check('total cost of these medoids', H.eq(res.total_cost, search.total(M)))
    H.check('not worse than the start', res.total_cost <= search.total(search.start))
    H.forall('no better swap', [k, n], lambda c, i: H.imp(
        H.and_(loops[0].passes <= max_iter, search.candidate(M, c, i)), search.no_gain(M, c, i)))


def search_some(H):
    km = H.load('spta.kmedoids.kmedoids')
    n, tl = H.int('n', 1, 14), H.int('tl', 1, 3)
    k = H.int('k', 1, min(n, 4))
    X = H.array('X', (n, tl))
    m = table(X)
    seed = H.int('seed', 0, 50)
    mode = H.choice('mode', ['lite', 'robust'])
    tol = H.choice('tol', [0.001, 0.001, 0, 0.5, 2.0])
    dm = euclid(H)
    dm.distance_matrix = m.copy()
    start = [int(q.index) for q in km.choose_initial_medoids(X, k, seed, None)]
    res = km.run_kmedoids(X, k, dm, random_seed=seed, mode=mode, tol=tol, verbose=False)
    med, lab = consistent(H, res, m, n, k)
    H.check('total is the least sum for these medoids', np.isclose(res.total_cost, cost_of(m, med), atol=1e-9))
    H.check('not worse than the start', res.total_cost <= cost_of(m, start) + 1e-9)
    no_better_swap(H, m, med, lab, mode, tol)


def h_run(H):
    """medoids, labels and costs belong together; not worse than the start; locally optimal at the end"""
    H.concrete_only('randomised search')
    km = H.load('spta.kmedoids.kmedoids')
    n, tl = H.int('n', 1, 9), H.int('tl', 1, 3)
    k = H.int('k', 1, min(n, 4))
    X = H.array('X', (n, tl))
    m = table(X)
    seed = H.int('seed', 0, 50)
    mode = H.choice('mode', ['lite', 'robust'])
    tol = H.choice('tol', [0.001, 0, 0.5, 2.0])
    max_iter = H.choice('max_iter', [1000, 1000, 0, 1])
    verbose = H.bool('verbose')
    initial = None
    if H.bool('initial medoids'):
        initial = H.array('initial', (n,), 'i', 0, n - 1, distinct=True).tolist()[:k]
    dm = euclid(H)
    if H.bool('matrix'):
        dm.distance_matrix = m.copy()
    start = [int(q.index) for q in km.choose_initial_medoids(X, k, seed, initial)]
    if initial is not None:
        H.check('starts at the given medoids', start == [int(i) for i in initial])
    H.check('starts at k distinct items', len(set(start)) == k)
    X0 = X.copy()
    res = km.run_kmedoids(X, k, dm, initial_medoids=initial, random_seed=seed, mode=mode, max_iter=max_iter, tol=tol,
                          verbose=verbose)
    H.check('data unchanged', np.array_equal(X, X0))
    med, lab = consistent(H, res, m, n, k)
    total = cost_of(m, med)
    H.check('total is the least sum for these medoids', np.isclose(res.total_cost, total, atol=1e-9))
    H.check('not worse than the start', res.total_cost <= cost_of(m, start) + 1e-9)
    if max_iter == 1000:
        no_better_swap(H, m, med, lab, mode, tol)
    res2 = km.run_kmedoids(X, k, dm, initial_medoids=initial, random_seed=seed, mode=mode, max_iter=max_iter, tol=tol,
                           verbose=False)
    H.check('the same again', [int(i) for i in res2.medoids] == med and [int(c) for c in res2.labels] == lab)
    other = euclid(H)
    if dm.distance_matrix is None:
        other.distance_matrix = m.copy()
    res3 = km.run_kmedoids(X, k, other, initial_medoids=initial, random_seed=seed, mode=mode, max_iter=max_iter, tol=tol,
                           verbose=False)
    H.check('measured or from the matrix', [int(i) for i in res3.medoids] == med and [int(c) for c in res3.labels] == lab)
    meta = km.kmedoids_default_metadata(k, dm, initial_medoids=initial, random_seed=seed, mode=mode, max_iter=max_iter,
                                        tol=tol, verbose=False)
    res4 = km.run_kmedoids_from_metadata(X, meta)
    H.check('from a description', [int(i) for i in res4.medoids] == med and [int(c) for c in res4.labels] == lab)


def h_start(H):
    """the initial medoids are k distinct items with their series: the ones given, or drawn ones"""
    km = H.load('spta.kmedoids.kmedoids')
    n, tl, k = H.size('n', 1, 8), H.size('tl', 1, 3), H.size('k', 1, 5)
    H.assume(k <= n)
    X = H.array('X', (n, tl))
    seed = H.int('seed', 0, None, 50)
    if H.bool('initial medoids'):
        items = H.array('initial', (n,), 'i', 0, n - 1, distinct=True)
        initial = [items[c] for c in range(k)]
        m = km.choose_initial_medoids(X, k, seed, initial)
        H.check('as many as given', H.eq(H.len(m), k))
        H.each('the given ones', m, lambda c, q: H.eq(q.index, items[c]))
    else:
        m = km.choose_initial_medoids(X, k, seed)
        H.check('k of them', H.eq(H.len(m), k))
    H.each('items', m, lambda c, q: H.and_(q.index >= 0, q.index < n))
    H.forall('distinct', [k, k], lambda c, d: H.imp(c < d, H.not_(H.eq(m[c].index, m[d].index))))
    H.forall('with their series', [k, tl], lambda c, t: H.eq(m[c].series[t], X[m[c].index, t]))


def h_region_alg(H):
    """the region algorithm runs on the series of the points with its own parameters, and reports the medoids as points
    and the labels of the run"""
    km, ck = H.load('spta.kmedoids.kmedoids'), H.load('spta.clustering.kmedoids')
    if not H.symbolic:
        return
    H.use_iteration_contracts()
    xl, yl = cm.grid(H, 3)
    tl = H.size('tl', 1, 3)
    r, d = cm.spt(H, tl, xl, yl)
    n = xl * yl
    k = H.int('k', 1)
    H.assume(k <= n)
    medoids = H.array('medoids', (k,), 'i', 0, n - 1)
    # what a run gives: labels 0..k-1, the medoid of a cluster in it (h_search, h_get_cost; items at no distance aside)
    labels = H.array('labels', (n,), 'i', 0, k - 1)
    seed, mode, max_iter = H.int('seed', 0), H.choice('mode', ['lite', 'robust']), H.int('max_iter', 0)
    tol = H.real('tol', 0)
    initial = H.choice('initial', [None, [0, 1]])
    dm = H.load('spta.distance.dtw').DistanceByDTW()
    ran = []

    def run(X, k_, distance_measure, initial_medoids=None, random_seed=1, mode='lite', max_iter=1000, tol=0.001,
            verbose=True):
        """stands for run_kmedoids"""
        ran.append((X, k_, distance_measure, initial_medoids, random_seed, mode, max_iter, tol))
        return km.KmedoidsResult(k_, random_seed, mode, [medoids[c] for c in range(k)], labels, None, 0.0, None)
    ck.run_kmedoids = run
    md = ck.KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode, initial_medoids=initial, max_iter=max_iter, tol=tol,
                                       verbose=False)
    with_medoids = H.bool('with_medoids')
    p = ck.KmedoidsClusteringAlgorithm(md, dm).partition(r, with_medoids=with_medoids)
    H.check('one run', len(ran) == 1)
    X, k_, dm_, initial_, seed_, mode_, max_iter_, tol_ = ran[0]
    H.check('a row per point', H.eq(H.shape(X), (n, tl)))
    H.forall('series of the points', [xl, yl, tl], lambda x, y, t: H.eq(X[x * yl + y, t], d[t, x, y]))
    H.check('its own parameters', H.and_(H.eq(k_, k), dm_ is dm, initial_ is initial, H.eq(seed_, seed), mode_ == mode,
                                         H.eq(max_iter_, max_iter), H.eq(tol_, tol)))
    H.check('grid', H.eq(H.shape(p.as_numpy), (xl, yl)))
    H.forall('labels of the points', [xl, yl], lambda x, y: H.eq(p.as_numpy[x, y], labels[x * yl + y]))
    if with_medoids:
        H.check('a medoid per cluster', H.eq(H.len(p.medoids), k))
        H.each('medoids as points', p.medoids, lambda c, q: H.and_(
            q.x >= 0, q.x < xl, q.y >= 0, q.y < yl, H.eq(q.x * yl + q.y, medoids[c])))


def h_region(H):
    """the region algorithm gives the medoids as points and the labels of the run on its series"""
    H.concrete_only('randomised search')
    km, ck = H.load('spta.kmedoids.kmedoids'), H.load('spta.clustering.kmedoids')
    xl, yl = cm.grid(H, 3)
    tl = H.int('tl', 1, 3)
    r, d = cm.spt(H, tl, xl, yl)
    n = xl * yl
    X = d.reshape(tl, n).T.copy()
    m = table(X)
    H.assume(all(m[i, j] > 0 for i in range(n) for j in range(i)))
    k = H.int('k', 1, min(n, 4))
    seed, mode = H.int('seed', 0, 50), H.choice('mode', ['lite', 'robust'])
    tol = H.choice('tol', [0.001, 0.5, 2.0])
    max_iter = H.choice('max_iter', [1000, 0])
    initial = H.array('initial', (n,), 'i', 0, n - 1, distinct=True).tolist()[:k] if H.bool('initial medoids') else None
    dm = euclid(H)
    if H.bool('matrix'):
        dm.distance_matrix = m.copy()
    with_medoids = H.bool('with_medoids')
    md = ck.KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode, initial_medoids=initial, max_iter=max_iter, tol=tol,
                                       verbose=False)
    p = ck.KmedoidsClusteringAlgorithm(md, dm).partition(r, with_medoids=with_medoids)
    res = km.run_kmedoids(X, k, dm, initial_medoids=initial, random_seed=seed, mode=mode, max_iter=max_iter, tol=tol,
                          verbose=False)
    med, lab = consistent(H, res, m, n, k)
    H.check('grid', tuple(p.shape) == (xl, yl))
    H.check('k clusters', p.k == k)
    H.check('labels', [int(p.as_numpy[i // yl, i % yl]) for i in range(n)] == lab)
    if with_medoids:
        H.check('medoids as points', [(int(q.x), int(q.y)) for q in p.medoids] == [(i // yl, i % yl) for i in med])
        H.check('medoids are in their clusters', all(p.is_member(q, c) for c, q in enumerate(p.medoids)))


def h_dtw(H):
    """with the real measure"""
    H.concrete_only('tslearn')
    km = H.load('spta.kmedoids.kmedoids')
    n, tl = H.int('n', 1, 6), H.int('tl', 1, 3)
    k = H.int('k', 1, min(n, 3))
    X = H.array('X', (n, tl))
    dm = H.load('spta.distance.dtw').DistanceByDTW()
    m = H.load('spta.distance.dtw').DistanceByDTW().compute_distance_matrix(X)
    seed, mode = H.int('seed', 0, 50), H.choice('mode', ['lite', 'robust'])
    res = km.run_kmedoids(X, k, dm, random_seed=seed, mode=mode)
    consistent(H, res, m, n, k)
    dm2 = H.load('spta.distance.dtw').DistanceByDTW()
    dm2.distance_matrix = m
    res2 = km.run_kmedoids(X, k, dm2, random_seed=seed, mode=mode)
    H.check('measured or from the matrix', list(res2.medoids) == list(res.medoids) and
            list(res2.labels) == list(res.labels))



SPEC = [
    (h_get_cost, {'sym': True, 'runs': 200}),
    (h_search, {'sym': True, 'runs': 3000, 'conc_s': 30}),
    (h_run, {'runs': 400, 'why': 'randomised search'}),
    (h_start, {'sym': True, 'runs': 200}),
    (h_region_alg, {'sym': True, 'concrete': False}),
    (h_region, {'runs': 200, 'why': 'randomised search'}),
    (h_dtw, {'runs': 60, 'why': 'tslearn DTW'}),
    (h_asked_kmedoids, {'runs': 150, 'why': 'the same object asked many times'}),
]
