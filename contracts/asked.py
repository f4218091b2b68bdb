"""Objects that are asked more than once: every answer is that of a fresh object (concrete runs only). An object that
remembers too much answers the second question with the first answer; proofs about a single call cannot see that."""
import os
import numpy as np
from . import common as cm

WHY = 'the same object asked many times'
KINDS = ['spatial', 'spatio-temporal', 'scaled', 'spatial cluster', 'spatio-temporal cluster', 'scaled cluster']


class Setting(object):
    """a grid with data, scaled data, a partition and rectangles drawn from it"""

    def __init__(self, H, most=4, tl=None, nan=False):
        self.H = H
        self.P, self.R, self.T = (getattr(H.load('spta.region'), n) for n in ('Point', 'Region', 'TimeInterval'))
        self.t, self.s = H.load('spta.region.temporal'), H.load('spta.region.spatial')
        self.sc, self.pt = H.load('spta.region.scaling'), H.load('spta.region.partition')
        self.xl, self.yl = cm.grid(H, most)
        self.tl = H.size('tl', 1, 4) if tl is None else tl
        self.v = H.array('values', (self.xl, self.yl), nan=nan)
        self.w = H.array('other values', (self.xl, self.yl), nan=nan)
        self.d = H.array('data', (self.tl, self.xl, self.yl))
        self.e = H.array('other data', (self.tl, self.xl, self.yl))
        self.mn = H.array('minima', (self.xl, self.yl))
        self.mx = H.array('maxima', (self.xl, self.yl))
        self.lab = cm.labels(H, 'labels', self.xl, self.yl)
        self.k = int(self.lab.max()) + 1

    def point(self, g):
        return self.P(int(g.randint(self.xl)), int(g.randint(self.yl)))

    def points(self, g, n):
        xs, ys = g.randint(0, self.xl, size=n), g.randint(0, self.yl, size=n)
        return [self.P(int(xs[i]), int(ys[i])) for i in range(n)]

    def rect(self, g):
        x1, y1 = int(g.randint(self.xl)), int(g.randint(self.yl))
        return self.R(x1, int(g.randint(x1, self.xl)) + 1, y1, int(g.randint(y1, self.yl)) + 1)

    def interval(self, g):
        t1 = int(g.randint(self.tl))
        return self.T(t1, int(g.randint(t1, self.tl)) + 1)

    def partition(self):
        return self.pt.PartitionRegionCrisp.from_membership_array(self.lab.copy().reshape(-1), self.xl, self.yl)

    def region(self, kind, other=False, c=None):
        v, d = (self.w, self.e) if other else (self.v, self.d)
        if kind.startswith('spatial'):
            r = self.s.SpatialRegion(v.copy())
        else:
            r = self.t.SpatioTemporalRegion(d.copy())
            if 'scaled' in kind:
                r = self.sc.SpatioTemporalScaled(r, self.s.SpatialRegion(self.mn.copy()), self.s.SpatialRegion(self.mx.copy()))
        if 'cluster' in kind:
            p = self.partition()
            c = 0 if c is None else c
            r = p.create_spatial_cluster(r, c) if kind.startswith('spatial') else p.create_spt_cluster(r, c)
        return r


def draw_kind(H, s, kinds=KINDS):
    kind = H.choice('kind', kinds)
    c = H.index('cluster', s.k) if 'cluster' in kind else None
    return kind, c


def h_asked_iteration(H):
    """iterated many times, with other questions in between"""
    cm.many_times(H, WHY)
    s = Setting(H)
    kind = H.choice('kind', KINDS + ['partition', 'mask', 'error region'])
    c = H.index('cluster', s.k) if 'cluster' in kind else None
    u = H.array('u', (2, s.xl, s.yl), lo=0, hi=1)

    def make():
        if kind == 'partition':
            return s.partition()
        if kind == 'mask':
            return H.load('spta.region.mask').MaskRegionFuzzy(u.copy(), 1, 0.25)
        if kind == 'error region':
            return H.load('spta.model.error').ErrorRegion(s.region('spatial'))
        return s.region(kind, c=c)

    def items(r):
        return [[tuple(i)] if len(i) == 2 and isinstance(i, s.P) else [tuple(i[0]), i[1]] for i in r]
    q = [('all items', lambda r, g: items(r)), ('all items twice', lambda r, g: [items(r), items(r)])]
    if 'cluster' in kind or kind == 'mask':
        q.append(('size', lambda r, g: r.cluster_len))
    if kind not in ('partition', 'mask', 'error region') and not kind.startswith('spatial'):
        q.append(('indices', lambda r, g: r.all_point_indices))
    if kind.startswith('spatial'):
        q += [('smallest', lambda r, g: r.find_minimum()), ('value', lambda r, g: r.value_at(s.point(g)))]
    if kind == 'mask':
        q.append(('member', lambda r, g: r.is_member(s.point(g))))
    cm.asked_again(H, make, q)


def h_asked_partition(H):
    """a partition asked for members, sizes, clusters and intersections"""
    cm.many_times(H, WHY)
    s = Setting(H)

    def make():
        p = s.partition()
        p.medoids = [s.P(i, 7 * i) for i in range(s.k)]
        return p

    def points(g):
        return s.points(g, int(g.randint(1, 4)))

    def medoids(p, g):
        ys = g.randint(0, 99, size=s.k)
        p.medoids = [s.P(i, int(ys[i])) for i in range(s.k)]

    def any_kind(g, names):
        return cm.pick(g, names)

    def cluster(p, g):
        kind = any_kind(g, ['spatial', 'spatio-temporal', 'scaled'])
        r = s.region(kind, cm.other(g))
        c = int(g.randint(s.k))
        return (p.create_spatial_cluster if kind == 'spatial' else p.create_spt_cluster)(r, c)

    def read(p, g):
        c = cluster(p, g)
        q = s.point(g)
        return c.value_at(q) if len(c.shape) == 2 else c.series_at(q)

    def same(cl):
        return [cl, cl.cluster_len, cl.cluster_index]

    def indices(p, g):
        kind = any_kind(g, ['spatio-temporal', 'scaled'])
        return p.create_spt_cluster(s.region(kind), int(g.randint(s.k))).all_point_indices
    cm.asked_again(H, make, [
        ('member', lambda p, g: p.is_member(s.point(g), int(g.randint(s.k)))),
        ('membership of points', lambda p, g: p.membership_of_points(points(g))),
        ('membership of indices', lambda p, g: p.membership_of_point_indices([int(i) for i in g.randint(s.xl * s.yl, size=3)])),
        ('size', lambda p, g: p.cluster_len(int(g.randint(s.k)))),
        ('a cluster', lambda p, g: same(cluster(p, g))),
        ('read a cluster', read),
        ('indices of a cluster', indices),
        ('all clusters', lambda p, g: [same(c) for c in p.create_all_spatial_clusters(s.region('spatial', cm.other(g)))]),
        ('all clusters of series', lambda p, g: [same(c) + [c.get_centroid()] for c in p.create_all_spt_clusters(
            s.region('spatio-temporal', cm.other(g)), medoids=s.points(g, s.k))]),
        ('intersecting', lambda p, g: [i for i in p.find_indices_of_clusters_intersecting_with(s.rect(g))]),
        ('intersecting medoids', lambda p, g: [i for i in p.find_medoids_of_clusters_intersecting_with(s.rect(g))]),
        ('a copy', lambda p, g: p.clone()),
    ], changes=[('medoids', medoids)])


def h_asked_function(H):
    """one function region applied to many regions; what it gave stays as it was"""
    cm.many_times(H, WHY)
    s = Setting(H)
    fn = H.load('spta.region.function')
    f = H.fn('function', 'iif')
    which = H.choice('which', ['scalar', 'series', 'scalar same', 'series same'])
    add = lambda x: float(np.sum(x))      # noqa: E731

    def make():
        if which == 'scalar same':
            return fn.FunctionRegionScalarSame(lambda x: f(0, 0, add(x)), s.xl, s.yl)
        if which == 'series same':
            return fn.FunctionRegionSeriesSame(lambda x: np.array([f(0, 1, add(x)), f(0, 2, add(x))]), s.xl, s.yl)
        base = fn.FunctionRegionScalar if which == 'scalar' else fn.FunctionRegionSeries

        class Own(base):
            def function_at(self, p):
                if which == 'scalar':
                    return lambda x: f(p.x, p.y, add(x))
                return lambda x: np.array([f(p.x, p.y, add(x)), f(p.y, p.x, add(x))])
        return Own(np.zeros((s.xl, s.yl)))

    def apply(o, g):
        kind = cm.pick(g, KINDS)
        r = s.region(kind, cm.other(g), int(g.randint(s.k)))
        return o.apply_to(r) if 'scalar' in which else o.apply_to(r, 2)
    cm.asked_again(H, make, [('applied to a region', apply)], most=5)


def h_asked_region_functions(H):
    """one region with many functions applied; it stays as it was"""
    cm.many_times(H, WHY)
    s = Setting(H)
    fn = H.load('spta.region.function')
    kind, c = draw_kind(H, s)
    add = lambda x: float(np.sum(x))      # noqa: E731

    def scalar(r, g):
        k = int(g.randint(5))
        return r.apply_function_scalar(fn.FunctionRegionScalarSame(lambda x: add(x) + k, s.xl, s.yl))

    def series(r, g):
        n, k = int(g.randint(1, 4)), int(g.randint(5))
        return r.apply_function_series(fn.FunctionRegionSeriesSame(lambda x: np.arange(n) * k + add(x), s.xl, s.yl), n)
    cm.asked_again(H, lambda: s.region(kind, c=c), [('scalar', scalar), ('series', series), ('itself', lambda r, g: r.as_numpy)],
                   most=5)


def h_asked_merge(H):
    """a partition that merges many lists of clusters"""
    cm.many_times(H, WHY)
    s = Setting(H)

    def clusters(p, g):
        v = g.randint(-9, 9, size=(s.k, s.xl, s.yl)).astype(float)
        cls = [p.create_spatial_cluster(s.s.SpatialRegion(v[c]), c) for c in range(s.k)]
        order = g.permutation(s.k)
        return [cls[order[i]] for i in range(s.k)]

    def own(g, c):
        mine = [s.P(x, y) for x in range(s.xl) for y in range(s.yl) if s.lab[x, y] == c]
        return mine[int(g.randint(len(mine)))] if mine else s.P(0, 0)
    cm.asked_again(H, s.partition, [
        ('merged', lambda p, g: p.merge_clusters_2d(clusters(p, g))),
        ('merged, one missing', lambda p, g: p.merge_clusters_2d(clusters(p, g)[1:])),
        ('with representatives', lambda p, g: p.merge_with_representatives_2d(
            p.create_all_spatial_clusters(s.region('spatial', cm.other(g))), [own(g, c) for c in range(s.k)])),
        ('with any representatives', lambda p, g: p.merge_with_representatives_2d(
            p.create_all_spatial_clusters(s.region('spatial')), s.points(g, s.k))),
    ], most=5)


def h_asked_subset(H):
    """many subsets and splits of one region"""
    cm.many_times(H, WHY)
    s = Setting(H)
    tr = H.load('spta.model.train')
    kind, c = draw_kind(H, s, ['spatial', 'spatio-temporal', 'scaled', 'spatio-temporal cluster', 'scaled cluster'])
    q = [('itself', lambda r, g: r.as_numpy)]
    if 'cluster' not in kind:
        q.append(('rectangle', lambda r, g: r.region_subset(s.rect(g))))
    if kind != 'spatial':
        q.append(('interval', lambda r, g: r.interval_subset(s.interval(g))))
        q.append(('split', lambda r, g: tr.SplitTrainingAndTestLast(int(g.randint(1, s.tl + 1))).split(r)))
        if 'cluster' not in kind:
            q.append(('both', lambda r, g: r.subset(s.rect(g), s.interval(g))))
            q.append(('rectangle of a rectangle', lambda r, g: r.region_subset(s.rect(g)).interval_subset(s.interval(g))))
    cm.asked_again(H, lambda: s.region(kind, c=c), q, most=6)


def h_asked_split(H):
    """one splitter for many regions"""
    cm.many_times(H, WHY)
    s = Setting(H)
    tr = H.load('spta.model.train')
    n = H.int('test length', 1, s.tl)
    cm.asked_again(H, lambda: tr.SplitTrainingAndTestLast(n), [('split', lambda o, g: o.split(s.region(
        cm.pick(g, [KINDS[i] for i in (1, 2, 4, 5)]), cm.other(g), int(g.randint(s.k)))))], most=5)


def h_asked_scale(H):
    """one scaling for many regions: each is scaled, and can be descaled, as if it were the only one"""
    cm.many_times(H, WHY)
    s = Setting(H)

    def scaled(o, g):
        r = s.t.SpatioTemporalRegion(g.randint(-9, 9, size=(s.tl, s.xl, s.yl)).astype(float))
        if g.randint(3) == 0:
            r.numpy_dataset[:, 0, 0] = np.nan
        out = o.apply_to(r, s.tl)
        return out
    cm.asked_again(H, lambda: s.sc.ScaleFunction(s.xl, s.yl), [('scaled', scaled)], most=5)


def h_asked_descale(H):
    """a scaled region asked for its original, parts and clusters of it, in any order"""
    cm.many_times(H, WHY)
    s = Setting(H)
    cm.asked_again(H, lambda: s.region('scaled'), [
        ('descaled', lambda r, g: r.descale()),
        ('rectangle', lambda r, g: r.region_subset(s.rect(g))),
        ('subset', lambda r, g: r.subset(s.rect(g), s.interval(g))),
        ('interval', lambda r, g: r.interval_subset(s.interval(g))),
        ('cluster', lambda r, g: s.partition().create_spt_cluster(r, int(g.randint(s.k))).descale()),
        ('other data', lambda r, g: r.new_spatio_temporal_region(s.e[:int(g.randint(1, s.tl + 1))].copy())),
        ('itself', lambda r, g: r),
    ], most=6)


def h_asked_metadata(H):
    """absolute coordinates asked of one region's metadata, again and again"""
    cm.many_times(H, WHY)
    xl, yl = cm.grid(H, 6)
    x1, y1 = H.int('x1', 0, None, 40), H.int('y1', 0, None, 40)
    rg = H.load('spta.region')
    pt = lambda g: rg.Point(int(g.randint(xl)), int(g.randint(yl)))      # noqa: E731

    def rect(g):
        p, q = pt(g), pt(g)
        return rg.Region(min(p.x, q.x), max(p.x, q.x) + 1, min(p.y, q.y), max(p.y, q.y) + 1)
    other = cm.metadata(H, yl, xl, x1=y1, y1=x1 + 3)
    cm.asked_again(H, lambda: cm.metadata(H, xl, yl, x1=x1, y1=y1), [
        ('index', lambda m, g: tuple(m.index_to_absolute_point(int(g.randint(xl * yl))))),
        ('point', lambda m, g: tuple(m.absolute_position_of_point(pt(g)))),
        ('rectangle', lambda m, g: tuple(m.absolute_coordinates_of_region(rect(g)))),
        ('another region', lambda m, g: tuple(other.index_to_absolute_point(int(g.randint(xl * yl))))),
    ])


def h_asked_distances(H):
    """distances asked of one measure: always those of the last matrix"""
    cm.many_times(H, WHY)
    ds = H.load('spta.distance.dtw')
    s = Setting(H, most=3)
    n = s.xl * s.yl

    class Euclid(ds.DistanceByDTW):
        def measure(self, a, b):
            return float(np.sqrt(np.sum((np.asarray(a) - np.asarray(b)) ** 2)))

    def region(g):
        return s.region(cm.pick(g, ['spatio-temporal', 'scaled']), cm.other(g))

    def indices(g):
        return [int(i) for i in g.permutation(n)[:int(g.randint(1, n + 1))]]
    made = H.choice('measured', ['first', 'when asked'])
    D = H.array('distances', (n, n), lo=0) if H.symbolic else None

    def make():
        m = Euclid()
        if made == 'first' and H.symbolic:
            m.distance_matrix = D       # any matrix: whatever was measured before
        elif made == 'first':
            m.compute_distance_matrix(s.region('spatio-temporal'))
        return m

    def measured(m, g):
        r = region(g)
        m.compute_distance_matrix(r if g.randint(2) else r.as_2d)
    q = [('to a series', lambda m, g: m.compute_distances_to_a_series(s.d[:, 0, 0], [s.e[:, 0, 0], s.d[:, -1, -1]]))]
    if made == 'first':
        q.append(('to a point', lambda m, g: m.distances_to_point(region(g), s.point(g), indices(g))))
        q.append(('to a point from the matrix', lambda m, g: m.distances_to_point_with_matrix(region(g), s.point(g), indices(g))))
    else:
        q.append(('a matrix', lambda m, g: Euclid.compute_distance_matrix_sptr(m, region(g))))
        q.append(('a matrix of series', lambda m, g: m.compute_distance_matrix_series_array(region(g).as_2d)))
    cm.asked_again(H, make, q, changes=() if H.symbolic else [('measured', measured)])


def h_asked_centroid(H):
    """one calculation for many regions and clusters"""
    cm.many_times(H, WHY)
    ds, ce = H.load('spta.distance.dtw'), H.load('spta.region.centroid')
    s = Setting(H, most=3)
    n = s.xl * s.yl
    D = H.array('distances', (n, n), lo=0)

    def make():
        m = ds.DistanceByDTW()
        m.distance_matrix = D.copy()
        return ce.CalculateCentroid(m)

    def ask(o, g):
        r = s.region(cm.pick(g, ['spatio-temporal', 'scaled', 'spatio-temporal cluster']), cm.other(g),
                     int(g.randint(s.k)))
        if r.__class__.__name__.endswith('Cluster') and r.cluster_len == 0:
            return None
        c, d = o.find_centroid_and_distances(r)
        return [c, d]

    def change(o, g):
        o.distance_measure.distance_matrix = g.randint(0, 5, size=(n, n)).astype(float)
    cm.asked_again(H, make, [('centroid', ask)], changes=[('other distances', change)])


def h_asked_cost(H):
    """the cost of many partitions with one measure"""
    cm.many_times(H, WHY)
    ds = H.load('spta.distance.dtw')
    s = Setting(H, most=3)
    n = s.xl * s.yl
    D = H.array('distances', (n, n), lo=0)

    def make():
        m = ds.DistanceByDTW()
        m.distance_matrix = D.copy()
        return m

    def ask(m, g):
        lab = g.randint(0, 3, size=(s.xl, s.yl))
        lab[int(g.randint(s.xl)), int(g.randint(s.yl))] = 2
        p = s.pt.PartitionRegionCrisp.from_membership_array(lab.reshape(-1), s.xl, s.yl)
        p.medoids = s.points(g, p.k)
        return s.pt.intra_cluster_cost(p, s.region('spatio-temporal'), m)
    cm.asked_again(H, make, [('cost', ask)], most=5)


def h_asked_kmedoids(H):
    """one clustering algorithm for many regions"""
    cm.many_times(H, WHY)
    ds, ck = H.load('spta.distance.dtw'), H.load('spta.clustering.kmedoids')
    s = Setting(H, most=3)
    H.assume(s.xl * s.yl >= 2)

    class Euclid(ds.DistanceByDTW):
        def measure(self, a, b):
            return float(np.sqrt(np.sum((np.asarray(a) - np.asarray(b)) ** 2)))
    k, seed, mode = H.int('k', 1, min(3, s.xl * s.yl)), H.int('seed', 0, 9), H.choice('mode', ['lite', 'robust'])

    def ask(a, g):
        # the distances in use are those of the region, given or measured anew
        d = g.randint(-99, 99, size=(s.tl, s.xl, s.yl)) + g.rand(s.tl, s.xl, s.yl)
        r = s.t.SpatioTemporalRegion(d)
        a.distance_measure.distance_matrix = None
        if g.randint(2):
            a.distance_measure.compute_distance_matrix(r)
        p = a.partition(r)
        return [p.as_numpy, p.k, [tuple(int(i) for i in q) for q in p.medoids]]
    cm.asked_again(H, lambda: ck.KmedoidsClusteringAlgorithm(
        ck.KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode, verbose=False), Euclid()), [('partition', ask)], most=4)


def h_asked_mask(H):
    """a mask asked many times, with the threshold in use"""
    cm.many_times(H, WHY)
    s = Setting(H)
    k = H.size('k of the mask', 1, 4)
    u = H.array('u', (k, s.xl, s.yl), lo=0, hi=1)
    c, t = H.index('cluster', k), H.real('threshold', 0, 1)
    M = H.load('spta.region.mask').MaskRegionFuzzy
    cm.asked_again(H, lambda: M(u.copy(), c, t), [
        ('size', lambda m, g: m.cluster_len),
        ('members', lambda m, g: [tuple(p) for p in m]),
        ('member', lambda m, g: m.is_member(s.point(g))),
        ('a copy', lambda m, g: [[tuple(p) for p in m.clone()], m.clone().cluster_len]),
    ], changes=[('threshold', lambda m, g: setattr(m, 'threshold', g.randint(5) / 4.0))])


def h_asked_suite(H):
    """a suite and its elbows asked many times; results stored in several places"""
    cm.many_times(H, WHY)
    from . import C15
    su, ds = H.load('spta.clustering.suite'), H.load('spta.distance.dtw')
    ks, seeds = [2, 3, 5, 6], [1, 4]
    suite0 = lambda: su.ClusteringSuite('quick', 'kmedoids', k=ks, random_seed=seeds)      # noqa: E731
    places = [('h1', cm.metadata(H, 4, 5, name='some'), ds.DistanceByDTW()),
              ('h1', cm.metadata(H, 4, 5, name='other'), ds.DistanceByDTW()),
              ('h2', cm.metadata(H, 4, 5, name='some'), ds.DistanceByDTW()),
              ('h2', cm.metadata(H, 4, 5, name='some', scaled=True), ds.DistanceBySpatialDTW(2.0))]
    for j, (home, md, dm) in enumerate(places):
        rows = []
        for i, m in enumerate(suite0()):
            if H.symbolic:
                continue        # the proofs do not ask for stored tables
            at = H.array('medoids %d %d' % (j, i), (m.k, 2), 'i', 0, 99)
            rows.append((repr(m), '1.000', [(int(a), int(b)) for a, b in at]))
        C15.write_suite(suite0().analysis_csv_filepath(home, md, dm), rows)

    def elbows(o, g):
        find = su.FindSuiteElbow(o, None, None)
        costs = {m: float(g.randint(99)) for m in o}
        return sorted((s, repr(m)) for s, m in find.find_cost_elbow_for_each_kmedoids_seed(costs).items())
    cm.asked_again(H, suite0, [
        ('descriptions', lambda o, g: [repr(m) for m in o]),
        ('stored medoids', lambda o, g: sorted((r, [tuple(p) for p in m]) for r, m in o.retrieve_suite_result_csv(
            *cm.pick(g, places)).items())),
        ('grouped', lambda o, g: sorted((s, [repr(m) for m in ms]) for s, ms in
                                        su.OrganizeClusteringSuite().organize_kmedoids_suite(o).items())),
        ('elbows', elbows),
        ('files', lambda o, g: o.analysis_csv_filepath(*cm.pick(g, places))),
    ])


def h_asked_elbow(H):
    """one search for elbows, asked with many costs"""
    cm.many_times(H, WHY)
    su = H.load('spta.clustering.suite')
    suite = su.ClusteringSuite('quick', 'kmedoids', k=[2, 3, 5, 6], random_seed=[1, 4])

    def elbows(o, g):
        costs = {m: float(g.randint(99)) for m in suite}
        return sorted((s, repr(m)) for s, m in o.find_cost_elbow_for_each_kmedoids_seed(costs).items())
    cm.asked_again(H, lambda: su.FindSuiteElbow(suite, None, None), [('elbows', elbows)])


def h_asked_storage(H):
    """one clustering algorithm, several regions and places: what is stored for that region in that place, nothing else"""
    cm.many_times(H, WHY)
    ck, rg = H.load('spta.clustering.kmedoids'), H.load('spta.clustering.regular')
    pt, ds = H.load('spta.region.partition'), H.load('spta.distance.dtw')
    xl, yl = 3, 4
    which = H.choice('algorithm', ['kmedoids', 'regular'])

    def make():
        m = ck.KmedoidsClusteringMetadata(2, verbose=False) if which == 'kmedoids' else rg.RegularClusteringMetadata(2)
        cls = ck.KmedoidsClusteringAlgorithm if which == 'kmedoids' else rg.RegularClusteringAlgorithm
        return cls(m, ds.DistanceByDTW())
    mds = [cm.metadata(H, xl, yl), cm.metadata(H, xl, yl, y1_=2016), cm.metadata(H, xl, yl, scaled=True)]
    homes = ['pk', 'a/b', 'pickle']
    data = H.array('data', (2, xl, yl))
    t = H.load('spta.region.temporal')
    stored, a = {}, make()
    P = H.load('spta.region').Point
    for i in range(H.int('asked', 2, None, 7)):
        h, j = H.index('home %d' % i, 3), H.index('region %d' % i, 3)
        what = H.choice('what %d' % i, ['load', 'try', 'partition', 'mark', 'mark'])
        path = a.pickle_full_path(mds[j], homes[h])
        H.check('its own file', path == make().pickle_full_path(mds[j], homes[h]))
        if what == 'mark':
            lab = H.array('mark %d' % i, (xl, yl), 'i', 0, 1)
            p = pt.PartitionRegionCrisp(lab, 2)
            p.medoids = [P(0, i), P(1, i)]
            a.save_partition(p, mds[j], homes[h])
            stored[h, j] = (lab.tolist(), [tuple(q) for q in p.medoids])
        elif what == 'try':
            p = a.try_load_previous_partition(mds[j], homes[h])
            got = None if p is None else (p.as_numpy.tolist(), [tuple(q) for q in p.medoids])
            H.check('what is stored there', got == stored.get((h, j)), '%s: %s' % ((h, j), got))
        elif what == 'load':
            try:
                p = a.load_previous_partition(mds[j], homes[h])
                got = (p.as_numpy.tolist(), [tuple(q) for q in p.medoids])
            except Exception:
                got = None
            H.check('what is stored there', got == stored.get((h, j)), '%s: %s' % ((h, j), got))
        else:
            r = t.SpatioTemporalRegion(data.copy(), mds[j])
            a.distance_measure.compute_distance_matrix(r)
            p = a.partition(r, pickle_home=homes[h])
            got = (p.as_numpy.tolist(), [tuple(int(c) for c in q) for q in p.medoids])
            if (h, j) not in stored:
                f = make()
                f.distance_measure.compute_distance_matrix(r)
                p = f.partition(r)
                stored[h, j] = (p.as_numpy.tolist(), [tuple(int(c) for c in q) for q in p.medoids])
            H.check('what is stored there, or the partition of the region', got == stored[h, j], '%s: %s' % ((h, j), got))


def h_asked_trainer(H):
    """one trainer for many regions"""
    asked_training(H, True)


def h_asked_models(H):
    """the models of one region, for forecasts of many lengths and regions"""
    asked_training(H, False)


def asked_training(H, one_trainer):
    cm.many_times(H, WHY)
    mm, kn, tr = H.load('spta.model.mean'), H.load('spta.model.knn'), H.load('spta.model.train')
    ds = H.load('spta.distance.dtw')
    s = Setting(H, most=3, tl=H.int('tl', 4, 7))
    which = H.choice('models', ['mean of past'] + ([] if H.symbolic else ['nearest neighbours', 'at some points']))
    past = H.int('past', 1, 4)

    class Euclid(ds.DistanceByDTW):
        def measure(self, a, b):
            return float(np.sqrt(np.sum((np.asarray(a) - np.asarray(b)) ** 2)))

    def trainer():
        if which == 'nearest neighbours':
            return kn.TrainerKNN(kn.KNNParams(1, Euclid()), s.xl, s.yl)
        t = mm.TrainerMeanOfPast(mm.MeanOfPastParams(past), s.xl, s.yl)
        return t if which == 'mean of past' else tr.TrainAtRepresentatives(t, [s.P(0, 0), s.P(s.xl - 1, s.yl - 1)])

    def region(g):
        d = g.randint(-9, 9, size=(s.tl, s.xl, s.yl)).astype(float)
        return s.t.SpatioTemporalRegion(d)

    def trained(t, g):
        r = region(g)
        return t.apply_to(r).apply_to(r.empty_region_2d(), 1 + int(g.randint(2)))

    def forecast(m, g):
        n = 1 + int(g.randint(3))
        r = s.region(cm.pick(g, ['spatial', 'spatio-temporal', 'scaled', 'spatio-temporal cluster']), cm.other(g),
                     int(g.randint(s.k)))
        return m.apply_to(r, n).as_numpy

    def one(m, g):
        m.forecast_len = 1 + int(g.randint(3))
        return m.function_at(s.point(g))(None)
    if one_trainer:
        cm.asked_again(H, trainer, [('trained', trained)], most=5)
    else:
        d = s.t.SpatioTemporalRegion(s.d)
        cm.asked_again(H, lambda: trainer().apply_to(d), [('forecast', forecast), ('of one point', one)], most=6)


def h_asked_neighbours(H):
    """one model of nearest neighbours, forecasts of many lengths, points and regions"""
    cm.many_times(H, WHY)
    kn, ds = H.load('spta.model.knn'), H.load('spta.distance.dtw')
    s = Setting(H, most=3, tl=H.int('tl', 5, 8))

    class Euclid(ds.DistanceByDTW):
        def measure(self, a, b):
            return float(np.sqrt(np.sum((np.asarray(a) - np.asarray(b)) ** 2)))
    k = H.int('k', 1, 2)

    def make():
        return kn.TrainerKNN(kn.KNNParams(k, Euclid()), s.xl, s.yl).apply_to(s.t.SpatioTemporalRegion(s.d))
    cm.asked_again(H, make, [('forecast', lambda m, g: m.apply_to(s.region(
        cm.pick(g, ['spatial', 'spatio-temporal']), cm.other(g)), 1 + int(g.randint(3))).as_numpy)], most=5)


def h_asked_result(H):
    """a prediction result asked for coordinates, rows, lines and summaries, again and again"""
    cm.many_times(H, WHY)
    from . import C21
    replay = {} if H.symbolic else dict(H.inputs)
    first, c = C21.build(H)
    drawn = {} if H.symbolic else {k: v for k, v in H.inputs.items() if k not in replay}
    pool = [first]

    def make():
        if pool:
            return pool.pop()
        keep_inputs, keep_replay = H.inputs, H.replay
        H.inputs, H.replay = {}, drawn
        try:
            return C21.build(H)[0]
        finally:
            H.inputs, H.replay = keep_inputs, keep_replay
    P = c['P']

    def point(g):
        return P(int(g.randint(c['x2'] - c['x1'])), int(g.randint(c['y2'] - c['y1'])))

    def domain(g):
        p = point(g)
        return P(p.x + c['x1'], p.y + c['y1'])
    q = [('row', lambda r, g: r.result_tuple_for_point(point(g))),
         ('lines', lambda r, g: list(r.lines_for_point(point(g)))),
         ('points', lambda r, g: [tuple(p) for p in r]),
         ('forecast', lambda r, g: r.prediction_forecast_at(point(g))),
         ('error', lambda r, g: r.prediction_error_at(point(g))),
         ('domain', lambda r, g: tuple(r.to_domain_coordinates(point(g)))),
         ('relative', lambda r, g: tuple(r.to_relative_coordinates(domain(g)))),
         ('absolute', lambda r, g: tuple(r.absolute_coordinates_of(domain(g)))),
         ('error of all', lambda r, g: r.summary_generalization_mse()),
         ('header', lambda r, g: list(r.result_header()))]
    if c['kind'] == 'partition':
        q += [('cluster', lambda r, g: r.cluster_index_of(domain(g))),
              ('clusters', lambda r, g: r.summary_unique_clusters())]
    cm.asked_again(H, make, q)


def h_asked_choice(H):
    """one choice strategy, asked for many points and clusterings"""
    cm.many_times(H, WHY)
    from . import C22
    ti, ds = H.load('spta.classifier.train_input'), H.load('spta.distance.dtw')
    P = H.load('spta.region').Point
    md, r, d, xl, yl, X1, Y1 = C22.a_region(H)
    D = H.array('distances', (xl * yl, xl * yl), 'f', 0)

    def make():
        m = ds.DistanceByDTW()
        m.distance_matrix = D.copy()
        return ti.MedoidsChoiceMinDistance(md, m)

    def suite(g):
        out = {}
        for c in C22.REPRS[:cm.pick(g, [1, 2, 3])]:
            k = 1 + g.randint(3)
            xs, ys = g.randint(X1, X1 + xl, size=k), g.randint(Y1, Y1 + yl, size=k)
            out[c] = [P(int(xs[i]), int(ys[i])) for i in range(k)]
        return out

    def chosen(s, g):
        su = suite(g)
        if H.symbolic:
            counts = C22.Counts(H, {c: g.randint(0, 3, size=len(su[c])) for c in su})
            return s.choose_medoid(su, P(g.randint(xl), g.randint(yl)), 2, counts)
        counts = {}
        out = []
        for _ in range(3):
            out.append(s.choose_medoid(su, P(int(g.randint(xl)), int(g.randint(yl))), 2, counts))
        return [out, sorted((k, n) for k, n in counts.items())]

    def penalties(s, g):
        su = suite(g)
        c = cm.pick(g, sorted(su))
        return s.get_medoid_penalties(c, su[c], P(int(g.randint(xl)), int(g.randint(yl))))
    cm.asked_again(H, make, [('chosen', chosen), ('penalties', penalties)], most=5)


def h_asked_extremes(H):
    """one region asked for extremes and copies, again and again"""
    cm.many_times(H, WHY)
    s = Setting(H, nan=True)
    kind, c = draw_kind(H, s)

    def series(g):
        return g.randint(-9, 9, size=int(g.randint(1, 4))).astype(float)
    if kind.startswith('spatial'):
        q = [('smallest', lambda r, g: r.find_minimum()), ('largest', lambda r, g: r.find_maximum()),
             ('value repeated', lambda r, g: r.repeat_value(float(g.randint(9)))),
             ('point repeated', lambda r, g: r.repeat_point(s.point(g))),
             ('itself', lambda r, g: r.as_numpy)]
    else:
        q = [('series repeated', lambda r, g: r.repeat_series(series(g))),
             ('point repeated', lambda r, g: r.repeat_point(s.point(g))),
             ('grid of an empty one', lambda r, g: r.empty_region_2d().as_numpy.shape),
             ('itself', lambda r, g: r.as_numpy)]
    cm.asked_again(H, lambda: s.region(kind, c=c), q)


def h_asked_weight(H):
    """a measure with spatial weight whose matrix is loaded, computed anew and weighted, in any order: the matrix in use
    always has the weight at most once, and has it after loading or weighting"""
    cm.many_times(H, WHY)
    ds = H.load('spta.distance.dtw')
    rg = H.load('spta.region')
    xl, yl = cm.grid(H, 3)
    n = xl * yl
    w = H.real('weight', 0, 9)
    m = ds.DistanceBySpatialDTW(w)
    R = rg.Region(4, 4 + xl, 7, 7 + yl)
    files = []
    for i in range(2):
        a = H.array('matrix %d' % i, (n, n), lo=0)
        np.save('m%d.npy' % i, a)
        files.append(a)
    r, d = cm.spt(H, 2, xl, yl)
    plain_dtw = None
    pts = np.array([(x, y) for x in range(xl) for y in range(yl)], dtype=float)
    e = np.sqrt(((pts[:, None, :] - pts[None, :, :]) ** 2).sum(axis=2))
    base, weighted = None, False
    for i in range(H.int('steps', 1, None, 6)):
        what = H.choice('step %d' % i, ['load', 'load', 'compute', 'compute series', 'weight'])
        if what == 'load':
            j = H.index('file %d' % i, 2)
            got = m.load_distance_matrix_2d('m%d.npy' % j, R)
            base, weighted = files[j], True
        elif what.startswith('compute'):
            got = m.compute_distance_matrix(r if what == 'compute' else r.as_2d)
            if plain_dtw is None:
                plain_dtw = ds.DistanceByDTW().compute_distance_matrix(r)
            base, weighted = plain_dtw, False
        else:
            H.assume(base is not None)
            got = m.weight_distance_matrix(R)
            weighted = True
        want = base + (w * e if weighted else 0)
        H.check('weight in use once (%s)' % what, np.allclose(m.distance_matrix, want, rtol=1e-9, atol=1e-9),
                'step %d: %s instead of %s' % (i, m.distance_matrix, want))
        H.check('what is given is in use (%s)' % what, got is m.distance_matrix)
        H.check('files as before', all(np.array_equal(np.load('m%d.npy' % j), files[j]) for j in range(2)))


def h_asked_samples(H):
    """years, daily means and windows, again and again"""
    cm.many_times(H, WHY)
    maths, arrays, tb = H.load('spta.util.maths'), H.load('spta.util.arrays'), H.load('spta.dataset.temp_brazil')

    def years(o, g):
        a, b, c = int(g.randint(1948, 1990)), int(g.randint(0, 30)), int(g.randint(0, 30))
        return maths.years_to_series_interval(a + b, a + b + c, a, 1 + int(g.randint(8)))

    def windows(o, g):
        n = int(g.randint(1, 14))
        w = int(g.randint(1, n + 1))
        return [i for i in arrays.sliding_window(g.rand(n), w, 1 + int(g.randint(4)))]

    def windows1(o, g):
        n = int(g.randint(1, 14))
        return [i for i in arrays.sliding_window(g.rand(n), int(g.randint(1, n + 1)))]

    def daily(o, g):
        return tb.average_4spd_to_1spd(g.rand(4 * int(g.randint(1, 9)), int(g.randint(1, 4)), int(g.randint(1, 4))))
    cm.asked_again(H, lambda: None, [('years', years), ('windows', windows), ('windows, stride 1', windows1), ('daily means', daily)])


def h_asked_errors(H):
    """one analysis of errors, asked about many forecasts"""
    cm.many_times(H, WHY)
    me = H.load('spta.model.error')
    s = Setting(H, most=3)
    kind = H.choice('kind of region', ['spatio-temporal', 'scaled', 'spatio-temporal cluster'])
    error = H.choice('error', ['MSE'] if H.symbolic else ['MSE', 'sMAPE', 'MASE'])
    c = H.index('cluster', s.k)
    t = H.array('training', (s.tl + 2, s.xl, s.yl))

    def make():
        r = s.t.SpatioTemporalRegion(t.copy())
        if kind == 'scaled':
            r = s.sc.SpatioTemporalScaled(r, s.s.SpatialRegion(s.mn.copy()), s.s.SpatialRegion(s.mx.copy()))
        elif 'cluster' in kind:
            r = s.partition().create_spt_cluster(r, c)
        return me.ErrorAnalysis(s.region(kind, c=c), r)

    def forecast(g):
        return make_forecast(g.randint(-9, 9, size=(s.tl, s.xl, s.yl)).astype(float))

    def make_forecast(d):
        r = s.t.SpatioTemporalRegion(d)
        if kind == 'scaled':
            return s.sc.SpatioTemporalScaled(r, s.s.SpatialRegion(s.mn.copy()), s.s.SpatialRegion(s.mx.copy()))
        return s.partition().create_spt_cluster(r, c) if 'cluster' in kind else r

    def one(o, g):
        e = o.with_forecast_region(forecast(g), error)
        return [e.as_numpy, e.overall_error]

    def repeated(o, g):
        e = o.with_repeated_forecast(g.rand(s.tl), error)
        return [e.as_numpy, e.overall_error]
    cm.asked_again(H, make, [('errors of a forecast', one), ('errors of a repeated forecast', repeated),
                             ('overall error of each', lambda o, g: [[p.x, p.y, e] for p, e in o.overall_with_each_forecast(
                                 forecast(g), error)])], most=5)


def h_asked_solver(H):
    """one solver, asked for many rectangles and lengths"""
    cm.many_times(H, WHY)
    from . import C20
    er = H.load('spta.model.error')
    xl, yl = cm.grid(H, 3)
    n, tp = H.size('n', 1, 3), H.size('tp', 1, 3)
    d = H.array('data', (n + tp, xl, yl))
    f = H.fn('forecast', 'fi')
    T, M = C20.trainer_of(H, None, lambda model, length: np.array([f(model, i) for i in range(length)]))
    a, b, e = H.array('training', (xl, yl)), H.array('whole', (xl, yl)), H.array('errors', (xl, yl))
    lab = cm.labels(H, 'labels', xl, yl, 3)
    t, sp, pt, sc = (H.load('spta.region.' + i) for i in ('temporal', 'spatial', 'partition', 'scaling'))
    scaled = H.bool('scaled')
    mn, mx = H.array('minima', (xl, yl)), H.array('maxima', (xl, yl))

    def make():
        r = t.SpatioTemporalRegion(d.copy())
        if scaled:
            r = sc.SpatioTemporalScaled(r, sp.SpatialRegion(mn.copy()), sp.SpatialRegion(mx.copy()))
        p = pt.PartitionRegionCrisp.from_membership_array(lab.copy().reshape(-1), xl, yl)
        return C20.solver(H, None, tp, M(a.copy()), M(b.copy()), er.ErrorRegion(sp.SpatialRegion(e.copy())), r, bool(scaled), p)
    R = H.load('spta.region').Region

    def rect(g):
        x1, y1 = int(g.randint(xl)), int(g.randint(yl))
        return R(x1, int(g.randint(x1, xl)) + 1, y1, int(g.randint(y1, yl)) + 1)

    def parts(res):
        ts = getattr(res.decorated, 'test_subregion', None)
        return [res.forecast_subregion.as_numpy, res.error_subregion.as_numpy, None if ts is None else ts.as_numpy, res.forecast_len]
    cm.asked_again(H, make, [
        ('future', lambda s, g: parts(s.predict(rect(g), 1 + int(g.randint(3)), 'outputs', plot=False))),
        ('test samples', lambda s, g: parts(s.predict(rect(g), 0, 'outputs', plot=False)))], most=5)
