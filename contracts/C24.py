"""C24  silhouette and distance analyses report what the distances say"""
import os
import numpy as np
from . import common as cm

ASSUMPTIONS = ['symbolically, drawing random points never asks for more points than there are (bounded: h_points_outside)',
               'matplotlib and scikit-learn draw and score (the score itself is compared with its definition in bounded runs)']
MODULES = ['spta.distance.variance', 'spta.clustering.silhouette', 'spta.kmedoids.silhouette', 'spta.util.plot',
           'spta.util.maths', 'spta.distance']


class Measured:
    """any measure"""


def a_measure(H, n, name='matrix'):
    dtw = H.load('spta.distance.dtw')
    dm = dtw.DistanceByDTW()
    m = H.array(name, (n, n), lo=0)
    if not H.symbolic:
        m = m + m.T
        m[np.arange(n), np.arange(n)] = 0.0
    dm.distance_matrix = m
    return dm, m


def a_cluster(H, most=4):
    """(cluster, its label, labels, grid)"""
    xl, yl = cm.grid(H, most)
    p, lab = cm.partition(H, xl, yl)
    r, d = cm.spt(H, 1, xl, yl)
    tmp = H.load('spta.region.temporal')
    u, v = H.index('u', xl), H.index('v', yl)
    c = lab[u, v]
    c = c if H.symbolic else int(c)
    return tmp.SpatioTemporalCluster(r, p, c), c, lab, xl, yl


def h_region_distances(H):
    """the distances of a region to a point: one per point, row-major, those of the matrix; their maximum"""
    H.use_iteration_contracts()
    va = H.load('spta.distance.variance')
    P = H.load('spta.region').Point
    xl, yl = cm.grid(H, 4)
    r, d = cm.spt(H, 1, xl, yl)
    dm, m = a_measure(H, xl * yl)
    x, y = H.index('x', xl), H.index('y', yl)
    h = va.DistanceHistogram(r, dm)
    out = h.distances_to_point(P(x, y))
    H.check('one per point', H.eq(H.len(out), xl * yl))
    H.forall('those of the matrix', [xl, yl], lambda u, v: H.eq(out[u * yl + v], m[x * yl + y, u * yl + v]))
    top = h.max_distance(out)
    H.forall('none is larger than the maximum', [xl * yl], lambda i: out[i] <= top)
    H.check('the maximum is one of them', H.any([xl * yl], lambda i: H.eq(out[i], top)))
    least = H.real('at least')
    both = h.max_distance(out, least)
    H.check('or the larger one given', H.eq(both, H.ite(least > top, least, top)))


def h_cluster_distances(H):
    """the distances of a cluster to a point: one per member, in order, those of the matrix"""
    H.use_iteration_contracts()
    va = H.load('spta.distance.variance')
    P = H.load('spta.region').Point
    cl, c, lab, xl, yl = a_cluster(H)
    dm, m = a_measure(H, xl * yl)
    x, y = H.index('x', xl), H.index('y', yl)
    out = va.DistanceHistogram(cl, dm).distances_to_point(P(x, y))
    size = H.count([xl, yl], lambda u, v: H.eq(lab[u, v], c))
    H.check('one per member', H.eq(H.len(out), size))
    ix = cl.all_point_indices
    H.check('as many indices of the cluster', H.eq(H.len(ix), size))
    H.forall('that of each member in order', [size], lambda i: H.eq(out[i], m[x * yl + y, ix[i]]))


def others(H, cl, c, lab, xl, yl, drawn, asked, name):
    size = H.count([xl, yl], lambda u, v: H.eq(lab[u, v], c))
    rest = xl * yl - size
    wanted = H.ite(H.eq(asked, 0), size, asked)
    H.check('as many as asked, or as there are' + name, H.eq(H.len(drawn), H.ite(wanted > rest, rest, wanted)))
    n = H.len(drawn)
    H.forall('of the region' + name, [n], lambda i: H.and_(drawn[i] >= 0, drawn[i] < xl * yl))
    H.forall('outside the cluster' + name, [n, xl, yl], lambda i, u, v: H.imp(
        H.eq(drawn[i], u * yl + v), H.not_(H.eq(lab[u, v], c))))
    H.forall('pairwise different' + name, [n, n], lambda i, j: H.imp(i < j, H.not_(H.eq(drawn[i], drawn[j]))))


def enough(H, draw):
    """what is drawn; that there are always enough points to draw from is left to the bounded runs"""
    if not H.symbolic:
        return draw()
    try:
        return draw()
    except ValueError:
        H.assume(False)


def points_outside(H, on_top):
    H.use_iteration_contracts()
    va = H.load('spta.distance.variance')
    cl, c, lab, xl, yl = a_cluster(H)
    dm, m = a_measure(H, xl * yl)
    asked = H.int('asked', 0, None, 20)
    if on_top:
        h = va.DistanceHistogramWithRandomPointsOtherClusters(va.DistanceHistogram(cl, dm), asked)
    else:
        h = va.DistanceHistogramRandomOutsidePoints(cl, dm, num_points=asked)
    drawn = enough(H, lambda: h.point_indices)
    others(H, cl, c, lab, xl, yl, drawn, asked, '')
    if not H.symbolic:
        others(H, cl, c, lab, xl, yl, h.point_indices, asked, ' (again)')


def h_points_outside(H):
    """random points of other clusters: as many as asked (as the members by default), at most all, none a member"""
    points_outside(H, True)


def h_points_outside_alone(H):
    """the same for the histogram of the points outside alone"""
    points_outside(H, False)


def h_distances_outside(H):
    """with random points on top: the distances of the members, and those of points outside; the maximum of all"""
    H.use_iteration_contracts()
    va = H.load('spta.distance.variance')
    P = H.load('spta.region').Point
    cl, c, lab, xl, yl = a_cluster(H)
    dm, m = a_measure(H, xl * yl)
    x, y = H.index('x', xl), H.index('y', yl)
    asked = H.int('asked', 0, None, 20)
    plain = va.DistanceHistogram(cl, dm)
    h = va.DistanceHistogramWithRandomPointsOtherClusters(plain, asked)
    if not H.symbolic and len(set(lab.reshape(-1))) == 1:
        return
    u, v = H.index('u outside', xl), H.index('v outside', yl)
    H.assume(H.not_(H.eq(lab[u, v], c)))
    mine, out = enough(H, lambda: h.distances_to_point(P(x, y)))
    want = plain.distances_to_point(P(x, y))
    n = H.len(mine)
    H.check('one per member', H.eq(n, H.len(want)))
    H.forall('of the members', [n], lambda i: H.eq(mine[i], want[i]))
    H.forall('of points outside', [H.len(out)], lambda i: H.any([xl, yl], lambda a, b: H.and_(
        H.not_(H.eq(lab[a, b], c)), H.eq(out[i], m[x * yl + y, a * yl + b]))))
    top = enough(H, lambda: h.max_distance((mine, out)))
    H.forall('none is larger than the maximum (members)', [n], lambda i: mine[i] <= top)
    H.forall('none is larger than the maximum (outside)', [H.len(out)], lambda i: out[i] <= top)
    a, b = plain.max_distance(mine), plain.max_distance(out)
    H.check('the larger of the two maxima', H.eq(top, H.ite(a > b, a, b)))


def h_statistics(H):
    """the figures written on a histogram: number, least but one, largest, mean, deviation, median, those in between"""
    H.concrete_only('text with rounded numbers')
    va = H.load('spta.distance.variance')
    P = H.load('spta.region').Point
    cl, c, lab, xl, yl = a_cluster(H, 6)
    dm, m = a_measure(H, xl * yl)
    x, y = H.index('x', xl), H.index('y', yl)
    members = [i for i, l in enumerate(lab.reshape(-1)) if l == c]
    if H.bool('point of the cluster'):
        x, y = divmod(members[H.index('which', len(members))], yl)
    plain = va.DistanceHistogram(cl, dm)
    d = [float(m[x * yl + y, i]) for i in members]

    def has(text, of, count):
        s = sorted(of)
        k = len(s)
        mean = sum(s) / k
        lines = text.split('\n')
        want = {'n': '%d' % count, 'min': '%.2f' % s[min(1, k - 1)], 'max': '%.2f' % s[-1],
                'x̅': '%.2f' % mean, 's': '%.2f' % (sum((e - mean) ** 2 for e in s) / k) ** 0.5,
                'M': '%.2f' % (s[k // 2] if k % 2 else (s[k // 2 - 1] + s[k // 2]) / 2)}
        got = dict([q.strip() for q in l.split('=')] for l in lines[1:])
        for key in want:
            H.check('figure ' + key, key in got and abs(float(got[key]) - float(want[key])) < 0.011,
                    '%s %s' % (got.get(key), want[key]))
        return got
    t = plain.statistics(plain.distances_to_point(P(x, y)))
    H.check('the cluster first', t.split('\n')[0] == str(cl))
    has(t, d, len(members))
    if len(members) < xl * yl:
        h = va.DistanceHistogramWithRandomPointsOtherClusters(plain, H.int('asked', 0, None, 20))
        mine, out = h.distances_to_point(P(x, y))
        got = has(h.statistics((mine, out)), d, len(members))
        H.check('number of random points', got['#rand'] == str(len(out)))
        H.check('random points nearer than the farthest member', got['∩rand'] == str(
            sum(1 for e in out if e < max(d))), '%s' % got)


class Axis:
    def __init__(self):
        self.drawn, self.limits, self.texts = [], [], []
        self.transAxes = None

    def hist(self, data, **k):
        self.drawn.append([float(e) for e in data])

    def set_xlim(self, *a):
        self.limits.append([float(e) for e in (a[0] if len(a) == 1 else a)])

    def text(self, x, y, s, **k):
        self.texts.append(s)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


def h_max_of_clusters(H):
    """the largest distance over the clusters of a partition: the largest of those from the medoids to their own points"""
    H.use_iteration_contracts()
    va = H.load('spta.distance.variance')
    P = H.load('spta.region').Point
    k = H.choice('k', [1, 2, 3])
    xl, yl = cm.grid(H, 4)
    r, d = cm.spt(H, 1, xl, yl)
    dm, m = a_measure(H, xl * yl)
    p, lab = cm.partition(H, xl, yl, k)
    at = []
    for c in range(k):
        a, b = H.index('medoid x %d' % c, xl), H.index('medoid y %d' % c, yl)
        H.assume(H.eq(lab[a, b], c))
        at.append((a, b))
    if H.symbolic:
        H.assume(H.all([xl, yl], lambda a, b: lab[a, b] < k))
    p.k = k
    clusters = p.create_all_spt_clusters(r, medoids=[P(a, b) for a, b in at])

    class Algorithm(object):
        distance_measure = dm
    h = va.DistanceHistogramClusters(clusters, Algorithm())
    got = h.max_distance()
    x, y = H.index('x', xl), H.index('y', yl)
    vals = [m[at[c][0] * yl + at[c][1], x * yl + y] for c in range(k)]
    H.check('none is beyond', H.and_(*[H.imp(H.eq(lab[x, y], c), vals[c] <= got) for c in range(k)]))
    H.check('one of them', H.or_(*[H.not_(H.all([xl, yl], lambda u, v, c=c: H.imp(
        H.eq(lab[u, v], c), H.not_(H.eq(m[at[c][0] * yl + at[c][1], u * yl + v], got))))) for c in range(k)]))


def h_grid_of_histograms(H):
    """one histogram per cluster at its place in the grid, distances to its own medoid, the same limits for all"""
    H.concrete_only('plots')
    import matplotlib.pyplot as plt
    va = H.load('spta.distance.variance')
    rc = H.load('spta.clustering.regular')
    xl, yl = H.size('xl', 2, 7), H.size('yl', 2, 7)
    balanced = {k: max(a for a in range(1, k + 1) if k % a == 0 and a * a <= k) for k in range(2, xl * yl)}
    ks = [k for k, a in balanced.items() if a <= min(xl, yl) and k // a <= max(xl, yl)]
    k = H.choice('k', ks)
    r, d = cm.spt(H, 2, xl, yl)
    dm, m = a_measure(H, xl * yl)
    alg = rc.RegularClusteringAlgorithm(rc.RegularClusteringMetadata(k=k), dm)
    part = alg.partition(r, with_medoids=True)
    clusters = part.create_all_spt_clusters(r, medoids=part.medoids)
    lab = np.asarray(part.numpy_dataset).reshape(-1)
    random = H.choice('random points', [None, 0, 1, 3])
    made = []

    def subplots(nx=1, ny=1, **kw):
        a = np.empty((nx, ny), dtype=object)
        for i in range(nx):
            for j in range(ny):
                a[i, j] = Axis()
        made.append(a)
        return None, (a[0, 0] if nx == ny == 1 else a.reshape(-1) if 1 in (nx, ny) else a)
    kept = plt.subplots, plt.show
    plt.subplots, plt.show = subplots, lambda *a, **k: None
    try:
        va.DistanceHistogramClusters.cluster_histograms(clusters, alg, random_points=random,
                                                        with_statistics=H.bool('with statistics'))
    finally:
        plt.subplots, plt.show = kept
    H.check('one grid', len(made) == 1)
    axes = list(made[0].reshape(-1))
    H.check('one place per cluster', len(axes) == k, '%s %s' % (len(axes), k))
    most = 0.0
    for i, a in enumerate(axes):
        med = part.medoids[i]
        at = med.x * yl + med.y
        want = [float(m[at, j]) for j in range(xl * yl) if lab[j] == i]
        H.check('the distances of the cluster at its place', a.drawn and a.drawn[0] == want,
                'cluster %d: %s %s' % (i, a.drawn[:1], want))
        H.check('random points are drawn exactly when asked', len(a.drawn) == (1 if random is None else 2))
        if random is not None:
            away = [float(m[at, j]) for j in range(xl * yl) if lab[j] != i]
            n = min(random or len(want), len(away))
            H.check('random points of other clusters', len(a.drawn[1]) == n and all(e in away for e in a.drawn[1]))
        most = max([most] + a.drawn[0])
    lims = [a.limits[-1] for a in axes if a.limits]
    H.check('the same limits', all(l == lims[0] for l in lims))
    if lims:
        H.check('the limit is the largest distance', len(lims) == k and lims[0][0] == 0 and (
            lims[0][1] == most if random is None else lims[0][1] >= most), '%s %s' % (lims[0], most))


class Described:
    """a description of a clustering"""

    def __init__(self, position):
        self.position = position

    def output_dir(self, *a):
        return 'out'


class Kept:
    def __init__(self, region):
        self.region_ = region
        self.distances_filename = 'distances.npy'
        self.region = None

    def create_instance(self):
        return self.region_


def h_best_silhouette(H):
    """the analysis of any number of clusterings gives the highest score, and the first clustering that has it"""
    si = H.load('spta.clustering.silhouette')
    if not H.symbolic:
        return best_of_some(H, si)
    n = H.size('n', 1, 6)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, 1, xl, yl)
    dm, m = a_measure(H, xl * yl)
    scores = H.array('scores', (n,))
    H.assume(H.all([n], lambda i: H.and_(scores[i] > -1, scores[i] <= 1)))
    P = H.load('spta.region.partition')
    H.use_iteration_contracts()
    lab = cm.labels(H, 'labels', xl, yl)
    seen = {}

    class Algorithm:
        def __init__(self, metadata):
            self.metadata = metadata
            self.position = metadata.position

        def partition(self, region, **kw):
            seen['region'] = region is r
            part = cm_partition(P, lab, xl, yl)
            part.position = self.position
            return part

    class Factory:
        def __init__(self, distance_measure):
            seen['measure'] = distance_measure is dm

        def instance(self, metadata):
            return Algorithm(metadata)
    kept = si.ClusteringFactory
    si.ClusteringFactory = Factory

    class Analysis(si.SilhouetteAnalysis):
        def single_silhouette(self, partition, clustering_algorithm, output_home):
            return scores[partition.position]
    try:
        a = Analysis(Kept(r), dm, H.listed(n, lambda i: Described(i)))
        top, which = a.perform_analysis('o', 'p')
    finally:
        si.ClusteringFactory = kept
    H.forall('none has a higher score', [n], lambda i: scores[i] <= top)
    H.check('the score of the clustering', H.eq(scores[which.position], top))
    H.forall('the first one that has it', [n], lambda i: H.imp(i < which.position, scores[i] < top))
    H.check('of this region', seen['region'])
    H.check('with this measure', seen['measure'])


def cm_partition(P, lab, xl, yl):
    return P.PartitionRegionCrisp.from_membership_array(lab.reshape(xl * yl), xl, yl)


def silhouettes(m, lab):
    """the score from its definition: mean over the points of (b - a) / max(a, b), 0 for a cluster of one"""
    n = len(lab)
    out = []
    for i in range(n):
        own = [m[i, j] for j in range(n) if j != i and lab[j] == lab[i]]
        if not own:
            out.append(0.0)
            continue
        a = sum(own) / len(own)
        b = min(sum(m[i, j] for j in range(n) if lab[j] == l) / sum(1 for j in range(n) if lab[j] == l)
                for l in set(lab) if l != lab[i])
        out.append((b - a) / max(a, b) if max(a, b) > 0 else 0.0)
    return sum(out) / n


def best_of_some(H, si):
    import matplotlib.pyplot as plt
    su = H.load('spta.clustering.suite')
    xl, yl = H.size('xl', 2, 4), H.size('yl', 2, 4)
    md = cm.metadata(H, xl, yl)
    t = H.load('spta.region.temporal')
    d = H.array('data', (3, xl, yl))
    r = t.SpatioTemporalRegion(d, md)
    dm, m = a_measure(H, xl * yl)
    stored = H.bool('matrix is stored')
    kind = H.choice('kind', ['kmedoids', 'regular'])
    if kind == 'kmedoids':
        ks = [k for k in (2, 3) if k < xl * yl]
        suite = su.ClusteringSuite('some', 'kmedoids', k=ks, random_seed=H.choice('seeds', [[0], [1, 5], [3]]))
    else:
        balanced = {k: max(a for a in range(1, k + 1) if k % a == 0 and a * a <= k) for k in range(2, xl * yl)}
        ks = [k for k, a in balanced.items() if a <= min(xl, yl) and k // a <= max(xl, yl)]
        suite = su.ClusteringSuite('some', 'regular', k=ks[:3])
    kept = md.__class__.create_instance
    md.__class__.create_instance = lambda self: r
    try:
        if stored:
            os.makedirs(os.path.dirname(md.distances_filename) or '.', exist_ok=True)
            np.save(md.distances_filename, m)
            dm.distance_matrix = None
        a = si.SilhouetteAnalysis(md, dm, suite)
        fac = H.load('spta.clustering.factory').ClusteringFactory(dm)
        want, same = [], []
        for x in suite:
            alg = fac.instance(x)
            os.makedirs(x.output_dir('out', md, dm), exist_ok=True)
            dm2 = H.load('spta.distance.dtw').DistanceByDTW()
            dm2.distance_matrix = m
            p = H.load('spta.clustering.factory').ClusteringFactory(dm2).instance(x).partition(r, with_medoids=False)
            ls = [int(l) for l in np.asarray(p.numpy_dataset).reshape(-1)]
            want.append(silhouettes(m, ls))
            same.append(ls)
        top, which = a.perform_analysis('out', 'pickle')
    finally:
        md.__class__.create_instance = kept
        plt.close('all')
    H.check('the highest score', abs(top - max(want)) < 1e-9, '%s %s' % (top, want))
    at = [repr(x) for x in suite].index(repr(which.metadata))
    H.check('the clustering that has it', abs(want[at] - top) < 1e-9, '%s %s' % (at, want))
    H.check('the first of those with the same labels', same.index(same[at]) == at, '%s %s' % (at, same))


def h_single_silhouette(H):
    """the score of a partition comes from the labels of the points in row-major order and the measured distances"""
    H.use_iteration_contracts()
    si = H.load('spta.clustering.silhouette')
    if not H.symbolic:
        return scored(H)
    xl, yl = cm.grid(H, 4)
    r, d = cm.spt(H, 1, xl, yl)
    dm, m = a_measure(H, xl * yl)
    lab = cm.labels(H, 'labels', xl, yl)
    part = cm_partition(H.load('spta.region.partition'), lab, xl, yl)
    got = {}
    score = H.real('score')

    def draw(distances, labels, subplot=None, **k):
        got['distances'], got['labels'] = distances, labels
        return score
    kept = si.plot_util.plot_clustering_silhouette, si.plot_util.plot_2d_clusters
    si.plot_util.plot_clustering_silhouette = draw

    def shown(labels, shape_2d, **k):
        got['shown'], got['shape'] = labels, shape_2d
    si.plot_util.plot_2d_clusters = shown
    kept2 = si.plt
    si.plt = Plots()

    class Algorithm:
        metadata = Described(0)
    try:
        out = si.SilhouetteAnalysis(Kept(r), dm, []).single_silhouette(part, Algorithm(), 'out')
    finally:
        si.plot_util.plot_clustering_silhouette, si.plot_util.plot_2d_clusters = kept
        si.plt = kept2
    H.check('the score', H.eq(out, score))
    H.check('the measured distances', H.same(got['distances'], m))
    H.check('one label per point', H.eq(H.len(got['labels']), xl * yl))
    H.forall('labels in row-major order', [xl, yl], lambda x, y: H.eq(got['labels'][x * yl + y], lab[x, y]))
    H.forall('shown in row-major order', [xl, yl], lambda x, y: H.eq(got['shown'][x * yl + y], lab[x, y]))
    H.check('shown with the sides', H.eq(got['shape'], (xl, yl)))


class Figure:
    def savefig(self, name, **k):
        pass


class Plots:
    def subplots(self, *a, **k):
        return Figure(), (None, None)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


def scored(H):
    import matplotlib.pyplot as plt
    pl = H.load('spta.util.plot')
    n = H.size('n', 3, 12)
    k = H.int('k', 2, None, n - 1)
    lab = H.array('labels', (n,), 'i', 0, k - 1)
    lab[:k] = np.arange(k)
    lab = np.array([int(e) for e in lab])[np.argsort(H.array('order', (n,)))]
    dm, m = a_measure(H, n)
    if H.bool('few distances'):
        m = np.floor(m * 3)
    before = m.copy(), lab.copy()
    top = pl.plot_clustering_silhouette(m, lab)
    plt.close('all')
    H.check('the score from its definition', abs(top - silhouettes(m, lab)) < 1e-9, '%s %s' % (top, silhouettes(m, lab)))
    H.check('distances and labels are as before', bool((m == before[0]).all()) and bool((lab == before[1]).all()))


def h_settings_of_silhouette(H):
    """every clustering of the analysis runs with the settings asked: k, seed, mode, limits, the first k medoids"""
    ks_ = H.load('spta.kmedoids.silhouette')
    k, seed = H.int('k', 1, None, 9), H.int('seed', 0, None, 50)
    n = H.size('n', 1, 12)
    given = H.bool('initial medoids')
    first = H.array('first', (n,), 'i', 0, 40) if given else None
    if given:
        H.assume(k <= n)
    max_iter, tol = H.int('max_iter', 0, None, 2000), H.real('tol')
    mode = H.choice('mode', ['lite', 'robust'])
    verbose = H.bool('verbose')
    dm = Measured()
    md = ks_.silhouette_default_metadata([2, 3], [0], kmedoids_mode=mode, distance_measure=dm, initial_medoids=first,
                                         max_iter=max_iter, tol=tol, verbose=verbose)
    got = ks_.kmedoids_metadata_from_silhouette_metadata(k, seed, md)
    H.check('k', H.eq(got.k, k))
    H.check('seed', H.eq(got.random_seed, seed))
    H.check('measure', got.distance_measure is dm)
    H.check('mode', got.mode == mode)
    H.check('max_iter', H.eq(got.max_iter, max_iter))
    H.check('tol', H.eq(got.tol, tol))
    H.check('verbose', got.verbose == verbose)
    if given:
        H.check('as many medoids', H.eq(H.len(got.initial_medoids), k))
        H.forall('the first ones', [k], lambda i: H.eq(got.initial_medoids[i], first[i]))
    else:
        H.check('no medoids', got.initial_medoids is None)


def h_best_kmedoids(H):
    """over some seeds and numbers of clusters: best k, seed, medoids and labels are those of the highest score"""
    H.concrete_only('plots and clustering')
    import matplotlib.pyplot as plt
    ks_ = H.load('spta.kmedoids.silhouette')
    xl, yl = H.size('xl', 2, 4), H.size('yl', 2, 4)
    r, d = cm.spt(H, 2, xl, yl)
    dm, m = a_measure(H, xl * yl)
    ks = [k for k in H.choice('ks', [[2], [3, 2], [2, 3]]) if k < xl * yl]
    seeds = H.choice('seeds', [[0], [1, 5], [3]])
    first = None
    if H.bool('initial medoids'):
        first = [int(e) for e in H.array('first', (3,), 'i', 0, xl * yl - 1, distinct=True)]
    md = ks_.silhouette_default_metadata(ks, seeds, distance_measure=dm, initial_medoids=first, verbose=False,
                                         show_graphs=H.bool('show'), save_graphs=None)
    km = ks_.kmedoids
    want = []
    for s in seeds:
        for k in ks:
            res = km.run_kmedoids(r.as_2d, k, dm, first and first[:k], s, 'lite', 1000, 0.001, False)
            want.append((silhouettes(m, [int(l) for l in res.labels]), k, s, [int(e) for e in res.medoids],
                         [int(e) for e in res.labels]))
    try:
        k, s, med, lab = ks_.do_silhouette_analysis(r, md)
    finally:
        plt.close('all')
    top = max(q[0] for q in want)
    near = [q for q in want if abs(q[0] - top) < 1e-9]
    alike = [q[1:3] for q in want if q[4] == [int(e) for e in lab]]
    H.check('the first of those with the same labels', alike[:1] == [(k, s)], '%s %s' % ((k, s), want))
    H.check('one that has the highest score', (k, s, [int(e) for e in med], [int(e) for e in lab]) in [q[1:] for q in near],
            '%s %s' % ((k, s, med), want))


SPEC = [
    (h_region_distances, {'sym': True, 'runs': 300}),
    (h_cluster_distances, {'sym': True, 'runs': 300}),
    (h_points_outside, {'sym': True, 'runs': 300, 'seconds': 100}),
    (h_points_outside_alone, {'sym': True, 'runs': 200, 'seconds': 100}),
    (h_distances_outside, {'sym': True, 'runs': 200, 'seconds': 150, 'cost': 10}),
    (h_statistics, {'runs': 200, 'why': 'text with rounded numbers'}),
    (h_max_of_clusters, {'sym': True, 'runs': 200}),
    (h_grid_of_histograms, {'runs': 60, 'why': 'plots'}),
    (h_best_silhouette, {'sym': True, 'runs': 4, 'min': 2}),
    (h_single_silhouette, {'sym': True, 'runs': 10, 'min': 3}),
    (h_settings_of_silhouette, {'sym': True, 'runs': 200}),
    (h_best_kmedoids, {'runs': 4, 'min': 2, 'why': 'plots and clustering'}),
]
