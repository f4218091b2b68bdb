"""C25  the experiments' tables pair clusters, medoids, distances and errors rightly"""
import os
import csv
import logging
import numpy as np
from . import common as cm
from .C21 import rows

MODULES = ['experiments.clustering.medoid_distances', 'experiments.clustering.partition_analysis',
           'experiments.auto_arima.error_between_medoids', 'experiments.auto_arima.distance_errors',
           'experiments.auto_arima.training_error_analysis', 'experiments.arima.training_error_analysis']
ASSUMPTIONS = ['h_errors_between, h_distance_errors: the trained models are stood in for by a model region whose forecast is arbitrary',
               'h_partition_cost: up to three clusters (the bounded runs have more)']


class NoLog:
    def debug(self, *a):
        pass
    info = warn = debug


class Sizes:
    def __init__(self, k, distance_measure=None):
        self.k, self.distance_measure = k, distance_measure

    def __repr__(self):
        return 'clustering'


def a_matrix(H, n):
    dm = H.load('spta.distance.dtw').DistanceByDTW()
    m = H.array('matrix', (n, n), lo=0)
    dm.distance_matrix = m
    return dm, m


def h_medoid_distances(H):
    """the table of distances between medoids: a row and a column per medoid, each the measured distance of the two"""
    H.use_iteration_contracts()
    md = H.load('experiments.clustering.medoid_distances')
    P = H.load('spta.region').Point
    xl, yl = cm.grid(H, 4)
    r, d = cm.spt(H, 1, xl, yl)
    dm, m = a_matrix(H, xl * yl)
    k = H.size('k', 1, 6)
    mx, my = H.array('medoids x', (k,), 'i', 0, xl - 1), H.array('medoids y', (k,), 'i', 0, yl - 1)
    if H.symbolic:
        pts = [P(mx[i], my[i]) for i in range(k)]
    else:
        pts = [P(int(a), int(b)) for a, b in zip(mx, my)]
    ix = [q.x * yl + q.y for q in pts]
    md.compute_and_save_medoid_distances(r, dm, Sizes(k), pts, ix, 'table.csv', NoLog())
    t = rows('table.csv')
    H.check('a row per medoid', H.eq(H.len(t), 1 + k))
    i, j = H.index('i', k), H.index('j', k)
    H.check('a column per medoid', H.and_(H.eq(H.len(t[0]), 1 + k), H.eq(H.len(t[1 + i]), 1 + k)))
    H.check('columns named by medoid', H.and_(H.text(t[0][0], 'k'), H.text(t[0][1 + j], str(j))))
    H.check('row named by medoid', H.text(t[1 + i][0], str(i)))
    H.check('the distance of the two', H.text(t[1 + i][1 + j], '{:.3f}'.format(m[mx[i] * yl + my[i], mx[j] * yl + my[j]])))


class OneForecast:
    """models that are stood in for: the forecast of the model at the point asked, of the length asked"""

    def __init__(self, at):
        self.at = at
        self.forecast_len = None

    def function_at(self, point):
        return lambda x: self.at(point, self.forecast_len)

    def value_at(self, point):
        return None


def h_errors_between(H):
    """row i of the table: the errors of the forecast at medoid i against the observations at each medoid, in order"""
    H.use_iteration_contracts()
    eb = H.load('experiments.auto_arima.error_between_medoids')
    er = H.load('spta.model.error')
    P = H.load('spta.region').Point
    xl, yl = cm.grid(H, 3)
    n = H.size('n', 1, 3)
    r, d = cm.spt(H, 5, xl, yl, 'region')
    train, td = cm.spt(H, 5, xl, yl, 'training')
    obs, o = cm.spt(H, n, xl, yl, 'observations')
    f = H.array('forecast', (n, xl, yl))
    k = H.size('k', 1, 4)
    mx, my = H.array('medoids x', (k,), 'i', 0, xl - 1), H.array('medoids y', (k,), 'i', 0, yl - 1)
    pts = [P(mx[i], my[i]) for i in range(k)] if H.symbolic else [P(int(a), int(b)) for a, b in zip(mx, my)]
    i, j = H.index('i', k), H.index('j', k)
    asked = []

    def at(point, length):
        asked.append(length)
        return f[:, point.x, point.y]
    with open('table.csv', 'w', newline='') as out:
        csv.writer(out, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL).writerow(['cluster'])
    analysis = er.ErrorAnalysis(obs, training_region=train, parallel_workers=None)
    eb.find_auto_arima_errors_for_medoid(r, analysis, OneForecast(at), i, P(mx[i], my[i]), pts, 'table.csv', n, 'MSE', NoLog())
    t = rows('table.csv')
    H.check('one row more', H.eq(H.len(t), 2))
    H.check('an error per medoid', H.eq(H.len(t[1]), 1 + k))
    H.check('named by the medoid', H.text(t[1][0], str(i)))
    want = H.sum([n], lambda q: (f[q, mx[i], my[i]] - o[q, mx[j], my[j]]) * (f[q, mx[i], my[i]] - o[q, mx[j], my[j]])) / n
    got = t[1][1 + j]
    if H.symbolic:
        H.check('the error at the medoid', H.text(got, '{:.3f}'.format(want)))
    else:
        H.check('the error at the medoid', abs(float(got) - want) <= 0.0011 + 1e-9 * abs(want))
    H.check('forecast of the length asked', H.and_(*[H.eq(a, n) for a in asked]))


def h_distance_errors(H):
    """the table of a cluster: a row per member, in order: absolute coordinates, distance to the medoid, error of the
    forecast of the model at the medoid against the observations of the member"""
    H.use_iteration_contracts()
    de = H.load('experiments.auto_arima.distance_errors')
    tmp = H.load('spta.region.temporal')
    P = H.load('spta.region').Point
    xl, yl = cm.grid(H, 3)
    n = H.choice('n', [1, 2])
    extra = H.size('training', 1, 4)
    p, lab = cm.partition(H, xl, yl)
    x1, y1 = H.int('x1', 0, None, 50), H.int('y1', 0, None, 50)
    md = cm.metadata(H, xl, yl, x1=x1, y1=y1)
    r, d = cm.spt(H, extra + n, xl, yl, metadata=md)
    u, v = H.index('u', xl), H.index('v', yl)
    c = lab[u, v] if H.symbolic else int(lab[u, v])
    cluster = tmp.SpatioTemporalCluster(r, p, c)
    mx, my = H.index('medoid x', xl), H.index('medoid y', yl)
    if H.symbolic:
        H.assume(H.eq(lab[mx, my], c))
    else:
        at_ = [q for q in cm.points_of(H, xl, yl) if lab[q] == c]
        mx, my = at_[mx % len(at_)]
    cluster.centroid = P(mx, my)
    cluster.name = 'cluster'
    dm, m = a_matrix(H, xl * yl)
    f = H.array('forecast', (n,))
    seen = {}

    class Meta:
        def output_dir(self, home):
            return home

    class Trainer:
        distance_measure = dm
        region_metadata = md
        clustering_metadata = Sizes(1)
        metadata = Meta()

        def train_models_at_medoids(self, training_region, medoids):
            seen['medoids'], seen['samples'] = medoids, training_region.series_len
            return OneForecast(lambda point, length: f)
    de.distance_vs_errors_for_cluster(cluster, Trainer(), p, n, 'MSE', False, NoLog(), 'here')
    names = [q for q in H.stored() if q.endswith('.csv')] if not H.symbolic else list(H.stored())
    H.check('one table', len(names) == 1)
    t = rows(names[0])
    size = H.count([xl, yl], lambda a, b: H.eq(lab[a, b], c))
    H.check('a row per member', H.eq(H.len(t), 1 + size))
    members = [(a, b) for a in range(xl) for b in range(yl) if lab[a, b] == c]
    q = H.index('member', size)
    u, v = members[q]
    row = t[1 + q]
    H.check('three cells', H.eq(H.len(row), 3))
    H.check('absolute coordinates', H.text(row[0], str(P(x1 + u, y1 + v))))
    want = sum((f[q] - d[extra + q, u, v]) * (f[q] - d[extra + q, u, v]) for q in range(n)) / n
    if H.symbolic:
        H.check('distance to the medoid', H.text(row[1], '{:.3f}'.format(m[mx * yl + my, u * yl + v])))
        H.check('error at the member', H.text(row[2], '{:.3f}'.format(want)))
    else:
        H.check('distance to the medoid', abs(float(row[1]) - m[mx * yl + my, u * yl + v]) <= 0.0011)
        H.check('error at the member', abs(float(row[2]) - want) <= 0.0011 + 1e-9 * abs(want))
    H.check('trained at the medoid', H.and_(len(seen['medoids']) == 1, H.eq(seen['medoids'][0].x, mx),
                                           H.eq(seen['medoids'][0].y, my)))
    H.check('without the samples of the forecast', H.eq(seen['samples'], extra))


class Arguments:
    variance = silhouette = plots = False
    random = parallel = None
    bins = 'auto'

    def __init__(self, **k):
        self.__dict__.update(k)


def h_partition_cost(H):
    """the row of a clustering: its description, the total of the distances of the points to their own medoids, and the
    absolute coordinates of the medoids in order"""
    H.use_iteration_contracts()
    pa = H.load('experiments.clustering.partition_analysis')
    P = H.load('spta.region').Point
    k = H.choice('k', [1, 2, 3])
    xl, yl = cm.grid(H, 4)
    if not H.symbolic:
        H.assume(k <= xl * yl)
    p, lab = cm.partition(H, xl, yl, k)
    if H.symbolic:
        H.assume(H.all([xl, yl], lambda a, b: lab[a, b] < k))
    x1, y1 = H.int('x1', 0, None, 50), H.int('y1', 0, None, 50)
    md = cm.metadata(H, xl, yl, x1=x1, y1=y1)
    r, d = cm.spt(H, 1, xl, yl, metadata=md)
    dm, m = a_matrix(H, xl * yl)
    p.k = k
    at = []
    for c in range(k):
        a, b = H.index('medoid x %d' % c, xl), H.index('medoid y %d' % c, yl)
        if not H.symbolic and c not in lab:
            lab[a, b] = c
        if not H.symbolic:
            mine = [q for q in cm.points_of(H, xl, yl) if lab[q] == c]
            H.assume(mine)
            a, b = mine[(a * yl + b) % len(mine)]
        else:
            H.assume(H.eq(lab[a, b], c))
        at.append((a, b))
    if not H.symbolic:
        H.assume(all(lab[q] == c for c, q in enumerate(at)))
        p = H.load('spta.region.partition').PartitionRegionCrisp.from_membership_array(lab.reshape(xl * yl), xl, yl)
        p.k = k
    p.medoids = [P(a, b) for a, b in at]

    class Algorithm(Sizes):
        def partition(self, region, **kw):
            return p

    class Given:
        def create_instance(self):
            return r
    got = pa.analyze_partition(Given(), Algorithm(k, dm), 'here', NoLog(), Arguments())
    H.check('three cells', len(got) == 3)
    H.check('its description', got[0] == 'clustering')
    total = 0
    for c in range(k):
        a, b = at[c]
        total = total + combined(H, [xl, yl], lambda u, v: H.eq(lab[u, v], c), lambda u, v: m[a * yl + b, u * yl + v])
    if not H.symbolic:
        H.check('total cost', abs(float(got[1]) - total) < 0.0011, '%s %s' % (got[1], total))
    else:
        H.check('total cost', H.text(got[1], '{:0.3f}'.format(total)))
    H.check('medoids', H.text(got[2], ''.join('({},{}) '.format(x1 + a, y1 + b) for a, b in at)))


def combined(H, dims, inside, value):
    return H.sum(dims, lambda u, v: H.ite(inside(u, v), value(u, v), 0))


ID = 'nordeste_small_2015_2015_1spd'


def stored_region(H):
    """the smallest predefined region, with a dataset and distances in their places"""
    tb = H.load('spta.dataset.temp_brazil')
    md = H.load('experiments.metadata.region').predefined_regions()[ID]
    g = md.region
    xl, yl = g.x2 - g.x1, g.y2 - g.y1
    tl = 16
    d = H.array('data', (tl, xl, yl))
    d = d + np.arange(xl * yl).reshape(xl, yl) / 7.0
    whole = np.zeros((tl, 120, 120))
    whole[:, g.x1:g.x2, g.y1:g.y2] = d
    tb.retrieve_dataset_interval = lambda **k: whole.copy()
    n = xl * yl
    z = d.reshape(tl, n)
    m = np.abs(z[:, :, None] - z[:, None, :]).mean(axis=0)
    os.makedirs(os.path.dirname(md.distances_filename) or '.', exist_ok=True)
    np.save(md.distances_filename, m)
    return md, d, m, xl, yl


def stand_ins(H, d, fails=lambda series, order: False):
    """ARIMA that is quick: the order from the first sample, the forecast from the last and the order"""
    at_ = H.load('spta.arima.train')

    class Fitted(object):
        def __init__(self, model):
            self.model, self.aic = model, float(np.sum(model.series))

        def forecast(self, n):
            p, dd, q = self.model.order
            return np.array([self.model.series[-1] + p + 0.1 * dd + 0.01 * q + 0.3 * i for i in range(n)])

    class Arima(object):
        def __init__(self, series, order, seasonal_order=None):
            self.series, self.order = np.array(series), tuple(int(v) for v in order)

        def fit(self):
            if fails(self.series, self.order):
                raise ValueError('no model')
            return Fitted(self)

    def order(series):
        h = int(abs(float(np.array(series)[0])) * 10)
        return (h % 3, h % 2, h % 4)

    def auto(series, **kw):
        class Found(object):
            pass
        Found.order = order(series)
        return Found()
    at_.ARIMA, at_.auto_arima = Arima, auto
    return order


def found(part, exact=None):
    return sorted(os.path.join(a, f) for a, _, fs in os.walk('outputs') for f in fs if part in f)


def partitions(H, suite, md, m):
    dtw, fac = H.load('spta.distance.dtw'), H.load('spta.clustering.factory')
    out = []
    for x in suite:
        dm = dtw.DistanceByDTW()
        dm.distance_matrix = m
        p = fac.ClusteringFactory(dm).instance(x).partition(md.create_instance(), with_medoids=True)
        lab = np.asarray(p.numpy_dataset).astype(int)
        out.append((x, [(int(q.x), int(q.y)) for q in p.medoids], lab))
    return out


def scripts(f):
    def run(H):
        H.concrete_only('whole scripts')
        tb, at_ = H.load('spta.dataset.temp_brazil'), H.load('spta.arima.train')
        kept = tb.retrieve_dataset_interval, at_.ARIMA, at_.auto_arima
        logging.disable(logging.CRITICAL)
        try:
            f(H)
        finally:
            tb.retrieve_dataset_interval, at_.ARIMA, at_.auto_arima = kept
            logging.disable(logging.NOTSET)
    run.__name__, run.__doc__ = f.__name__, f.__doc__
    return run


@scripts
def h_script_distances(H):
    """the scripts on distances: tables of medoids and of a suite agree with the clusterings and the stored distances"""
    mdist = H.load('experiments.clustering.medoid_distances')
    pa = H.load('experiments.clustering.partition_analysis')
    gs = H.load('experiments.metadata.clustering').get_suite
    md, d, m, xl, yl = stored_region(H)
    kind = H.choice('kind', ['kmedoids', 'regular'])
    parts = partitions(H, gs(kind, 'quick'), md, m)
    mdist.do_medoid_distances(Arguments(region=ID, clustering=kind, clustering_suite='quick'), NoLog())
    dm = H.load('spta.distance.dtw').DistanceByDTW()
    for x, med, lab in parts:
        t = rows(os.path.join(x.output_dir('outputs', md, dm), 'medoid_distances.csv'))
        H.check('rows and columns', t[0] == ['k'] + [str(i) for i in range(x.k)] and [q[0] for q in t[1:]] == t[0][1:])
        for i, (a, b) in enumerate(med):
            for j, (u, v) in enumerate(med):
                H.check('distance of the medoids', t[1 + i][1 + j] == '{:.3f}'.format(m[a * yl + b, u * yl + v]))
    suite = gs(kind, 'quick')
    suite.identifier = 'quick'
    pa.analyze_suite(Arguments(region=ID, clustering_type=kind, clustering_suite='quick'), NoLog())
    t = rows(suite.analysis_csv_filepath('outputs', md, dm))
    H.check('a row per clustering', len(t) == 1 + len(parts))
    for row, (x, med, lab) in zip(t[1:], parts):
        cost = sum(m[med[lab[a, b]][0] * yl + med[lab[a, b]][1], a * yl + b] for a in range(xl) for b in range(yl))
        H.check('description', repr(x) in row[0], '%s %r' % (row, x))
        H.check('total cost', abs(float(row[1]) - cost) < 0.0011, '%s %s' % (row, cost))
        H.check('medoids', row[2].split() == ['({},{})'.format(a + md.region.x1, b + md.region.y1) for a, b in med])


@scripts
def h_script_errors(H):
    """the scripts on errors: tables between medoids, and of distances against errors, for every clustering and cluster"""
    eb, de = H.load('experiments.auto_arima.error_between_medoids'), H.load('experiments.auto_arima.distance_errors')
    gs = H.load('experiments.metadata.clustering').get_suite
    ids = H.load('experiments.metadata.arima_clustering').auto_arima_clustering_experiments()
    name = H.choice('experiment', sorted(q for q in ids if ids[q].clustering_suite_id == 'quick'))
    md, d, m, xl, yl = stored_region(H)
    order = stand_ins(H, d)
    parts = partitions(H, gs(ids[name].clustering_type, 'quick'), md, m)
    n = H.choice('forecast length', [1, 3])
    args = Arguments(region=ID, auto_arima_cluster=name, flen=n, error='MSE')
    eb.do_auto_arima_errors(args, NoLog())
    de.do_auto_arima_distance_errors(args, NoLog())

    def forecast(a, b):
        p, dd, q = order(d[:-n, a, b])
        return np.array([d[-n - 1, a, b] + p + 0.1 * dd + 0.01 * q + 0.3 * i for i in range(n)])

    def error(f, a, b):
        return float(((f - d[-n:, a, b]) ** 2).mean())
    for x, med, lab in parts:
        files = [q for q in found('error-between-medoids') if '__%r__' % x in q]
        H.check('a table per clustering', len(files) == 1, '%s' % files)
        t = rows(files[0])
        H.check('a row per medoid', [q[0] for q in t] == ['cluster'] + [str(i) for i in range(x.k)])
        H.check('a column per medoid', t[0] == ['cluster'] + [str(i) for i in range(x.k)])
        for i, q in enumerate(med):
            for j, w in enumerate(med):
                H.check('error between medoids', abs(float(t[1 + i][1 + j]) - error(forecast(*q), *w)) < 0.0011)
        files = [q for q in found('dist-error') if '__%r__' % x in q]
        H.check('a table per cluster', len(files) == x.k, '%s' % files)
        left = list(range(x.k))
        for path in files:
            t = rows(path)[1:]
            P = H.load('spta.region').Point
            got = [row[0] for row in t]
            mine = [c for c in left if got == [str(P(a + md.region.x1, b + md.region.y1)) for a in range(xl)
                                               for b in range(yl) if lab[a, b] == c]]
            H.check('the members of one cluster in order', mine, '%s' % got)
            c = mine[0]
            left.remove(c)
            f = forecast(*med[c])
            ps = [(a, b) for a in range(xl) for b in range(yl) if lab[a, b] == c]
            for row, (a, b) in zip(t, ps):
                H.check('distance to the medoid', row[1] == '{:.3f}'.format(m[med[c][0] * yl + med[c][1], a * yl + b]))
                H.check('error of the forecast at the medoid', abs(float(row[2]) - error(f, a, b)) < 0.0011)


def spoil(H, bad, parts, d, xl, yl):
    """the first samples of some points, never medoids, at which there is no model"""
    med = {q for _, ps, _ in parts for q in ps}
    for n in range(H.choice('failing', [0, 2, 5])):
        q = (H.int('failing x %d' % n, 0, xl - 1), H.int('failing y %d' % n, 0, yl - 1))
        if q not in med:
            bad.add(float(d[(0,) + q]))


@scripts
def h_script_analysis(H):
    """the error analyses of clusters: a row per cluster (and parameters) with its size, order, failures and errors"""
    auto = H.bool('auto')
    ta = H.load('experiments.auto_arima.training_error_analysis' if auto else 'experiments.arima.training_error_analysis')
    fo = H.load('spta.model.forecast')
    tr = H.load('spta.arima.train')
    ar, am = H.load('experiments.metadata.arima'), H.load('experiments.metadata.arima_clustering')
    gs = H.load('experiments.metadata.clustering').get_suite
    md, d, m, xl, yl = stored_region(H)
    bad = set()
    odd = H.choice('failing orders', [0, 1])

    def fails(series, order):
        return float(series[0]) in bad and sum(order) % 2 == odd
    order = stand_ins(H, d, fails)
    if auto:
        ids = am.auto_arima_clustering_experiments()
        name = H.choice('experiment', sorted(q for q in ids if ids[q].clustering_suite_id == 'quick'))
        spoil(H, bad, partitions(H, gs(ids[name].clustering_type, 'quick'), md, m), d, xl, yl)
        ta.do_auto_arima_error_analysis(Arguments(region=ID, auto_arima_clustering_id=name, error='MSE'), NoLog())
        all_ = [ar.predefined_auto_arima()[ids[name].auto_arima_id]]
    else:
        ids = am.experiments_for_arima_with_clusters()
        name = H.choice('experiment', sorted(q for q in ids if ids[q].clustering_suite_id == 'quick'))
        spoil(H, bad, partitions(H, gs(ids[name].clustering_type, 'quick'), md, m), d, xl, yl)
        ta.do_arima_error_analysis(Arguments(region=ID, arima_clustering_id=name, error='MSE'), NoLog())
        all_ = list(ar.arima_suite_by_name(ids[name].arima_suite_id).arima_params_gen())
    for x, med, lab in partitions(H, gs(ids[name].clustering_type, 'quick'), md, m):
        files = [q for q in found('error-analysis') if '__%r__' % x in q]
        H.check('a table per clustering', len(files) == 1, '%s' % files)
        t = rows(files[0])
        H.check('a row per cluster and parameters', len(t) == 1 + x.k * len(all_))
        cells = [dict(zip(t[0], row)) for row in t[1:]]
        fac, dtw = H.load('spta.clustering.factory'), H.load('spta.distance.dtw')
        dm = dtw.DistanceByDTW()
        dm.distance_matrix = m
        r = md.create_instance()
        part = fac.ClusteringFactory(dm).instance(x).partition(r, with_medoids=True)
        clusters = part.create_all_spt_clusters(r, medoids=part.medoids)
        for q, row in enumerate(cells):
            c, how = q // len(all_), all_[q % len(all_)]
            H.check('cluster', row['cluster'] == str(c))
            H.check('size', row['size' if 'size' in row else 'cluster_size'] == str(int((lab == c).sum())), '%s' % row)
            H.check('failures', row['failed'] == str(sum(
                1 for u, v in zip(*np.where(lab == c)) if fails(d[:, u, v], order(d[:, u, v]) if auto else tuple(how)))))
            f = fo.ForecastAnalysis((tr.TrainerAutoArima if auto else tr.TrainerArimaPDQ)(how, xl, yl), None)
            want, _, _ = f.analyze_errors(clusters[c], 'MSE')
            s = d[:-fo.ForecastAnalysis.DEFAULT_FORECAST_LENGTH, med[c][0], med[c][1]] if auto else None
            p = order(s) if auto else tuple(how)
            got = tuple(int(row[e]) for e in (('p_medoid', 'd_medoid', 'q_medoid') if auto else ('p', 'd', 'q')))
            H.check('order', got == p, '%s %s' % (got, p))
            if auto:
                H.check('AIC', row['aic_medoid'] == '{:.3f}'.format(float(np.sum(s))))
            for cell, value in (('error_each', want.each), ('error_min', want.minimum), ('error_min_local', want.min_local),
                                ('error_medoid', want.centroid), ('error_max', want.maximum)):
                H.check(cell, abs(float(row[cell]) - value) < 0.0011 or (np.isnan(value) and row[cell] == 'nan'),
                        '%s %s' % (row[cell], value))


SPEC = [
    (h_medoid_distances, {'sym': True, 'runs': 200}),
    (h_errors_between, {'sym': True, 'runs': 100}),
    (h_distance_errors, {'sym': True, 'runs': 100}),
    (h_partition_cost, {'sym': True, 'runs': 200}),
    (h_script_distances, {'runs': 3, 'min': 1, 'why': 'whole scripts'}),
    (h_script_errors, {'runs': 3, 'min': 1, 'why': 'whole scripts'}),
    (h_script_analysis, {'runs': 5, 'min': 1, 'why': 'whole scripts'}),
]
