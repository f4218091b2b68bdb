"""C21  prediction results report the right coordinates, errors and clusters"""
import csv
import glob
import os

import numpy as np
from . import common as cm
from .asked import h_asked_result

MODULES = ['spta.solver.result', 'spta.solver.metadata', 'spta.region.partition', 'spta.region.spatial',
           'spta.region.temporal', 'spta.region.metadata', 'spta.util.arrays']

TRUSTED = ['text of numbers and arrays: equal values under equal format specifications have equal text (str.format)',
           'csv.writer: rows are read back by csv.reader with the same settings as they were given']


class Labels(object):
    """a label per point of the predicted rectangle, as a dict of points would give"""

    def __init__(self, a):
        self.a = a

    def __getitem__(self, p):
        return self.a[p.x, p.y]


def build(H, most=3, clustering='clustering', distance='distance'):
    """a result put together by the real builder from arbitrary parts -> (result, parts)"""
    re_, sm = H.load('spta.solver.result'), H.load('spta.solver.metadata')
    R = H.load('spta.region').Region
    er = H.load('spta.model.error')
    xl, yl = cm.grid(H, most)
    X1, Y1 = H.int('offset x', 0, most=9), H.int('offset y', 0, most=9)
    md = cm.metadata(H, xl, yl, x1=X1, y1=Y1)
    x1, y1 = H.index('x1', xl), H.index('y1', yl)
    x2, y2 = H.int('x2', x1 + 1, xl), H.int('y2', y1 + 1, yl)
    tp = H.size('tp', 1, 3)
    future = H.bool('out of sample')
    tf = H.size('tf', 1, 3) if future else tp
    f, fa = cm.spt(H, tf, x2 - x1, y2 - y1, 'forecast', nan=True)
    t, ta = cm.spt(H, tp, x2 - x1, y2 - y1, 'test')
    e, ea = cm.spatial(H, x2 - x1, y2 - y1, 'errors', nan=True)
    r, d = cm.spt(H, tp + 1, xl, yl, 'region')
    part, lab = cm.partition(H, xl, yl, 3)
    sb = sm.SolverMetadataBuilder(md, 'params', tp, 'MSE').with_clustering(clustering, distance).build()
    b = re_.PredictionQueryResultBuilder(
        solver_metadata=sb, forecast_len=tf if future else 0, forecast_subregion=f, test_subregion=None if future else t,
        error_subregion=e, prediction_region=R(x1, x2, y1, y2), spt_region=r, output_home='outputs',
        is_out_of_sample=bool(future))
    kind = H.choice('kind', ['plain', 'partition', 'classifier'])
    labels = None
    if kind == 'partition':
        b.with_partition(part)
    if kind == 'classifier':
        labels = Labels(H.array('class', (x2 - x1, y2 - y1), 'i', 0, None if H.symbolic else 9))
        b.from_classifier('suite', labels)
    P = H.load('spta.region').Point
    return b.build(), dict(P=P, X1=X1, Y1=Y1, x1=x1, y1=y1, x2=x2, y2=y2, tp=tp, tf=tf, future=future, f=fa, t=ta, e=ea,
                           lab=lab, kind=kind, labels=labels, xl=xl, yl=yl, part=part)


def a_point(H, c):
    return H.index('px', c['x2'] - c['x1']), H.index('py', c['y2'] - c['y1'])


def h_coordinates(H):
    """the domain coordinates of a point of the result are the rectangle's corner plus the point, the absolute ones the
    corner of the data set's region plus those; the way back is the inverse"""
    s, c = build(H)
    x, y = a_point(H, c)
    P = c['P']
    p = s.to_domain_coordinates(P(x, y))
    H.check('domain', H.and_(H.eq(p.x, c['x1'] + x), H.eq(p.y, c['y1'] + y)))
    q = s.to_relative_coordinates(p)
    H.check('back', H.and_(H.eq(q.x, x), H.eq(q.y, y)))
    a = s.absolute_coordinates_of(p)
    H.check('absolute', H.and_(H.eq(a.x, c['X1'] + c['x1'] + x), H.eq(a.y, c['Y1'] + c['y1'] + y)))
    if c['kind'] == 'partition':
        H.check('cluster', H.eq(s.cluster_index_of(p), c['lab'][c['x1'] + x, c['y1'] + y]))


def h_tuple(H):
    """the table row of a point: its absolute coordinates, its cluster (or label), its error, its forecast and its test
    samples"""
    s, c = build(H)
    x, y = a_point(H, c)
    row = s.result_tuple_for_point(c['P'](x, y))
    head = s.result_header()
    want = ['Point', 'error', 'forecast_series'] + ([] if c['future'] else ['test_series'])
    if c['kind'] != 'plain':
        want.insert(1, 'cluster_index' if c['kind'] == 'partition' else 'label')
    H.check('columns', list(head) == want and len(row) == len(want))
    got = dict(zip(head, row))
    p = got['Point']
    H.check('absolute coordinates', H.and_(H.eq(p.x, c['X1'] + c['x1'] + x), H.eq(p.y, c['Y1'] + c['y1'] + y)))
    if c['kind'] == 'partition':
        H.check('own cluster', H.eq(got['cluster_index'], c['lab'][c['x1'] + x, c['y1'] + y]))
    if c['kind'] == 'classifier':
        H.check('own label', H.eq(got['label'], c['labels'].a[x, y]))
    H.check('own error', H.text(got['error'], '{:.3f}'.format(c['e'][x, y])))
    H.series_equal('own forecast', got['forecast_series'], c['f'][:, x, y])
    if not c['future']:
        H.series_equal('own test samples', got['test_series'], c['t'][:, x, y])


def h_lines(H):
    """the text lines of a point tell the same: coordinates, cluster or label, forecast, test samples, error"""
    s, c = build(H)
    x, y = a_point(H, c)
    P = c['P']
    lines = s.lines_for_point(P(x, y))
    first = 'Point: {}'.format(P(c['X1'] + c['x1'] + x, c['Y1'] + c['y1'] + y))
    if c['kind'] == 'partition':
        first += ' (cluster {})'.format(c['lab'][c['x1'] + x, c['y1'] + y])
    if c['kind'] == 'classifier':
        first += ' (label {})'.format(c['labels'].a[x, y])
    want = [first, '{:<20} {}'.format('Forecast (future):' if c['future'] else 'Forecast:', c['f'][:, x, y])]
    if not c['future']:
        want.append('{:<20} {}'.format('Test:', c['t'][:, x, y]))
    want.append('Error (MSE): {:.3f}'.format(c['e'][x, y]))
    H.check('as many lines', len(lines) == len(want))
    for name, a, b in zip(['point', 'forecast', 'test' if not c['future'] else 'error', 'error'], lines, want):
        H.check('line: ' + name, H.text(a, b))


def h_mse(H):
    """the error of the summary is the mean of the squares of the errors of the rectangle's points, missing ones left
    out"""
    H.use_iteration_contracts()
    s, c = build(H)
    w, h = c['x2'] - c['x1'], c['y2'] - c['y1']
    e = c['e']
    n = H.count([w, h], lambda x, y: H.not_(H.isnan(e[x, y])))
    H.assume(n > 0)
    m = s.summary_generalization_mse()
    H.check('mean of squares', H.eq(m * n, H.sum([w, h], lambda x, y: e[x, y] ** 2,
                                                 lambda x, y: H.not_(H.isnan(e[x, y])))))


def h_listed(H):
    """the clusters counted in the summary are exactly those owning a point of the rectangle, each once"""
    s, c = build(H)
    H.assume(c['kind'] == 'partition')
    got = s.summary_unique_clusters()
    x1, y1, x2, y2, lab = c['x1'], c['y1'], c['x2'], c['y2'], c['lab']
    inside = lambda x, y: H.and_(x1 <= x, x < x2, y1 <= y, y < y2)      # noqa: E731
    H.each('owns a point', got, lambda i, q: H.any([c['xl'], c['yl']], lambda x, y: H.and_(
        inside(x, y), H.eq(lab[x, y], q))))
    H.forall('every owner', [c['xl'], c['yl']], lambda x, y: H.imp(inside(x, y), H.any(
        [H.len(got)], lambda i: H.eq(got[i], lab[x, y]))))
    H.forall('each once', [H.len(got), H.len(got)], lambda i, j: H.or_(H.eq(i, j), H.not_(H.eq(got[i], got[j]))))


def rows(path):
    with open(path, newline='') as f:
        return list(csv.reader(f, delimiter=' ', quotechar='|'))


def h_table(H):
    """what is stored: a table with a row per point of the rectangle in row-major order, each telling the absolute
    coordinates, cluster or label, error, forecast and test samples of its own point"""
    H.use_iteration_contracts()
    f = H.fn('measure', 'ff')

    class Measure(H.load('spta.distance.dtw').DistanceByDTW):
        def measure(self, first_series, second_series):
            return f(first_series[0], second_series[0])
    k = H.int('k', 1, None, 9)
    s, c = build(H, clustering=H.load('spta.clustering.regular').RegularClusteringMetadata(k), distance=Measure())
    P, n = c['P'], c['part'].k
    mx, my = H.array('medoids x', (n,), 'i', 0, c['xl'] - 1), H.array('medoids y', (n,), 'i', 0, c['yl'] - 1)
    c['part'].medoids = H.listed(n, lambda i: P(mx[i], my[i])) if H.symbolic else [P(i, j) for i, j in zip(mx, my)]
    s.save_as_csv()
    files = [n for n in H.stored() if 'query-result' in n or 'forecast-result' in n]
    H.check('a table and a summary', len(files) == 1 and len(H.stored()) == 2)
    summary = rows([q for q in H.stored() if q not in files][0])
    H.check('one summary row', H.eq(H.len(summary), 2))
    one = dict(zip(summary[0], summary[1]))
    H.check('summary: test samples', H.text(one['tp'], str(c['tp'])))
    if c['kind'] == 'partition':
        H.check('summary: clustering', H.and_(H.text(one['k'], str(k)), one['type'] == 'regular'))
        if not H.symbolic:      # the list itself is the subject of h_listed
            H.check('summary: clusters', H.text(one['clusters'], str(H.len(s.summary_unique_clusters()))))
    table = rows(files[0])
    w, h = c['x2'] - c['x1'], c['y2'] - c['y1']
    H.check('a row per point', H.eq(H.len(table), 1 + w * h))
    x, y = a_point(H, c)
    row = table[1 + x * h + y]
    head = ['Point', 'error', 'forecast_series'] + ([] if c['future'] else ['test_series'])
    if c['kind'] != 'plain':
        head.insert(1, 'cluster_index' if c['kind'] == 'partition' else 'label')
    H.check('columns', list(table[0]) == head)
    H.check('as many cells', len(row) == len(head))
    got = dict(zip(head, row))
    H.check('absolute coordinates', H.text(got['Point'], str(c['P'](c['X1'] + c['x1'] + x, c['Y1'] + c['y1'] + y))))
    if c['kind'] == 'partition':
        H.check('own cluster', H.text(got['cluster_index'], str(c['lab'][c['x1'] + x, c['y1'] + y])))
    if c['kind'] == 'classifier':
        H.check('own label', H.text(got['label'], str(c['labels'].a[x, y])))
    H.check('own error', H.text(got['error'], '{:.3f}'.format(c['e'][x, y])))
    H.check('own forecast', H.text(got['forecast_series'], str(c['f'][:, x, y])))
    if not c['future']:
        H.check('own test samples', H.text(got['test_series'], str(c['t'][:, x, y])))


def h_files(H):
    """the stored tables: one row per point of the rectangle, in order, with its own coordinates, cluster or label,
    error, forecast and test samples; one summary row with the clustering, the number of clusters, their distance to
    the medoids, tp and the error"""
    H.concrete_only('files')
    re_, sm = H.load('spta.solver.result'), H.load('spta.solver.metadata')
    R, P = H.load('spta.region').Region, H.load('spta.region').Point
    km, rg = H.load('spta.clustering.kmedoids'), H.load('spta.clustering.regular')
    dt = H.load('spta.distance.dtw')
    xl, yl = cm.grid(H, 4)
    X1, Y1 = H.int('offset x', 0, 9), H.int('offset y', 0, 9)
    md = cm.metadata(H, xl, yl, x1=X1, y1=Y1)
    x1, y1 = H.index('x1', xl), H.index('y1', yl)
    x2, y2 = H.int('x2', x1 + 1, xl), H.int('y2', y1 + 1, yl)
    w, h = x2 - x1, y2 - y1
    n, tp = H.int('n', 1, 3), H.int('tp', 1, 12)
    r, d = cm.spt(H, n + tp, xl, yl, 'region')
    e, ea = cm.spatial(H, w, h, 'errors', lo=0, hi=50)
    part, lab = cm.partition(H, xl, yl, 3)
    kind = H.choice('kind', ['plain', 'partition', 'classifier'])
    meds = []
    for q in range(part.k):
        own = [(x, y) for x in range(xl) for y in range(yl) if lab[x, y] == q]
        H.assume(own or kind != 'partition')
        meds.append(P(*own[H.int('medoid %d' % q, 0, len(own) - 1)]) if own else None)
    part.medoids = meds
    cl = rg.RegularClusteringMetadata(part.k) if H.bool('regular') else km.KmedoidsClusteringMetadata(
        part.k, random_seed=H.int('seed', 0, 9))
    dist = dt.DistanceByDTW()       # the only measure that can be asked for distances to one series
    b = sm.SolverMetadataBuilder(md, 'params', tp, 'MSE')
    if kind == 'partition':
        b = b.with_clustering(cl, dist)
    meta = b.build()
    classes = {P(i, j): '%d-%d-%d' % (H.int('k %d %d' % (i, j), 1, 3), i, j) for i in range(w) for j in range(h)}
    lens = {}
    for future in (False, True):
        tf = H.int('tf', 1, 12) if future else tp
        f, fa = cm.spt(H, tf, w, h, 'forecast%d' % future)
        t = r.subset(R(x1, x2, y1, y2), H.load('spta.region').TimeInterval(n, n + tp)) if not future else None
        bu = re_.PredictionQueryResultBuilder(
            solver_metadata=meta, forecast_len=tf if future else 0, forecast_subregion=f, test_subregion=t,
            error_subregion=e, prediction_region=R(x1, x2, y1, y2), spt_region=r, output_home='outputs',
            is_out_of_sample=future)
        if kind == 'partition':
            bu.with_partition(part)
        if kind == 'classifier':
            bu.from_classifier('the suite', classes)
        s = bu.build()
        before = set(glob.glob('outputs/**/*.csv', recursive=True))
        s.save_as_csv()
        new = [q for q in glob.glob('outputs/**/*.csv', recursive=True) if q not in before]
        result = [q for q in new if 'summary' not in os.path.basename(q)]
        summary = [q for q in new if 'summary' in os.path.basename(q)]
        H.check('a new table', len(result) == 1, str(new))
        H.check('a new summary', len(summary) == 1, str(new))
        table = rows(result[0])
        extra = {'plain': [], 'partition': ['cluster_index'], 'classifier': ['label']}[kind]
        H.check('columns', table[0] == ['Point'] + extra + ['error', 'forecast_series'] + (
            [] if future else ['test_series']), str(table[0]))
        H.check('a row per point', len(table) == 1 + w * h)
        for q, row in enumerate(table[1:]):
            i, j = q // h, q % h
            x, y = x1 + i, y1 + j
            row = dict(zip(table[0], row))
            H.check('coordinates', row['Point'] == str(P(X1 + x, Y1 + y)), '%s' % row)
            if kind == 'partition':
                H.check('cluster', row['cluster_index'] == str(int(lab[x, y])))
            if kind == 'classifier':
                H.check('label', row['label'] == classes[P(i, j)])
            H.check('error', row['error'] == '{:.3f}'.format(ea[i, j]))
            H.check('forecast', np.allclose(numbers(row['forecast_series']), fa[:, i, j], rtol=0, atol=0.0006))
            if not future:
                H.check('test', np.allclose(numbers(row['test_series']), d[n:, x, y], rtol=0, atol=0.0006))
        tab = rows(summary[0])
        H.check('one summary row', len(tab) == 2 and len(tab[0]) == len(tab[1]))
        row = dict(zip(*tab))
        H.check('tp', row['tp'] == str(tp))
        H.check('mse', abs(float(row['mse']) - (ea ** 2).mean()) < 0.0006)
        if kind == 'classifier':
            H.check('suite', row['suite'] == repr('the suite'))
        if kind == 'partition':
            for key, v in cl.as_dict().items():
                H.check('clustering ' + key, row[key] == str(v))
            own = sorted({int(lab[x, y]) for x in range(x1, x2) for y in range(y1, y2)})
            H.check('number of clusters', row['clusters'] == str(len(own)))
            per = [dist.combine([dist.measure(d[n:, meds[q].x, meds[q].y].copy(), d[n:, x, y].copy())
                                 for x in range(x1, x2) for y in range(y1, y2)]) for q in own]
            want = np.sqrt(np.mean(np.array(per) ** 2))
            H.check('distance to the medoids', abs(float(row['dtw_r_m']) - want) < 0.0051 + 1e-6 * want,
                    '%s for %s' % (row['dtw_r_m'], want))


def numbers(text):
    return [float(v) for v in text.strip('[]').split()]


h_history_result = cm.history(h_asked_result)

SPEC = [
    (h_coordinates, {'sym': True, 'runs': 200}),
    (h_tuple, {'sym': True, 'runs': 200}),
    (h_lines, {'sym': True, 'runs': 200}),
    (h_mse, {'sym': True, 'runs': 200}),
    (h_listed, {'sym': True, 'runs': 200}),
    (h_table, {'sym': True, 'seconds': 150, 'cost': 5, 'runs': 150}),
    (h_files, {'runs': 200, 'seconds': 25, 'min': 10, 'why': 'files'}),
    (h_history_result, {'sym': True, 'runs': 150}),
]
