"""C22  classifier training input picks the best medoid and respects its limits"""
import csv
import os

import numpy as np
from . import common as cm
from .asked import h_asked_choice

MODULES = ['spta.classifier.train_input', 'spta.util.maths', 'spta.region.temporal', 'spta.region.metadata',
           'spta.distance.dtw', 'spta.distance', 'spta.clustering.suite', 'spta.clustering.factory']

ASSUMPTIONS = ['h_choice: suites of up to three clusterings (each of any size); the histogram behaves as a map from '
               '(clustering, index) to a number']

TRUSTED = ['np.random.choice without replacement draws pairwise different elements of its list']


class Counts(object):
    """how often each (clustering, index) has been chosen; symbolic mode's stand-in for the dict"""

    def __init__(self, H, counts):
        self.H, self.counts, self.written = H, counts, []

    def get(self, key, default=None):
        n = self.counts[key[0]][key[1]]
        return self.H.ite(n > 0, n, 0 if default is None else default)

    def __getitem__(self, key):
        return self.counts[key[0]][key[1]]

    def __setitem__(self, key, value):
        self.written.append((key, value))

    def __contains__(self, key):
        return self.counts[key[0]][key[1]] > 0

    def __str__(self):
        return 'histogram'
    __repr__ = __str__
    __format__ = lambda self, spec: 'histogram'


REPRS = ['kmedoids_k2_seed0_lite', 'kmedoids_k2_seed1_lite', 'regular_k3']


def h_choice(H):
    """the chosen medoid has the smallest penalty of all those still allowed (the first such clustering and index), its
    count and no other goes up by one, and no count passes the limit"""
    ti = H.load('spta.classifier.train_input')
    P = H.load('spta.region').Point
    n = H.choice('clusterings', [1, 2, 3])
    limit = H.int('limit', 0, 3 if not H.symbolic else None)
    suite, penalty, before, ks = {}, {}, {}, {}
    for r in REPRS[:n]:
        k = ks[r] = H.size('k of ' + r, 1, 4)
        rx, ry = H.array('x of ' + r, (k,), 'i', 0, 99), H.array('y of ' + r, (k,), 'i', 0, 99)
        suite[r] = [P(rx[i], ry[i]) for i in range(k)]
        penalty[r] = H.array('penalty of ' + r, (k,), 'f', 0)
        before[r] = H.array('count of ' + r, (k,), 'i', 0, 3 if not H.symbolic else None)
        H.assume(H.or_(limit == 0, H.all([k], lambda i: before[r][i] <= limit)))
    asked = []

    class Strategy(ti.MedoidsChoiceStrategy):
        def get_medoid_penalties(self, clustering_repr, medoids, point):
            asked.append((clustering_repr, medoids, point))
            return penalty[clustering_repr].copy()
    if H.symbolic:
        hist = Counts(H, before)
    else:
        hist = {(r, i): int(before[r][i]) for r in suite for i in range(ks[r]) if before[r][i]}
    p = P(H.int('px', 0, most=9), H.int('py', 0, most=9))

    def free(r, i):
        return H.or_(limit == 0, before[r][i] < limit)
    some = H.or_(*[H.any([ks[r]], lambda i: free(r, i)) for r in suite])
    try:
        r, c, m = Strategy().choose_medoid(suite, p, limit, hist)
    except ValueError:
        H.check('gives up only if all are used up', H.not_(some))
        return
    H.check('not all used up', some)
    H.check('asked about each clustering and the point', [a[0] for a in asked] == list(suite) and
            all(a[2] is p for a in asked))
    H.check('one of the suite', r in suite)
    if r not in suite:
        return
    H.check('an index', H.and_(0 <= c, c < ks[r]))
    H.check('the medoid of that index', H.and_(H.eq(m.x, suite[r][c].x), H.eq(m.y, suite[r][c].y)))
    H.check('allowed', free(r, c))
    best = penalty[r][c]
    for s in suite:
        H.forall('smallest of ' + s, [ks[s]], lambda i: H.imp(free(s, i), best <= penalty[s][i]))
        if list(suite).index(s) < list(suite).index(r):
            H.forall('first of equals: ' + s, [ks[s]], lambda i: H.imp(free(s, i), best < penalty[s][i]))
    H.forall('first of equals', [c], lambda i: H.imp(free(r, i), best < penalty[r][i]))
    if H.symbolic:
        H.check('one count changes', len(hist.written) == 1)
        (key, value), = hist.written
        H.check('the count of the chosen one', key[0] == r and H.eq(key[1], c))
        H.check('one more', H.eq(value, before[r][c] + 1))
        H.check('within the limit', H.or_(limit == 0, value <= limit))
    else:
        for s in suite:
            for i in range(ks[s]):
                H.check('count', hist.get((s, i), 0) == before[s][i] + (s == r and i == c))
                H.check('within the limit', limit == 0 or hist.get((s, i), 0) <= limit)
        H.check('no other entries', all(s in suite and 0 <= i < ks[s] for s, i in hist))


def h_integers(H):
    """the integers drawn are pairwise different, within the range, not excluded, and as many as asked"""
    mt = H.load('spta.util.maths')
    lo, hi = H.int('min', 0, 3 if not H.symbolic else None), H.int('max', 0, 12 if not H.symbolic else None)
    H.assume(lo <= hi)
    b = H.size('excluded', 0, 6)
    x = H.array('blacklist', (b,), 'i', 0, 14 if not H.symbolic else None)
    n = H.int('n', 0, 6 if not H.symbolic else None)
    try:
        out = mt.random_integers_with_blacklist(n, lo, hi, [x[i] for i in range(b)])
    except ValueError:
        H.check('gives up only if there are not enough', H.symbolic or
                len(set(range(lo, hi + 1)) - set(int(v) for v in x)) < n)
        return
    H.check('as many as asked', H.eq(H.len(out), n))
    H.forall('within the range', [n], lambda i: H.and_(lo <= out[i], out[i] <= hi))
    H.forall('none excluded', [n, b], lambda i, j: H.not_(H.eq(out[i], x[j])))
    H.forall('pairwise different', [n, n], lambda i, j: H.imp(i < j, H.not_(H.eq(out[i], out[j]))))


def a_region(H, most=4, nonneg=True):
    """-> (metadata of a rectangle with an offset whose data set is r, r, its data, ...)"""
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H, most)
    X1, Y1 = H.int('offset x', 0, most=9), H.int('offset y', 0, most=9)
    md = cm.metadata(H, xl, yl, x1=X1, y1=Y1)
    r, d = cm.spt(H, tl, xl, yl)
    r.region_metadata = md
    md.create_instance = lambda: r
    return md, r, d, xl, yl, X1, Y1


def a_suite(H, most, xl, yl, X1, Y1):
    """medoids of some clusterings, in absolute coordinates -> (suite result, {repr: (k, relative x, relative y)})"""
    P = H.load('spta.region').Point
    suite, at = {}, {}
    for r in REPRS[:most]:
        k = H.size('k of ' + r, 1, 3)
        rx, ry = H.array('x of ' + r, (k,), 'i', 0, xl - 1), H.array('y of ' + r, (k,), 'i', 0, yl - 1)
        suite[r] = [P(rx[i] + X1, ry[i] + Y1) for i in range(k)]
        at[r] = (k, rx, ry)
    return suite, at


def h_medoid_indices(H):
    """the indices of the medoids of a suite: those of all its medoids, relative to the region, and no others"""
    ti = H.load('spta.classifier.train_input')
    md, r, d, xl, yl, X1, Y1 = a_region(H)
    suite, at = a_suite(H, H.choice('clusterings', [1, 2]), xl, yl, X1, Y1)
    out = ti.extract_all_medoid_indices_from_suite_result(suite, r)
    n = H.len(out)
    for c, (k, rx, ry) in at.items():
        H.forall('each medoid of ' + c, [k], lambda i: H.any([n], lambda j: H.eq(out[j], rx[i] * yl + ry[i])))
    H.forall('nothing else', [n], lambda j: H.or_(*[H.any([k], lambda i: H.eq(out[j], rx[i] * yl + ry[i]))
                                                    for k, rx, ry in at.values()]))


def h_points(H):
    """the random points are pairwise different points of the region, none at an excluded index, and as many as asked"""
    ti = H.load('spta.classifier.train_input')
    md, r, d, xl, yl, X1, Y1 = a_region(H)
    b = H.size('excluded', 0, 4)
    x = H.array('indices', (b,), 'i', 0, xl * yl - 1)
    n = H.int('n', 0, 6 if not H.symbolic else None)
    t = ti.TrainDataWithRandomPoints(md, 'distance')
    try:
        out = t.get_random_points_different_to_medoids(n, H.int('seed', 0, most=99), [x[i] for i in range(b)], xl, yl)
    except ValueError:
        H.check('gives up only if there are not enough', H.symbolic or xl * yl - len(set(int(v) for v in x)) < n)
        return
    H.check('as many as asked', H.eq(H.len(out), n))
    H.forall('in the region', [n], lambda i: H.and_(0 <= out[i].x, out[i].x < xl, 0 <= out[i].y, out[i].y < yl))
    H.forall('none excluded', [n, b], lambda i, j: H.not_(H.eq(out[i].x * yl + out[i].y, x[j])))
    H.forall('pairwise different', [n, n], lambda i, j: H.imp(i < j, H.or_(
        H.not_(H.eq(out[i].x, out[j].x)), H.not_(H.eq(out[i].y, out[j].y)))))


def h_distance(H):
    """the penalty of a medoid: its distance to the point; the distances stay as they are"""
    ti, ds = H.load('spta.classifier.train_input'), H.load('spta.distance.dtw')
    md, r, d, xl, yl, X1, Y1 = a_region(H)
    suite, at = a_suite(H, 1, xl, yl, X1, Y1)
    D = H.array('distances', (xl * yl, xl * yl), 'f', 0)
    m = ds.DistanceByDTW()
    m.distance_matrix = D
    D0 = cm.frozen(H, D)
    P = H.load('spta.region').Point
    px, py = H.index('px', xl), H.index('py', yl)
    s = ti.MedoidsChoiceMinDistance(md, m)
    c = REPRS[0]
    k, rx, ry = at[c]
    out = s.get_medoid_penalties(c, suite[c], P(px, py))
    H.check('one each', H.eq(H.shape(out), (k,)))
    H.forall('the distance', [k], lambda i: H.eq(out[i], D0[px * yl + py, rx[i] * yl + ry[i]]))
    s.supress_medoids_that_reached_threshold(c, suite[c], out, 1, Counts(H, {c: H.array('counts', (k,), 'i', 0, 1)}))
    H.forall('distances as before', [xl * yl, xl * yl], lambda i, j: H.eq(m.distance_matrix[i, j], D0[i, j]))


def h_error(H):
    """the penalty of the medoid of the point's own cluster: the solver's error there (in sample); the others: infinite.
    The solver is the one of the clustering, whatever was asked before"""
    ti, sm = H.load('spta.classifier.train_input'), H.load('spta.solver.metadata')
    P = H.load('spta.region').Point
    md, r, d, xl, yl, X1, Y1 = a_region(H)
    E = {c: H.array('errors of ' + c, (xl, yl), 'f', 0) for c in REPRS[:2]}
    parts = {}
    for j, c in enumerate(REPRS[:2]):
        parts[c] = cm.partition(H, xl, yl, 3, name='labels of ' + c)
    calls = []

    class Result(object):
        def __init__(self, repr_, region):
            self.repr_, self.region = repr_, region

        def prediction_error_at(self, p):
            return E[self.repr_][self.region.x1 + p.x, self.region.y1 + p.y]

    class Solver(object):
        def __init__(self, metadata):
            self.metadata = metadata
            self.repr_ = repr(metadata.clustering_metadata)
            self.partition = parts[self.repr_][0]

        def predict(self, prediction_region, forecast_len, output_home, plot=True):
            calls.append((self.metadata, prediction_region, forecast_len))
            return Result(self.repr_, prediction_region)

    class Pickler(object):
        def __init__(self, metadata):
            self.metadata = metadata

        def load_solver(self):
            return Solver(self.metadata)
    ti.SolverPickler = Pickler
    s = ti.MedoidsChoiceMinPredictionError(md, 'dtw', 'outputs', 'params', 3, 'MSE')
    asked = [H.choice('first', [0, 1]), H.choice('second', [0, 1])]
    for q, j in enumerate(asked):
        c = REPRS[j]
        part, lab = parts[c]
        k = part.k
        meds = [P(i, i) for i in range(k)]
        px, py = H.index('px%d' % q, xl), H.index('py%d' % q, yl)
        out = s.get_medoid_penalties(c, meds, P(px, py))
        H.check('one each', H.eq(H.shape(out), (k,)))
        own = lab[px, py]
        H.check('error of the own cluster', H.eq(out[own], E[c][px, py]))
        H.forall('no other', [k], lambda i: H.imp(H.not_(H.eq(i, own)), out[i] == float('inf')))
        m, reg, tf = calls[-1]
        H.check('asked in sample at that point', len(calls) == q + 1 and tf == 0)
        H.check('the rectangle', H.and_(H.eq(reg.x1, px), H.eq(reg.x2, px + 1), H.eq(reg.y1, py), H.eq(reg.y2, py + 1)))
        H.check('settings', m.region_metadata is md and m.test_len == 3 and m.model_params == 'params' and
                m.error_type == 'MSE' and m.distance_measure == 'dtw')


def h_series(H):
    """the table of medoids: each medoid of each clustering in its order, with its absolute coordinates and the series of
    its own point"""
    ti = H.load('spta.classifier.train_input')
    md, r, d, xl, yl, X1, Y1 = a_region(H)
    suite, at = a_suite(H, H.choice('clusterings', [1, 2]), xl, yl, X1, Y1)
    f = ti.MedoidSeriesFormatter(md, 'dtw', 'suite')
    out = f.retrieve_medoid_data(suite, r)
    H.check('each clustering', list(out) == list(suite))
    q = H.index('q', H.shape(d)[0])
    for c, (k, rx, ry) in at.items():
        rows = out[c]
        H.check('as many rows', H.eq(H.len(rows), k))
        H.forall('rows of ' + c, [k], lambda i: H.and_(
            H.eq(rows[i]['cluster_index'], i), H.eq(rows[i]['medoid_x'], rx[i] + X1), H.eq(rows[i]['medoid_y'], ry[i] + Y1),
            H.eq(rows[i]['series'][q], d[q, rx[i], ry[i]])))


def stored_solvers(labels, errors):
    """stands for the stored solvers: the errors at each point, for each clustering (their partition has these labels)"""
    class Result(object):
        def __init__(self, c, region):
            self.c, self.region = c, region

        def prediction_error_at(self, p):
            return errors[self.c][self.region.x1 + p.x, self.region.y1 + p.y]

    class Partition(object):
        def __init__(self, c):
            self.c = c

        def membership_of_points(self, points):
            return [labels[self.c][p.x, p.y] for p in points]

    class Solver(object):
        def __init__(self, metadata):
            self.c = repr(metadata.clustering_metadata)
            self.partition = Partition(self.c)

        def predict(self, prediction_region, forecast_len, output_home, plot=True):
            return Result(self.c, prediction_region)

    class Pickler(object):
        def __init__(self, metadata):
            self.metadata = metadata

        def load_solver(self):
            return Solver(self.metadata)
    return Pickler


def h_files(H):
    """the tables: a row per drawn point with its clustering, index, medoid and own series (the medoid closest to it among
    those below the limit, replayed independently); the counts; the medoids' own table"""
    H.concrete_only('files')
    ti, su, ds = H.load('spta.classifier.train_input'), H.load('spta.clustering.suite'), H.load('spta.distance.dtw')
    fa = H.load('spta.clustering.factory')
    md, r, d, xl, yl, X1, Y1 = a_region(H, 5)
    kind = H.choice('type', ['kmedoids', 'regular'])
    s = su.ClusteringSuite('quick', kind, k=[1, 2, 3], **({'random_seed': [0, 1], 'mode': 'lite'} if kind == 'kmedoids' else {}))
    P = H.load('spta.region').Point
    suite = {}
    for m in s:
        suite[repr(m)] = [P(int(H.index('x%r%d' % (m, i), xl)) + X1, int(H.index('y%r%d' % (m, i), yl)) + Y1) for i in range(m.k)]
    m = ds.DistanceByDTW()
    D = H.array('distances', (xl * yl, xl * yl), 'i', 0, 6).astype(float)
    m.distance_matrix = D.copy()
    path = s.analysis_csv_filepath('out', md, m)
    os.makedirs(os.path.dirname(path))
    with open(path, 'w', newline='') as f:
        w = csv.writer(f, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
        w.writerow(['clustering', 'total', 'medoids'])
        for c, meds in suite.items():
            w.writerow([c, '1.0', ''.join('({},{}) '.format(p.x, p.y) for p in meds)])
    used = {(p.x - X1) * yl + p.y - Y1 for ps in suite.values() for p in ps}
    free = xl * yl - len(used)
    count, seed, limit = H.int('count', 0, 6), H.int('seed', 0, 3), H.int('limit', 0, 3)
    t = ti.TrainDataWithRandomPoints(md, m)
    criterion = H.choice('criterion', ['min_distance', 'min_error'])
    if criterion == 'min_error':
        labels = {c: H.array('labels of ' + c, (xl, yl), 'i', 0, len(ms) - 1) for c, ms in suite.items()}
        errors = {c: H.array('errors of ' + c, (xl, yl), 'i', 0, 6).astype(float) for c in suite}
        ti.SolverPickler = stored_solvers(labels, errors)

    def penalty(c, b, q, x, y):
        if criterion == 'min_distance':
            return D[x * yl + y, (q.x - X1) * yl + q.y - Y1]
        return errors[c][x, y] if labels[c][x, y] == b else float('inf')

    def strategy():
        if criterion == 'min_distance':
            return ti.MedoidsChoiceMinDistance(md, m)
        return ti.MedoidsChoiceMinPredictionError(md, m, 'out', 'p', 2, 'MSE')

    def run(tag):
        t.evaluate_score_of_random_points(s, count, seed, criterion, limit, 'out', model_params='p', test_len=2,
                                          error_type='MSE')
        out = []
        for p in strategy().csv_filepaths('out', s, count, seed):
            with open(p, newline='') as f:
                out.append(list(csv.reader(f, delimiter=' ', quotechar='|')))
        return out
    try:
        rows, hist = run('first')
    except ValueError as err:
        H.check('gives up only if there is no point or medoid left',
                count > free or (limit and (criterion == 'min_error' or
                                            limit * sum(len(v) for v in suite.values()) < count)), repr(err))
        return
    first = fa.ClusteringMetadataFactory().from_repr(list(suite)[0])
    cols = list(first.as_dict())
    H.check('columns', rows[0] == ['region_id'] + cols + ['cluster_index', 'medoid_x', 'medoid_y'] +
            ['s%d' % i for i in range(len(d))], repr(rows[0]))
    H.check('a row each', len(rows) == count + 1)
    counts, drawn = {}, []
    texts = {}
    for x in range(xl):
        for y in range(yl):
            texts.setdefault(tuple('{:0.3f}'.format(v) for v in d[:, x, y]), []).append((x, y))
    for row in rows[1:]:
        H.check('region', row[0] == repr(md))
        own = [c for c in suite if [str(v) for v in fa.ClusteringMetadataFactory().from_repr(c).as_dict().values()]
               == row[1:1 + len(cols)]]
        H.check('a clustering of the suite', len(own) == 1, repr(row))
        c, (i, mx, my) = own[0], [int(v) for v in row[1 + len(cols):4 + len(cols)]]
        H.check('a medoid of it', 0 <= i < len(suite[c]) and suite[c][i] == (mx, my))
        points = texts.get(tuple(row[4 + len(cols):]), [])
        H.check('the series of a point', bool(points))

        def best(p):
            order = [(penalty(cc, b, q, *p), a, b)
                     for a, (cc, ms) in enumerate(suite.items()) for b, q in enumerate(ms)
                     if not limit or counts.get((cc, b), 0) < limit]
            return min(order)[1:]
        fits = [p for p in points if p[0] * yl + p[1] not in used]
        H.check('of a point that is no medoid', bool(fits))
        H.check('the closest medoid left', (list(suite).index(c), i) in [best(p) for p in fits])
        counts[c, i] = counts.get((c, i), 0) + 1
        if len(points) == 1:
            drawn.append(points[0])
    H.check('different points', len(set(drawn)) == len(drawn))
    H.check('counts', hist[0] == ['clustering_repr', 'cluster_index', 'count'] and
            {(a, int(b)): int(n) for a, b, n in hist[1:]} == counts and len(hist) == len(counts) + 1, repr(hist))
    H.check('within the limit', not limit or all(n <= limit for n in counts.values()))
    H.check('same points with the same seed', run('second') == [rows, hist])
    H.check('distances as before', np.array_equal(D, m.distance_matrix))
    ti.MedoidSeriesFormatter(md, m, s).produce_csv('out')
    with open(s.medoid_series_csv_filepath('out', md, m), newline='') as f:
        table = list(csv.reader(f, delimiter=' ', quotechar='|'))
    want = [rows[0]]
    for c, meds in suite.items():
        for i, p in enumerate(meds):
            want.append([repr(md)] + [str(v) for v in fa.ClusteringMetadataFactory().from_repr(c).as_dict().values()] +
                        [str(i), str(p.x), str(p.y)] + ['{:0.3f}'.format(v) for v in d[:, p.x - X1, p.y - Y1]])
    H.check('table of the medoids', table == want)

h_history_choice = cm.history(h_asked_choice)

SPEC = [(h_choice, {'sym': True, 'seconds': 150}), (h_integers, {'sym': True}), (h_medoid_indices, {'sym': True}),
        (h_points, {'sym': True}), (h_distance, {'sym': True}), (h_error, {'sym': True}), (h_series, {'sym': True}),
        (h_files, {'concrete': True, 'seconds': 10}),
    (h_history_choice, {'sym': True, 'seconds': 150, 'cost': 10, 'runs': 150}),
]
