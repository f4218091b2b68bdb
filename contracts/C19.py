"""C19  k nearest neighbours are nearest, and the forecast is their mean"""
import numpy as np
from . import common as cm
from .asked import h_asked_neighbours

MODULES = ['spta.model.knn', 'spta.util.arrays']

ASSUMPTIONS = ['distances are numbers (a missing distance has no order); k is not negative']
TRUSTED = ['numpy.argpartition: a permutation with nothing before position k larger, nothing after it smaller, than what is at k']


class Distance(object):
    def __init__(self, f):
        self.f = f

    def measure(self, a, b):
        return self.f(a, b)


def h_neighbours(H):
    """k distinct instances, none farther from the query than any left out"""
    kn = H.load('spta.model.knn')
    n, w = H.size('n', 0, 7), H.size('w', 1, 3)
    k = H.int('k', 0, n)
    inst, query = H.array('instances', (n, w)), H.array('query', (w,))
    q, v = H.index('q', w), H.index('v', w)
    f = H.fn('distance', 'ff')
    res = kn.find_k_nearest_neighbors(query, k, inst, Distance(lambda a, b: f(a[q], b[v])))
    d = lambda j: f(query[q], inst[j, v])      # noqa: E731
    H.check('as many as asked', H.eq(H.len(res), k))
    H.forall('stored instances', [k], lambda i: H.and_(res[i] >= 0, res[i] < n))
    H.forall('distinct', [k, k], lambda i, j: H.imp(i < j, H.not_(H.eq(res[i], res[j]))))
    H.forall('none farther than one left out', [k, n], lambda i, j: H.imp(
        H.all([k], lambda m: H.not_(H.eq(res[m], j))), d(res[i]) <= d(j)))


def h_wrong_length(H):
    """instances of another length than the query"""
    kn = H.load('spta.model.knn')
    n, w, u = H.size('n', 1, 5), H.size('w', 1, 4), H.size('u', 1, 4)
    H.assume(H.not_(H.eq(w, u)))
    k = H.int('k', 0, n)
    inst, query = H.array('instances', (n, u)), H.array('query', (w,))
    calls = []
    try:
        kn.find_k_nearest_neighbors(query, k, inst, Distance(lambda a, b: calls.append(1) or 0))
        ok = False
    except ValueError:
        ok = True
    H.check('refused', ok)
    H.check('before any distance', len(calls) == 0)


def h_one_wrong_length(H):
    """some instances of another length among many: lengths and contents of any kind"""
    kn = H.load('spta.model.knn')
    n, w = H.size('n', 1, 5), H.size('w', 1, 4)
    bad = H.index('bad', n)
    k = H.int('k', 0, n)
    query = H.array('query', (w,))
    if H.symbolic:
        size, value = H.array('size', (n,), kind='i', lo=0), H.fn('value', 'iif')
        H.assume(H.not_(H.eq(size[bad], w)))
        inst = H.listed(n, lambda i: H.tabulate((size[i],), lambda j: value(i, j)))
    else:
        u = H.int('u', 0, 4)
        H.assume(u != w)
        inst = [H.array('i%d' % i, (u if i == bad or H.bool('bad%d' % i) else w,)) for i in range(n)]
    try:
        kn.find_k_nearest_neighbors(query, k, inst, Distance(lambda a, b: 0))
        ok = False
    except ValueError:
        ok = True
    H.check('refused', ok)


def h_too_many(H):
    """more neighbours than there are instances"""
    kn = H.load('spta.model.knn')
    n, w = H.size('n', 0, 5), H.size('w', 1, 3)
    k = H.int('k', n + 1, None, 9)
    inst, query = H.array('instances', (n, w)), H.array('query', (w,))
    try:
        kn.find_k_nearest_neighbors(query, k, inst, Distance(lambda a, b: 0))
        ok = False
    except ValueError:
        ok = True
    H.check('refused', ok)


def h_windows(H):
    """all windows of a series, in order, with a stride"""
    ar = H.load('spta.util.arrays')
    n, w = H.size('n', 1, 9), H.size('w', 1, 5)
    stride = H.int('stride', 1, None, 4)
    H.assume(w <= n)
    s = H.array('series', (n,))
    a = ar.sliding_window(s, w, stride)
    m = H.div(n - w, stride) + 1
    H.check('shape', H.eq(H.shape(a), (m, w)))
    H.forall('the window', [m, w], lambda i, j: H.eq(a[i, j], s[i * stride + j]))


def h_forecast(H):
    """the forecast is the mean of the windows that are nearest to the last one (search taken from its contract)"""
    kn = H.load('spta.model.knn')
    n, w = H.size('n', 2, 8), H.size('w', 1, 3)
    H.assume(w < n)
    m = n - w
    k = H.int('k', 1, m)
    s = H.array('series', (n,))
    idx = H.array('found', (k,), 'i', 0, m - 1)
    asked = []
    measure = Distance(None)

    def contract(array, k_, possible, dist):
        asked.append((array, k_, possible, dist))
        return idx
    orig = kn.find_k_nearest_neighbors
    kn.find_k_nearest_neighbors = contract
    try:
        got = kn.predict_future_values_with_knn(s, k, w, measure)
    finally:
        kn.find_k_nearest_neighbors = orig
    H.check('one search', len(asked) == 1)
    array, k_, possible, dist = asked[0]
    H.check('with the k and the distance', H.and_(H.eq(k_, k), dist is measure))
    H.check('query and instances', H.and_(H.eq(H.shape(array), (w,)), H.eq(H.shape(possible), (m, w))))
    H.forall('the query is the last window', [w], lambda j: H.eq(array[j], s[n - w + j]))
    H.forall('the instances are all earlier windows', [m, w], lambda i, j: H.eq(possible[i, j], s[i + j]))
    H.check('length', H.eq(H.shape(got), (w,)))
    H.forall('mean of the neighbours', [w], lambda j: H.eq(got[j] * k, H.sum([k], lambda i: s[idx[i] + j])))


def h_region(H):
    """k nearest neighbours as a model: the forecast at each point is that of its own series"""
    H.use_iteration_contracts()
    kn = H.load('spta.model.knn')
    n, k, steps = H.size('n', 1, 3), H.size('k', 1, 3), H.size('steps', 1, 3)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, n, xl, yl)
    q = H.index('q', n)
    f = H.fn('forecast', 'fi')
    measure = Distance(None)
    asked = []

    def contract(time_series, k, forecast_len, distance_measure):
        asked.append((k, distance_measure, forecast_len))
        return np.array([f(time_series[q], i) for i in range(forecast_len)])
    orig = kn.predict_future_values_with_knn
    kn.predict_future_values_with_knn = contract
    try:
        m = kn.TrainerKNN(kn.KNNParams(k, measure), xl, yl).apply_to(r)
        out = m.apply_to(r.empty_region_2d(), steps).as_numpy
    finally:
        kn.predict_future_values_with_knn = orig
    H.check('grid and length', H.eq(H.shape(out), (steps, xl, yl)))
    H.each('the k, the distance and the length', asked, lambda i, c: H.and_(
        H.eq(c[0], k), c[1] is measure, H.eq(c[2], steps)))
    H.forall('forecast of the own series', [steps, xl, yl], lambda i, x, y: H.eq(out[i, x, y], f(d[q, x, y], i)))


def h_whole(H):
    """the whole forecast with real distances, checked by enumeration (ties: any choice of nearest windows)"""
    H.concrete_only('all parts together')
    from itertools import combinations
    kn = H.load('spta.model.knn')
    ds = H.load('spta.distance.dtw')
    n, w = H.int('n', 2, 9), H.int('w', 1, 4)
    H.assume(w < n)
    k = H.int('k', 1, n - w)
    s = H.array('series', (n,), lo=0, hi=6)
    if H.bool('whole numbers'):
        s = np.floor(s)
    keep = s.copy()
    measure = H.choice('distance', [lambda: ds.DistanceByDTW(), lambda: Distance(lambda a, b: abs(a - b).sum())])()
    got = kn.predict_future_values_with_knn(s, k, w, measure)
    wins = [s[i:i + w] for i in range(n - w + 1)]
    d = np.array([measure.measure(wins[-1], v) for v in wins[:-1]])
    cut = np.sort(d)[k - 1]
    sure = [i for i in range(n - w) if d[i] < cut]
    ties = [i for i in range(n - w) if d[i] == cut]
    want = [np.mean([wins[i] for i in sure + list(c)], axis=0) for c in combinations(ties, k - len(sure))]
    H.check('mean of nearest windows', any(np.allclose(got, v) for v in want), '%s %s' % (got, want))
    H.check('series unchanged', np.array_equal(s, keep))


SPEC = [
    (h_neighbours, {'sym': True, 'runs': 300}),
    (h_wrong_length, {'sym': True, 'runs': 60}),
    (h_one_wrong_length, {'sym': True, 'runs': 60}),
    (h_too_many, {'sym': True, 'runs': 60}),
    (h_windows, {'sym': True, 'runs': 100}),
    (h_forecast, {'sym': True, 'runs': 200}),
    (h_region, {'sym': True, 'runs': 80}),
    (h_whole, {'runs': 200, 'why': 'all parts together'}),
    (h_asked_neighbours, {'runs': 150, 'why': 'the same object asked many times'}),
]
