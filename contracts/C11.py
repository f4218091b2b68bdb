"""C11  distances match the measure for exactly the requested pairs"""
import os
import numpy as np
from . import common as cm
from .asked import h_asked_distances, h_asked_weight

MODULES = ['spta.distance', 'spta.distance.dtw', 'spta.distance.dtw_parallel', 'spta.distance.rmse', 'spta.region.temporal',
           'spta.util.arrays']


def plain_dtw(a, b):
    """dynamic time warping from its definition: least sum of squared differences along a warping path, square root"""
    n, m = len(a), len(b)
    D = np.full((n + 1, m + 1), np.inf)
    D[0, 0] = 0
    for i in range(n):
        for j in range(m):
            D[i + 1, j + 1] = (a[i] - b[j]) ** 2 + min(D[i, j], D[i, j + 1], D[i + 1, j])
    return float(np.sqrt(D[n, m]))


def any_measure(H, tl):
    """a DTW measure object whose measure is an arbitrary function of one sample (at any position) of each series"""
    dtw = H.load('spta.distance.dtw')
    f = H.fn('measure', 'ff')
    q, w = H.index('q', tl), H.index('w', tl)

    class AnyMeasure(dtw.DistanceByDTW):
        def measure(self, first_series, second_series):
            return f(first_series[q], second_series[w])
    return AnyMeasure(), lambda a, b: f(a(q), b(w))


def h_matrix(H):
    """row i, column j of the matrix of a region is the measure between the series of points i and j"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl)
    dm, g = any_measure(H, tl)
    m = dm.compute_distance_matrix(r)
    H.check('kept', H.same(dm.distance_matrix, m))
    H.check('a row and a column per point', H.eq(H.shape(m), (xl * yl, xl * yl)))
    H.forall('measure between the two points', [xl, yl, xl, yl], lambda x, y, u, v: H.eq(
        m[x * yl + y, u * yl + v], g(lambda t: d[t, x, y], lambda t: d[t, u, v])))


def h_matrix_series(H):
    """the same for an array of series"""
    n, tl = H.size('n', 1, 5), H.size('tl', 1, 3)
    X = H.array('X', (n, tl))
    dm, g = any_measure(H, tl)
    m = dm.compute_distance_matrix(X)
    H.check('a row and a column per series', H.eq(H.shape(m), (n, n)))
    H.forall('measure between the two series', [n, n], lambda i, j: H.eq(
        m[i, j], g(lambda t: X[i, t], lambda t: X[j, t])))


def h_to_a_series(H):
    """distances of a list of series to one series, in order"""
    n, tl = H.size('n', 1, 5), H.size('tl', 1, 3)
    X = H.array('X', (n, tl))
    s = H.array('s', (tl,))
    dm, g = any_measure(H, tl)
    out = dm.compute_distances_to_a_series(s, X)
    H.check('one per series', H.eq(H.len(out), n))
    H.each('in order', out, lambda j, v: H.eq(v, g(lambda t: s[t], lambda t: X[j, t])))


def h_to_point(H):
    """distances to a point: the ones to each requested index, in order, read from the matrix or measured anew"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl)
    P = H.load('spta.region').Point
    dm, g = any_measure(H, tl)
    how = H.choice('how', ['matrix', 'anew'])
    if how == 'matrix':
        dm.distance_matrix = H.array('matrix', (xl * yl, xl * yl))
    x, y = H.index('x', xl), H.index('y', yl)
    n = H.size('n', 1, 5)
    ix = H.array('indices', (n,), 'i', 0, xl * yl - 1)
    out = dm.distances_to_point(r, P(x, y), ix, only_if_precalculated=False)
    H.check('one per requested index (' + how + ')', H.eq(H.shape(out), (n,)))
    if how == 'matrix':
        H.forall('in order (matrix)', [n], lambda k: H.eq(out[k], dm.distance_matrix[x * yl + y, ix[k]]))
    else:
        u, v = H.index('u', xl), H.index('v', yl)
        k = H.index('k', n)
        H.assume(H.eq(ix[k], u * yl + v))
        H.check('in order (anew)', H.eq(out[k], g(lambda t: d[t, x, y], lambda t: d[t, u, v])))


def h_refuse_without_matrix(H):
    """a region without a stored matrix is refused when only stored ones are accepted"""
    tl = H.size('tl', 1, 2)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl)
    P = H.load('spta.region').Point
    dm, g = any_measure(H, tl)
    try:
        dm.distances_to_point(r, P(0, 0), [0])
        ok = False
    except ValueError:
        ok = True
    H.check('refused', ok)


def h_weight(H):
    """the spatial weight adds weight times the euclidean distance between the points, once"""
    xl, yl = cm.grid(H, 3)
    R = H.load('spta.region').Region
    w = H.real('weight')
    dm = H.load('spta.distance.dtw').DistanceBySpatialDTW(w)
    m0 = H.array('matrix', (xl * yl, xl * yl))
    dm.distance_matrix = m0.copy()
    x1, y1 = H.int('x1', 0, None, 9), H.int('y1', 0, None, 9)
    twice = H.choice('twice', [False, True])
    m = dm.weight_distance_matrix(R(x1, x1 + xl, y1, y1 + yl))
    if twice:
        m = dm.weight_distance_matrix(R(x1, x1 + xl, y1, y1 + yl))
    H.check('the matrix in use', H.same(m, dm.distance_matrix))
    x, y, u, v = H.index('x', xl), H.index('y', yl), H.index('u', xl), H.index('v', yl)
    i, j = x * yl + y, u * yl + v
    e = H.sqrt((x - u) * (x - u) + (y - v) * (y - v))
    H.check('weighted distance added', H.eq(m[i, j], m0[i, j] + e * w))


def near(a, b):
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)


def h_dtw(H):
    """with the real DTW measure: matrix, symmetry, diagonal, definition; missing series have missing distances"""
    H.concrete_only('tslearn')
    tl = H.size('tl', 1, 5)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl)
    if H.bool('some missing'):
        d[H.index('mt', tl), H.index('mx', xl), H.index('my', yl)] = np.nan
    dm = H.load('spta.distance.dtw').DistanceByDTW()
    m = dm.compute_distance_matrix(r)
    n = xl * yl
    s = d.reshape(tl, n).T
    want = np.array([[np.nan if np.isnan(s[i]).any() or np.isnan(s[j]).any() else plain_dtw(s[i], s[j])
                      for j in range(n)] for i in range(n)])
    H.check('distances by definition', near(m, want))
    H.check('symmetric', near(m, m.T))
    H.check('zero diagonal', all(m[i, i] == 0 for i in range(n) if not np.isnan(s[i]).any()))
    H.check('array of series', near(H.load('spta.distance.dtw').DistanceByDTW().compute_distance_matrix(s), want))
    P = H.load('spta.region').Point
    x, y = H.index('x', xl), H.index('y', yl)
    got = dm.distances_to_point(r, P(x, y), r.all_point_indices)
    H.check('all distances to a point', near(got, want[x * yl + y]))
    H.check('combined distances add up', H.eq(dm.combine(got), np.sum(want[x * yl + y])))
    p, lab = cm.partition(H, xl, yl)
    c = lab[x, y]
    cl = p.create_spt_cluster(r, c)
    inside = [i for i in range(n) if lab.reshape(n)[i] == c]
    H.check('distances within a cluster', near(dm.distances_to_point(cl, P(x, y), cl.all_point_indices), want[x * yl + y][inside]))


def h_rmse(H):
    """the root mean squared measure and how it is combined"""
    n = H.size('n', 1, 6)
    a, b = H.array('a', (n,), nan=H.bool('missing')), H.array('b', (n,))
    dm = H.load('spta.distance.rmse').DistanceByRMSE()
    v = dm.measure(a, b)
    if np.isnan(a).any():
        H.check('missing', np.isnan(v))
    else:
        H.check('root of the mean square', H.eq(v, (sum((p - q) ** 2 for p, q in zip(a, b)) / n) ** 0.5))
        H.check('combined', H.eq(dm.combine(b), (sum(q * q for q in b) / n) ** 0.5))


def h_parallel(H):
    """the parallel computation gives the same matrix"""
    H.concrete_only('process pool')
    tl = H.size('tl', 1, 4)
    xl, yl = cm.grid(H, 4)
    r, d = cm.spt(H, tl, xl, yl)
    workers = H.int('workers', 1, 4)
    m = H.load('spta.distance.dtw_parallel').DistanceByDTWParallel(workers).compute_distance_matrix(r)
    want = H.load('spta.distance.dtw').DistanceByDTW().compute_distance_matrix(r)
    H.check('same shape', m.shape == want.shape)
    H.check('same distances', near(m, want))
    n = xl * yl
    s = d.reshape(tl, n).T
    H.check('distances by definition', near(m, np.array([[plain_dtw(a, b) for b in s] for a in s])))


def h_load(H):
    """stored matrices: read back as they are, refused when their size does not fit, weighted once per load"""
    H.concrete_only('files')
    xl, yl = cm.grid(H, 4)
    n = xl * yl
    md_mod = H.load('spta.region.metadata')
    R, P = H.load('spta.region').Region, H.load('spta.region').Point
    os.mkdir('raw')
    x1, y1 = H.int('x1', 0, 9), H.int('y1', 0, 9)
    md = md_mod.SpatioTemporalRegionMetadata('m', R(x1, x1 + xl, y1, y1 + yl), 2014, 2015, 1, dataset_dir='raw')
    rows = n + H.choice('rows', [0, 0, 0, 1, -1])
    cols = n + H.choice('cols', [0, 0, 0, 1, -1])
    H.assume(rows > 0 and cols > 0)
    a = H.array('matrix', (rows, cols))
    np.save(md.distances_filename, a)
    r, d = cm.spt(H, 2, xl, yl, metadata=md)
    weight = H.choice('weight', [None, 0, 0.5, 2])
    mod = H.load('spta.distance.dtw')
    dm = mod.DistanceByDTW() if weight is None else mod.DistanceBySpatialDTW(weight)
    pts = np.array([[i // yl, i % yl] for i in range(n)])
    how = H.choice('how', ['file', 'metadata', 'try', 'first use'])

    def load():
        if how == 'file':
            return dm.load_distance_matrix_2d(md.distances_filename, md.region)
        if how == 'metadata':
            return dm.load_distance_matrix_md(md)
        if how == 'try':
            return dm.try_load_distance_matrix(r)
        dm.distance_matrix = None
        dm.distances_to_point(r, P(0, 0), [0])
        return dm.distance_matrix
    if (rows, cols) != (n, n):
        try:
            load()
            ok = False
        except ValueError:
            ok = True
        H.check('a matrix of another size is refused', ok)
        H.check('and not used', dm.distance_matrix is None)
        return
    want = a if weight is None else a + weight * np.array([[np.hypot(*(p - q)) for q in pts] for p in pts])
    H.check('loaded', near(load(), want))
    H.check('in use', near(dm.distance_matrix, want))
    i = H.index('i', n)
    ix = [H.index('j%d' % k, n) for k in range(H.int('js', 1, 4))]
    got = dm.distances_to_point(r, P(i // yl, i % yl), ix)
    H.check('distances of the requested indices in order', near(np.array(got), want[i, ix]))
    if H.bool('again'):
        H.check('loaded again', near(load(), want))
        H.check('in use after loading again', near(dm.distance_matrix, want))
    if H.bool('other region'):
        yl2 = yl + 1
        n2 = xl * yl2
        b = np.arange(n2 * n2, dtype=float).reshape(n2, n2)
        md2 = md_mod.SpatioTemporalRegionMetadata('o', R(0, xl, 0, yl2), 2014, 2015, 1, dataset_dir='raw')
        np.save(md2.distances_filename, b)
        pts2 = np.array([[k // yl2, k % yl2] for k in range(n2)])
        want2 = b if weight is None else b + weight * np.array([[np.hypot(*(p - q)) for q in pts2] for p in pts2])
        dm.load_distance_matrix_md(md2)
        H.check('matrix of another region', near(dm.distance_matrix, want2))


def h_load_any(H):
    """stored matrices of any grid: read back, refused when their size does not fit, weighted once per load; a second
    matrix of another region takes its place"""
    xl, yl = cm.grid(H, 4)
    n = xl * yl
    md_mod = H.load('spta.region.metadata')
    R, P = H.load('spta.region').Region, H.load('spta.region').Point
    if not H.symbolic:
        os.mkdir('raw')
    x1, y1 = H.int('x1', 0, None, 9), H.int('y1', 0, None, 9)
    md = md_mod.SpatioTemporalRegionMetadata('m', R(x1, x1 + xl, y1, y1 + yl), 2014, 2015, 1, dataset_dir='raw')
    fits = H.bool('fits')
    if fits:
        rows, cols = n, n
    else:
        rows, cols = H.int('rows', 1, None, 12), H.int('cols', 1, None, 12)
        H.assume(H.or_(rows != n, cols != n))
    a = H.array('matrix', (rows, cols))
    np.save(md.distances_filename, a)
    r, d = cm.spt(H, 2, xl, yl, metadata=md)
    spatial = H.bool('spatial')
    mod = H.load('spta.distance.dtw')
    w = H.real('weight') if spatial else 0
    dm = mod.DistanceBySpatialDTW(w) if spatial else mod.DistanceByDTW()
    how = H.choice('how', ['file', 'metadata', 'try', 'first use'])
    weights = []
    if H.symbolic and spatial:
        # by its contract (proved by h_weight): the weights of the points' distances are added once
        def add_weights(region):
            if not weights:
                weights.append((region, H.array('weights', (n, n))))
            if not dm.weighted:
                if region is not weights[0][0]:
                    k = xl * (yl + 1)
                    weights.append((region, H.array('weights of the other', (k, k))))
                dm.distance_matrix = dm.distance_matrix + weights[-1][1]
                dm.weighted = True
            return dm.distance_matrix
        dm.weight_distance_matrix = add_weights

    def load():
        if how == 'file':
            return dm.load_distance_matrix_2d(md.distances_filename, md.region)
        if how == 'metadata':
            return dm.load_distance_matrix_md(md)
        if how == 'try':
            return dm.try_load_distance_matrix(r)
        dm.distance_matrix = None
        dm.distances_to_point(r, P(0, 0), [0])
        return dm.distance_matrix
    if not fits:
        try:
            load()
            ok = False
        except ValueError:
            ok = True
        H.check('a matrix of another size is refused', ok)
        H.check('and not used', dm.distance_matrix is None)
        return
    x, y, u, v = H.index('x', xl), H.index('y', yl), H.index('u', xl), H.index('v', yl)
    i, j = x * yl + y, u * yl + v
    m = load()
    if weights:
        e = weights[0][1][i, j]
    else:
        e = w * H.sqrt((x - u) * (x - u) + (y - v) * (y - v)) if spatial else 0
    H.check('loaded', H.eq(m[i, j], a[i, j] + e))
    H.check('in use', H.eq(dm.distance_matrix[i, j], a[i, j] + e))
    if H.bool('again'):
        m = load()
        H.check('loaded again', H.eq(m[i, j], a[i, j] + e))
        H.check('in use after loading again', H.eq(dm.distance_matrix[i, j], a[i, j] + e))
    if H.bool('other region'):
        y2 = yl + 1
        b = H.array('matrix of the other', (xl * y2, xl * y2))
        md2 = md_mod.SpatioTemporalRegionMetadata('o', R(0, xl, 0, y2), 2014, 2015, 1, dataset_dir='raw')
        np.save(md2.distances_filename, b)
        dm.load_distance_matrix_md(md2)
        if weights:
            e = weights[-1][1][x * y2 + y, u * y2 + v]
        H.check('matrix of another region', H.eq(dm.distance_matrix[x * y2 + y, u * y2 + v],
                                                 b[x * y2 + y, u * y2 + v] + e))


def h_measured_anew(H):
    """with metadata but no stored matrix the distances are measured, or refused when only stored ones are accepted"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H, 3)
    tl = H.size('tl', 1, 4)
    md = cm.metadata(H, xl, yl)
    r, d = cm.spt(H, tl, xl, yl, metadata=md)
    P = H.load('spta.region').Point
    real = not H.symbolic and H.bool('real measure')
    if real:
        dm = H.load('spta.distance.dtw').DistanceByDTW()
    else:
        f, q, w = H.fn('measure', 'ff'), H.index('sample', tl), H.index('other sample', tl)

        class Measure(H.load('spta.distance.dtw').DistanceByDTW):
            def measure(self, first_series, second_series):
                return f(first_series[q], second_series[w])
        dm = Measure()
    x, y = H.index('x', xl), H.index('y', yl)
    if H.bool('only stored'):
        try:
            dm.distances_to_point(r, P(x, y), r.all_point_indices)
            ok = False
        except ValueError:
            ok = True
        H.check('refused', ok)
        return
    got = dm.distances_to_point(r, P(x, y), r.all_point_indices, only_if_precalculated=False)
    H.check('a distance per point', H.eq(H.len(got), xl * yl))
    u, v = H.index('u', xl), H.index('v', yl)
    if real:
        H.check('measured with the real measure', near(np.array(got[u * yl + v]), np.array(plain_dtw(d[:, x, y], d[:, u, v]))))
    else:
        H.check('measured', H.eq(got[u * yl + v], f(d[q, x, y], d[w, u, v])))


h_history_distances = cm.history(h_asked_distances)


SPEC = [
    (h_matrix, {'sym': True, 'runs': 150}),
    (h_matrix_series, {'sym': True, 'runs': 150}),
    (h_to_a_series, {'sym': True, 'runs': 200}),
    (h_to_point, {'sym': True, 'runs': 200}),
    (h_refuse_without_matrix, {'sym': True, 'runs': 30}),
    (h_weight, {'sym': True, 'runs': 200}),
    (h_dtw, {'runs': 150, 'why': 'tslearn DTW'}),
    (h_rmse, {'sym': True, 'runs': 100}),
    (h_load, {'runs': 300, 'why': 'files'}),
    (h_load_any, {'sym': True, 'runs': 150}),
    (h_measured_anew, {'sym': True, 'runs': 120}),
    (h_parallel, {'runs': 6, 'min': 2, 'cost': 5, 'why': 'process pool; the schedules explored are those of the operating system'}),
    (h_history_distances, {'sym': True, 'runs': 150}),
    (h_asked_weight, {'runs': 150, 'why': 'the same object asked many times'}),
]
ASSUMPTIONS = ['in the proved part the measure is an arbitrary function of one arbitrary sample of each of the two series '
               '(measure(a, b) = f(a[q], b[w]) for any f, q, w): the code only passes series to it']
