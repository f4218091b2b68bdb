"""C08  regular partitioning tiles the region with k non-empty rectangles"""
from math import isqrt
import numpy as np
from . import common as cm

MODULES = ['spta.util.arrays', 'spta.util.maths', 'spta.region.partition', 'spta.clustering.regular']


def real_divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def balanced(k):
    d = max(d for d in range(1, isqrt(k) + 1) if k % d == 0)
    return d, k // d


FACTORS = [(1, 1), (2, 1), (2, 2), (1, 3), (3, 2), (2, 3)]
MORE_FACTORS = [(3, 3), (4, 3), (3, 4), (5, 1), (1, 5), (5, 4), (4, 5), (6, 4), (7, 1)]


def h_tiling(H):
    """for factors dx * dy = k given by the contract of two_balanced_divisors_order_x_y: the labels are laid out
    row by row, in bands of consecutive rows and columns, none empty; or ValueError exactly when a factor does
    not fit"""
    arrays = H.load('spta.util.arrays')
    maths = H.load('spta.util.maths')
    xl, yl = H.size('xl', 1, 12), H.size('yl', 1, 12)
    dx, dy = H.choice('factors', FACTORS)
    k = dx * dy
    asked = []

    def contract(n, a, b):
        asked.append((n, a, b))
        return dx, dy
    orig = maths.two_balanced_divisors_order_x_y
    maths.two_balanced_divisors_order_x_y = contract
    refused = False
    try:
        m = arrays.regular_partitioning(xl, yl, k)
    except ValueError:
        refused = True
    finally:
        maths.two_balanced_divisors_order_x_y = orig
    if asked:
        H.check('factors of k in the order of the grid', H.eq(asked[0], (k, xl, yl)))
    fits = H.and_(xl >= dx, yl >= dy)
    if refused:
        H.check('refused only when the factors do not fit', H.not_(fits))
        return
    H.check('refused when the factors do not fit', fits)
    H.check('grid', H.eq(H.shape(m), (xl, yl)))
    # the band a row or column belongs to: consecutive, none empty
    row = lambda x: H.div(m[x, 0], dy)          # noqa: E731
    col = lambda y: H.mod(m[0, y], dy)          # noqa: E731
    H.forall('labels in 0..k-1', [xl, yl], lambda x, y: H.and_(m[x, y] >= 0, m[x, y] < k))
    H.forall('label = row band * factor + column band', [xl, yl], lambda x, y: H.eq(m[x, y], row(x) * dy + col(y)))
    H.check('first row and column bands', H.and_(H.eq(row(0), 0), H.eq(col(0), 0)))
    H.check('last row band', H.eq(row(xl - 1), dx - 1))
    H.check('last column band', H.eq(col(yl - 1), dy - 1))
    H.forall('row bands are consecutive', [xl - 1], lambda x: H.or_(
        H.eq(row(x + 1), row(x)), H.eq(row(x + 1), row(x) + 1)))
    H.forall('column bands are consecutive', [yl - 1], lambda y: H.or_(
        H.eq(col(y + 1), col(y)), H.eq(col(y + 1), col(y) + 1)))


def exhaustive_tiling(H, xl, yl, k, m):
    dx, dy = balanced(k)
    if xl >= yl:
        dx, dy = dy, dx
    H.check('labels are exactly 0..k-1', sorted(set(int(v) for v in np.unique(m))) == list(range(k)), 'k=%d %dx%d' % (k, xl, yl))
    xs, ys = [], []
    for i in range(k):
        where = np.argwhere(m == i)
        (a, c), (b, e) = where.min(axis=0), where.max(axis=0)
        H.check('contiguous rectangle', len(where) == (b - a + 1) * (e - c + 1), 'k=%d label %d %dx%d' % (k, i, xl, yl))
        xs.append((a, b))
        ys.append((c, e))
    for i in range(k):
        r, c = divmod(i, dy)
        H.check('laid out row by row', xs[i] == xs[r * dy] and ys[i] == ys[c], 'k=%d label %d %dx%d' % (k, i, xl, yl))
        if r:
            H.check('rows follow', xs[i][0] == xs[i - dy][1] + 1, 'k=%d label %d %dx%d' % (k, i, xl, yl))
        if c:
            H.check('columns follow', ys[i][0] == ys[i - 1][1] + 1, 'k=%d label %d %dx%d' % (k, i, xl, yl))


def h_all_grids(H):
    """all k up to 60 on grids of all sizes up to 40 x 40 (a slice of them each run)"""
    H.concrete_only('the divisor functions use sets and square roots')
    arrays = H.load('spta.util.arrays')
    part = H.load('spta.region.partition')
    k = H.int('k', 1, None, 60)
    xl, yl = H.int('xl', 1, None, 40), H.int('yl', 1, None, 40)
    if H.bool('fits closely'):
        a, b = balanced(k)
        if H.bool('turned'):
            a, b = b, a
        xl, yl = H.int('close_x', a, a + 5), H.int('close_y', b, b + 5)
    dx, dy = balanced(k)
    if xl >= yl:
        dx, dy = dy, dx
    try:
        m = arrays.regular_partitioning(xl, yl, k)
    except ValueError:
        H.check('refused only when the factors do not fit', dx > xl or dy > yl, 'k=%d %dx%d' % (k, xl, yl))
        return
    H.check('refused when the factors do not fit', dx <= xl and dy <= yl, 'k=%d %dx%d' % (k, xl, yl))
    exhaustive_tiling(H, xl, yl, k, m)
    p = part.PartitionRegionCrisp.with_regular_partition(k, xl, yl)
    H.check('partition with these labels', p.k == k and np.array_equal(p.as_numpy, m), 'k=%d %dx%d' % (k, xl, yl))


def h_large(H):
    """large grids, like those of the dataset"""
    H.concrete_only('the divisor functions use sets and square roots')
    arrays = H.load('spta.util.arrays')
    k = H.int('k', 1, None, 150)
    xl, yl = H.int('xl', 10, None, 120), H.int('yl', 10, None, 120)
    try:
        m = arrays.regular_partitioning(xl, yl, k)
    except ValueError:
        dx, dy = balanced(k)
        if xl >= yl:
            dx, dy = dy, dx
        H.check('refused only when the factors do not fit', dx > xl or dy > yl, 'k=%d %dx%d' % (k, xl, yl))
        return
    exhaustive_tiling(H, xl, yl, k, m)


def h_divisors(H):
    """divisors of a number, and its most balanced factors, the larger one along the longer side"""
    H.concrete_only('sets and square roots')
    maths = H.load('spta.util.maths')
    big = H.bool('large')
    n = H.int('n', 1, None, 20000 if big else 400)
    if H.bool('square or near'):
        q = H.int('root', 1, None, 140)
        n = max(1, q * q + H.int('off', -1, 1))
    want = real_divisors(n)
    got = maths.divisors(n)
    H.check('all divisors in increasing order', list(got) == want, 'n=%d: %s' % (n, got))
    if n == 1:
        return
    a, b = maths.find_two_balanced_divisors(n)
    H.check('factors multiply to n', a * b == n, 'n=%d' % n)
    H.check('no closer pair', abs(a - b) == min(abs(d - n // d) for d in want), 'n=%d: %s' % (n, (a, b)))
    H.check('increasing', a <= b)
    xl, yl = H.int('xl', 1, None, 30), H.int('yl', 1, None, 30)
    dx, dy = maths.two_balanced_divisors_order_x_y(n, xl, yl)
    H.check('the same factors', sorted((dx, dy)) == sorted((a, b)))
    H.check('larger one along the longer side', xl == yl or (dx >= dy if xl > yl else dx <= dy), 'n=%d %dx%d' % (n, xl, yl))


def h_balanced(H):
    """the two factors, given the divisors in increasing order (their contract): they multiply to n, in order, and no
    divisor lies between them"""
    maths = H.load('spta.util.maths')
    if not H.symbolic:
        n = H.int('n', 2, None, 3000)
        divs = real_divisors(n)
        L = len(divs)
        f = lambda i: divs[i]      # noqa: E731
        given = list(divs)
    else:
        n, L = H.int('n', 2, None), H.int('L', 2, None)
        d = H.array('divisors', (L,), 'i', 1, None)
        f = lambda i: d[i]      # noqa: E731
        H.assume(H.all([L], lambda i: H.and_(H.eq(d[i] * d[L - 1 - i], n), d[i] >= 1)))
        H.assume(H.all([L], lambda i: H.eq(H.div(n, d[i]), d[L - 1 - i])))      # follows from the line before
        H.assume(H.all([L, L], lambda i, j: H.imp(i < j, d[i] < d[j])))
        H.assume(H.and_(H.eq(d[0], 1), H.eq(d[L - 1], n)))
        given = H.listed(L, lambda i: d[i])
    kept = maths.divisors
    maths.divisors = lambda k: given
    try:
        pair = maths.find_two_balanced_divisors(n)
    finally:
        maths.divisors = kept
    H.check('a pair', H.eq(H.len(pair), 2))
    a, b = pair[0], pair[1]
    H.check('factors multiply to n', H.eq(a * b, n))
    H.check('increasing', a <= b)
    H.forall('no closer pair', [L], lambda j: H.or_(f(j) <= a, f(j) >= b))


def h_ordered(H):
    """of the two factors (their contract: increasing) the larger one goes along the longer side"""
    maths = H.load('spta.util.maths')
    kept = maths.find_two_balanced_divisors
    if H.symbolic:
        a, b = H.int('a', 1, None), H.int('b', 1, None)
        H.assume(a <= b)
    else:
        a, b = kept(H.int('n', 2, None, 2000))
    xl, yl = H.int('xl', 1, None, 50), H.int('yl', 1, None, 50)
    maths.find_two_balanced_divisors = lambda n: [a, b]
    try:
        dx, dy = maths.two_balanced_divisors_order_x_y(a * b, xl, yl)
    finally:
        maths.find_two_balanced_divisors = kept
    H.check('the same factors', H.or_(H.and_(H.eq(dx, a), H.eq(dy, b)), H.and_(H.eq(dx, b), H.eq(dy, a))))
    H.check('larger one along the longer side', H.and_(H.imp(xl > yl, dx >= dy), H.imp(xl < yl, dx <= dy)))


def h_algorithm(H):
    """the regular clustering algorithm labels like the regular partition"""
    H.concrete_only('clustering algorithm object')
    reg = H.load('spta.clustering.regular')
    arrays = H.load('spta.util.arrays')
    k = H.int('k', 2, None, 12)
    xl, yl = H.int('xl', 1, None, 9), H.int('yl', 1, None, 9)
    tl = H.size('tl', 1, 2)
    r, d = cm.spt(H, tl, xl, yl, metadata=cm.metadata(H, xl, yl))
    alg = reg.RegularClusteringAlgorithm(reg.RegularClusteringMetadata(k), H.load('spta.distance.dtw').DistanceByDTW())
    try:
        p = alg.partition(r, with_medoids=False)
    except ValueError:
        dx, dy = balanced(k)
        if xl >= yl:
            dx, dy = dy, dx
        H.check('refused only when the factors do not fit', dx > xl or dy > yl, 'k=%d %dx%d' % (k, xl, yl))
        return
    H.check('k', p.k == k)
    H.check('labels', np.array_equal(p.as_numpy, arrays.regular_partitioning(xl, yl, k)))
    q = alg.partition_2d(cm.spatial(H, xl, yl)[0])
    H.check('labels of a spatial region', q.k == k and np.array_equal(q.as_numpy, p.as_numpy))


SPEC = [
    (h_tiling, {'sym': True, 'runs': 300}),
    (h_all_grids, {'runs': 3000, 'why': 'the divisor functions use sets and square roots'}),
    (h_large, {'runs': 60, 'why': 'large grids'}),
    (h_balanced, {'sym': True, 'runs': 300}),
    (h_ordered, {'sym': True, 'runs': 200}),
    (h_divisors, {'runs': 800, 'why': 'sets and square roots'}),
    (h_algorithm, {'runs': 100, 'why': 'clustering algorithm object with files'}),
]
