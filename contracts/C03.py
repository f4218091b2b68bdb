"""C03  applying a function region acts point by point and keeps the region kind"""
import numpy as np
from . import common as cm
from .asked import h_asked_function, h_asked_region_functions

MODULES = ['spta.region', 'spta.region.base', 'spta.region.spatial', 'spta.region.temporal', 'spta.region.scaling',
           'spta.region.function', 'spta.region.partition']

KINDS = ['spatial', 'spatio-temporal', 'scaled', 'spatial cluster', 'spatio-temporal cluster', 'scaled cluster']


def build(H, kind, tl, xl, yl):
    """-> region, its data, per-point value, member(x, y), the kinds of its results"""
    f = H.load('spta.region.spatial')
    t = H.load('spta.region.temporal')
    s = H.load('spta.region.scaling')
    if kind.startswith('spatial'):
        r, d = cm.spatial(H, xl, yl)
        what = lambda x, y: d[x, y]         # noqa: E731
    elif kind.startswith('spatio'):
        r, d = cm.spt(H, tl, xl, yl)
        what = lambda x, y: d[:, x, y]      # noqa: E731
    else:
        r, d, _, _ = cm.wrap_scaled(H, tl, xl, yl)
        what = lambda x, y: d[:, x, y]      # noqa: E731
    member = lambda x, y: True      # noqa: E731
    scalar, series, part, c = f.SpatialRegion, t.SpatioTemporalRegion, None, None
    if kind == 'scaled':
        series = s.SpatioTemporalScaled
    if kind.endswith('cluster'):
        part, lab = cm.partition(H, xl, yl)
        c = H.index('cluster', part.k)
        r = part.create_spatial_cluster(r, c) if kind == 'spatial cluster' else part.create_spt_cluster(r, c)
        member = lambda x, y: H.eq(lab[x, y], c)    # noqa: E731
        scalar, series = f.SpatialCluster, t.SpatioTemporalCluster
    return r, d, what, member, scalar, series, part, c


def kept(H, kind, res, cls, part, c):
    H.check('kind kept (' + kind + ')', isinstance(res, cls))
    if part is not None:
        H.check('same partition (' + kind + ')', H.same(res.partition, part))
        H.check('same cluster index (' + kind + ')', H.eq(res.cluster_index, c))


def own_function_class(H, base, at, dtype):
    fn = H.load('spta.region.function')

    class OwnFunctions(getattr(fn, base)):
        def function_at(self, point):
            return at(point)
    return OwnFunctions


def h_scalar(H):
    """result[x, y] is the function of (x, y) on the value or series of (x, y); zero outside a cluster"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', KINDS)
    r, d, what, member, scalar, series, part, c = build(H, kind, tl, xl, yl)
    before = cm.frozen(H, d)
    G = H.fn('G', 'iif')
    q = H.index('q', tl)
    read = (lambda v: v) if kind.startswith('spatial') else (lambda v: v[q])
    F = own_function_class(H, 'FunctionRegionScalar', lambda pt: (lambda v: G(pt.x, pt.y, read(v))), float)
    res = F(np.zeros((xl, yl))).apply_to(r)
    a = res.as_numpy
    H.check('grid (' + kind + ')', H.eq(H.shape(a), (xl, yl)))
    kept(H, kind, res, scalar, part, c)
    H.forall('own function on own value (' + kind + ')', [xl, yl], lambda x, y: H.imp(
        member(x, y), H.eq(a[x, y], G(x, y, read(what(x, y))))))
    H.forall('zero outside the cluster (' + kind + ')', [xl, yl], lambda x, y: H.or_(
        member(x, y), H.eq(a[x, y], 0)))
    H.series_equal('input unchanged (' + kind + ')', d, before)


def h_series(H):
    """result[:, x, y] is the function of (x, y) on the series of (x, y), of the requested length"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', KINDS)
    r, d, what, member, scalar, series, part, c = build(H, kind, tl, xl, yl)
    before = cm.frozen(H, d)
    G = H.fn('G', 'iiif')
    q = H.index('q', tl)
    n = H.size('n', 1, 4)
    read = (lambda v: v) if kind.startswith('spatial') else (lambda v: v[q])
    F = own_function_class(H, 'FunctionRegionSeries', lambda pt: (
        lambda v: np.array([G(t, pt.x, pt.y, read(v)) for t in range(n)])), float)
    res = F(np.zeros((xl, yl))).apply_to(r, n)
    a = res.as_numpy
    H.check('grid and length (' + kind + ')', H.eq(H.shape(a), (n, xl, yl)))
    kept(H, kind, res, series, part, c)
    H.check('series_len (' + kind + ')', H.eq(res.series_len, n))
    H.forall('own function on own series (' + kind + ')', [n, xl, yl], lambda t, x, y: H.imp(
        member(x, y), H.eq(a[t, x, y], G(t, x, y, read(what(x, y))))))
    H.forall('zero outside the cluster (' + kind + ')', [n, xl, yl], lambda t, x, y: H.or_(
        member(x, y), H.eq(a[t, x, y], 0)))
    H.series_equal('input unchanged (' + kind + ')', d, before)


def h_given_functions(H):
    """function regions given as an array of functions, or as one function for all points"""
    H.use_iteration_contracts()
    fn = H.load('spta.region.function')
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', KINDS)
    r, d, what, member, scalar, series, part, c = build(H, kind, tl, xl, yl)
    before = cm.frozen(H, d)
    G = H.fn('G', 'iiif')
    q = H.index('q', tl)
    n = H.size('n', 1, 4)
    read = (lambda v: v) if kind.startswith('spatial') else (lambda v: v[q])
    same = H.bool('the same function everywhere')
    own = lambda x, y: (lambda v: G(0, x, y, read(v)))      # noqa: E731
    many = lambda x, y: (lambda v: np.array([G(t, x, y, read(v)) for t in range(n)]))       # noqa: E731
    what_of = kind + (', same' if same else ', one each')
    if same:
        a = fn.FunctionRegionScalarSame(own(0, 0), xl, yl)
        b = fn.FunctionRegionSeriesSame(many(0, 0), xl, yl)
    else:
        if H.symbolic:
            fs, fr = H.tabulate((xl, yl), own, 'O'), H.tabulate((xl, yl), many, 'O')
        else:
            fs, fr = np.empty((xl, yl), dtype=object), np.empty((xl, yl), dtype=object)
            for x in range(xl):
                for y in range(yl):
                    fs[x, y], fr[x, y] = own(x, y), many(x, y)
        a, b = fn.FunctionRegionScalar(fs), fn.FunctionRegionSeries(fr)
    at = (lambda x: 0) if same else (lambda x: x)
    ra, rb = a.apply_to(r), b.apply_to(r, n)
    kept(H, kind, ra, scalar, part, c)
    kept(H, kind, rb, series, part, c)
    ra, rb = ra.as_numpy, rb.as_numpy
    H.check('grid (' + what_of + ')', H.eq(H.shape(ra), (xl, yl)))
    H.check('grid and length (' + what_of + ')', H.eq(H.shape(rb), (n, xl, yl)))
    H.forall('own value (' + what_of + ')', [xl, yl], lambda x, y: H.eq(
        ra[x, y], H.ite(member(x, y), G(0, at(x), at(y), read(what(x, y))), 0)))
    H.forall('own series (' + what_of + ')', [n, xl, yl], lambda t, x, y: H.eq(
        rb[t, x, y], H.ite(member(x, y), G(t, at(x), at(y), read(what(x, y))), 0)))
    H.series_equal('input unchanged (' + what_of + ')', d, before)


def h_arrays_of_functions(H):
    """function regions given as arrays of functions, and the same function everywhere, with a dtype"""
    H.concrete_only('numpy arrays of callables')
    fn = H.load('spta.region.function')
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', KINDS)
    r, d, what, member, scalar, series, part, c = build(H, kind, tl, xl, yl)
    n = H.size('n', 1, 4)
    G = H.fn('G', 'iif')
    sm = lambda v: float(np.sum(v))     # noqa: E731
    fs = np.empty((xl, yl), dtype=object)
    fr = np.empty((xl, yl), dtype=object)
    for x in range(xl):
        for y in range(yl):
            fs[x, y] = (lambda v, x=x, y=y: G(x, y, sm(v)))
            fr[x, y] = (lambda v, x=x, y=y: np.array([G(x, y, sm(v)) + t for t in range(n)]))
    dt = H.choice('dtype', [float, np.float32, int])
    for same in (False, True):
        if same:
            a = fn.FunctionRegionScalarSame(lambda v: 3.0 * G(0, 0, sm(v)), xl, yl, dtype=dt)
            b = fn.FunctionRegionSeriesSame(lambda v: np.array([G(0, 0, sm(v)) + t for t in range(n)]), xl, yl, dtype=dt)
        else:
            a, b = fn.FunctionRegionScalar(fs, dtype=dt), fn.FunctionRegionSeries(fr, dtype=dt)
        ra, rb = a.apply_to(r), b.apply_to(r, n)
        kept(H, kind, ra, scalar, part, c)
        kept(H, kind, rb, series, part, c)
        H.check('requested dtype', ra.as_numpy.dtype == np.dtype(dt) and rb.as_numpy.dtype == np.dtype(dt))
        for x in range(xl):
            for y in range(yl):
                g = G(0, 0, sm(what(x, y))) if same else G(x, y, sm(what(x, y)))
                ea = np.array([3.0 * g if same else g]).astype(dt)[0] if member(x, y) else 0
                eb = np.array([g + t for t in range(n)]).astype(dt) if member(x, y) else np.zeros(n)
                H.check('scalar (' + kind + ')', abs(float(ra.as_numpy[x, y]) - float(ea)) < 1e-4 * (1 + abs(float(ea))))
                H.check('series (' + kind + ')', bool(np.allclose(rb.as_numpy[:, x, y], eb, rtol=1e-4, atol=1e-4)))
    H.check('input unchanged', H.eq(r.as_numpy, d))


def h_refused(H):
    """regions of another grid size are refused"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 3)
    xl, yl = cm.grid(H)
    kind = H.choice('kind', KINDS)
    r, d, what, member, scalar, series, part, c = build(H, kind, tl, xl, yl)
    dx, dy = H.int('dx', 0, 3), H.int('dy', 0, 3)
    H.assume(H.or_(dx > 0, dy > 0))
    bigger = H.bool('bigger')
    if not bigger:
        H.assume(H.and_(dx < xl, dy < yl))
        dx, dy = -dx, -dy
    which = H.choice('which', ['scalar', 'series'])
    base = {'scalar': 'FunctionRegionScalar', 'series': 'FunctionRegionSeries'}[which]
    f = own_function_class(H, base, lambda pt: (lambda v: v), float)(np.zeros((xl + dx, yl + dy)))
    refused = False
    try:
        f.apply_to(r) if which == 'scalar' else f.apply_to(r, tl)
    except AssertionError:
        refused = True
    H.check('refused (' + kind + ', ' + which + ')', refused)


h_history_function = cm.history(h_asked_function)

h_history_region_functions = cm.history(h_asked_region_functions)

SPEC = [
    (h_scalar, {'sym': True, 'runs': 500}),
    (h_series, {'sym': True, 'runs': 500}),
    (h_given_functions, {'sym': True, 'runs': 150}),
    (h_arrays_of_functions, {'runs': 200, 'why': 'numpy arrays holding callables'}),
    (h_refused, {'sym': True, 'runs': 300}),
    (h_history_function, {'sym': True, 'seconds': 150, 'cost': 10, 'runs': 150}),
    (h_history_region_functions, {'sym': True, 'seconds': 150, 'cost': 10, 'runs': 150}),
]
