"""C06  scaling maps each series to [0,1] and descaling restores it"""
import os
import numpy as np
from . import common as cm
from .asked import h_asked_scale, h_asked_descale

MODULES = ['spta.region', 'spta.region.base', 'spta.region.spatial', 'spta.region.temporal', 'spta.region.scaling',
           'spta.region.function', 'spta.region.partition', 'spta.region.metadata']


def missing(H, d, tl, x, y):
    return H.all([tl], lambda t: H.isnan(d[t, x, y]))


def h_scale(H):
    """each series independently onto [0,1]; order kept; minimum at 0, maximum at 1; constant -> 0; all-missing stays"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 5)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl, nan=False)
    before = cm.frozen(H, d)
    s = H.load('spta.region.scaling').ScaleFunction(xl, yl).apply_to(r, tl)
    a = s.as_numpy
    H.check('scaled region', isinstance(s, H.load('spta.region.scaling').SpatioTemporalScaled))
    H.check('grid and length', H.eq(H.shape(a), (tl, xl, yl)))
    mn, mx = s.scale_min.as_numpy, s.scale_max.as_numpy
    H.forall('stored minimum is below', [tl, xl, yl], lambda t, x, y: mn[x, y] <= d[t, x, y])
    H.forall('stored maximum is above', [tl, xl, yl], lambda t, x, y: mx[x, y] >= d[t, x, y])
    H.forall('the minimum is reached', [xl, yl], lambda x, y: H.any([tl], lambda t: H.eq(d[t, x, y], mn[x, y])))
    H.forall('the maximum is reached', [xl, yl], lambda x, y: H.any([tl], lambda t: H.eq(d[t, x, y], mx[x, y])))
    H.forall('minimum at 0', [tl, xl, yl], lambda t, x, y: H.imp(H.eq(d[t, x, y], mn[x, y]), H.eq(a[t, x, y], 0)))
    H.forall('maximum at 1, unless constant', [tl, xl, yl], lambda t, x, y: H.imp(
        H.and_(H.eq(d[t, x, y], mx[x, y]), mn[x, y] < mx[x, y]), H.eq(a[t, x, y], 1)))
    H.forall('constant series are zero', [tl, xl, yl], lambda t, x, y: H.imp(
        H.eq(mn[x, y], mx[x, y]), H.eq(a[t, x, y], 0)))
    H.series_equal('input unchanged', r.as_numpy, before)


def h_scale_range(H):
    """values stay in [0,1] and keep their order"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 5)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl)
    s = H.load('spta.region.scaling').ScaleFunction(xl, yl).apply_to(r, tl)
    a = s.as_numpy
    mn, mx = s.scale_min.as_numpy, s.scale_max.as_numpy
    x, y = H.index('x', xl), H.index('y', yl)
    t, u = H.index('t', tl), H.index('u', tl)
    w = mx[x, y] - mn[x, y]
    if H.symbolic:
        H.check('affine in the value', H.imp(w > 0, H.eq(a[t, x, y] * w, d[t, x, y] - mn[x, y])))
    H.check('between 0 and 1', H.and_(a[t, x, y] >= 0, a[t, x, y] <= 1))
    H.check('order kept', H.imp(d[t, x, y] <= d[u, x, y], a[t, x, y] <= a[u, x, y]))
    H.check('strict order kept', H.imp(H.and_(d[t, x, y] < d[u, x, y], w > 0), a[t, x, y] < a[u, x, y]))


def h_descale(H):
    """descaling returns the original, also of a rectangle, an interval and (at the members) of a cluster"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 5)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl)
    s = H.load('spta.region.scaling').ScaleFunction(xl, yl).apply_to(r, tl)
    P = H.load('spta.region').Point
    what = H.choice('what', ['whole', 'rectangle', 'interval', 'cluster', 'rectangle of rectangle', 'both'])
    if what == 'whole':
        o = s.descale()
        H.check('a plain region (whole)', H.not_(o.has_scaling()))
        H.series_equal('original data (whole)', o.as_numpy, d)
    elif what in ('rectangle', 'rectangle of rectangle'):
        R = H.load('spta.region').Region
        x1, y1 = H.index('x1', xl), H.index('y1', yl)
        x2, y2 = H.int('x2', x1 + 1, xl), H.int('y2', y1 + 1, yl)
        sub = s.region_subset(R(x1, x2, y1, y2))
        if what != 'rectangle':
            x3, y3 = H.index('x3', x2 - x1), H.index('y3', y2 - y1)
            sub = sub.region_subset(R(x3, x2 - x1, y3, y2 - y1))
            x1, y1 = x1 + x3, y1 + y3
        o = sub.descale().as_numpy
        H.check('still scaled (' + what + ')', sub.has_scaling())
        H.check('grid (' + what + ')', H.eq(H.shape(o), (tl, x2 - x1, y2 - y1)))
        H.forall('original data (' + what + ')', [tl, x2 - x1, y2 - y1], lambda t, x, y: H.eq(
            o[t, x, y], d[t, x1 + x, y1 + y]))
    elif what == 'interval':
        T = H.load('spta.region').TimeInterval
        t1 = H.index('t1', tl)
        t2 = H.int('t2', t1 + 1, tl)
        o = s.interval_subset(T(t1, t2)).descale().as_numpy
        H.check('length (interval)', H.eq(H.shape(o), (t2 - t1, xl, yl)))
        H.forall('original data (interval)', [t2 - t1, xl, yl], lambda t, x, y: H.eq(o[t, x, y], d[t1 + t, x, y]))
    elif what == 'both':
        R, T = H.load('spta.region').Region, H.load('spta.region').TimeInterval
        x1, y1, t1 = H.index('x1', xl), H.index('y1', yl), H.index('t1', tl)
        x2, y2, t2 = H.int('x2', x1 + 1, xl), H.int('y2', y1 + 1, yl), H.int('t2', t1 + 1, tl)
        o = s.subset(R(x1, x2, y1, y2), T(t1, t2)).descale().as_numpy
        H.check('grid (rectangle and interval)', H.eq(H.shape(o), (t2 - t1, x2 - x1, y2 - y1)))
        H.forall('original data (rectangle and interval)', [t2 - t1, x2 - x1, y2 - y1], lambda t, x, y: H.eq(
            o[t, x, y], d[t1 + t, x1 + x, y1 + y]))
    else:
        p, lab = cm.partition(H, xl, yl)
        c = H.index('cluster', p.k)
        cl = p.create_spt_cluster(s, c)
        H.check('has scaling (cluster)', cl.has_scaling())
        o = cl.descale()
        H.check('the same cluster', H.and_(H.same(o.partition, p), H.eq(o.cluster_index, c)))
        b = o.as_numpy
        H.forall('original data at the members', [tl, xl, yl], lambda t, x, y: H.or_(
            H.not_(H.eq(lab[x, y], c)), H.eq(b[t, x, y], d[t, x, y])))


def h_missing(H):
    """missing samples and all-missing series"""
    H.concrete_only('missing samples inside a series')
    tl = H.size('tl', 1, 6)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl, nan=True)
    if H.bool('some all missing'):
        d[:, H.index('mx', xl), H.index('my', yl)] = np.nan
    if H.bool('some constant'):
        d[:, H.index('cx', xl), H.index('cy', yl)] = 1.25
    before = d.copy()
    via = H.choice('via', ['region', 'cluster'])
    lab = np.zeros((xl, yl), dtype=int)
    c = 0
    src = r
    if via == 'cluster':
        p, lab = cm.partition(H, xl, yl)
        c = H.index('cluster', p.k)
        src = p.create_spt_cluster(r, c)
    s = H.load('spta.region.scaling').ScaleFunction(xl, yl).apply_to(src, tl)
    o = s.descale().as_numpy
    a = s.as_numpy
    for x in range(xl):
        for y in range(yl):
            if lab[x, y] != c:
                continue
            q = before[:, x, y]
            if np.isnan(q).all():
                H.check('all-missing stays missing', bool(np.isnan(a[:, x, y]).all() and np.isnan(o[:, x, y]).all()))
                continue
            lo, hi = np.nanmin(q), np.nanmax(q)
            H.check('extremes', H.eq(s.scale_min.as_numpy[x, y], lo) and H.eq(s.scale_max.as_numpy[x, y], hi))
            if lo == hi:
                H.check('constant is zero', bool((a[:, x, y] == 0).all()))
                if not np.isnan(q).any():
                    H.check('descaled constant', H.eq(o[:, x, y], q))
            else:
                H.check('scaled', H.eq(a[:, x, y], (q - lo) / (hi - lo)))
                H.check('minimum at 0', bool((a[:, x, y][q == lo] == 0).all()))
                H.check('maximum at 1', bool((a[:, x, y][q == hi] == 1).all()))
                H.check('descaled', H.eq(o[:, x, y], q))
    H.check('input unchanged', H.eq(d, before))


def h_missing_any(H):
    """a missing sample stays missing, a missing series stays missing, the others are scaled by the extremes of what is
    there and come back"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 5)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, tl, xl, yl, nan=True)
    src, of_a = r, ''
    if H.bool('of a cluster'):
        p, lab = cm.partition(H, xl, yl)
        c = H.index('cluster', p.k)
        src, of_a = p.create_spt_cluster(r, c), ' (cluster)'
    s = H.load('spta.region.scaling').ScaleFunction(xl, yl).apply_to(src, tl)
    a = s.as_numpy
    o = s.descale().as_numpy
    mn, mx = s.scale_min.as_numpy, s.scale_max.as_numpy
    x, y, t = H.index('x', xl), H.index('y', yl), H.index('t', tl)
    if of_a:
        H.assume(H.eq(lab[x, y], c))
    v = d[t, x, y]
    H.check('all-missing has no extremes' + of_a, H.and_(H.eq(H.isnan(mn[x, y]), missing(H, d, tl, x, y)),
                                                  H.eq(H.isnan(mx[x, y]), missing(H, d, tl, x, y))))
    H.check('all-missing stays missing' + of_a, H.imp(missing(H, d, tl, x, y), H.and_(H.isnan(a[t, x, y]), H.isnan(o[t, x, y]))))
    H.check('between the extremes' + of_a, H.or_(H.isnan(v), H.and_(mn[x, y] <= v, v <= mx[x, y])))
    H.check('the minimum is there' + of_a, H.or_(missing(H, d, tl, x, y), H.any([tl], lambda u: H.eq(d[u, x, y], mn[x, y]))))
    H.check('the maximum is there' + of_a, H.or_(missing(H, d, tl, x, y), H.any([tl], lambda u: H.eq(d[u, x, y], mx[x, y]))))
    H.check('constant is zero' + of_a, H.imp(H.and_(H.not_(H.isnan(mn[x, y])), H.eq(mn[x, y], mx[x, y])), H.eq(a[t, x, y], 0)))
    w = mx[x, y] - mn[x, y]
    H.check('a missing sample stays missing' + of_a, H.imp(H.and_(w > 0, H.isnan(v)), H.and_(H.isnan(a[t, x, y]), H.isnan(o[t, x, y]))))
    H.check('scaled' + of_a, H.imp(H.and_(w > 0, H.not_(H.isnan(v))), H.eq(a[t, x, y] * w, v - mn[x, y])))
    H.check('descaled' + of_a, H.imp(H.not_(H.isnan(v)), H.eq(o[t, x, y], v)))


def h_store(H):
    """stored and reloaded with its extremes (files, pickle) it still descales to the original"""
    H.use_iteration_contracts()
    tl = H.size('tl', 1, 6)
    xl, yl = cm.grid(H, 4)
    mdm = H.load('spta.region.metadata')
    R = H.load('spta.region').Region
    sc = H.load('spta.region.scaling')
    T = H.load('spta.region.temporal')
    if not H.symbolic:
        os.mkdir('raw')
    md = mdm.SpatioTemporalRegionMetadata(H.choice('name', ['a', 'some_region']), R(3, 3 + xl, 5, 5 + yl), 2014, 2015, 1,
                                          scaled=True, dataset_dir='raw')
    r, d = cm.spt(H, tl, xl, yl, metadata=md)
    s = sc.ScaleFunction(xl, yl).apply_to(r, tl)
    H.check('metadata kept', s.region_metadata is md)
    other = mdm.SpatioTemporalRegionMetadata('other', R(3, 3 + xl, 5, 5 + yl), 2014, 2015, 1, dataset_dir='raw')
    s2 = sc.ScaleFunction(xl, yl).apply_to(T.SpatioTemporalRegion(d * 2 + 1, other), tl)
    s.save()
    s2.save()
    b = sc.SpatioTemporalScaled(T.SpatioTemporalRegion(np.load(md.dataset_filename)),
                                H.load('spta.region.spatial').SpatialRegion(np.load(md.scaled_min_filename)),
                                H.load('spta.region.spatial').SpatialRegion(np.load(md.scaled_max_filename)))
    H.series_equal('reloaded from its files', b.as_numpy, s.as_numpy)
    H.series_equal('reloaded and descaled', b.descale().as_numpy, d)
    s.pickle('pk')
    s2.pickle('pk')
    q = T.SpatioTemporalRegion.from_pickle(md.pickle_filename('pk'))
    H.series_equal('unpickled', q.as_numpy, s.as_numpy)
    H.check('unpickled with its scaling', q.has_scaling())
    H.series_equal('unpickled and descaled', q.descale().as_numpy, d)
    H.check('unpickled metadata', repr(q.region_metadata) == repr(md))


def h_create_instance(H):
    """a region created from its metadata is scaled exactly when asked, with the metadata attached"""
    H.use_iteration_contracts()
    tb = H.load('spta.dataset.temp_brazil')
    mdm = H.load('spta.region.metadata')
    R = H.load('spta.region').Region
    tl = H.size('tl', 1, 5)
    xl, yl = H.int('gx', 2, None, 7), H.int('gy', 2, None, 7)
    d = H.array('grid', (tl, xl, yl))
    x1, y1 = H.int('x1', 0, xl - 2), H.int('y1', 0, yl - 2)
    x2, y2 = H.int('x2', x1 + 1, xl), H.int('y2', y1 + 1, yl)
    scaled = H.bool('scaled')
    asked = {}

    def stand_in(year_start, year_end, spd):
        asked.update(a=year_start, b=year_end, c=spd)
        return d.copy()
    orig = tb.retrieve_dataset_interval
    tb.retrieve_dataset_interval = stand_in
    try:
        y0 = H.int('y0', 1990, None, 2000)
        md = mdm.SpatioTemporalRegionMetadata('n', R(x1, x2, y1, y2), y0, y0 + 3, 1, scaled=scaled)
        r = md.create_instance()
    finally:
        tb.retrieve_dataset_interval = orig
    H.check('asked for its own years and samples', asked == {'a': y0, 'b': y0 + 3, 'c': 1})
    H.check('scaled exactly when asked', bool(r.has_scaling()) == scaled)
    H.check('metadata attached', r.region_metadata is md)
    o = r.descale().as_numpy if scaled else r.as_numpy
    H.series_equal('the requested rectangle', o, d[:, x1:x2, y1:y2])


h_history_scale = cm.history(h_asked_scale, last=True)

h_history_descale = cm.history(h_asked_descale)

SPEC = [
    (h_scale, {'sym': True, 'runs': 300}),
    (h_scale_range, {'sym': True, 'runs': 300}),
    (h_descale, {'sym': True, 'runs': 500}),
    (h_missing, {'runs': 400, 'why': 'missing samples inside a series are compared sample by sample'}),
    (h_missing_any, {'sym': True, 'runs': 300}),
    (h_store, {'sym': True, 'runs': 60}),
    (h_create_instance, {'sym': True, 'runs': 60}),
    (h_history_scale, {'sym': True, 'seconds': 150, 'cost': 10, 'runs': 150}),
    (h_history_descale, {'sym': True, 'runs': 150}),
]
ASSUMPTIONS = ['scaling and descaling are proved over the real numbers; rounding is exercised by the concrete runs only']
