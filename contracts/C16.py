"""C16  stored regions and partitions reload unchanged and are reused only when right"""
import os
import numpy as np
from . import common as cm
from .asked import h_asked_storage

MODULES = ['spta.clustering', 'spta.clustering.kmedoids', 'spta.clustering.regular', 'spta.clustering.factory',
           'spta.region', 'spta.region.base', 'spta.region.partition', 'spta.region.temporal', 'spta.region.metadata',
           'spta.distance.dtw']

ASSUMPTIONS = ['the pickle module restores what it stores']


def files_below(top='.'):
    return sorted(os.path.normpath(os.path.join(d, f)) for d, _, fs in os.walk(top) for f in fs)


def some_points(H, n, xl, yl, tag='medoid'):
    P = H.load('spta.region').Point
    return [P(H.index('%s_x%d' % (tag, i), xl), H.index('%s_y%d' % (tag, i), yl)) for i in range(n)]


def h_partition(H):
    """a stored partition reloads with equal labels, k and medoids; nothing else is changed"""
    H.concrete_only('files and pickle')
    pt = H.load('spta.region.partition')
    xl, yl = cm.grid(H, 5)
    p, lab = cm.partition(H, xl, yl)
    k = p.k
    meds = None
    if H.bool('with medoids'):
        meds = some_points(H, k, xl, yl)
        p.medoids = list(meds)
    path = H.choice('path', ['p.pkl', 'a/p.pkl', 'a/b/c/partition_kmedoids_k2_seed1_lite.pkl'])
    if os.path.dirname(path) and H.bool('directory exists'):
        os.makedirs(os.path.dirname(path))
    if H.bool('something else stored there') and os.path.dirname(path):
        cm.partition(H, 2, 2, name='older')[0].to_pickle(path)
    p.to_pickle(path)
    H.check('only this file', files_below() == [os.path.normpath(path)], repr(files_below()))
    for what, loader in (('partition', pt.PartitionRegion), ('crisp', pt.PartitionRegionCrisp)):
        q = loader.try_from_pickle(path)
        H.check('same kind (' + what + ')', type(q) is type(p))
        H.check('equal labels (' + what + ')', H.eq(q.as_numpy, lab))
        H.check('equal k (' + what + ')', q.k == k)
        H.check('equal grid (' + what + ')', (q.x_len, q.y_len) == (xl, yl))
        if meds is not None:
            H.check('equal medoids (' + what + ')', list(q.medoids) == meds)
        for i in range(k):
            H.check('equal sizes (' + what + ')', q.cluster_len(i) == int(np.sum(lab == i)))
    H.check('stored one unchanged', H.eq(p.as_numpy, lab) and p.k == k)
    missing = H.choice('missing', ['none.pkl', 'a/none.pkl', path + 'x'])
    try:
        pt.PartitionRegion.try_from_pickle(missing)
        ok = False
    except Exception:
        ok = True
    H.check('a missing file is an error', ok)


def h_region(H):
    """a stored region reloads with equal data, metadata, centroid and iteration"""
    H.concrete_only('files and pickle')
    t = H.load('spta.region.temporal')
    xl, yl = cm.grid(H, 4)
    tl = H.size('tl', 1, 4)
    md = cm.metadata(H, xl, yl, name=H.choice('name', ['some_region', 'sp_small', 'x']), scaled=H.bool('scaled name'),
                     spd=H.choice('spd', [1, 4]), y0=H.choice('y0', [2011, 2014]), x1=H.int('x1', 0, 9), y1=H.int('y1', 0, 9))
    r, d = cm.spt(H, tl, xl, yl, metadata=md, nan=H.bool('missing samples'))
    c = None
    if H.bool('centroid'):
        c = some_points(H, 1, xl, yl)[0]
        r.centroid = c
    home = H.choice('home', [None, 'pk', 'a/b'])
    r.pickle() if home is None else r.pickle(home)
    top = 'pickle' if home is None else home
    path = md.pickle_filename() if home is None else md.pickle_filename(home)
    H.check('below the given place', files_below() == [os.path.normpath(path)] and
            os.path.normpath(path).startswith(top + os.sep), repr(files_below()))
    for what, cls in (('temporal', t.SpatioTemporalRegion), ('base', H.load('spta.region.base').BaseRegion)):
        q = cls.from_pickle(path)
        H.check('same kind (' + what + ')', type(q) is type(r))
        H.check('equal data (' + what + ')', np.array_equal(q.as_numpy, d, equal_nan=True))
        H.check('equal metadata (' + what + ')', repr(q.region_metadata) == repr(md) and q.region_metadata.region == md.region)
        H.check('centroid (' + what + ')', q.centroid == c)
    got = {(p.x, p.y): s for p, s in q}
    H.check('iterates over all points', sorted(got) == cm.points_of(H, xl, yl))
    for (x, y), s in got.items():
        H.check('series of the points', np.array_equal(s, d[:, x, y], equal_nan=True))
    r.save_to('data.npy')
    H.check('saved data', np.array_equal(np.load('data.npy'), d, equal_nan=True))
    os.makedirs('raw', exist_ok=True)
    r.save()
    H.check('saved where the metadata says', np.array_equal(np.load(md.dataset_filename), d, equal_nan=True))
    q, _ = cm.spt(H, tl, xl, yl, name='other')
    for what, call in (('pickled', lambda: q.pickle('pk')), ('saved', q.save)):
        try:
            call()
            ok = False
        except ValueError:
            ok = True
        H.check('without metadata not ' + what, ok)


def h_spatial(H):
    """a stored spatial region reloads with equal data"""
    H.concrete_only('files and pickle')
    b = H.load('spta.region.base')
    xl, yl = cm.grid(H, 5)
    r, v = cm.spatial(H, xl, yl, nan=True)
    r.pickle_to('r.pickle')
    q = b.BaseRegion.from_pickle('r.pickle')
    H.check('same kind', type(q) is type(r))
    H.check('equal data', np.array_equal(q.as_numpy, v, equal_nan=True))
    r.save_to('r.npy')
    H.check('saved data', np.array_equal(np.load('r.npy'), v, equal_nan=True))


def setting(H, tag=''):
    """-> the parts that a stored partition depends on"""
    s = {'name': H.choice('name' + tag, ['some_region', 'some_region_2014', 'other']),
         'y0': H.choice('y0' + tag, [2011, 2014, 2015]), 'y1_': H.choice('y1' + tag, [2015, 2016, 2019]),
         'spd': H.choice('spd' + tag, [1, 4]), 'scaled': H.bool('scaled' + tag),
         'measure': H.choice('measure' + tag, [('dtw',), ('spatial', 0.0), ('spatial', 1.0), ('spatial', 2.5)]),
         'algorithm': H.choice('algorithm' + tag, ['kmedoids', 'kmedoids', 'regular']),
         'k': H.int('k' + tag, 1, 3)}
    if s['algorithm'] == 'kmedoids':
        s['random_seed'] = H.int('seed' + tag, 0, 3)
        s['mode'] = H.choice('mode' + tag, ['lite', 'robust'])
        s['max_iter'] = H.choice('max_iter' + tag, [1000, 1, 3])
        s['tol'] = H.choice('tol' + tag, [0.001, 0.5])
        s['initial_medoids'] = H.choice('initial' + tag, [None, None, tuple(range(s['k'])), tuple(range(1, s['k'] + 1))])
    return s


def built(H, s, xl, yl):
    """-> (metadata of the region, distance measure, clustering algorithm)"""
    km, rg = H.load('spta.clustering.kmedoids'), H.load('spta.clustering.regular')
    ds = H.load('spta.distance.dtw')
    md = cm.metadata(H, xl, yl, name=s['name'], scaled=s['scaled'], spd=s['spd'], y0=s['y0'], y1_=s['y1_'])
    dm = ds.DistanceByDTW() if s['measure'][0] == 'dtw' else ds.DistanceBySpatialDTW(s['measure'][1])
    if s['algorithm'] == 'regular':
        m = rg.RegularClusteringMetadata(s['k'])
    else:
        m = km.KmedoidsClusteringMetadata(s['k'], random_seed=s['random_seed'], mode=s['mode'], max_iter=s['max_iter'],
                                          tol=s['tol'], initial_medoids=s['initial_medoids'], verbose=False)
    return md, dm, H.load('spta.clustering.factory').ClusteringFactory(dm).instance(m)


def vary(H, s):
    """another setting: one part changed, or all parts drawn anew"""
    o = setting(H, ' of the other')
    what = H.choice('vary', ['all', 'nothing', 'one', 'one', 'one'])
    if what == 'all':
        return o
    q = dict(s)
    if what == 'one':
        part = H.choice('part', ['name', 'y0', 'y1_', 'spd', 'scaled', 'measure', 'k', 'random_seed', 'mode', 'max_iter',
                                 'tol', 'initial_medoids'])
        if part in s and part in o:
            q[part] = o[part]
            if q.get('initial_medoids') is not None:
                q['initial_medoids'] = tuple(range(q['initial_medoids'][0], q['initial_medoids'][0] + q['k']))
    return q


def h_names(H):
    """stored files are the same exactly when region, distance and parameters are"""
    H.concrete_only('text')
    s = setting(H)
    q = vary(H, s)
    (m1, d1, a1), (m2, d2, a2) = built(H, s, 3, 3), built(H, q, 3, 3)
    same = s == q
    for home in ('pickle', 'a/b'):
        H.check('partition file the same exactly for the same parts',
                (a1.pickle_full_path(m1, home) == a2.pickle_full_path(m2, home)) == same, '%s %s' % (s, q))
        H.check('below the given place', os.path.normpath(a1.pickle_full_path(m1, home)).startswith(home + os.sep))
        H.check('other places, other files', a1.pickle_full_path(m1, home) != a2.pickle_full_path(m2, home + 'x'))
    H.check('default place', a1.pickle_full_path(m1) == a1.pickle_full_path(m1, 'pickle'))
    H.check('output directory the same exactly for the same parts',
            (a1.output_dir('out', m1) == a2.output_dir('out', m2)) == same, '%s %s' % (s, q))
    parts = ('name', 'y0', 'y1_', 'spd', 'scaled')
    region_same = all(s[p] == q[p] for p in parts)
    for what in ('dataset_filename', 'distances_filename', 'scaled_min_filename', 'scaled_max_filename'):
        H.check('region file the same exactly for the same region: ' + what,
                (getattr(m1, what) == getattr(m2, what)) == region_same, '%s %s' % (s, q))
    H.check('region pickle the same exactly for the same region',
            (m1.pickle_filename('pk') == m2.pickle_filename('pk')) == region_same, '%s %s' % (s, q))
    H.check('region directories the same exactly for the same region',
            (m1.output_dir('o') == m2.output_dir('o')) == region_same and
            (m1.pickle_dir('o') == m2.pickle_dir('o')) == region_same, '%s %s' % (s, q))
    H.check('all files of a region differ', len({m1.dataset_filename, m1.distances_filename, m1.scaled_min_filename,
                                                 m1.scaled_max_filename, m1.pickle_filename('pk')}) == 5)
    H.check('text', repr(m1) == '%s_%d_%d_%dspd%s' % (s['name'], s['y0'], s['y1_'], s['spd'], '_scaled' if s['scaled'] else ''))


def any_setting(H, tag, scaled=None):
    """-> (its parts, region metadata, clustering algorithm) of any years, samples per day, k, seed and weight"""
    ds, fa = H.load('spta.distance.dtw'), H.load('spta.clustering.factory')
    mdm, rg = H.load('spta.region.metadata'), H.load('spta.region')
    p = {'name': H.choice('name' + tag, ['some', 'some_2014']), 'y0': H.int('y0' + tag, 1990, None, 2016),
         'y1': H.int('y1' + tag, 1990, None, 2016), 'spd': H.int('spd' + tag, 1, None, 8), 'scaled': H.bool('scaled' + tag) if scaled is None else scaled}
    md = mdm.SpatioTemporalRegionMetadata(p['name'], rg.Region(2, 5, 1, 5), p['y0'], p['y1'], p['spd'], scaled=p['scaled'])
    p['k'] = H.int('k' + tag, 1, None, 12)
    p['seed'] = p['weight'] = None
    if H.bool('regular' + tag):
        m = H.load('spta.clustering.regular').RegularClusteringMetadata(p['k'])
    else:
        p['seed'] = H.int('seed' + tag, 0, None, 5)
        m = H.load('spta.clustering.kmedoids').KmedoidsClusteringMetadata(p['k'], random_seed=p['seed'])
    if H.bool('spatial' + tag):
        p['weight'] = H.real('weight' + tag, 0)
        dm = ds.DistanceBySpatialDTW(p['weight'])
    else:
        dm = ds.DistanceByDTW()
    return p, md, fa.ClusteringFactory(dm).instance(m)


def h_names_any(H):
    """the file of a partition is the same exactly when region, distance and parameters are"""
    p, m1, a1 = any_setting(H, '')
    q, m2, a2 = any_setting(H, ' of the other')
    same_region = H.and_(p['name'] == q['name'], p['scaled'] == q['scaled'], *[H.eq(p[x], q[x]) for x in ('y0', 'y1', 'spd')])
    same = H.and_(same_region, H.eq(p['k'], q['k']))
    for x in ('seed', 'weight'):
        same = H.and_(same, (p[x] is None) == (q[x] is None))
        if p[x] is not None and q[x] is not None:
            same = H.and_(same, H.eq(p[x], q[x]))
    H.check('partition file', H.eq(a1.pickle_full_path(m1, 'home') == a2.pickle_full_path(m2, 'home'), same))
    H.check('dataset and distances', H.eq(m1.distances_filename == m2.distances_filename, same_region))


def equal_partition(H, what, q, p, lab, meds):
    """a partition says what another was given"""
    H.check('same kind (' + what + ')', type(q) is type(p))
    H.check('equal k and grid (' + what + ')', H.and_(H.eq(q.k, p.k), H.eq(H.shape(q.as_numpy)[0], H.shape(lab)[0]),
                                                     H.eq(H.shape(q.as_numpy)[1], H.shape(lab)[1])))
    H.forall('equal labels (' + what + ')', H.shape(lab), lambda x, y: H.eq(q.as_numpy[x, y], lab[x, y]))
    if meds is not None:
        H.check('as many medoids (' + what + ')', H.eq(H.len(q.medoids), len(meds)))
        for i, m in enumerate(meds):
            H.check('equal medoids (' + what + ')', H.and_(H.eq(q.medoids[i].x, m.x), H.eq(q.medoids[i].y, m.y)))


def h_partition_any(H):
    """what a stored partition gives back, for any grid, labels and medoids; the one stored last is read"""
    pt = H.load('spta.region.partition')
    P = H.load('spta.region').Point
    xl, yl = cm.grid(H, 5)
    p, lab = cm.partition(H, xl, yl)
    meds = None
    if H.bool('with medoids'):
        meds = [P(H.index('mx%d' % i, xl), H.index('my%d' % i, yl)) for i in range(2)]
        p.medoids = list(meds)
    path, other = 'a/p.pkl', 'a/q.pkl'
    if H.bool('something else stored'):
        o, _ = cm.partition(H, H.size('xl of the other', 1, 3), H.size('yl of the other', 1, 3), name='other')
        o.to_pickle(H.choice('where', [path, other]))
    p.to_pickle(path)
    if H.bool('something else stored later'):
        o, _ = cm.partition(H, 2, 2, name='later')
        o.to_pickle(other)
    if H.bool('changed later'):
        p.medoids = None
    for what, cls in (('partition', pt.PartitionRegion), ('crisp', pt.PartitionRegionCrisp)):
        equal_partition(H, what, cls.try_from_pickle(path), p, lab, meds)
    try:
        pt.PartitionRegion.try_from_pickle(other + 'x')
        ok = False
    except FileNotFoundError:
        ok = True
    H.check('a missing file is an error', ok)


def h_region_any(H):
    """what a stored region gives back, for any grid, length and data, with and without a centroid"""
    t = H.load('spta.region.temporal')
    b = H.load('spta.region.base')
    P = H.load('spta.region').Point
    xl, yl = cm.grid(H, 4)
    tl = H.size('tl', 1, 4)
    y0, spd = H.int('y0', 1990, None, 2016), H.int('spd', 1, None, 8)
    mdm, rg = H.load('spta.region.metadata'), H.load('spta.region')
    md = mdm.SpatioTemporalRegionMetadata('some', rg.Region(2, 2 + xl, 1, 1 + yl), y0, y0 + 1, spd, scaled=H.bool('scaled'))
    r, d = cm.spt(H, tl, xl, yl, metadata=md, nan=H.bool('missing samples'))
    c = None
    if H.bool('centroid'):
        c = P(H.index('cx', xl), H.index('cy', yl))
        r.centroid = c
    home = H.choice('home', [None, 'pk', 'a/b'])
    r.pickle() if home is None else r.pickle(home)
    path = md.pickle_filename() if home is None else md.pickle_filename(home)
    for what, cls in (('temporal', t.SpatioTemporalRegion), ('base', b.BaseRegion)):
        q = cls.from_pickle(path)
        H.check('same kind (' + what + ')', type(q) is type(r))
        H.check('equal metadata (' + what + ')', repr(q.region_metadata) == repr(md))
        H.check('centroid (' + what + ')', (q.centroid is None) == (c is None))
        if c is not None:
            H.check('same centroid (' + what + ')', H.and_(H.eq(q.centroid.x, c.x), H.eq(q.centroid.y, c.y)))
        H.check('equal grid (' + what + ')', H.and_(H.eq(q.x_len, xl), H.eq(q.y_len, yl), H.eq(q.series_len, tl)))
        H.forall('equal data (' + what + ')', [tl, xl, yl], lambda k, x, y: H.same(q.as_numpy[k, x, y], d[k, x, y]))


def h_spatial_any(H):
    """what a stored spatial region gives back; what is saved is the data"""
    b = H.load('spta.region.base')
    xl, yl = cm.grid(H, 5)
    r, v = cm.spatial(H, xl, yl, nan=True)
    r.pickle_to('r.pickle')
    q = b.BaseRegion.from_pickle('r.pickle')
    H.check('same kind', type(q) is type(r))
    H.check('equal grid', H.and_(H.eq(q.x_len, xl), H.eq(q.y_len, yl)))
    H.forall('equal data', [xl, yl], lambda x, y: H.same(q.as_numpy[x, y], v[x, y]))
    r.save_to('r.npy')
    w = np.load('r.npy')
    H.forall('saved data', [xl, yl], lambda x, y: H.same(w[x, y], v[x, y]))


def h_reuse_any(H):
    """an algorithm asked again gives what it gave, without clustering again, exactly when region, distance,
    parameters and place are equal"""
    pt = H.load('spta.region.partition')
    t = H.load('spta.region.temporal')
    p, m1, a1 = any_setting(H, '', scaled=False)
    q, m2, a2 = any_setting(H, ' of the other')
    h1, h2 = 'pickle', H.choice('home of the other', ['pickle', 'pk'])
    same = H.and_(h1 == h2, p['name'] == q['name'], p['scaled'] == q['scaled'], H.eq(p['k'], q['k']),
                  *[H.eq(p[x], q[x]) for x in ('y0', 'y1', 'spd')])
    for x in ('seed', 'weight'):
        same = H.and_(same, (p[x] is None) == (q[x] is None))
        if p[x] is not None and q[x] is not None:
            same = H.and_(same, H.eq(p[x], q[x]))
    xl, yl = 3, 4
    asked = []

    def clusters(name):
        made = cm.partition(H, xl, yl, name=name)

        def impl(region, with_medoids=True):
            asked.append((name, region))
            return made[0]
        return impl, made[1]
    a1.partition_impl, l1 = clusters('first')
    a2.partition_impl, l2 = clusters('second')
    for a in (a1, a2):
        # the distances are of no concern to the contract of partition_impl
        a.distance_measure.try_load_distance_matrix = lambda region: None
    d = H.array('data', (2, xl, yl))
    r1, r2 = t.SpatioTemporalRegion(d, m1), t.SpatioTemporalRegion(d, m2)
    for a, m, h in ((a1, m1, h1), (a2, m2, h2)):
        H.check('nothing stored yet', a.try_load_previous_partition(m, h) is None)
    x, y = H.index('x', xl), H.index('y', yl)
    one = a1.partition(r1, pickle_home=h1)
    H.check('the first is calculated', len(asked) == 1 and asked[0][0] == 'first' and asked[0][1] is r1)
    H.check('the first is given', H.eq(one.as_numpy[x, y], l1[x, y]))
    two = a2.partition(r2, pickle_home=h2)
    again = len(asked) == 1
    H.check('calculated again unless all is equal', H.eq(again, same))
    H.check('the stored one or its own', H.eq(two.as_numpy[x, y], l1[x, y] if again else l2[x, y]))
    H.check('of its own region', again or asked[1][1] is r2)
    n = len(asked)
    for what, got, want in (('first', a1.partition(r1, pickle_home=h1), l1),
                            ('second', a2.partition(r2, pickle_home=h2), l1 if again else l2),
                            ('found', a2.try_load_previous_partition(m2, h2), l1 if again else l2),
                            ('loaded', a1.load_previous_partition(m1, h1), l1)):
        H.check('asked again (' + what + ')', H.eq(got.as_numpy[x, y], want[x, y]))
    H.check('nothing calculated for the stored', len(asked) == n)
    a2.partition(r2)
    H.check('without a place all is calculated', len(asked) == n + 1)
    H.check('nothing stored elsewhere', a1.try_load_previous_partition(m1, 'elsewhere') is None)


def h_part_of_stored(H):
    """a part of a stored region is a different region: it neither gets nor replaces what is stored for the whole"""
    t, b = H.load('spta.region.temporal'), H.load('spta.region.base')
    mdm, rg = H.load('spta.region.metadata'), H.load('spta.region')
    xl, yl = cm.grid(H, 4)
    tl = H.size('tl', 2, 5)
    kind = H.choice('kind', ['spatio-temporal', 'scaled', 'cluster', 'cluster of scaled'])
    md = mdm.SpatioTemporalRegionMetadata('some', rg.Region(2, 2 + xl, 1, 1 + yl), 2014, 2015, 1, scaled='scaled' in kind)
    r, d = cm.spt(H, tl, xl, yl, metadata=md)
    if 'scaled' in kind:
        lo, hi = cm.spatial(H, xl, yl, name='lo')[0], cm.spatial(H, xl, yl, name='hi')[0]
        r = H.load('spta.region.scaling').SpatioTemporalScaled(r, lo, hi, region_metadata=md)
    whole = r
    cut = ['interval', 'training', 'test']
    if 'cluster' in kind:
        p, _ = cm.partition(H, xl, yl)
        r = t.SpatioTemporalCluster(r, p, H.index('cluster', p.k), region_metadata=md)
    else:
        cut += ['rectangle', 'both']
    cut = H.choice('cut', cut)
    what = kind + ', ' + cut
    t1, t2 = H.int('t1', 0, tl), H.int('t2', 0, tl)
    x2, y2 = H.int('x2', 1, xl), H.int('y2', 1, yl)
    if cut in ('rectangle', 'both'):
        H.assume(H.or_(x2 < xl, y2 < yl))
    else:
        H.assume(H.and_(t1 <= t2, t2 - t1 < tl))
    if cut == 'interval':
        part = r.interval_subset(rg.TimeInterval(t1, t2))
    elif cut == 'rectangle':
        part = r.region_subset(rg.Region(0, x2, 0, y2))
    elif cut == 'both':
        H.assume(t1 <= t2)
        part = r.subset(rg.Region(0, x2, 0, y2), rg.TimeInterval(t1, t2))
    else:
        train, test = H.load('spta.model.train').SplitTrainingAndTestLast(t2 - t1).split(r)
        H.assume(t2 > t1)
        part = train if cut == 'training' else test

    km, dtw = H.load('spta.clustering.kmedoids'), H.load('spta.distance.dtw')
    a = km.KmedoidsClusteringAlgorithm(km.KmedoidsClusteringMetadata(2), dtw.DistanceByDTW())
    stored, lab = cm.partition(H, xl, yl, name='stored labels')
    asked = []

    def impl(region, with_medoids=True):
        asked.append(region)
        return stored
    a.partition_impl = impl
    a.distance_measure.try_load_distance_matrix = lambda region: None
    a.partition(whole, pickle_home='pk')
    n = len(asked)
    try:
        a.partition(part, pickle_home='pk')
        own = len(asked) > n and asked[-1] is part
    except Exception:
        own = True                                          # a region without a name is not stored
    H.check('not the partition of the whole (' + what + ')', own)
    if 'cluster' not in kind:
        whole.pickle('pk')
        try:
            part.pickle('pk')
        except ValueError:
            pass
        q = b.BaseRegion.from_pickle(md.pickle_filename('pk'))
        H.check('the whole stays stored (' + what + ')', H.and_(H.eq(q.series_len, tl), H.eq(q.x_len, xl), H.eq(q.y_len, yl)))


def h_reuse(H):
    """the stored partition is returned for the same region, distance and parameters, and for no other"""
    H.concrete_only('runs clustering, files')
    pt = H.load('spta.region.partition')
    xl, yl = 3, H.int('yl', 3, 4)
    s = setting(H)
    q = vary(H, s)
    h1 = H.choice('home', ['pickle', 'pk', 'a/b'])
    h2 = H.choice('home of the other', [h1, h1, 'elsewhere'])
    (m1, d1, a1), (m2, d2, a2) = built(H, s, xl, yl), built(H, q, xl, yl)
    data = H.array('data', (2, xl, yl))
    t = H.load('spta.region.temporal')
    r1, r2 = t.SpatioTemporalRegion(data.copy(), m1), t.SpatioTemporalRegion(data.copy(), m2)
    for d, r in ((d1, r1), (d2, r2)):
        d.compute_distance_matrix(r)
    H.check('nothing stored yet', a1.try_load_previous_partition(m1, h1) is None)
    p1 = a1.partition(r1, with_medoids=True, pickle_home=h1)
    f = os.path.normpath(a1.pickle_full_path(m1, h1))
    H.check('stored in the given place only', files_below() == [f] and f.startswith(os.path.normpath(h1) + os.sep),
            '%s %s' % (f, files_below()))
    # what is stored is marked, to see whether it is used
    mark = pt.PartitionRegionCrisp((np.arange(xl * yl).reshape(xl, yl) * 7 + 3) % s['k'], s['k'])
    mark.medoids = some_points(H, s['k'], xl, yl, 'mark')
    mark.to_pickle(f)
    marked = open(f, 'rb').read()
    md, dm, again = built(H, s, xl, yl)
    if H.bool('with the matrix'):
        dm.compute_distance_matrix(r1)
    p = again.partition(t.SpatioTemporalRegion(data.copy(), md), with_medoids=True, pickle_home=h1)
    H.check('stored partition returned', H.eq(p.as_numpy, mark.as_numpy) and p.k == s['k'] and
            list(p.medoids) == list(mark.medoids))
    H.check('stored file left alone', open(f, 'rb').read() == marked)
    p = again.try_load_previous_partition(md, h1)
    H.check('stored partition found', p is not None and H.eq(p.as_numpy, mark.as_numpy))
    H.check('stored partition loaded', H.eq(again.load_previous_partition(md, h1).as_numpy, mark.as_numpy))
    if s != q or h1 != h2:
        H.check('no other is found', a2.try_load_previous_partition(m2, h2) is None, '%s %s' % (s, q))
        try:
            a2.load_previous_partition(m2, h2)
            ok = False
        except Exception:
            ok = True
        H.check('no other is loaded', ok, '%s %s' % (s, q))
        p2 = a2.partition(r2, with_medoids=True, pickle_home=h2)
        fresh = built(H, q, xl, yl)
        fresh[1].compute_distance_matrix(r2)
        want = fresh[2].partition(t.SpatioTemporalRegion(data.copy(), m2), with_medoids=True)
        H.check('others are calculated', H.eq(p2.as_numpy, want.as_numpy) and list(p2.medoids) == list(want.medoids),
                '%s %s' % (s, q))
        g = os.path.normpath(a2.pickle_full_path(m2, h2))
        H.check('others are stored elsewhere', g != f and files_below() == sorted([f, g]), '%s %s' % (f, files_below()))
        H.check('first file left alone', open(f, 'rb').read() == marked)


def h_first_then_stored(H):
    """the first answer, the stored one and one without storing are equal; without a place nothing is stored or used"""
    H.concrete_only('runs clustering, files')
    xl, yl = 3, H.int('yl', 3, 4)
    s = setting(H)
    md, dm, alg = built(H, s, xl, yl)
    r, d = cm.spt(H, 2, xl, yl, metadata=md)
    dm.compute_distance_matrix(r)
    plain = alg.partition(r)
    H.check('nothing stored', files_below() == [])
    one = alg.partition(r, pickle_home='pk')
    two = built(H, s, xl, yl)[2].partition(r, pickle_home='pk')
    for what, p in (('first', one), ('stored', two)):
        H.check('labels (' + what + ')', H.eq(p.as_numpy, plain.as_numpy))
        H.check('k and medoids (' + what + ')', p.k == plain.k == s['k'] and list(p.medoids) == list(plain.medoids))
    alg.save_partition(plain, md, 'third')
    H.check('saved where asked', H.eq(alg.load_previous_partition(md, 'third').as_numpy, plain.as_numpy) and
            len(files_below('third')) == 1)
    alg.save_partition(plain, md)
    H.check('saved in the default place', len(files_below('pickle')) == 1 and
            H.eq(alg.load_previous_partition(md).as_numpy, plain.as_numpy))
    H.check('no more files', len(files_below()) == 3, repr(files_below()))


def h_history_storage(H):
    """storing, loading, looking for and calculating partitions leave the algorithm, its description, its measure and the
    modules as they were (what they do to the files is decided by the other contracts): so its answers depend on the files
    and the question only"""
    if not H.symbolic:
        return h_asked_storage(H)
    t = H.load('spta.region.temporal')
    p, md, a = any_setting(H, '')
    mdm, rg = H.load('spta.region.metadata'), H.load('spta.region')
    md2 = mdm.SpatioTemporalRegionMetadata('other', rg.Region(2, 5, 1, 5), 2014, 2015, 1)
    xl, yl = 3, 4
    part, lab = cm.partition(H, xl, yl)
    a.partition_impl = lambda region, with_medoids=True: part
    a.distance_measure.try_load_distance_matrix = lambda region: None
    d = H.array('data', (2, xl, yl))
    home = H.choice('home', ['pickle', 'a/b'])
    if H.bool('something is stored'):
        a.save_partition(part, md2 if H.bool('of another region') else md, home)
    name, ask = H.choice('question', [
        ('path', lambda: a.pickle_full_path(md, home)),
        ('stored', lambda: a.save_partition(part, md, home)),
        ('looked for', lambda: a.try_load_previous_partition(md, home)),
        ('loaded', lambda: a.load_previous_partition(md, home)),
        ('calculated', lambda: a.partition(t.SpatioTemporalRegion(d, md), pickle_home=home))])
    was = H.before(a, md, part)
    try:
        ask()
    except Exception as ex:
        H.note(name, ex)
        name += ', when it is refused'
    H.unchanged('leaves everything but the files as it was: ' + name, was, files=False)


SPEC = [
    (h_partition, {'runs': 300, 'why': 'files and pickle'}),
    (h_region, {'runs': 200, 'why': 'files and pickle'}),
    (h_spatial, {'runs': 100, 'why': 'files and pickle'}),
    (h_names, {'runs': 1500, 'why': 'text'}),
    (h_names_any, {'sym': True, 'runs': 200}),
    (h_partition_any, {'sym': True, 'runs': 200}),
    (h_region_any, {'sym': True, 'runs': 150}),
    (h_spatial_any, {'sym': True, 'runs': 100}),
    (h_reuse_any, {'sym': True, 'runs': 150}),
    (h_part_of_stored, {'sym': True, 'runs': 150}),
    (h_reuse, {'runs': 150, 'why': 'runs clustering, files'}),
    (h_first_then_stored, {'runs': 80, 'why': 'runs clustering, files'}),
    (h_asked_storage, {'runs': 150, 'why': 'the same object asked many times'}),
    (h_history_storage, {'sym': True, 'seconds': 150, 'cost': 10, 'runs': 20}),
]
