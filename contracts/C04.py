"""C04  merging clusters gives each point the value of its own cluster"""
import numpy as np
from . import common as cm
from .asked import h_asked_merge

MODULES = ['spta.region', 'spta.region.base', 'spta.region.spatial', 'spta.region.partition']


def h_merge(H):
    """every point of the merged region has the value its owning cluster has there (clusters in label order)"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H)
    p, lab = cm.partition(H, xl, yl)
    sp = H.load('spta.region.spatial')
    vals = H.array('values', (p.k, xl, yl))
    cls = [p.create_spatial_cluster(sp.SpatialRegion(vals[q]), q) for q in range(p.k)]
    m = p.merge_clusters_2d(cls)
    a = m.as_numpy
    H.check('grid', H.eq(H.shape(a), (xl, yl)))
    H.check('a plain region', H.and_(isinstance(m, sp.SpatialRegion), not isinstance(m, sp.SpatialCluster)))
    H.forall('value of the own cluster', [xl, yl], lambda x, y: H.eq(a[x, y], vals[lab[x, y], x, y]))


def h_merge_any_order(H):
    """the order in which the clusters are given does not matter"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H)
    p, lab = cm.partition(H, xl, yl)
    sp = H.load('spta.region.spatial')
    vals = H.array('values', (p.k, xl, yl))
    order = H.array('order', (p.k,), 'i', 0, p.k - 1, distinct=True)
    cls = [p.create_spatial_cluster(sp.SpatialRegion(vals[order[q]]), order[q]) for q in range(p.k)]
    refused = False
    try:
        m = p.merge_clusters_2d(cls)
    except ValueError:
        refused = True
    H.check('accepted in any order', H.not_(refused))
    if refused:
        return
    a = m.as_numpy
    H.forall('value of the own cluster, in any order', [xl, yl], lambda x, y: H.eq(a[x, y], vals[lab[x, y], x, y]))
    H.check('as many clusters as before', H.eq(H.len(cls), p.k))
    H.each('the list given is unchanged', cls, lambda q, c: H.eq(c.cluster_index, order[q]))


def h_merge_other_kinds(H):
    """clusters obtained by applying functions, with integers, and with points or tuples as values"""
    H.concrete_only('object values')
    xl, yl = cm.grid(H)
    p, lab = cm.partition(H, xl, yl)
    sp = H.load('spta.region.spatial')
    P = H.load('spta.region').Point
    kind = H.choice('kind', ['int', 'float', 'object'])
    cls, want = [], {}
    for q in range(p.k):
        if kind == 'object':
            v = np.empty((xl, yl), dtype=object)
            for x in range(xl):
                for y in range(yl):
                    v[x, y] = ('model', q, x, y)
        else:
            v = np.array([[1000 * q + 10 * x + y for y in range(yl)] for x in range(xl)], dtype=kind)
        want[q] = v
        cls.append(p.create_spatial_cluster(sp.SpatialRegion(v), q))
    a = p.merge_clusters_2d(cls)
    for x in range(xl):
        for y in range(yl):
            H.check('value of the own cluster (' + kind + ')', a.value_at(P(x, y)) == want[int(lab[x, y])][x, y])
    H.check('dtype (' + kind + ')', a.as_numpy.dtype == want[0].dtype)


def h_merge_whole_or_objects(H):
    """whole numbers stay whole numbers, and values that are objects stay the objects they are"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H)
    p, lab = cm.partition(H, xl, yl)
    sp = H.load('spta.region.spatial')
    whole = H.bool('whole numbers')
    if whole:
        vals = H.array('values', (p.k, xl, yl), 'i')
        of = lambda q: vals[q]      # noqa: E731
    elif H.symbolic:
        of = lambda q: H.tabulate((xl, yl), lambda x, y: ('model', q, x, y), 'O')       # noqa: E731
    else:
        def of(q):
            v = np.empty((xl, yl), dtype=object)
            for x in range(xl):
                for y in range(yl):
                    v[x, y] = ('model', q, x, y)
            return v
    m = p.merge_clusters_2d([p.create_spatial_cluster(sp.SpatialRegion(of(q)), q) for q in range(p.k)])
    a = m.as_numpy
    H.check('grid', H.eq(H.shape(a), (xl, yl)))
    if whole:
        H.check('whole numbers', a.dtype == vals.dtype)
        H.forall('value of the own cluster (whole numbers)', [xl, yl], lambda x, y: H.eq(a[x, y], vals[lab[x, y], x, y]))
    else:
        H.forall('value of the own cluster (objects)', [xl, yl], lambda x, y: H.and_(
            a[x, y][0] == 'model', H.eq(a[x, y][1], lab[x, y]), H.eq(a[x, y][2], x), H.eq(a[x, y][3], y)))


def h_representatives(H):
    """every point gets the value at the representative of its own cluster; a representative outside its
    cluster is refused"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H)
    p, lab = cm.partition(H, xl, yl)
    sp = H.load('spta.region.spatial')
    P = H.load('spta.region').Point
    vals = H.array('values', (xl, yl))
    rx = H.array('rx', (p.k,), 'i', 0, xl - 1)
    ry = H.array('ry', (p.k,), 'i', 0, yl - 1)
    if not H.symbolic and H.bool('inside'):
        for q in range(p.k):
            own = [(x, y) for x in range(xl) for y in range(yl) if lab[x, y] == q]
            H.assume(own)
            rx[q], ry[q] = own[(int(rx[q]) + 3 * int(ry[q])) % len(own)]
    cls = p.create_all_spatial_clusters(sp.SpatialRegion(vals))
    refused = False
    try:
        m = p.merge_with_representatives_2d(cls, [P(rx[q], ry[q]) for q in range(p.k)])
    except ValueError:
        refused = True
    inside = H.all([p.k], lambda q: H.eq(lab[rx[q], ry[q]], q))
    if refused:
        H.check('refused only for a representative outside its cluster', H.not_(inside))
        return
    H.check('representatives outside their cluster are refused', inside)
    a = m.as_numpy
    H.check('grid', H.eq(H.shape(a), (xl, yl)))
    H.forall('value at the representative', [xl, yl], lambda x, y: H.eq(a[x, y], vals[rx[lab[x, y]], ry[lab[x, y]]]))


def h_accepted(H):
    """a list that is accepted has as many elements as the partition has clusters and contains each of them
    (hence each exactly once)"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H)
    p, lab = cm.partition(H, xl, yl)
    r, v = cm.spatial(H, xl, yl)
    n = H.int('n', 1, None, 5)
    ix = H.array('given', (n,), 'i', 0, p.k - 1)
    if not H.symbolic and H.bool('permutation'):
        H.assume(n == p.k)
        order = H.array('order', (n,), 'i', 0, p.k - 1, distinct=True)
        ix = order
    cls = [p.create_spatial_cluster(r, ix[q]) for q in range(n)]
    refused = False
    try:
        p.merge_clusters_2d(cls)
    except ValueError:
        refused = True
    if not refused:
        H.check('as many as clusters', H.eq(n, p.k))
        H.forall('each is there', [p.k], lambda c: H.any([n], lambda q: H.eq(ix[q], c)))


def h_refused(H):
    """a list without each cluster exactly once is refused"""
    H.concrete_only('lists of clusters with arbitrary indices')
    xl, yl = cm.grid(H)
    p, lab = cm.partition(H, xl, yl)
    r, v = cm.spatial(H, xl, yl)
    n = H.int('n', 1, p.k + 2)
    ix = [int(i) for i in H.array('given', (n,), 'i', 0, p.k - 1)]
    if H.bool('nearly'):
        ix = list(range(p.k))
        how = H.choice('how', ['drop', 'twice', 'extra', 'replace'])
        j = H.int('j', 0, p.k - 1)
        if how == 'drop':
            del ix[j]
        elif how == 'twice':
            ix.insert(j, j)
        elif how == 'extra':
            ix.append(j)
        else:
            ix[j] = (j + 1) % p.k
    H.assume(ix and sorted(ix) != list(range(p.k)))
    cls = [p.create_spatial_cluster(r, i) for i in ix]
    refused = False
    try:
        p.merge_clusters_2d(cls)
    except ValueError:
        refused = True
    H.check('refused', refused, 'clusters %s of %d' % (ix, p.k))


h_history_merge = cm.history(h_asked_merge, skip=('with representatives',))    # a case of any representatives

SPEC = [
    (h_merge, {'sym': True, 'runs': 300}),
    (h_merge_any_order, {'sym': True, 'runs': 400}),
    (h_accepted, {'sym': True, 'runs': 400}),
    (h_representatives, {'sym': True, 'runs': 400}),
    (h_merge_whole_or_objects, {'sym': True, 'runs': 150}),
    (h_merge_other_kinds, {'runs': 150, 'why': 'object arrays'}),
    (h_refused, {'runs': 400, 'why': 'that each list missing a cluster is refused needs a pigeonhole argument; the converse (accepted lists are complete) is proved by h_accepted'}),
    (h_history_merge, {'sym': True, 'runs': 150}),
]
