"""C15  clustering descriptions round-trip and name different results differently"""
import csv
import os
import numpy as np
from . import common as cm
from .asked import h_asked_suite, h_asked_elbow

MODULES = ['spta.clustering', 'spta.clustering.kmedoids', 'spta.clustering.regular', 'spta.clustering.factory',
           'spta.clustering.suite']

TOLS = [0.001, 0.01, 0.1, 0.5, 0.0001, 1e-05, 2e-07, 0.0015, 1.0, 0.0, 1, 0]


def kmedoids_params(H, tag=''):
    p = {'k': H.int('k' + tag, 1, None, 40), 'random_seed': H.int('seed' + tag, 0, None, 30)}
    p['mode'] = H.choice('mode' + tag, ['lite', 'robust'])
    if H.choice('with initial medoids' + tag, [False, False, True]):
        n = H.int('medoids' + tag, 1, None, 5)
        p['initial_medoids'] = [H.int('im%d%s' % (i, tag), 0, None, 120) for i in range(n)]
        if H.bool('array of medoids' + tag):
            p['initial_medoids'] = np.array(p['initial_medoids'])
    if H.choice('with max_iter' + tag, [False, True]):
        p['max_iter'] = H.choice('max_iter' + tag, [1, 2, 10, 100, 999, 1000, 1001, 5000])
    if H.choice('with tol' + tag, [False, True]):
        p['tol'] = H.choice('tol' + tag, TOLS)
    if H.bool('quiet' + tag):
        p['verbose'] = H.bool('verbose' + tag)
    return p


def full(p):
    q = {'k': p['k'], 'random_seed': p.get('random_seed', 1), 'mode': p.get('mode', 'lite'),
         'max_iter': p.get('max_iter', 1000), 'tol': p.get('tol', 0.001)}
    im = p.get('initial_medoids')
    q['initial_medoids'] = None if im is None else [int(i) for i in im]
    return q


def has(m):
    im = m.initial_medoids
    return {'k': m.k, 'random_seed': m.random_seed, 'mode': m.mode, 'max_iter': m.max_iter, 'tol': m.tol,
            'initial_medoids': None if im is None else [int(i) for i in im]}


def places(H, m):
    """every text and path that names the result of a description"""
    dm = H.load('spta.distance.dtw').DistanceByDTW()
    md = cm.metadata(H, 3, 4)
    alg = H.load('spta.clustering.factory').ClusteringFactory(dm).instance(m)
    return {'text': repr(m), 'sub-directory': m.clustering_subdir(dm), 'output directory': m.output_dir('out', md, dm),
            'pickle directory': m.pickle_dir(md, dm), 'stored partition': alg.pickle_full_path(md),
            'name of the stored partition': alg.partition_pickle_filename, 'text of the algorithm': repr(alg)}


def h_kmedoids_round_trip(H):
    """text of a k-medoids description parses back to the same parameters, directly and through the factory"""
    H.concrete_only('text')
    km = H.load('spta.clustering.kmedoids')
    fa = H.load('spta.clustering.factory').ClusteringMetadataFactory()
    p = kmedoids_params(H)
    m = km.KmedoidsClusteringMetadata(**p)
    H.check('parameters kept', has(m) == full(p), repr(p))
    by_factory = fa.instance('kmedoids', p['k'], **{a: b for a, b in p.items() if a != 'k'})
    H.check('parameters kept by the factory', has(by_factory) == full(p), repr(p))
    H.check('the factory gives an equal one', by_factory == m and not by_factory != m and hash(by_factory) == hash(m), repr(p))
    for how, back in (('directly', km.KmedoidsClusteringMetadata.from_repr(repr(m))), ('factory', fa.from_repr(repr(m)))):
        H.check('a k-medoids description (' + how + ')', type(back) is km.KmedoidsClusteringMetadata)
        H.check('same parameters (' + how + ')', has(back) == full(p), '%s -> %s' % (repr(m), has(back)))
        H.check('equal (' + how + ')', back == m and not back != m and hash(back) == hash(m), repr(m))
        H.check('same text (' + how + ')', repr(back) == repr(m), repr(m))
    H.check('text does not change with what does not matter', repr(m) == repr(km.KmedoidsClusteringMetadata(
        **dict(p, verbose=not p.get('verbose', True)))), repr(m))
    only_default = all(a in ('k', 'random_seed', 'mode', 'verbose') for a in p)
    if only_default:
        H.check('text of the default', repr(m) == 'kmedoids_k%d_seed%d_%s' % (p['k'], p['random_seed'], p['mode']), repr(m))
    d = m.as_dict()
    H.check('dictionary', d['type'] == 'kmedoids' and d['k'] == p['k'] and d['seed'] == p['random_seed'] and
            d['mode'] == p['mode'], repr(d))


def described(H, tag='', given=None):
    """-> (parameters, description) of a k-medoids clustering: any k, seed, iterations, tolerance, initial medoids"""
    km = H.load('spta.clustering.kmedoids')
    p = {'k': H.int('k' + tag, 1, None, 40), 'random_seed': H.int('seed' + tag, 0, None, 30),
         'mode': H.choice('mode' + tag, ['lite', 'robust']), 'max_iter': H.int('max_iter' + tag, 0, None, 2000),
         'tol': H.real('tol' + tag, 0), 'initial_medoids': None}
    if H.bool('with initial medoids' + tag) if given is None else given:
        n = H.size('medoids' + tag, 1, 5)
        p['initial_medoids'] = H.array('initial' + tag, (n,), 'i', 0, 120)
    return p, km.KmedoidsClusteringMetadata(**p)


def agree(H, name, p, m):
    for a in ('k', 'random_seed', 'max_iter', 'tol'):
        H.check(name + ': ' + a, H.eq(getattr(m, a), p[a]))
    H.check(name + ': mode', m.mode == p['mode'])
    im, got = p['initial_medoids'], m.initial_medoids
    if im is None or got is None:
        H.check(name + ': no initial medoids', im is None and got is None)
    else:
        H.check(name + ': number of initial medoids', H.eq(H.len(got), H.len(im)))
        H.forall(name + ': initial medoids', [H.len(im)], lambda i: H.eq(got[i], im[i]))


def h_text_round_trip(H):
    """the text of a description parses back, directly and through the factory"""
    km = H.load('spta.clustering.kmedoids')
    fa = H.load('spta.clustering.factory').ClusteringMetadataFactory()
    p, m = described(H)
    agree(H, 'kept', p, m)
    back = km.KmedoidsClusteringMetadata.from_repr(repr(m))
    agree(H, 'parsed', p, back)
    H.check('equal', back == m)
    back = fa.from_repr(repr(m))
    agree(H, 'factory', p, back)
    H.check('equal (factory)', back == m)


def same_parameters(H, p, q):
    r = H.and_(p['mode'] == q['mode'], *[H.eq(p[a], q[a]) for a in ('k', 'random_seed', 'max_iter', 'tol')])
    a, b = p['initial_medoids'], q['initial_medoids']
    if a is None or b is None:
        return H.and_(r, a is None and b is None)
    if a.shape[0] != b.shape[0]:
        return False
    return H.and_(r, H.all([a.shape[0]], lambda i: H.eq(a[i], b[i])))


def tells_apart(H, first, second):
    p, a = described(H, '', first)
    q, b = described(H, ' of the other', second)
    if not H.symbolic and H.bool('nearly the same'):
        q = dict(p, **{x: q[x] for x in [H.choice('differ in', ['k', 'random_seed', 'mode', 'max_iter', 'tol', 'initial_medoids'])]})
        b = type(a)(**q)
    same = same_parameters(H, p, q)
    H.check('equal exactly when nothing differs', H.eq(a == b, same))
    if not (first and second and H.symbolic):
        H.check('unequal exactly when something differs', H.eq(a != b, H.not_(same)))
        H.check('same text exactly when nothing differs', H.eq(repr(a) == repr(b), same))


def h_text_tells_apart(H):
    """two descriptions have the same text exactly when all parameters that change the result are the same"""
    tells_apart(H, False, False)


def h_text_tells_apart_given(H):
    """the same when both have initial medoids"""
    tells_apart(H, True, True)


def h_text_tells_apart_one(H):
    """the same when only one has initial medoids"""
    tells_apart(H, True, False)


def h_text_regular(H):
    """the same for regular clustering"""
    rg, km = H.load('spta.clustering.regular'), H.load('spta.clustering.kmedoids')
    fa = H.load('spta.clustering.factory').ClusteringMetadataFactory()
    k, j = H.int('k', 1, None, 300), H.int('other', 1, None, 300)
    m = rg.RegularClusteringMetadata(k)
    for how, back in (('directly', rg.RegularClusteringMetadata.from_repr(repr(m))), ('factory', fa.from_repr(repr(m))),
                      ('instance', fa.instance('regular', k))):
        H.check('regular (' + how + ')', type(back) is rg.RegularClusteringMetadata)
        H.check('same k (' + how + ')', H.eq(back.k, k))
        H.check('equal (' + how + ')', back == m)
    o = rg.RegularClusteringMetadata(j)
    H.check('equal exactly for the same k', H.and_(H.eq(m == o, H.eq(k, j)), H.eq(m != o, H.not_(H.eq(k, j)))))
    q = km.KmedoidsClusteringMetadata(j, random_seed=H.int('seed', 0, None, 30))
    H.check('never equal to k-medoids', H.and_(H.not_(m == q), m != q, q != m))


def h_text_label(H):
    """k-seed-medoid of a classifier names the description with this k and seed"""
    km = H.load('spta.clustering.kmedoids')
    k, seed, i = H.int('k', 1, None, 40), H.int('seed', 0, None, 40), H.int('i', 0, None, 40)
    mode = H.choice('mode', ['lite', 'robust', None])
    kw = {} if mode is None else {'mode': mode}
    m = km.KmedoidsClusteringMetadata.from_classifier_label('{}-{}-{}'.format(k, seed, i), **kw)
    agree(H, 'named', {'k': k, 'random_seed': seed, 'mode': mode or 'lite', 'max_iter': 1000, 'tol': 0.001,
                       'initial_medoids': None}, m)
    H.check('equal', m == km.KmedoidsClusteringMetadata(k, random_seed=seed, **kw))


def h_regular_round_trip(H):
    """the same for regular partitions"""
    rg = H.load('spta.clustering.regular')
    fa = H.load('spta.clustering.factory').ClusteringMetadataFactory()
    k = H.int('k', 1, None, 400)
    m = rg.RegularClusteringMetadata(k)
    for how, back in (('directly', rg.RegularClusteringMetadata.from_repr(repr(m))), ('factory', fa.from_repr(repr(m))),
                      ('instance', fa.instance('regular', k)), ('instance, with seed', fa.instance('regular', k, random_seed=3))):
        H.check('a regular description (' + how + ')', type(back) is rg.RegularClusteringMetadata)
        H.check('same k (' + how + ')', back.k == k)
        H.check('equal (' + how + ')', back == m and hash(back) == hash(m))
    H.check('dictionary', dict(m.as_dict()) == {'type': 'regular', 'k': k})
    j = H.int('other', 1, None, 400)
    o = rg.RegularClusteringMetadata(j)
    a, b = places(H, m), places(H, o)
    H.check('equal exactly for the same k', (m == o) == (j == k) and (m != o) == (j != k))
    for what in a:
        H.check('same ' + what + ' exactly for the same k', (a[what] == b[what]) == (j == k), '%s %s' % (a[what], b[what]))
    kk = H.load('spta.clustering.kmedoids').KmedoidsClusteringMetadata(k)
    c = places(H, kk)
    H.check('not equal to k-medoids', kk != m and m != kk and not kk == m)
    for what in a:
        H.check('not the ' + what + ' of k-medoids', a[what] != c[what])


def h_different(H):
    """two descriptions are equal and named the same exactly when no parameter that changes the result differs"""
    H.concrete_only('text')
    km = H.load('spta.clustering.kmedoids')
    p = kmedoids_params(H)
    q = dict(p)
    r = kmedoids_params(H, ' of the other')
    which = H.choice('differ in', ['k', 'random_seed', 'mode', 'initial_medoids', 'max_iter', 'tol', 'one medoid',
                                   'order of medoids', 'any', 'split medoids'])
    if which == 'any':
        q = r
    elif which == 'one medoid':
        if p.get('initial_medoids') is None:
            return
        im = [int(i) for i in p['initial_medoids']]
        im[H.index('position', len(im))] = H.int('new medoid', 0, None, 120)
        q['initial_medoids'] = im
    elif which == 'order of medoids':
        if p.get('initial_medoids') is None:
            return
        q['initial_medoids'] = [int(i) for i in p['initial_medoids']][::-1]
    elif which == 'split medoids':
        p['initial_medoids'], q['initial_medoids'] = H.choice('split', [([1, 2], [12]), ([12, 3], [1, 23]), ([1, 1], [11])])
    else:
        q.pop(which, None)
        if which in r:
            q[which] = r[which]
    a, b = km.KmedoidsClusteringMetadata(**p), km.KmedoidsClusteringMetadata(**q)
    same = full(p) == full(q)
    H.check('equal exactly when nothing differs', (a == b) == same and (a != b) == (not same), '%r %r' % (p, q))
    if same:
        H.check('same hash', hash(a) == hash(b))
    H.check('keys of a dictionary', len({a: 1, b: 2}) == (1 if same else 2), '%r %r' % (p, q))
    A, B = places(H, a), places(H, b)
    for what in A:
        H.check('same ' + what + ' exactly when nothing differs', (A[what] == B[what]) == same, '%s %s' % (A[what], B[what]))


def h_label(H):
    """k-seed-medoid of a classifier names the description with this k and seed"""
    H.concrete_only('text')
    km = H.load('spta.clustering.kmedoids')
    k, seed, i = H.int('k', 1, None, 40), H.int('seed', 0, None, 40), H.int('i', 0, None, 40)
    mode = H.choice('mode', ['lite', 'robust', None])
    kw = {} if mode is None else {'mode': mode}
    m = km.KmedoidsClusteringMetadata.from_classifier_label('%d-%d-%d' % (k, seed, i), **kw)
    H.check('same as by its parameters', m == km.KmedoidsClusteringMetadata(k, random_seed=seed, **kw))
    H.check('parameters', has(m) == full(dict(k=k, random_seed=seed, **kw)))


def h_unknown(H):
    """descriptions of an unknown kind are refused, and each kind gives its own algorithm"""
    f = H.load('spta.clustering.factory')
    km, rg = H.load('spta.clustering.kmedoids'), H.load('spta.clustering.regular')
    name = H.choice('name', ['', 'k', 'medoids', 'kmedoid', 'Regular', 'dbscan', 'regular2'])
    k = H.int('k', 1, None, 9)
    dm = H.load('spta.distance.dtw').DistanceByDTW()
    for what, call in (('instance', lambda: f.ClusteringMetadataFactory().instance(name, k, random_seed=1)),
                       ('text', lambda: f.ClusteringMetadataFactory().from_repr('{}_k{!r}'.format(name, k))),
                       ('algorithm', lambda: f.ClusteringFactory(dm).instance(
                           H.load('spta.clustering').ClusteringMetadata(name, k)))):
        try:
            call()
            ok = False
        except ValueError:
            ok = True
        H.check('refused (' + what + ')', ok, repr(name))
    for m, cls in ((km.KmedoidsClusteringMetadata(k), km.KmedoidsClusteringAlgorithm),
                   (rg.RegularClusteringMetadata(k), rg.RegularClusteringAlgorithm)):
        a = f.ClusteringFactory(dm).instance(m)
        H.check('its own algorithm', type(a) is cls and a.metadata is m and a.distance_measure is dm and a.k == k)


def a_suite(H, tag=''):
    """-> (suite, ks, seeds, the parameters each description should have)"""
    su = H.load('spta.clustering.suite')
    ks = [int(k) for k in H.array('ks' + tag, (H.int('number of ks' + tag, 1, 7),), 'i', 1, 30, distinct=True)]
    seeds = [int(s) for s in H.array('seeds' + tag, (H.int('number of seeds' + tag, 1, 4),), 'i', 0, 30, distinct=True)]
    extra = {}
    if H.bool('with mode' + tag):
        extra['mode'] = H.choice('mode' + tag, ['lite', 'robust'])
    if H.bool('with max_iter' + tag):
        extra['max_iter'] = H.choice('max_iter' + tag, [1, 50, 1000, 2000])
    if H.bool('with tol' + tag):
        extra['tol'] = H.choice('tol' + tag, TOLS)
    how = H.choice('given as' + tag, ['lists', 'tuples', 'ranges', 'single k', 'single seed', 'no seed', 'both single'])
    kw = dict(extra)
    if how == 'ranges':
        ks, seeds = list(range(ks[0], ks[0] + len(ks))), list(range(seeds[0], seeds[0] + len(seeds)))
        kw['k'], kw['random_seed'] = range(ks[0], ks[0] + len(ks)), range(seeds[0], seeds[0] + len(seeds))
    else:
        make = tuple if how == 'tuples' else list
        kw['k'], kw['random_seed'] = make(ks), make(seeds)
    if how in ('single k', 'both single'):
        ks = ks[:1]
        kw['k'] = ks[0]
    if how in ('single seed', 'both single'):
        seeds = seeds[:1]
        kw['random_seed'] = seeds[0]
    if how == 'no seed':
        seeds = [1]
        kw.pop('random_seed')
    name = H.choice('identifier' + tag, ['quick', 'other', 'a_b'])
    suite = su.ClusteringSuite(name, 'kmedoids', **kw)
    want = [full(dict(extra, k=k, random_seed=s)) for k in ks for s in seeds]
    return suite, ks, seeds, want


def order(ps):
    return sorted(ps, key=lambda p: (p['k'], p['random_seed']))


def h_suite(H):
    """one description per combination of parameter values"""
    H.concrete_only('descriptions are concrete')
    suite, ks, seeds, want = a_suite(H)
    got = [has(m) for m in suite]
    H.check('exactly one per combination', order(got) == order(want), '%s: %s' % (ks, got))
    H.check('the same each time', [repr(m) for m in suite] == [repr(m) for m in suite] and len(list(suite)) == len(want))
    H.check('text', repr(suite) == 'kmedoids-%s' % suite.identifier)
    rs = H.load('spta.clustering.suite').ClusteringSuite('r', 'regular', k=ks)
    H.check('regular: one per k', sorted(m.k for m in rs) == sorted(ks))
    g = H.load('spta.clustering.kmedoids').kmedoids_metadata_generator(ks, seeds, mode='robust', max_iter=7, tol=0.5)
    H.check('generator', order([has(m) for m in g]) == order([full(dict(
        k=k, random_seed=s, mode='robust', max_iter=7, tol=0.5)) for k in ks for s in seeds]))
    g = H.load('spta.clustering.regular').regular_metadata_generator(ks)
    H.check('generator of regular ones', sorted(m.k for m in g) == sorted(ks))


def h_suite_any(H):
    """as many descriptions as combinations, and each combination there (any number of ks and seeds)"""
    su = H.load('spta.clustering.suite')
    n, m = H.size('number of ks', 1, 6), H.size('number of seeds', 1, 5)
    ks, seeds = H.array('ks', (n,), 'i', 1, 30, distinct=True), H.array('seeds', (m,), 'i', 0, 30, distinct=True)
    if H.symbolic:
        kl, sl = H.listed(n, lambda i: ks[i]), H.listed(m, lambda j: seeds[j])
    else:
        kl, sl = [int(k) for k in ks], [int(s) for s in seeds]
    extra = {}
    if H.bool('with mode'):
        extra = {'mode': 'robust', 'max_iter': H.int('max_iter', 0, None, 2000)}
    suite = su.ClusteringSuite('any', 'kmedoids', k=kl, random_seed=sl, **extra)
    got = list(suite)
    H.check('as many as combinations', H.eq(H.len(got), n * m))

    def is_(x, i, j):
        return H.and_(H.eq(x.k, ks[i]), H.eq(x.random_seed, seeds[j]), x.mode == extra.get('mode', 'lite'),
                      H.eq(x.max_iter, extra.get('max_iter', 1000)), H.eq(x.tol, 0.001), x.initial_medoids is None)
    H.check('each combination', H.or_(H.all([n, m], lambda i, j: is_(got[i * m + j], i, j)),
                                      H.all([n, m], lambda i, j: is_(got[j * n + i], i, j))))


def h_organize(H):
    """grouped by seed, increasing k"""
    H.concrete_only('dictionary of descriptions')
    su = H.load('spta.clustering.suite')
    suite, ks, seeds, want = a_suite(H)
    got = su.OrganizeClusteringSuite().organize_kmedoids_suite(suite)
    H.check('one group per seed', sorted(got.keys()) == sorted(seeds), '%s' % list(got))
    for s in seeds:
        H.check('all of this seed by increasing k', [has(m) for m in got[s]] == order(
            [p for p in want if p['random_seed'] == s]), '%s' % got[s])


class Given:
    """costs of the descriptions, like the dictionary the caller has"""

    def __init__(self, n, cost):
        self.n, self.cost = n, cost

    def keys(self):
        return self

    def __len__(self):
        return self.n

    def __getitem__(self, m):
        return self.cost(m)


def h_elbow(H):
    """the elbow is the description with the largest divided second difference of cost, the first of equal ones"""
    H.concrete_only('dictionary of descriptions')
    su, km = H.load('spta.clustering.suite'), H.load('spta.clustering.kmedoids')
    n = H.int('n', 3, None, 9)
    ks = sorted(int(k) for k in H.array('ks', (n,), 'i', 1, 40, distinct=True))
    ms = [km.KmedoidsClusteringMetadata(k, random_seed=4) for k in ks]
    if H.bool('costs of a few sizes'):
        cost = H.array('coarse', (n,), 'i', 0, 6).astype(float)
    else:
        cost = H.array('cost', (n,), lo=0)
    got = su.FindSuiteElbow(None, None, None).find_cost_elbow_given_order(dict(zip(ms, cost)), ms)
    H.check('largest second difference', best(ks, cost, got.k), '%s %s %s' % (ks, list(cost), got.k))
    H.check('one of them', any(got is m for m in ms))


class Placed:
    """a description that knows its position"""

    def __init__(self, k, position):
        self.k, self.position = k, position


def h_elbow_any(H):
    """the elbow of any number of descriptions, k increasing, any costs: none has a larger second difference"""
    su = H.load('spta.clustering.suite')
    n = H.size('n', 3, 9)
    ks = H.array('ks', (n,), 'i', 1, 40, distinct=True)
    if H.symbolic:
        H.assume(H.all([n - 1], lambda i: ks[i] < ks[i + 1]))
    else:
        ks.sort()
    cost = H.array('cost', (n,), lo=0)
    ms = [Placed(ks[i], i) for i in range(n)]
    got = su.FindSuiteElbow(None, None, None).find_cost_elbow_given_order(Given(n, lambda m: cost[m.position]), ms)

    def d(i):
        p, q, r = ks[i - 1], ks[i], ks[i + 1]
        return (2.0 / ((q - p) * (r - p)) * cost[i - 1] + -2.0 / ((r - q) * (q - p)) * cost[i]
                + 2.0 / ((r - q) * (r - p)) * cost[i + 1])
    at = got.position
    H.check('neither the first nor the last', H.and_(1 <= at, at <= n - 2))
    H.check('the one at this position', H.eq(got.k, ks[at]))
    slack = 0 if H.symbolic else 1e-9 * (1 + max(abs(cost)))
    H.forall('none has a larger second difference', [n - 2], lambda j: d(j + 1) <= d(at) + slack)


def second(ks, cost, i):
    (a, b, c), (p, q, r) = ks[i - 1:i + 2], cost[i - 1:i + 2]
    return 2.0 * ((r - q) / (c - b) - (q - p) / (b - a)) / (c - a)


def best(ks, cost, k):
    """k has the largest second difference (equal up to rounding)"""
    d = [second(ks, cost, i) for i in range(1, len(ks) - 1)]
    if k not in ks[1:-1]:
        return False
    scale = max(abs(float(c)) for c in cost) + 1
    return d[ks.index(k) - 1] >= max(d) - 1e-9 * scale


def h_elbow_by_seed(H):
    """one elbow per seed, from the costs of this seed only"""
    H.concrete_only('dictionary of descriptions')
    su = H.load('spta.clustering.suite')
    suite, ks, seeds, want = a_suite(H)
    if len(ks) < 3:
        return
    cost = {}
    for i, m in enumerate(suite):
        cost[m] = H.real('cost%d' % i, 0)
    H.check('a cost for every description', len(cost) == len(want))
    got = su.FindSuiteElbow(suite, None, None).find_cost_elbow_for_each_kmedoids_seed(cost)
    H.check('one per seed', sorted(got) == sorted(seeds))
    o = sorted(ks)
    for s in seeds:
        c = [[cost[m] for m in suite if m.k == k and m.random_seed == s][0] for k in o]
        H.check('of this seed', got[s].random_seed == s)
        H.check('largest second difference of this seed', best(o, c, got[s].k), '%s %s %s' % (o, c, got[s].k))


def h_elbow_all(H):
    """from the region to the elbow: partitions of the descriptions, their costs, the elbow"""
    H.concrete_only('runs clustering')
    su = H.load('spta.clustering.suite')
    km = H.load('spta.clustering.kmedoids')
    pt = H.load('spta.region.partition')
    ds = H.load('spta.distance.dtw')
    xl, yl = H.int('xl', 2, 3), H.int('yl', 3, 3)
    r, d = cm.spt(H, H.int('tl', 1, 3), xl, yl, metadata=cm.metadata(H, xl, yl))
    seeds = [1, 2][:H.int('seeds', 1, 2)]
    ks = [2, 3, 5]
    dm = ds.DistanceByDTW()
    dm.compute_distance_matrix(r)
    suite = su.ClusteringSuite('quick', 'kmedoids', k=ks, random_seed=seeds, verbose=False)
    got = su.FindSuiteElbow(suite, r, dm).calculate_elbows_kmedoids('kept')
    fresh = ds.DistanceByDTW()
    fresh.compute_distance_matrix(r)
    for s in seeds:
        c = []
        for k in ks:
            a = km.KmedoidsClusteringAlgorithm(km.KmedoidsClusteringMetadata(k, random_seed=s, verbose=False), fresh)
            c.append(pt.intra_cluster_cost(a.partition(r), r, fresh))
        H.check('elbow of the costs of the clusterings', best(ks, c, got[s].k), '%s %s' % (c, got[s]))


def write_suite(path, rows):
    """the table like experiments/clustering/partition_analysis.py writes it"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', newline='') as f:
        w = csv.writer(f, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
        w.writerow(['clustering', 'total_cost', 'medoids'])
        for name, cost, medoids in rows:
            w.writerow([name, cost, ''.join('(%d,%d) ' % m for m in medoids)])


def h_stored_suite(H):
    """the medoids of a stored suite, for the description asked for; refused when there is none"""
    H.concrete_only('files')
    su = H.load('spta.clustering.suite')
    ds = H.load('spta.distance.dtw')
    P = H.load('spta.region').Point
    suite, ks, seeds, want = a_suite(H)
    md = cm.metadata(H, 4, 5, name=H.choice('region', ['some', 'other']), scaled=H.bool('scaled'))
    dm = H.choice('measure', [ds.DistanceByDTW(), ds.DistanceBySpatialDTW(2.0)])
    rows = []
    for i, m in enumerate(suite):
        at = H.array('medoids%d' % i, (m.k, 2), 'i', 0, 120)
        rows.append((repr(m), '%.3f' % H.real('cost%d' % i, 0), [(int(a), int(b)) for a, b in at]))
    path = os.path.join('home', repr(md), repr(dm), 'clustering__%r.csv' % suite)
    H.check('where it is stored', os.path.normpath(suite.analysis_csv_filepath('home', md, dm)) == path,
            suite.analysis_csv_filepath('home', md, dm))
    other = su.ClusteringSuite(suite.identifier + 'x', 'kmedoids', k=ks, random_seed=seeds)
    write_suite(path, rows)
    got = suite.retrieve_suite_result_csv('home', md, dm)
    H.check('one entry per description', sorted(got) == sorted(name for name, _, _ in rows))
    for name, _, medoids in rows:
        H.check('medoids in order', [(p.x, p.y) for p in got[name]] == medoids, '%s %s %s' % (name, got[name], medoids))
        H.check('points', all(isinstance(p, P) for p in got[name]))
    fa = H.load('spta.clustering.factory').ClusteringMetadataFactory()
    H.check('the entries name the descriptions', [fa.from_repr(n) for n, _, _ in rows] == list(suite))
    for what, call in (('other suite', lambda: other.retrieve_suite_result_csv('home', md, dm)),
                       ('other measure', lambda: suite.retrieve_suite_result_csv('home', md, ds.DistanceBySpatialDTW(7.5))),
                       ('other region', lambda: suite.retrieve_suite_result_csv('home', cm.metadata(H, 4, 5, name='third'), dm)),
                       ('other place', lambda: suite.retrieve_suite_result_csv('elsewhere', md, dm))):
        try:
            call()
            ok = False
        except ValueError:
            ok = True
        H.check('refused: ' + what, ok)
    names = [suite.analysis_csv_filepath('o', md, dm), suite.medoid_series_csv_filepath('o', md, dm),
             other.analysis_csv_filepath('o', md, dm), other.medoid_series_csv_filepath('o', md, dm),
             suite.csv_suite_dir('o', md, dm), other.csv_suite_dir('o', md, dm)]
    H.check('different files', len(set(names)) == len(names), repr(names))


h_history_suite = cm.history(h_asked_suite, skip=('stored medoids',))

h_history_elbow = cm.history(h_asked_elbow)

SPEC = [
    (h_kmedoids_round_trip, {'runs': 1500, 'why': 'text'}),
    (h_text_round_trip, {'sym': True, 'runs': 300}),
    (h_text_tells_apart, {'sym': True, 'runs': 200}),
    (h_text_tells_apart_given, {'sym': True, 'runs': 200}),
    (h_text_tells_apart_one, {'sym': True, 'runs': 100}),
    (h_text_regular, {'sym': True, 'runs': 200}),
    (h_text_label, {'sym': True, 'runs': 200}),
    (h_regular_round_trip, {'sym': True, 'runs': 300}),
    (h_different, {'runs': 1500, 'why': 'text'}),
    (h_label, {'runs': 200, 'why': 'text'}),
    (h_unknown, {'sym': True, 'runs': 60}),
    (h_suite, {'runs': 400, 'why': 'descriptions are concrete'}),
    (h_suite_any, {'sym': True, 'runs': 200}),
    (h_organize, {'runs': 300, 'why': 'dictionary of descriptions'}),
    (h_elbow, {'runs': 800, 'why': 'dictionary of descriptions'}),
    (h_elbow_any, {'sym': True, 'runs': 300}),
    (h_elbow_by_seed, {'runs': 200, 'why': 'dictionary of descriptions'}),
    (h_elbow_all, {'runs': 20, 'why': 'runs clustering'}),
    (h_stored_suite, {'runs': 60, 'why': 'files'}),
    (h_asked_suite, {'runs': 150, 'why': 'the same object asked many times'}),
    (h_history_suite, {'sym': True, 'runs': 20}),
    (h_history_elbow, {'sym': True, 'runs': 150}),
]
