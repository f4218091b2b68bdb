"""C18  every point gets the model and forecast of its own series"""
import numpy as np
from . import common as cm
from .asked import h_asked_trainer, h_asked_models

MODULES = ['spta.model.train', 'spta.model.base', 'spta.model.mean', 'spta.model.forecast', 'spta.model.error',
           'spta.region.spatial', 'spta.region.temporal', 'spta.region.function', 'spta.region.partition']

TRUSTED = ['statsmodels ARIMA and pmdarima auto_arima: stand-ins in the pairing runs (they record what they are given), '
           'the real ones in h_real_arima']


def trainer_of(H, fit, forecast=None):
    """a trainer whose training is an arbitrary function of parameters and series, with its model region"""
    tr, mb = H.load('spta.model.train'), H.load('spta.model.base')

    class Models(mb.ModelRegion):
        def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
            return forecast(model_at_point, forecast_len)

        def instance(self, a):
            return Models(a)

    class Trainer(tr.ModelTrainer):
        def training_function(self, model_params, training_series):
            return fit(model_params, training_series)

        def create_model_region(self, a):
            return Models(a)
    return Trainer, Models


def h_train(H):
    """each point's model is fitted to its own series (the same parameters everywhere)"""
    H.use_iteration_contracts()
    n = H.size('n', 1, 3)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, n, xl, yl)
    f = H.fn('fit', 'ff')
    q = H.index('q', n)
    par = H.real('params')
    T, M = trainer_of(H, lambda p, s: f(p, s[q]))
    t = T(model_params_and_shape=(par, xl, yl))
    m = t.apply_to(r)
    H.check('a model region', isinstance(m, M))
    H.check('grid', H.eq(H.shape(m.as_numpy), (xl, yl)))
    P = H.load('spta.region').Point
    H.forall('model of the own series', [xl, yl], lambda x, y: H.eq(m.value_at(P(x, y)), f(par, d[q, x, y])))
    H.check('none missing', H.eq(t.missing_count, 0))


def h_train_region(H):
    """each point's model is fitted to its own series with its own parameters"""
    H.use_iteration_contracts()
    n = H.size('n', 1, 3)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, n, xl, yl)
    ps, pv = cm.spatial(H, xl, yl, name='params')
    f = H.fn('fit', 'ff')
    q = H.index('q', n)
    T, M = trainer_of(H, lambda p, s: f(p, s[q]))
    t = T(model_params_region=ps)
    m = t.apply_to(r)
    H.check('grid', H.eq(H.shape(m.as_numpy), (xl, yl)))
    P = H.load('spta.region').Point
    H.forall('model of the own series and parameters', [xl, yl], lambda x, y: H.eq(
        m.value_at(P(x, y)), f(pv[x, y], d[q, x, y])))


def h_train_cluster(H):
    """the same at the members of a cluster"""
    H.use_iteration_contracts()
    n = H.size('n', 1, 3)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, n, xl, yl)
    p, lab = cm.partition(H, xl, yl, 3)
    c = H.index('cluster', p.k)
    f = H.fn('fit', 'ff')
    q = H.index('q', n)
    par = H.real('params')
    T, M = trainer_of(H, lambda p, s: f(p, s[q]))
    m = T(model_params_and_shape=(par, xl, yl)).apply_to(p.create_spt_cluster(r, c))
    H.check('grid', H.eq(H.shape(m.as_numpy), (xl, yl)))
    P = H.load('spta.region').Point
    H.forall('model of the own series', [xl, yl], lambda x, y: H.imp(
        H.eq(lab[x, y], c), H.eq(m.value_at(P(x, y)), f(par, d[q, x, y]))))


def h_representatives(H):
    """training at representatives: models there and nowhere else"""
    H.use_iteration_contracts()
    tr = H.load('spta.model.train')
    n = H.size('n', 1, 3)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, n, xl, yl)
    f = H.fn('fit', 'ff')
    q = H.index('q', n)
    par = H.real('params')
    P = H.load('spta.region').Point
    T, M = trainer_of(H, lambda p, s: f(p, s[q]))
    t = T(model_params_and_shape=(par, xl, yl))
    px, py = H.index('px', xl), H.index('py', yl)
    qx, qy = H.index('qx', xl), H.index('qy', yl)
    reps = [P(px, py), P(qx, qy)]
    at = tr.TrainAtRepresentatives(t, reps)
    x, y = H.index('x', xl), H.index('y', yl)
    got = at.function_at(P(x, y))(d[:, x, y])
    here = H.or_(H.and_(H.eq(x, px), H.eq(y, py)), H.and_(H.eq(x, qx), H.eq(y, qy)))
    if got is None:
        H.check('no model elsewhere', H.not_(here))
    else:
        H.check('only at the representatives', here)
        H.check('model of the own series', H.eq(got, f(par, d[q, x, y])))


def h_forecast(H):
    """each point's forecast is the one of its own model, of the length asked for"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H, 3)
    g = H.fn('forecast', 'fi')
    T, M = trainer_of(H, None, lambda model, length: np.array([g(model, i) for i in range(length)]))
    mv = H.array('models', (xl, yl))
    n, k = H.size('n', 1, 3), H.size('k', 1, 3)
    kind = H.choice('applied to', ['spatial', 'spatio-temporal', 'empty'])
    if kind == 'spatial':
        r, _ = cm.spatial(H, xl, yl)
    else:
        r, _ = cm.spt(H, n, xl, yl)
        if kind == 'empty':
            r = r.empty_region_2d()
    m = M(mv)
    out = m.apply_to(r, k)
    H.check('length and grid (' + kind + ')', H.eq(H.shape(out.as_numpy), (k, xl, yl)))
    H.forall('forecast of the own model (' + kind + ')', [k, xl, yl], lambda i, x, y: H.eq(
        out.as_numpy[i, x, y], g(mv[x, y], i)))


def h_forecast_cluster(H):
    """the same at the members of a cluster"""
    H.use_iteration_contracts()
    xl, yl = cm.grid(H, 3)
    g = H.fn('forecast', 'fi')
    T, M = trainer_of(H, None, lambda model, length: np.array([g(model, i) for i in range(length)]))
    mv = H.array('models', (xl, yl))
    n, k = H.size('n', 1, 3), H.size('k', 1, 3)
    p, lab = cm.partition(H, xl, yl, 3)
    c = H.index('cluster', p.k)
    r, _ = cm.spt(H, n, xl, yl)
    out = M(mv).apply_to(p.create_spt_cluster(r, c).empty_region_2d(), k)
    H.check('length and grid', H.eq(H.shape(out.as_numpy), (k, xl, yl)))
    H.forall('forecast of the own model', [k, xl, yl], lambda i, x, y: H.imp(
        H.eq(lab[x, y], c), H.eq(out.as_numpy[i, x, y], g(mv[x, y], i))))


def h_no_model(H):
    """no model: a missing series of the length asked for"""
    T, M = trainer_of(H, None, lambda model, length: np.zeros(length))
    P = H.load('spta.region').Point
    xl, yl = cm.grid(H, 3)
    a = np.full((xl, yl), None, dtype=object)
    m = M(a)
    k = H.size('k', 1, 4)
    m.forecast_len = k
    x, y = H.index('x', xl), H.index('y', yl)
    s = m.function_at(P(x, y))(H.real('value'))
    H.check('length', H.eq(H.len(s), k))
    H.forall('all missing', [k], lambda i: H.isnan(s[i]))


def h_mean(H):
    """mean of past: the mean of the last samples of the own series at every step"""
    H.use_iteration_contracts()
    mm = H.load('spta.model.mean')
    n, k = H.size('n', 1, 6), H.size('k', 1, 4)
    past = H.int('past', 1, None, 7)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, n, xl, yl)
    t = mm.TrainerMeanOfPast(mm.MeanOfPastParams(past), xl, yl)
    m = t.apply_to(r)
    f = m.apply_to(r.empty_region_2d(), k).as_numpy
    H.check('length and grid', H.eq(H.shape(f), (k, xl, yl)))
    w = past if past <= n else n
    H.forall('mean of the last samples', [k, xl, yl], lambda i, x, y: H.eq(
        f[i, x, y] * w, H.sum([w], lambda j: d[n - w + j, x, y])))


def h_refused(H):
    """either constant parameters or a region of parameters"""
    tr = H.load('spta.model.train')
    ps, _ = cm.spatial(H, 2, 2)
    T, M = trainer_of(H, lambda p, s: s)
    for name, kw in (('both', {'model_params_and_shape': (1, 2, 2), 'model_params_region': ps}), ('neither', {})):
        try:
            T(**kw)
            ok = False
        except ValueError:
            ok = True
        H.check('refused: ' + name, ok)


def h_given(H):
    """models that are already there are used as they are"""
    H.use_iteration_contracts()
    tr = H.load('spta.model.train')
    T, M = trainer_of(H, None)
    m = M(H.array('models', (2, 3)))
    r, _ = cm.spt(H, 2, 2, 3)
    H.check('the models given', tr.NoTrainer(m).apply_to(r) is m)


def regions(H, m, xl, yl):
    """-> (region or cluster, data, its points)"""
    r, d = cm.spt(H, m, xl, yl, lo=0, hi=40)
    if H.bool('scaled'):
        r = H.load('spta.region.scaling').ScaleFunction(xl, yl).apply_to(r, m)
        d = r.as_numpy.copy()
    pts = cm.points_of(H, xl, yl)
    if H.bool('cluster'):
        p, lab = cm.partition(H, xl, yl, 3)
        c = int(lab[H.index('x0', xl), H.index('y0', yl)])
        r = p.create_spt_cluster(r, c)
        pts = [(x, y) for x, y in pts if lab[x, y] == c]
    return r, d, pts


def h_missing(H):
    """the fit of some series fails: exactly those points have no model, they are counted, their forecast is missing,
    and every other point is as without failures"""
    H.use_iteration_contracts()
    n = H.size('n', 1, 3)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, n, xl, yl)
    f, g = H.fn('fit', 'ff'), H.fn('forecast', 'fi')
    q = H.index('q', n)
    par = H.real('params')

    def fit(p, s):
        m = f(p, s[q])
        return m if m > 0 else None
    T, M = trainer_of(H, fit, lambda model, length: np.array([g(model, i) for i in range(length)]))
    t = T(model_params_and_shape=(par, xl, yl))
    m = t.apply_to(r)
    P = H.load('spta.region').Point
    x, y = H.index('x', xl), H.index('y', yl)
    own = f(par, d[q, x, y])
    v = m.value_at(P(x, y))
    if v is None:
        H.check('no model only where the fit fails', H.not_(own > 0))
    else:
        H.check('a model only where the fit succeeds', own > 0)
        H.check('the own model', H.eq(v, own))
    H.check('missing models counted', H.eq(t.missing_count, H.count(
        [xl, yl], lambda a, b: H.not_(f(par, d[q, a, b]) > 0))))
    k = H.size('k', 1, 3)
    out = m.apply_to(r.empty_region_2d(), k).as_numpy
    H.check('length and grid', H.eq(H.shape(out), (k, xl, yl)))
    H.forall('own forecast, or missing', [k, xl, yl], lambda i, a, b: H.ite(
        f(par, d[q, a, b]) > 0, H.eq(out[i, a, b], g(f(par, d[q, a, b]), i)), H.isnan(out[i, a, b])))


def h_missing_cluster(H):
    """the same at the members of a cluster: only failures of members count"""
    H.use_iteration_contracts()
    n = H.size('n', 1, 3)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, n, xl, yl)
    p, lab = cm.partition(H, xl, yl, 3)
    x, y = H.index('x', xl), H.index('y', yl)
    c = lab[x, y] if H.symbolic else int(lab[x, y])
    r = p.create_spt_cluster(r, c)
    f, g = H.fn('fit', 'ff'), H.fn('forecast', 'fi')
    q = H.index('q', n)
    par = H.real('params')

    def fit(p, s):
        m = f(p, s[q])
        return m if m > 0 else None
    T, M = trainer_of(H, fit, lambda model, length: np.array([g(model, i) for i in range(length)]))
    t = T(model_params_and_shape=(par, xl, yl))
    m = t.apply_to(r)
    P = H.load('spta.region').Point
    own = f(par, d[q, x, y])
    v = m.value_at(P(x, y))
    if v is None:
        H.check('no model only where the fit fails', H.not_(own > 0))
    else:
        H.check('a model only where the fit succeeds', own > 0)
        H.check('the own model', H.eq(v, own))
    H.check('missing models counted', H.eq(t.missing_count, H.count(
        [xl, yl], lambda a, b: H.and_(H.eq(lab[a, b], c), H.not_(f(par, d[q, a, b]) > 0)))))
    k = H.size('k', 1, 3)
    out = m.apply_to(r.empty_region_2d(), k).as_numpy
    H.check('length and grid', H.eq(H.shape(out), (k, xl, yl)))
    H.forall('own forecast, or missing', [k, xl, yl], lambda i, a, b: H.imp(H.eq(lab[a, b], c), H.ite(
        f(par, d[q, a, b]) > 0, H.eq(out[i, a, b], g(f(par, d[q, a, b]), i)), H.isnan(out[i, a, b]))))


def h_missing_representatives(H):
    """trained at representatives: every other point, and representatives whose fit fails, count as missing and have a
    missing forecast"""
    H.use_iteration_contracts()
    tr = H.load('spta.model.train')
    n = H.size('n', 1, 3)
    xl, yl = cm.grid(H, 3)
    r, d = cm.spt(H, n, xl, yl)
    f, g = H.fn('fit', 'ff'), H.fn('forecast', 'fi')
    q = H.index('q', n)
    par = H.real('params')

    def fit(p, s):
        m = f(p, s[q])
        return m if m > 0 else None
    T, M = trainer_of(H, fit, lambda model, length: np.array([g(model, i) for i in range(length)]))
    t = T(model_params_and_shape=(par, xl, yl))
    P = H.load('spta.region').Point
    ps = [(H.index('px%d' % i, xl), H.index('py%d' % i, yl)) for i in range(H.choice('representatives', [1, 2]))]
    m = tr.TrainAtRepresentatives(t, [P(a, b) for a, b in ps]).apply_to(r)

    def own(a, b):
        return H.and_(H.or_(*[H.and_(H.eq(a, u), H.eq(b, v)) for u, v in ps]), f(par, d[q, a, b]) > 0)
    H.check('missing models counted', H.eq(t.missing_count, H.count([xl, yl], lambda a, b: H.not_(own(a, b)))))
    k = H.size('k', 1, 3)
    out = m.apply_to(r.empty_region_2d(), k).as_numpy
    H.check('length and grid', H.eq(H.shape(out), (k, xl, yl)))
    H.forall('own forecast, or missing', [k, xl, yl], lambda i, a, b: H.ite(
        own(a, b), H.eq(out[i, a, b], g(f(par, d[q, a, b]), i)), H.isnan(out[i, a, b])))


def h_failures(H):
    """any pattern of failing fits: counted, no model there, missing forecasts, the others as without failures"""
    H.concrete_only('some points without a model')
    tr = H.load('spta.model.train')
    xl, yl = cm.grid(H, 3)
    n, k = H.int('n', 1, 4), H.int('k', 1, 4)
    r, d, pts = regions(H, n, xl, yl)
    fail = {p: H.bool('fails at %d %d' % p) for p in cm.points_of(H, xl, yl)}
    P = H.load('spta.region').Point
    seen = []

    class Model(object):
        def __init__(self, params, series):
            self.params, self.series = params, np.array(series)

    def fit(p, s):
        q = p
        seen.append((q, tuple(s)))
        return None if fail[q] else Model(p, s)

    def forecast(m, length):
        return np.array([m.series[-1] + 10 * m.params[0] + 100 * m.params[1] + i for i in range(length)])
    T, M = trainer_of(H, fit, forecast)
    params = np.empty((xl, yl), dtype=object)
    for x, y in cm.points_of(H, xl, yl):
        params[x, y] = (x, y)
    t = T(model_params_region=H.load('spta.region.spatial').SpatialRegion(params))
    used = t
    reps = None
    if H.bool('representatives'):
        reps = [q for q in pts if H.bool('at %d %d' % q)]
        used = tr.TrainAtRepresentatives(t, [P(*q) for q in reps])
    m = used.apply_to(r)
    want = [q for q in pts if reps is None or q in reps]
    H.check('trained once, with the own series', sorted(seen) == sorted((q, tuple(d[:, q[0], q[1]])) for q in want))
    missing = [q for q in pts if q not in want or fail[q]]
    H.check('missing counted', used.missing_count == len(missing), '%d %d' % (used.missing_count, len(missing)))
    H.check('and known to the trainer that is decorated', t.missing_count == len(missing))
    H.check('a model region', isinstance(m, M))
    for q in pts:
        v = m.value_at(P(*q))
        H.check('model', (v is None) if q in missing else (v.params == q and tuple(v.series) == tuple(d[:, q[0], q[1]])))
    f = m.apply_to(r.empty_region_2d(), k)
    for x, y in pts:
        s = f.series_at(P(x, y))
        if (x, y) in missing:
            H.check('missing forecast', len(s) == k and np.isnan(s).all())
        else:
            H.check('own forecast', np.allclose(s, [d[-1, x, y] + 10 * x + 100 * y + i for i in range(k)]))
    m2 = used.apply_to(r)
    H.check('counted anew', used.missing_count == len(missing) and isinstance(m2, M))


def stubs(H, at, fail, asked):
    """stand-ins for the ARIMA libraries: record order, series and search parameters, fail where told"""
    class Fitted(object):
        def __init__(self, model):
            self.model, self.aic = model, float(np.sum(model.series)) + 1

        def forecast(self, n):
            p, d, q = self.model.order
            return np.array([self.model.series[-1] + p + 10 * d + 100 * q + 1000 * i for i in range(n)])

    class Arima(object):
        def __init__(self, series, order, seasonal_order=None):
            self.series, self.order = np.array(series), tuple(int(v) for v in order)
            kind = fail.get(at(self.series))
            if kind == 'create':
                raise ValueError('not stationary')

        def fit(self):
            kind = fail.get(at(self.series))
            if kind == 'fit':
                raise ValueError('cannot fit')
            if kind == 'svd':
                raise np.linalg.LinAlgError('SVD did not converge')
            return Fitted(self)

    def auto(series, **kw):
        q = at(np.array(series))
        asked.append(kw)
        kind = fail.get(q)
        if kind == 'auto':
            raise ValueError('no order')
        if kind == 'auto svd':
            raise np.linalg.LinAlgError('SVD did not converge')

        class Found(object):
            order = (q[0] % 3, (q[0] + q[1]) % 2, q[1] % 3)
        return Found()
    return Arima, auto


def h_arima(H):
    """ARIMA trainers and refitting: order and series of the own point, failures counted (libraries stood in for)"""
    H.concrete_only('external libraries')
    at_ = H.load('spta.arima.train')
    ar = H.load('spta.arima')
    tr = H.load('spta.model.train')
    P = H.load('spta.region').Point
    xl, yl = cm.grid(H, 3)
    n, k = H.int('n', 2, 4), H.int('k', 1, 3)
    r, d, pts = regions(H, n, xl, yl)
    allp = cm.points_of(H, xl, yl)
    H.assume(len({tuple(d[:, x, y]) for x, y in allp}) == len(allp))
    where = {tuple(d[:, x, y]): (x, y) for x, y in allp}
    where2 = {}

    def at(series):
        return where.get(tuple(series), where2.get(tuple(series)))
    auto = H.bool('auto')
    fail = {p: H.choice('at %d %d' % p, [None, None, None, 'create', 'fit', 'svd', 'auto', 'auto svd']) for p in allp}
    orig = at_.ARIMA, at_.auto_arima
    asked = []
    at_.ARIMA, at_.auto_arima = stubs(H, at, fail, asked)
    how = ar.AutoArimaParams(H.int('start p', 0, 2), H.int('start q', 0, 2), H.int('max p', 3, 5), H.int('max q', 3, 5),
                             H.choice('d', [None, 0, 1]), H.bool('stepwise'))
    try:
        if auto:
            t = at_.TrainerAutoArima(how, xl, yl)
        else:
            t = at_.TrainerArimaPDQ(ar.ArimaPDQ(2, 1, 3), xl, yl)

        def order(q):
            return (q[0] % 3, (q[0] + q[1]) % 2, q[1] % 3) if auto else (2, 1, 3)
        used, want = t, pts
        if H.bool('representatives'):
            want = [q for q in pts if H.bool('rep %d %d' % q)]
            used = tr.TrainAtRepresentatives(t, [P(*q) for q in want])
        bad = ['create', 'fit', 'svd'] + (['auto', 'auto svd'] if auto else [])
        missing = [q for q in pts if q not in want or fail[q] in bad]
        m = used.apply_to(r)
        H.check('missing counted', used.missing_count == len(missing) and m.missing_count == len(missing), '%s %s' % (
            m.missing_count, len(missing)))

        def verify(label, m, e, missing):
            f = m.apply_to(r.empty_region_2d(), k)
            for q in pts:
                v = m.value_at(P(*q))
                s = f.series_at(P(*q))
                aic = m.aic_region.value_at(P(*q))
                if q in missing:
                    H.check('no model' + label, v is None and np.isnan(s).all() and len(s) == k and np.isnan(aic))
                    continue
                H.check('own series and order' + label, v.model.order == order(q) and np.array_equal(
                    v.model.series, e[:, q[0], q[1]]))
                p, dd, qq = order(q)
                H.check('own forecast' + label, np.allclose(s, [e[-1, q[0], q[1]] + p + 10 * dd + 100 * qq + 1000 * i
                                                               for i in range(k)]))
                H.check('own AIC' + label, np.isclose(aic, e[:, q[0], q[1]].sum() + 1))
        verify('', m, d, missing)
        H.check('every search with the parameters of the training', all(
            kw.get(f, 'absent') == getattr(how, f) for kw in asked for f in how._fields))
        if auto:
            for q in pts:
                got = tuple(m.pdq_region.series_at(P(*q)))
                H.check('order found', got == ((-1, -1, -1) if q in missing else order(q)))
            # refit with other data: the orders found, the new series
            e = d + 50
            where2.update({tuple(e[:, x, y]): (x, y) for x, y in allp})
            fail2 = {p: H.choice('refit at %d %d' % p, [None, None, None, 'fit', 'svd']) for p in allp}
            fail.clear()
            fail.update(fail2)
            missing2 = [q for q in pts if q in missing or fail[q]]
            re = used.create_refitter(m) if used is t else t.create_refitter(m)
            r2 = r.new_spatio_temporal_region(e)
            m2 = re.apply_to(r2)
            verify(' (refitted)', m2, e, missing2)
            H.check('missing counted (refitted)', m2.missing_count == len(missing2))
            H.check('models of the first training unchanged', all(
                m.value_at(P(*q)) is None if q in missing else np.array_equal(m.value_at(P(*q)).model.series, d[:, q[0], q[1]])
                for q in pts))
    finally:
        at_.ARIMA, at_.auto_arima = orig


def h_real_arima(H):
    """with the real library: the forecast at each point is the library's for that series and order"""
    H.concrete_only('external libraries')
    import warnings
    warnings.simplefilter('ignore')
    at_, ar = H.load('spta.arima.train'), H.load('spta.arima')
    P = H.load('spta.region').Point
    d = H.array('d', (12, 2, 2), lo=0, hi=20)
    H.assume((d.std(axis=0) > 0.5).all())
    r = H.load('spta.region.temporal').SpatioTemporalRegion(d)
    order = H.choice('order', [(1, 0, 0), (1, 1, 0), (0, 0, 1)])
    m = at_.TrainerArimaPDQ(ar.ArimaPDQ(*order), 2, 2).apply_to(r)
    f = m.apply_to(r.empty_region_2d(), 3)
    for x, y in ((0, 1), (1, 0)):
        try:
            want = at_.ARIMA(d[:, x, y], order=order, seasonal_order=(0, 0, 0, 0)).fit().forecast(3)
        except (ValueError, np.linalg.LinAlgError):
            want = np.full(3, np.nan)
        H.check('forecast of the library', np.allclose(f.series_at(P(x, y)), want, equal_nan=True))


def h_suite(H):
    """an ARIMA suite gives every combination once, in order"""
    H.concrete_only('a generator of named tuples')
    ar = H.load('spta.arima')
    ps = [H.int('p%d' % i, 0, 5) for i in range(H.int('np', 0, 3))]
    ds = [H.int('d%d' % i, 0, 5) for i in range(H.int('nd', 0, 3))]
    qs = [H.int('q%d' % i, 0, 5) for i in range(H.int('nq', 0, 3))]
    got = list(ar.ArimaSuiteParams(ps, ds, qs).arima_params_gen())
    H.check('every combination', [tuple(g) for g in got] == [(p, d, q) for p in ps for d in ds for q in qs])


def h_analysis(H):
    """training, forecasting and training again: the forecasts are always those of the last training"""
    H.concrete_only('history of one object')
    fo, mn = H.load('spta.model.forecast'), H.load('spta.model.mean')
    P = H.load('spta.region').Point
    xl, yl = cm.grid(H, 3)
    past = H.int('past', 1, 4)
    fa = fo.ForecastAnalysis(mn.TrainerMeanOfPast(mn.MeanOfPastParams(past), xl, yl))
    try:
        fa.test_len = 1
        fa.forecast_at_each_point(1, 'MSE')
        ok = False
    except ValueError:
        ok = True
    H.check('no forecast before training', ok)
    m = d = k = None
    for step in range(H.int('steps', 1, 5)):
        what = H.choice('step %d' % step, ['train', 'forecast', 'single', 'all'])
        if m is None or what == 'train':
            m, k = H.int('m%d' % step, 1, 4), H.int('k%d' % step, 1, 3)
            r, d = cm.spt(H, m + k, xl, yl, name='data%d' % step, lo=0, hi=40)
            fa.train_models(r, k)
            continue
        means = np.array([[d[max(0, m - past):m, x, y].mean() for y in range(yl)] for x in range(xl)])
        if what == 'forecast':
            f, e, _ = fa.forecast_at_each_point(k, 'MSE')
            H.check('forecast of each point', np.allclose(f.as_numpy, np.broadcast_to(means, (k, xl, yl))))
            H.check('error of each point', np.allclose(e.as_numpy, ((d[m:] - means) ** 2).mean(axis=0)))
        elif what == 'single':
            x, y = H.index('x%d' % step, xl), H.index('y%d' % step, yl)
            e = fa.forecast_whole_region_with_single_model(P(x, y), k, 'MSE')
            H.check('one model for all', np.allclose(e.as_numpy, ((d[m:] - means[x, y]) ** 2).mean(axis=0)))
        else:
            e = fa.forecast_whole_region_with_all_models(k, 'MSE')
            want = [[(((d[m:] - means[x, y]) ** 2).mean(axis=0) ** 2).mean() ** 0.5 for y in range(yl)] for x in range(xl)]
            H.check('each model for all', np.allclose(e.as_numpy, want))


h_history_models = cm.history(h_asked_models, last=True)

SPEC = [
    (h_train, {'sym': True, 'runs': 100}),
    (h_train_region, {'sym': True, 'runs': 100}),
    (h_train_cluster, {'sym': True, 'runs': 100}),
    (h_representatives, {'sym': True, 'runs': 100}),
    (h_forecast, {'sym': True, 'runs': 100}),
    (h_forecast_cluster, {'sym': True, 'runs': 100}),
    (h_no_model, {'sym': True, 'runs': 50}),
    (h_mean, {'sym': True, 'runs': 150}),
    (h_refused, {'sym': True, 'runs': 5}),
    (h_given, {'sym': True, 'runs': 5}),
    (h_missing, {'sym': True, 'runs': 150}),
    (h_missing_cluster, {'sym': True, 'runs': 150}),
    (h_missing_representatives, {'sym': True, 'runs': 150}),
    (h_failures, {'runs': 200, 'why': 'some points without a model'}),
    (h_arima, {'runs': 200, 'why': 'external libraries'}),
    (h_real_arima, {'runs': 4, 'seconds': 20, 'min': 1, 'why': 'external libraries'}),
    (h_suite, {'runs': 60, 'why': 'a generator of named tuples'}),
    (h_analysis, {'runs': 150, 'why': 'history of one object'}),
    (h_asked_trainer, {'runs': 150, 'why': 'the same object asked many times'}),
    (h_history_models, {'sym': True, 'seconds': 150, 'cost': 10, 'runs': 150}),
]
