"""C17  error measures equal their definitions, per point and overall"""
import numpy as np
from . import common as cm
from .asked import h_asked_errors

MODULES = ['spta.util.error', 'spta.util.arrays', 'spta.model.error', 'spta.model.error_parallel', 'spta.model.forecast']


def h_mse(H):
    """mean squared error"""
    e = H.load('spta.util.error')
    n = H.size('n', 1, 9)
    f, o = H.array('forecast', (n,)), H.array('observation', (n,))
    d = lambda t: f[t] - o[t]      # noqa: E731
    args = H.choice('training series given', [(), (H.array('training', (3,)),)])
    got = e.mse(f, o, *args)
    H.check('mean of the squared differences', H.eq(got * n, H.sum([n], lambda t: d(t) * d(t))))


def h_smape(H):
    """symmetric percentage error: mean of 200 |f - o| / (f + o)"""
    e = H.load('spta.util.error')
    n = H.size('n', 1, 9)
    f, o = H.array('forecast', (n,)), H.array('observation', (n,))
    H.assume(H.all([n], lambda t: H.not_(H.eq(f[t] + o[t], 0))))
    args = H.choice('training series given', [(), (H.array('training', (3,)),)])
    got = e.smape(f, o, *args)
    ab = lambda v: H.ite(v >= 0, v, -v)      # noqa: E731
    H.check('mean of the percentages', H.eq(got * n, H.sum([n], lambda t: 200 * (ab(f[t] - o[t]) / (f[t] + o[t])))))


def h_mase(H):
    """scaled error: mean of |f - o| over the mean step of the training series"""
    e = H.load('spta.util.error')
    n, m = H.size('n', 1, 6), H.size('m', 2, 8)
    f, o, y = H.array('forecast', (n,)), H.array('observation', (n,)), H.array('training', (m,))
    ab = lambda v: H.ite(v >= 0, v, -v)      # noqa: E731
    steps = H.sum([m - 1], lambda t: ab(y[t + 1] - y[t]))
    H.assume(steps > 0)
    got = e.mase(f, o, y)
    if H.symbolic:
        q = steps / (m - 1)
        H.check('mean of the scaled errors', H.eq(got * n, H.sum([n], lambda t: ab((f[t] - o[t]) / q))))
    else:
        want = H.sum([n], lambda t: ab(f[t] - o[t])) / n / (steps / (m - 1))
        H.check('mean of the scaled errors', H.eq(got, want))


def any_error(H, n, m):
    """an arbitrary function of a sample (at any position) of forecast, observation and training series"""
    f = H.fn('error', 'fff')
    q, w, v = H.index('q', n), H.index('w', n), H.index('v', m)
    return (lambda a, b, c: f(a[q], b[w], c[v])), (lambda a, b, c: f(a(q), b(w), c(v)))


def h_region(H):
    """an error region holds at each point the error of its own forecast, observation and training series"""
    H.use_iteration_contracts()
    me = H.load('spta.model.error')
    n, m = H.size('n', 1, 3), H.size('m', 1, 3)
    xl, yl = cm.grid(H, 3)
    fr, f = cm.spt(H, n, xl, yl, name='forecast')
    ob, o = cm.spt(H, n, xl, yl, name='observation')
    tr, t = cm.spt(H, m, xl, yl, name='training')
    code, g = any_error(H, n, m)
    e = me.MeasureForecastingError(code, ob, tr).apply_to(fr)
    H.check('an error region', isinstance(e, me.ErrorRegion))
    a = e.as_numpy
    H.check('grid', H.eq(H.shape(a), (xl, yl)))
    H.forall('error of the point', [xl, yl], lambda x, y: H.eq(a[x, y], g(
        lambda i: f[i, x, y], lambda i: o[i, x, y], lambda i: t[i, x, y])))


def h_region_cluster(H):
    """the same for the members of a cluster"""
    H.use_iteration_contracts()
    me = H.load('spta.model.error')
    n, m = H.size('n', 1, 3), H.size('m', 1, 3)
    xl, yl = cm.grid(H, 3)
    fr, f = cm.spt(H, n, xl, yl, name='forecast')
    ob, o = cm.spt(H, n, xl, yl, name='observation')
    tr, t = cm.spt(H, m, xl, yl, name='training')
    p, lab = cm.partition(H, xl, yl, 3)
    c = H.index('cluster', p.k)
    code, g = any_error(H, n, m)
    e = me.MeasureForecastingError(code, p.create_spt_cluster(ob, c), p.create_spt_cluster(tr, c)).apply_to(
        p.create_spt_cluster(fr, c))
    a = e.as_numpy
    H.check('grid', H.eq(H.shape(a), (xl, yl)))
    H.forall('error of the member', [xl, yl], lambda x, y: H.imp(H.eq(lab[x, y], c), H.eq(a[x, y], g(
        lambda i: f[i, x, y], lambda i: o[i, x, y], lambda i: t[i, x, y]))))


def h_region_scaled(H):
    """scaled data is descaled first"""
    H.use_iteration_contracts()
    me, sc = H.load('spta.model.error'), H.load('spta.region.scaling')
    n, m = H.size('n', 1, 3), H.size('m', 1, 3)
    xl, yl = cm.grid(H, 3)
    fr, f, fmn, fmx = cm.wrap_scaled(H, n, xl, yl, 'forecast')
    ob, o, omn, omx = cm.wrap_scaled(H, n, xl, yl, 'observation')
    tr, t, tmn, tmx = cm.wrap_scaled(H, m, xl, yl, 'training')
    code, g = any_error(H, n, m)
    e = me.MeasureForecastingError(code, ob, tr).apply_to(fr)
    a = e.as_numpy
    up = lambda d, mn, mx, x, y: lambda i: d[i, x, y] * (mx[x, y] - mn[x, y]) + mn[x, y]      # noqa: E731
    H.forall('error of the point, descaled', [xl, yl], lambda x, y: H.eq(a[x, y], g(
        up(f, fmn, fmx, x, y), up(o, omn, omx, x, y), up(t, tmn, tmx, x, y))))


def h_repeated(H):
    """a repeated forecast: the error at each point of this one series"""
    H.use_iteration_contracts()
    me = H.load('spta.model.error')
    n, m = H.size('n', 1, 3), H.size('m', 1, 3)
    xl, yl = cm.grid(H, 3)
    f = H.array('forecast', (n,))
    ob, o = cm.spt(H, n, xl, yl, name='observation')
    tr, t = cm.spt(H, m, xl, yl, name='training')
    code, g = any_error(H, n, m)
    orig = me.get_error_func
    asked = []

    def contract(error_type):
        asked.append(error_type)
        return code
    me.get_error_func = contract
    try:
        e = me.ErrorAnalysis(ob, tr).with_repeated_forecast(f, 'sMAPE')
    finally:
        me.get_error_func = orig
    a = e.as_numpy
    H.check('the function asked for', asked == ['sMAPE'])
    H.forall('error of the point', [xl, yl], lambda x, y: H.eq(a[x, y], g(
        lambda i: f[i], lambda i: o[i, x, y], lambda i: t[i, x, y])))


def h_iteration(H):
    """an error region is iterated as the region it decorates: each result handed on, and the end too"""
    me = H.load('spta.model.error')
    xl, yl = cm.grid(H, 3)
    r, v = cm.spatial(H, xl, yl)
    e = me.ErrorRegion(r)
    results, calls = [object(), object(), None], []

    def contract():
        calls.append(1)
        if len(calls) > len(results):
            raise StopIteration
        return results[len(calls) - 1]
    r.__next__ = contract
    for k, want in enumerate(results):
        H.check('result handed on (%d)' % k, e.__next__() is want and len(calls) == k + 1)
    try:
        e.__next__()
        ended = False
    except StopIteration:
        ended = True
    H.check('the end handed on', ended)


def h_overall(H):
    """overall error: root of the mean of the squares, without the missing ones"""
    H.use_iteration_contracts()
    me = H.load('spta.model.error')
    xl, yl = cm.grid(H, 4)
    r, v = cm.spatial(H, xl, yl, nan=True)
    H.assume(H.any([xl, yl], lambda x, y: H.not_(H.isnan(v[x, y]))))
    got = me.ErrorRegion(r).overall_error
    there = lambda x, y: H.not_(H.isnan(v[x, y]))      # noqa: E731
    H.check('not missing', H.not_(H.isnan(got)))
    H.check('not negative', got >= 0)
    H.check('mean of the squares', H.eq(got * got * H.count([xl, yl], there), H.sum(
        [xl, yl], lambda x, y: v[x, y] * v[x, y], there)))


def h_overall_cluster(H):
    """overall error of a cluster: of its members only"""
    H.use_iteration_contracts()
    me = H.load('spta.model.error')
    xl, yl = cm.grid(H, 4)
    r, v = cm.spatial(H, xl, yl)
    p, lab = cm.partition(H, xl, yl, 3)
    x0, y0 = H.index('x0', xl), H.index('y0', yl)
    c = lab[x0, y0]
    got = me.ErrorRegion(p.create_spatial_cluster(r, c)).overall_error
    member = lambda x, y: H.eq(lab[x, y], c)      # noqa: E731
    H.check('not negative', got >= 0)
    H.check('mean of the squares', H.eq(got * got * H.count([xl, yl], member), H.sum(
        [xl, yl], lambda x, y: v[x, y] * v[x, y], member)))


def h_overall_repeated(H):
    """overall error of one forecast repeated over the region (what is computed for each forecast)"""
    H.use_iteration_contracts()
    me = H.load('spta.model.error')
    n, m = H.size('n', 1, 3), H.size('m', 1, 3)
    xl, yl = cm.grid(H, 3)
    f = H.array('forecast', (n,))
    ob, o = cm.spt(H, n, xl, yl, name='observation')
    tr, t = cm.spt(H, m, xl, yl, name='training')
    code, g = any_error(H, n, m)
    P = H.load('spta.region').Point
    got = me.overall_error_generic(code, P(0, 0), f, ob, tr, with_print=False)
    at = lambda x, y: g(lambda i: f[i], lambda i: o[i, x, y], lambda i: t[i, x, y])      # noqa: E731
    H.check('not negative', got >= 0)
    H.check('mean of the squares', H.eq(got * got * (xl * yl), H.sum([xl, yl], lambda x, y: at(x, y) * at(x, y))))


def definition(kind, f, o, y):
    if kind == 'MSE':
        d = [(a - b) ** 2 for a, b in zip(f, o)]
        d = [v for v in d if not np.isnan(v)]
        return sum(d) / len(d) if d else np.nan
    if kind == 'sMAPE':
        return sum(200 * abs(a - b) / (a + b) for a, b in zip(f, o)) / len(f)
    step = sum(abs(b - a) for a, b in zip(y[:-1], y[1:])) / (len(y) - 1)
    return sum(abs(a - b) / step for a, b in zip(f, o)) / len(f)


def rms(vs):
    vs = [v for v in vs if not np.isnan(v)]
    return (sum(v * v for v in vs) / len(vs)) ** 0.5 if vs else np.nan


def close(a, b):
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    return bool(abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b)))


KINDS = ['MSE', 'sMAPE', 'MASE']


def regions(H, xl, yl, n, m):
    """-> (whole region, its data, test region, training region, partition of the cluster or None, cluster)"""
    sc, tr = H.load('spta.region.scaling'), H.load('spta.model.train')
    r, d = cm.spt(H, m + n, xl, yl, lo=1, hi=40)
    if H.bool('scaled'):
        r = sc.ScaleFunction(xl, yl).apply_to(r, m + n)
    p = c = lab = None
    if H.bool('cluster'):
        p, lab = cm.partition(H, xl, yl, 3)
        c = int(lab[H.index('x0', xl), H.index('y0', yl)])
        r = p.create_spt_cluster(r, c)
    training, test = tr.SplitTrainingAndTestLast(n).split(r)
    pts = [(x, y) for x, y in cm.points_of(H, xl, yl) if lab is None or lab[x, y] == c]
    return r, d, test, training, pts


def scaled_like(H, r, d, fc):
    """forecast given in the units of r, as the data it stands for"""
    if not r.has_scaling():
        return fc
    mn, mx = d.min(axis=0), d.max(axis=0)
    return fc * (mx - mn) + mn


def nothing_constant(d, m):
    return bool((np.abs(np.diff(d[:m], axis=0)).sum(axis=0) > 0).all())


def h_measures(H):
    """errors of whole regions and clusters, scaled and not, by name, with missing forecasts"""
    H.concrete_only('all kinds of region with the real measures')
    me = H.load('spta.model.error')
    xl, yl = cm.grid(H, 3)
    n, m = H.int('n', 1, 4), H.int('m', 2, 5)
    r, d, test, training, pts = regions(H, xl, yl, n, m)
    H.assume(nothing_constant(d, m))
    H.assume((d.max(axis=0) > d.min(axis=0)).all())
    ea = me.ErrorAnalysis(test, training)
    P = H.load('spta.region').Point
    # the same analysis is asked several times
    for k in range(H.int('rounds', 1, 3)):
        fc = H.array('forecast %d' % k, (n, xl, yl), lo=0, hi=2)
        if H.bool('some without forecast %d' % k):
            for x, y in cm.points_of(H, xl, yl):
                if H.bool('none at %d %d %d' % (k, x, y)):
                    fc[:, x, y] = np.nan
        elif H.bool('some samples missing %d' % k):
            fc[H.array('missing %d' % k, (n, xl, yl), 'b')] = np.nan
        kind = H.choice('kind %d' % k, KINDS)
        fr = r.new_spatio_temporal_region(fc.copy())
        g = scaled_like(H, r, d, fc)
        keep = fr.as_numpy.copy()
        e = ea.with_forecast_region(fr, kind)
        want = {(x, y): definition(kind, g[:, x, y], d[m:, x, y], d[:m, x, y]) for x, y in pts}
        got = {(q.x, q.y): v for q, v in e}
        H.check('the points of the region', sorted(got) == sorted(pts))
        H.check('error of each point', all(close(got[q], want[q]) for q in pts), '%s %s %s' % (kind, got, want))
        H.check('overall error', close(e.overall_error, rms(want.values())), '%s %s' % (e.overall_error, rms(want.values())))
        x, y = pts[H.index('one', len(pts))]
        H.check('value at a point', close(e.value_at(P(x, y)), want[x, y]))
        one = fc[:, x, y]
        rep = scaled_like(H, r, d, np.repeat(one, xl * yl).reshape(n, xl, yl))
        want1 = {(u, v): definition(kind, rep[:, u, v], d[m:, u, v], d[:m, u, v]) for u, v in pts}
        e1 = ea.with_repeated_forecast(one, kind)
        got1 = {(q.x, q.y): v for q, v in e1}
        H.check('error of a repeated forecast', sorted(got1) == sorted(pts) and all(close(got1[q], want1[q]) for q in pts),
                '%s %s %s' % (kind, got1, want1))
        each = ea.overall_with_each_forecast(fr, kind)
        for u, v in pts:
            rep = scaled_like(H, r, d, np.repeat(fc[:, u, v], xl * yl).reshape(n, xl, yl))
            w = rms([definition(kind, rep[:, a, b], d[m:, a, b], d[:m, a, b]) for a, b in pts])
            if np.isnan(fc[:, u, v]).all():
                w = np.nan
            H.check('overall error of each forecast', close(each.value_at(P(u, v)), w), '%s %s: %s %s' % (
                kind, (u, v), each.value_at(P(u, v)), w))
        H.check('forecast unchanged', np.array_equal(fr.as_numpy, keep, equal_nan=True))
    if kind != 'MASE':
        e2 = me.ErrorAnalysis(test).with_forecast_region(fr, kind)
        got2 = {(q.x, q.y): v for q, v in e2}
        H.check('no training region needed', all(close(got2[q], want[q]) for q in pts))


def h_parallel(H):
    """overall error of each forecast, in parallel and one after the other"""
    H.concrete_only('several processes')
    me = H.load('spta.model.error')
    xl, yl = cm.grid(H, 4)
    n, m = H.int('n', 1, 3), H.int('m', 2, 4)
    r, d, test, training, pts = regions(H, xl, yl, n, m)
    H.assume(nothing_constant(d, m))
    H.assume((d.max(axis=0) > d.min(axis=0)).all())
    fc = H.array('forecast', (n, xl, yl), lo=0, hi=2)
    if H.bool('some without forecast'):
        fc[:, H.index('x1', xl), H.index('y1', yl)] = np.nan
    elif H.bool('some samples missing'):
        fc[H.array('missing', (n, xl, yl), 'b')] = np.nan
    kind = H.choice('kind', KINDS)
    fr = r.new_spatio_temporal_region(fc)
    a = me.ErrorAnalysis(test, training).overall_with_each_forecast(fr, kind)
    b = me.ErrorAnalysis(test, training, parallel_workers=H.choice('workers', [1, 2, 3])).overall_with_each_forecast(fr, kind)
    got = {(q.x, q.y): v for q, v in b}
    H.check('the same points', sorted(got) == sorted(pts) and sorted((q.x, q.y) for q, _ in a) == sorted(pts))
    for q, v in a:
        H.check('the same errors', close(v, got[q.x, q.y]), '%s: %s %s' % ((q.x, q.y), v, got[q.x, q.y]))


def h_names(H):
    """an unknown name is refused, a known one gives its measure"""
    me = H.load('spta.model.error')
    eu = H.load('spta.util.error')
    name = H.choice('name', ['', 'mse', 'mase', 'SMAPE', 'smape', 'RMSE', 'MAPE', 'MSE ', 'sMASE', None])
    ob, o = cm.spt(H, 2, 2, 2)
    for what, call in (('measure', lambda: me.get_error_func(name)), ('overall', lambda: me.get_overall_error_func(name)),
                       ('region', lambda: me.ErrorAnalysis(ob, ob).with_forecast_region(ob, name)),
                       ('repeated', lambda: me.ErrorAnalysis(ob, ob).with_repeated_forecast(o[:, 0, 0], name)),
                       ('each', lambda: me.ErrorAnalysis(ob, ob).overall_with_each_forecast(ob, name))):
        try:
            call()
            ok = False
        except ValueError:
            ok = True
        H.check('refused (' + what + ')', ok, repr(name))
    f, o, y = H.array('f', (3,), lo=1), H.array('o', (3,), lo=1), H.array('y', (4,), lo=1)
    H.assume(H.or_(*[y[i] != y[i + 1] for i in range(3)]))
    kind = H.choice('kind', KINDS)
    H.check('its measure', H.eq(me.get_error_func(kind)(f, o, y), definition(kind, f, o, y)), kind)
    if kind == 'MSE':
        H.check('squared measure', H.eq(eu.mse(f, o), definition('MSE', f, o, y)))
    if kind == 'sMAPE':
        H.check('relative measure', H.eq(eu.smape(f, o), definition('sMAPE', f, o, y)))


def analysed(H, clusters=True):
    """-> (analysis with an arbitrary model at each point, region or cluster, data, members, forecast, n, m, a member)"""
    fo, tr, mb = H.load('spta.model.forecast'), H.load('spta.model.train'), H.load('spta.model.base')
    xl, yl = cm.grid(H, 3)
    n, m = H.choice('n', [1, 2]), H.size('m', 1, 3)
    r, d = cm.spt(H, m + n, xl, yl)
    member = lambda a, b: True      # noqa: E731
    x, y = H.index('x', xl), H.index('y', yl)
    if clusters and H.bool('cluster'):
        p, lab = cm.partition(H, xl, yl, 3)
        c = lab[x, y] if H.symbolic else int(lab[x, y])
        r = p.create_spt_cluster(r, c)
        member = lambda a, b: H.eq(lab[a, b], c)      # noqa: E731
    f, g = H.fn('fit', 'f'), H.fn('forecast', 'fi')

    class Models(mb.ModelRegion):
        def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
            return np.array([g(model_at_point, i) for i in range(forecast_len)])

        def instance(self, a):
            return Models(a)

    class Trainer(tr.ModelTrainer):
        def training_function(self, model_params, training_series):
            return f(training_series[0])

        def create_model_region(self, a):
            return Models(a)
    fa = fo.ForecastAnalysis(Trainer(model_params_and_shape=(0, xl, yl)))
    return fa, r, d, member, lambda a, b: [g(f(d[0, a, b]), i) for i in range(n)], n, m, (x, y), (xl, yl)


def h_single_model(H):
    """the forecast of one model for the whole region: the errors of this very series at every point; and the overall
    error of each model is that of its own series"""
    H.use_iteration_contracts()
    P = H.load('spta.region').Point
    fa, r, d, member, forecast, n, m, (x, y), (xl, yl) = analysed(H)
    fa.train_models(r, n)
    got = fa.forecast_whole_region_with_single_model(P(x, y), n, 'MSE')
    mine = forecast(x, y)

    def error(a, b):
        return sum((mine[i] - d[m + i, a, b]) * (mine[i] - d[m + i, a, b]) for i in range(n)) / n
    u, v = H.index('u', xl), H.index('v', yl)
    H.assume(member(u, v))
    H.check('error of this model at any point', H.eq(got.value_at(P(u, v)), error(u, v)))
    top = fa.forecast_whole_region_with_all_models(n, 'MSE').value_at(P(x, y))
    H.check('not negative', top >= 0)
    H.check('the overall error of this model', H.eq(top * top * H.count([xl, yl], member), H.sum(
        [xl, yl], lambda a, b: error(a, b) * error(a, b), member)))


def h_analysis_any(H):
    """the analysis of a region: the least and largest overall errors of a single model, that of the model with the least error at its
    own point, and that of the centroid"""
    extremes(H, clusters=False)


def h_analysis_cluster(H):
    """the same for a cluster"""
    H.concrete_only('a search for the extremes whose every step may be skipped')
    extremes(H, clusters=True)


def extremes(H, clusters):
    H.use_iteration_contracts()
    P = H.load('spta.region').Point
    fa, r, d, member, forecast, n, m, (x, y), (xl, yl) = analysed(H, clusters=clusters)
    known = H.bool('centroid known')
    if known:
        r.centroid = P(x, y)
    errors, _, _ = fa.analyze_errors(r, 'MSE', n)
    top = fa.forecast_whole_region_with_all_models(n, 'MSE')
    u, v = H.index('u', xl), H.index('v', yl)
    H.assume(member(u, v))
    H.check('none less', errors.minimum <= top.value_at(P(u, v)))
    H.check('none larger', errors.maximum >= top.value_at(P(u, v)))
    H.check('centroid', H.eq(errors.centroid, top.value_at(P(x, y))) if known else H.isnan(errors.centroid))


def h_analysis(H):
    """the analysis of a region: error of all models, of the best and worst single model, of the centroid's"""
    H.concrete_only('all parts together')
    fo, mn = H.load('spta.model.forecast'), H.load('spta.model.mean')
    P = H.load('spta.region').Point
    xl, yl = cm.grid(H, 3)
    n, m = H.int('n', 1, 3), H.int('m', 2, 5)
    r, d, test, training, pts = regions(H, xl, yl, n, m)
    H.assume(nothing_constant(d, m))
    H.assume((d.max(axis=0) > d.min(axis=0)).all())
    past = H.int('past', 1, 5)
    kind = H.choice('kind', KINDS)
    c = None
    if H.bool('centroid known'):
        c = pts[H.index('c', len(pts))]
        r.centroid = P(*c)
    fa = fo.ForecastAnalysis(mn.TrainerMeanOfPast(mn.MeanOfPastParams(past), xl, yl))
    errors, _, _ = fa.analyze_errors(r, kind, n)
    raw = d if not r.has_scaling() else (d - d.min(axis=0)) / (d.max(axis=0) - d.min(axis=0))
    mean = np.array([[raw[max(0, m - past):m, x, y].mean() for y in range(yl)] for x in range(xl)])
    up = lambda v, x, y: scaled_like(H, r, d, np.full((n, xl, yl), v))[:, x, y]      # noqa: E731
    own = {q: definition(kind, up(mean[q], *q), d[m:, q[0], q[1]], d[:m, q[0], q[1]]) for q in pts}
    single = {q: rms([definition(kind, up(mean[q], *u), d[m:, u[0], u[1]], d[:m, u[0], u[1]]) for u in pts]) for q in pts}
    H.check('each', close(errors.each, rms(own.values())), '%s %s' % (errors.each, rms(own.values())))
    H.check('minimum', close(errors.minimum, min(single.values())))
    H.check('maximum', close(errors.maximum, max(single.values())))
    lo = min(own.values())
    H.check('smallest own error', any(close(errors.min_local, single[q]) for q in pts if close(own[q], lo)))
    H.check('centroid', close(errors.centroid, np.nan if c is None else single[c]), '%s %s' % (errors.centroid, c))
    x, y = pts[H.index('one', len(pts))]
    e = fa.forecast_whole_region_with_single_model(P(x, y), n, kind)
    H.check('single model', close(e.overall_error, single[x, y]))


h_history = cm.history(h_asked_errors)


SPEC = [
    (h_mse, {'sym': True, 'runs': 300}),
    (h_smape, {'sym': True, 'runs': 300}),
    (h_mase, {'sym': True, 'runs': 300}),
    (h_region, {'sym': True, 'runs': 150}),
    (h_region_cluster, {'sym': True, 'runs': 150}),
    (h_region_scaled, {'sym': True, 'runs': 150}),
    (h_repeated, {'sym': True, 'runs': 150}),
    (h_iteration, {'sym': True, 'runs': 20}),
    (h_overall, {'sym': True, 'runs': 200}),
    (h_overall_cluster, {'sym': True, 'runs': 150}),
    (h_overall_repeated, {'sym': True, 'runs': 150}),
    (h_measures, {'runs': 300, 'why': 'all kinds of region with the real measures'}),
    (h_parallel, {'runs': 12, 'seconds': 30, 'why': 'several processes'}),
    (h_names, {'sym': True, 'runs': 40}),
    (h_single_model, {'sym': True, 'runs': 100}),
    (h_analysis_any, {'sym': True, 'runs': 100, 'seconds': 300, 'cost': 10}),
    (h_analysis_cluster, {'runs': 100, 'why': 'a search for the extremes whose every step may be skipped'}),
    (h_analysis, {'runs': 150, 'why': 'all parts together'}),
    (h_history, {'sym': True, 'seconds': 150, 'cost': 10, 'runs': 100}),
]
