"""C20  a solver forecasts each point with the model of its own cluster"""
import collections

import numpy as np
from . import common as cm
from .asked import h_asked_solver
from .C18 import trainer_of

MODULES = ['spta.solver.train', 'spta.solver.model', 'spta.solver.metadata', 'spta.model.train', 'spta.model.base',
           'spta.model.error', 'spta.region.spatial', 'spta.region.temporal', 'spta.region.scaling',
           'spta.region.partition', 'spta.clustering.factory']

TRUSTED = ['SpatioTemporalRegionMetadata.create_instance: reads the raw data set, which is not here; replaced by a '
           'region of arbitrary content (its other methods are the real ones)',
           'pickle: a stored object comes back equal']


class Settings(object):
    """what the solver asks of its metadata objects"""

    def __init__(self, make, scaled):
        self.make, self.scaled = make, scaled

    def create_instance(self):
        return self.make()


def rectangle(H, xl, yl):
    R = H.load('spta.region').Region
    x1, y1 = H.index('x1', xl), H.index('y1', yl)
    x2, y2 = H.int('x2', x1 + 1, xl), H.int('y2', y1 + 1, yl)
    return R(x1, x2, y1, y2), x1, x2, y1, y2


def models(H, M, name, xl, yl):
    a = H.array(name, (xl, yl))
    return M(a), a


def solver(H, parts, tl_test, model_training, model_whole, errors, region, scaled, part):
    """a solver put together from its parts; the real class and the real metadata"""
    sm = H.load('spta.solver.metadata')
    mo = H.load('spta.solver.model')
    md = Settings(lambda: region, scaled)
    b = sm.SolverMetadataBuilder(md, 'params', tl_test, 'MSE').with_clustering('clustering', 'distance')
    return mo.SolverWithMedoids(b.build(), part, model_training, model_whole, errors)


def h_predict(H):
    """each point of the request is forecast by the model kept at its position in the domain: the models of the
    training part when asked for 0 samples (with the test samples of the same point), those of the whole series
    otherwise"""
    H.use_iteration_contracts()
    er = H.load('spta.model.error')
    xl, yl = cm.grid(H, 3)
    n, tp = H.size('n', 1, 3), H.size('tp', 1, 3)
    r, d = cm.spt(H, n + tp, xl, yl)
    g = H.fn('forecast', 'fi')
    T, M = trainer_of(H, None, lambda model, length: np.array([g(model, i) for i in range(length)]))
    mt, mta = models(H, M, 'training', xl, yl)
    mw, mwa = models(H, M, 'whole', xl, yl)
    es, ea = cm.spatial(H, xl, yl, name='errors')
    part, lab = cm.partition(H, xl, yl, 3)
    rec, x1, x2, y1, y2 = rectangle(H, xl, yl)
    s = solver(H, None, tp, mt, mw, er.ErrorRegion(es), r, False, part)
    if H.bool('out of sample'):
        tf = H.size('tf', 1, 3)
        want = mwa
        res = s.predict(rec, tf, 'outputs', plot=False)
        k = tf
        H.check('kind of result (out of sample)', res.forecast_len == tf)
    else:
        k, want = tp, mta
        res = s.predict(rec, 0, 'outputs', plot=False)
        t = res.decorated.test_subregion.as_numpy
        H.check('test samples: grid', H.eq(H.shape(t), (tp, x2 - x1, y2 - y1)))
        H.forall('test samples of the same point', [tp, x2 - x1, y2 - y1], lambda i, x, y: H.eq(
            t[i, x, y], d[n + i, x1 + x, y1 + y]))
    f = res.forecast_subregion.as_numpy
    H.check('length and grid', H.eq(H.shape(f), (k, x2 - x1, y2 - y1)))
    H.forall('forecast of the model at that position of the domain', [k, x2 - x1, y2 - y1], lambda i, x, y: H.eq(
        f[i, x, y], g(want[x1 + x, y1 + y], i)))
    e = res.error_subregion.as_numpy
    H.forall('error of the same point', [x2 - x1, y2 - y1], lambda x, y: H.eq(e[x, y], ea[x1 + x, y1 + y]))


def h_predict_scaled(H):
    """with scaled data the forecast and the test samples come back in the original units of their own point"""
    H.use_iteration_contracts()
    er = H.load('spta.model.error')
    xl, yl = cm.grid(H, 3)
    n, tp = H.size('n', 1, 3), H.size('tp', 1, 3)
    r, d, mn, mx = cm.wrap_scaled(H, n + tp, xl, yl)
    g = H.fn('forecast', 'fi')
    T, M = trainer_of(H, None, lambda model, length: np.array([g(model, i) for i in range(length)]))
    mt, mta = models(H, M, 'training', xl, yl)
    mw, mwa = models(H, M, 'whole', xl, yl)
    es, ea = cm.spatial(H, xl, yl, name='errors')
    part, lab = cm.partition(H, xl, yl, 3)
    rec, x1, x2, y1, y2 = rectangle(H, xl, yl)
    s = solver(H, None, tp, mt, mw, er.ErrorRegion(es), r, True, part)
    future = H.bool('out of sample')
    k = H.size('tf', 1, 3) if future else tp
    res = s.predict(rec, k if future else 0, 'outputs', plot=False)
    want = mwa if future else mta
    f = res.forecast_subregion.as_numpy
    H.check('length and grid', H.eq(H.shape(f), (k, x2 - x1, y2 - y1)))

    def back(v, x, y):
        return v * (mx[x, y] - mn[x, y]) + mn[x, y]
    H.forall('forecast in the original units', [k, x2 - x1, y2 - y1], lambda i, x, y: H.eq(
        f[i, x, y], back(g(want[x1 + x, y1 + y], i), x1 + x, y1 + y)))
    if not future:
        t = res.decorated.test_subregion.as_numpy
        H.forall('test samples in the original units', [tp, x2 - x1, y2 - y1], lambda i, x, y: H.eq(
            t[i, x, y], back(d[n + i, x1 + x, y1 + y], x1 + x, y1 + y)))


def medoids_of(H, p, lab, xl, yl):
    rx = H.array('rx', (p.k,), 'i', 0, xl - 1)
    ry = H.array('ry', (p.k,), 'i', 0, yl - 1)
    P = H.load('spta.region').Point
    if H.symbolic:
        H.assume(H.all([p.k], lambda q: H.eq(lab[rx[q], ry[q]], q)))
    else:
        for q in range(p.k):
            own = [(x, y) for x in range(xl) for y in range(yl) if lab[x, y] == q]
            H.assume(own)
            rx[q], ry[q] = own[(int(rx[q]) + 3 * int(ry[q])) % len(own)]
    return [P(rx[q], ry[q]) for q in range(p.k)], rx, ry


def h_replicate(H):
    """replicated models: at every point the model of the medoid of its cluster"""
    H.use_iteration_contracts()
    tn = H.load('spta.solver.train')
    xl, yl = cm.grid(H, 3)
    p, lab = cm.partition(H, xl, yl, 3)
    meds, rx, ry = medoids_of(H, p, lab, xl, yl)
    T, M = trainer_of(H, None, None)
    m, a = models(H, M, 'models', xl, yl)
    t = tn.SolverTrainer(None, None, None, None, None, 1, 'MSE')
    out = t.replicate_representative_models(m, p, meds)
    H.check('a model region of the same kind', isinstance(out, M))
    b = out.as_numpy
    H.check('grid', H.eq(H.shape(b), (xl, yl)))
    H.forall('model of the medoid of the own cluster', [xl, yl], lambda x, y: H.eq(b[x, y], a[rx[lab[x, y]], ry[lab[x, y]]]))


def h_errors(H):
    """the errors of a solver: at every point the forecast of its model against its own test samples"""
    H.use_iteration_contracts()
    tn, st = H.load('spta.solver.train'), H.load('spta.model.train')
    xl, yl = cm.grid(H, 3)
    n, tp = H.size('n', 1, 3), H.size('tp', 1, 3)
    r, d = cm.spt(H, n + tp, xl, yl)
    g = H.fn('forecast', 'fi')
    T, M = trainer_of(H, None, lambda model, length: np.array([g(model, i) for i in range(length)]))
    m, a = models(H, M, 'models', xl, yl)
    (tr, te) = st.SplitTrainingAndTestLast(tp).split(r)
    e = tn.SolverTrainer(None, None, None, None, None, tp, 'MSE').calculate_errors(m, tr, te)
    H.check('grid', H.eq(H.shape(e.as_numpy), (xl, yl)))
    H.forall('error of the own forecast', [xl, yl], lambda x, y: H.eq(
        e.as_numpy[x, y] * tp, H.sum([tp], lambda i: (g(a[x, y], i) - d[n + i, x, y]) ** 2)))


def h_train(H):
    """training: at every point the training-part model and the whole-series model are those fitted to the series
    of the medoid of its own cluster"""
    H.use_iteration_contracts()
    tn = H.load('spta.solver.train')
    xl, yl = cm.grid(H, 3)
    n, tp = H.size('n', 1, 3), H.size('tp', 1, 3)
    r, d = cm.spt(H, n + tp, xl, yl)
    p, lab = cm.partition(H, xl, yl, 3)
    meds, rx, ry = medoids_of(H, p, lab, xl, yl)
    p.medoids = meds
    fit = H.fn('fit', 'ffi')
    q = H.index('q', n)
    par = H.real('params')
    g = H.fn('forecast', 'fi')
    T, M = trainer_of(H, lambda c, s: fit(c, s[q], H.len(s)),
                      lambda model, length: np.array([g(model, i) for i in range(length)]))
    trainer = T(model_params_and_shape=(par, xl, yl))
    whole, wa = models(H, M, 'refitted', xl, yl)
    asked = []

    class Refitter(object):
        def apply_to(self, region):
            asked.append(region)
            return whole

    def create_refitter(model_region):
        asked.append(model_region)
        return Refitter()
    trainer.create_refitter = create_refitter

    class Algorithm(object):
        def partition(self, region, with_medoids=False, save_csv_at=None, pickle_home=None):
            return p
    t = tn.SolverTrainer(Settings(lambda: r, False), 'clustering', 'distance', trainer, par, tp, 'MSE')
    t.clustering_algorithm = Algorithm()
    sm = H.load('spta.solver.metadata')
    t.metadata = sm.SolverMetadataBuilder(t.region_metadata, par, tp, 'MSE').with_clustering('clustering', 'distance').build()
    t.prepared = True
    given = []

    class Errors(object):
        overall_error = 0.0

    def errors(model_region, training_region, test_region):        # its contract: h_errors
        given.append((model_region, training_region, test_region))
        return Errors()
    if H.symbolic:
        t.calculate_errors = errors
    s = t.train()
    H.check('partition kept', s.partition is p)
    if H.symbolic:
        H.check('errors asked for once', len(given) == 1 and isinstance(s.generalization_errors, Errors))
        H.check('errors of the models of the training part', given[0][0] is s.model_region_training)
        cm.same_data(H, 'training samples', given[0][1], d[:n])
        cm.same_data(H, 'test samples', given[0][2], d[n:])
    else:
        e = s.generalization_errors.as_numpy
        mta = s.model_region_training.as_numpy
        H.forall('error of the own forecast', [xl, yl], lambda x, y: H.eq(e[x, y] * tp, H.sum([tp], lambda i: (
            g(mta[x, y], i) - d[n + i, x, y]) ** 2)))
    mt, mw = s.model_region_training.as_numpy, s.model_region_whole.as_numpy

    def first(c):
        return fit(par, d[q, rx[c], ry[c]], n)
    H.forall('model of the medoid, training part', [xl, yl], lambda x, y: H.eq(mt[x, y], first(lab[x, y])))
    H.check('refitted once', len(asked) == 2)
    H.forall('refitted from the models of the medoids', [p.k], lambda c: H.eq(
        asked[0].as_numpy[rx[c], ry[c]], first(c)))
    cm.same_data(H, 'refitted with the whole series', asked[1], d)
    H.forall('model of the medoid, whole series', [xl, yl], lambda x, y: H.eq(
        mw[x, y], wa[rx[lab[x, y]], ry[lab[x, y]]]))


Found = collections.namedtuple('Found', 'order mean')


def fitted(H):
    """a trainer whose hyper-parameter is found on the training part and kept when refitting, as with auto ARIMA"""
    tr, mb = H.load('spta.model.train'), H.load('spta.model.base')
    g = globals()
    if 'FoundModels' not in g:
        class FoundModels(mb.ModelRegion):
            def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
                return np.array([model_at_point[0] + model_at_point[1] + i for i in range(forecast_len)])

            def instance(self, a):
                return FoundModels(a)

        class FindTrainer(tr.ModelTrainer):
            def training_function(self, past, series):
                return None if series is None else Found((series[-past:] ** 2).sum(), series.mean())

            def create_model_region(self, a):
                return FoundModels(a)

            def create_refitter(self, model_region):
                return RefitTrainer(model_params_region=model_region)

        class RefitTrainer(FindTrainer):
            def training_function(self, model, series):
                return None if model is None else Found(model[0], series.mean())
        for c in (FoundModels, FindTrainer, RefitTrainer):
            c.__qualname__ = c.__name__
            g[c.__name__] = c
    return g['FindTrainer']


class Past(int):
    def __repr__(self):
        return 'found-past%d' % self


def expected(n, tp, d, past, medoid, future, tf):
    """forecast of the model of one medoid (d: the series it is trained with)"""
    s = d[:, medoid[0], medoid[1]]
    order = (s[:n][-past:] ** 2).sum()
    k = tf if future else tp
    return order + (s.mean() if future else s[:n].mean()) + np.arange(k)


def h_stored(H):
    """whole solvers: trained, asked, stored and reloaded among others with other settings; the forecasts are those of
    the medoids' models before and after"""
    import os
    H.concrete_only('files and pickled objects')
    P, R = H.load('spta.region').Point, H.load('spta.region').Region
    tn, mo, sm = H.load('spta.solver.train'), H.load('spta.solver.model'), H.load('spta.solver.metadata')
    km, rg = H.load('spta.clustering.kmedoids'), H.load('spta.clustering.regular')
    dt = H.load('spta.distance.dtw')
    sc = H.load('spta.region.scaling')
    T = fitted(H)
    xl, yl = H.int('xl', 2, 4), H.int('yl', 2, 4)
    total = H.int('samples', 4, 6)
    data = H.array('data', (total, xl, yl), lo=0, hi=30, distinct=True)
    x1, y1 = H.int('offset x', 0, 5), H.int('offset y', 0, 5)
    t = H.load('spta.region.temporal')
    mdm = H.load('spta.region.metadata')

    def region_metadata(scaled):
        md = mdm.SpatioTemporalRegionMetadata('dom', R(x1, x1 + xl, y1, y1 + yl), 2014, 2015, 1, scaled=scaled)

        def create_instance():
            r = t.SpatioTemporalRegion(data.copy(), md)
            r.region_metadata = md
            return sc.ScaleFunction(xl, yl).apply_to(r, total) if scaled else r
        md.create_instance = create_instance
        return md

    sums = data.sum(axis=0).reshape(-1)
    distances = np.abs(sums[:, None] - sums[None, :]) + 1 - np.eye(xl * yl)

    def metadata(s):
        scaled, regular, k, seed, past, tp, err = s
        cl = rg.RegularClusteringMetadata(k) if regular else km.KmedoidsClusteringMetadata(k, random_seed=seed)
        md = region_metadata(scaled)
        os.makedirs('raw', exist_ok=True)
        np.save(md.distances_filename, distances)
        return sm.SolverMetadataBuilder(md, Past(past), tp, err).with_clustering(cl, dt.DistanceByDTW()).build()
    base = None
    settings = []
    for i in range(H.int('solvers', 1, 3)):
        if base is None or H.bool('%d all new' % i):
            base = [H.bool('%d scaled' % i), H.bool('%d regular' % i), H.int('%d k' % i, 1, 3), H.int('%d seed' % i, 0, 2),
                    H.int('%d past' % i, 1, 3), H.int('%d tp' % i, 1, 2),
                    H.choice('%d err' % i, ['MSE', 'sMAPE'])]
        else:
            j = H.int('%d changed' % i, 0, 6)
            base = list(base)
            base[j] = {0: not base[0], 1: not base[1], 2: base[2] % 3 + 1, 3: base[3] + 1,
                       4: base[4] % 3 + 1, 5: 3 - base[5], 6: 'MSE' if base[6] == 'sMAPE' else 'sMAPE'}[j]
        if base[1] and base[2] == 3:
            base[2] = 2
        H.assume(not (base[1] and (xl * yl) % base[2]))
        settings.append(tuple(base))
    rect = [H.int('x1', 0, xl - 1), 0, H.int('y1', 0, yl - 1), 0]
    rect[1], rect[3] = H.int('x2', rect[0] + 1, xl), H.int('y2', rect[2] + 1, yl)
    rec = R(*rect)
    tf = H.int('tf', 1, 3)

    def ask(s, solver, when):
        scaled, past, tp = s[0], s[4], s[5]
        n = total - tp
        used = data
        if scaled:
            mn, mx = data.min(axis=0), data.max(axis=0)
            used = np.where(mx == mn, 0.0, (data - mn) / np.where(mx == mn, 1.0, mx - mn))
        out = []
        part = solver.partition
        H.check('medoids in their clusters ' + when, len(part.medoids) == part.k and [
            int(c) for c in part.membership_of_points(list(part.medoids))] == list(range(part.k)))
        for future in (False, True):
            res = solver.predict(rec, tf if future else 0, 'outputs', plot=False)
            f = res.forecast_subregion.as_numpy
            H.check('shape ' + when, f.shape == ((tf if future else tp), rect[1] - rect[0], rect[3] - rect[2]))
            for i in range(f.shape[1]):
                for j in range(f.shape[2]):
                    x, y = rect[0] + i, rect[2] + j
                    m = part.medoids[int(part.membership_of_points([P(x, y)])[0])]
                    want = expected(n, tp, used, past, m, future, tf)
                    if scaled:
                        want = want * (mx[x, y] - mn[x, y]) + mn[x, y]
                    H.check('forecast of the medoid ' + when, np.allclose(f[:, i, j], want), '%s %s' % (f[:, i, j], want))
                    if not future:
                        H.check('test samples ' + when, np.allclose(
                            res.decorated.test_subregion.as_numpy[:, i, j], data[n:, x, y]))
                    # errors are in the original units
                    obs, fc = data[n:, x, y], expected(n, tp, used, past, m, False, tf)
                    if scaled:
                        fc = fc * (mx[x, y] - mn[x, y]) + mn[x, y]
                    e = ((obs - fc) ** 2).mean() if s[6] == 'MSE' else None
                    if e is not None:
                        H.check('error ' + when, np.allclose(res.error_subregion.value_at(P(i, j)), e))
            out.append(f.copy())
        return out
    before = {}
    for s in settings:
        md = metadata(s)
        st = tn.SolverTrainer(md.region_metadata, md.clustering_metadata, md.distance_measure,
                              T(model_params_and_shape=(md.model_params, xl, yl)), md.model_params, md.test_len,
                              md.error_type)
        solver = st.train('outputs')
        before[s] = (ask(s, solver, 'when trained'), solver.partition.as_numpy.copy(), list(solver.partition.medoids),
                     solver.generalization_errors.as_numpy.copy())
        solver.save()
    for s in settings:
        solver = mo.SolverPickler(metadata(s)).load_solver()
        after = ask(s, solver, 'when reloaded')
        f, lab, meds, err = before[s]
        H.check('same forecasts', all(np.array_equal(a, b) for a, b in zip(f, after)))
        H.check('same partition', np.array_equal(solver.partition.as_numpy, lab) and list(solver.partition.medoids) == meds)
        H.check('same errors', np.array_equal(
            solver.generalization_errors.as_numpy, err, equal_nan=True))


def classifier_model(H):
    """the module of the solver that follows a classifier, without its neural network library"""
    import sys
    import types
    if 'spta.classifier.model' not in sys.modules and 'keras' not in sys.modules:
        for nm in ('keras', 'keras.models', 'keras.layers'):
            sys.modules[nm] = types.ModuleType(nm)
        for nm in ('Sequential', 'Dense', 'Dropout', 'LSTM'):
            setattr(sys.modules['keras.models'], nm, None)
            setattr(sys.modules['keras.layers'], nm, None)
    return H.load('spta.classifier.model')


def h_classifier(H):
    """following a classifier: every point of the request is forecast by the model of the training part kept at the medoid
    that its label names (of the stored solver that its label names), in the original units; asked several times"""
    import os
    H.concrete_only('files and pickled objects')
    P, R = H.load('spta.region').Point, H.load('spta.region').Region
    tn, sm = H.load('spta.solver.train'), H.load('spta.solver.metadata')
    km, dt, sc = H.load('spta.clustering.kmedoids'), H.load('spta.distance.dtw'), H.load('spta.region.scaling')
    t, mdm = H.load('spta.region.temporal'), H.load('spta.region.metadata')
    cl = classifier_model(H)
    T = fitted(H)
    xl, yl = H.int('xl', 2, 4), H.int('yl', 2, 4)
    total, tp = H.int('samples', 4, 6), H.int('tp', 1, 2)
    n = total - tp
    x1, y1 = H.int('offset x', 0, 5), H.int('offset y', 0, 5)
    scaled = H.bool('scaled')
    past = H.int('past', 1, 3)
    data = H.array('data', (total, xl, yl), lo=0, hi=30, distinct=True)
    other = H.array('other', (H.int('other samples', 3, 7), xl, yl), lo=0, hi=30, distinct=True)

    def domain(name, d):
        md = mdm.SpatioTemporalRegionMetadata(name, R(x1, x1 + xl, y1, y1 + yl), 2014, 2015, 1, scaled=scaled)

        def create_instance():
            r = t.SpatioTemporalRegion(d.copy(), md)
            r.region_metadata = md
            return sc.ScaleFunction(xl, yl).apply_to(r, len(d)) if scaled else r
        md.create_instance = create_instance
        return md

    def used(d):
        mn, mx = d.min(axis=0), d.max(axis=0)
        return np.where(mx == mn, 0.0, (d - mn) / np.where(mx == mn, 1.0, mx - mn)) if scaled else d
    md = domain('dom', data)
    sums = data.sum(axis=0).reshape(-1)
    os.makedirs('raw', exist_ok=True)
    np.save(md.distances_filename, np.abs(sums[:, None] - sums[None, :]) + 1 - np.eye(xl * yl))
    kept = {}
    for i in range(H.int('solvers', 1, 3)):
        k, seed = H.int('%d k' % i, 1, 3), H.int('%d seed' % i, 0, 12)
        if (k, seed) in kept:
            continue
        c = km.KmedoidsClusteringMetadata(k, random_seed=seed)
        s = tn.SolverTrainer(md, c, dt.DistanceByDTW(), T(model_params_and_shape=(Past(past), xl, yl)), Past(past), tp,
                             'MSE').train('outputs')
        s.save()
        kept[(k, seed)] = list(s.partition.medoids)
    labels = ['%d-%d-%d' % (k, s, c) for (k, s), m in sorted(kept.items()) for c in range(k)]
    mix = H.int('mix', 0, 999)

    def tables():
        return {os.path.relpath(os.path.join(w, f)) for w, _, fs in os.walk('.') for f in fs if f.endswith('.csv')}

    calls = []

    class Classifier(object):
        def __init__(self, params):
            assert params == 'params'

        def label_for_series(self, series):
            calls.append((np.array(series, dtype=float), labels[(7 * len(calls) + mix) % len(labels)]))
            return calls[-1][1]
    old = cl.ClassifierDNN
    cl.ClassifierDNN = Classifier
    try:
        suite = km.kmedoids_metadata_generator(k_values=[1, 2], seed_values=[0])
        solver = cl.SolverFromClassifier(md, dt.DistanceByDTW(), suite, T(model_params_and_shape=(Past(past), xl, yl)),
                                         Past(past), 'params', tp, 'MSE')
        for q in range(H.int('requests', 1, 3)):
            a, b = H.int('%d x1' % q, 0, xl - 1), H.int('%d y1' % q, 0, yl - 1)
            rec = R(a, H.int('%d x2' % q, a + 1, xl), b, H.int('%d y2' % q, b + 1, yl))
            away = H.bool('%d out of sample' % q)
            seen = used(other if away else data)
            length = H.int('%d length' % q, 1, len(seen))
            kw = {'out_of_sample_region': domain('away', other)} if away else {}
            home = H.choice('%d home' % q, [None, 'outputs', 'elsewhere', os.path.join('a', 'b')])
            if home is not None:
                kw['output_home'] = home
            del calls[:]
            res = solver.predict(rec, length, **kw)
            f = res.forecast_subregion.as_numpy
            H.check('shape', f.shape == (tp, rec.x2 - rec.x1, rec.y2 - rec.y1))
            mn, mx = data.min(axis=0), data.max(axis=0)
            pts = [pt for pt in res]
            H.check('points', [tuple(pt[0]) if isinstance(pt[0], tuple) else tuple(pt) for pt in pts] == [
                (i, j) for i in range(f.shape[1]) for j in range(f.shape[2])])
            for i in range(f.shape[1]):
                for j in range(f.shape[2]):
                    x, y = rec.x1 + i, rec.y1 + j
                    series = seen[len(seen) - length:, x, y]
                    lab = res.classifier_labels_by_point[P(i, j)]
                    H.check('label of the last samples of the point', any(
                        lab == c[1] and c[0].shape == series.shape and np.allclose(c[0], series) for c in calls), '%s %s %s: %s; %s' % (q, away, lab, series, calls))
                    k, s, c = [int(v) for v in lab.split('-')]
                    want = expected(n, tp, used(data), past, kept[(k, s)][c], False, 0)
                    obs = data[n:, x, y]
                    if scaled:
                        want = want * (mx[x, y] - mn[x, y]) + mn[x, y]
                    H.check('forecast of the medoid of the label', np.allclose(f[:, i, j], want),
                            '%s: %s %s' % (lab, f[:, i, j], want))
                    H.check('test samples', np.allclose(res.decorated.test_subregion.as_numpy[:, i, j], obs))
                    H.check('error', np.allclose(res.error_subregion.value_at(P(i, j)), ((obs - want) ** 2).mean()),
                            '%s %s' % (res.error_subregion.value_at(P(i, j)), ((obs - want) ** 2).mean()))
                    row = res.result_tuple_for_point(P(i, j))
                    H.check('label listed', row[1] == lab and tuple(row[0]) == (x1 + x, y1 + y))
                    H.check('label in the text', res.lines_for_point(P(i, j))[0].endswith('(label %s)' % lab))
            before = tables()
            res.save_as_csv()
            fresh = tables() - before
            H.check('tables below the given home', fresh and all(
                f.startswith((home or 'outputs') + os.sep) for f in fresh), '%s %s' % (home, sorted(fresh)))
            for f in fresh:
                os.remove(f)
    finally:
        cl.ClassifierDNN = old


def h_network(H):
    """the network's label of a series: the listed one at the largest output for that series, scaled to magnitudes that
    sum to one; the network has as many outputs as there are labels, and the weights of the file named"""
    H.concrete_only('external libraries')
    import os
    dn = H.load('spta.classifier.dnn')
    w, n = H.size('w', 1, 5), H.size('labels', 1, 6)
    names = ['%d-%d-%d' % (H.int('k%d' % i, 2, 9), H.int('s%d' % i, 0, 9), i) for i in range(n)]
    g = [H.array('weights%d' % i, (w,)) for i in range(n)]
    seen, built = [], []

    class Network(object):
        def __init__(self, *a, **kw):
            self.layers, self.weights = [], None
            built.append(self)

        def add(self, layer):
            self.layers.append(layer)

        def compile(self, *a, **kw):
            pass

        def summary(self, *a, **kw):
            return ''

        def load_weights(self, path, *a, **kw):
            self.weights = path

        def predict(self, x, *a, **kw):
            x = np.array(x, dtype=float)
            seen.append(x)
            return np.array([[float((v * x.reshape(-1)).sum()) for v in g]])

    class Layer(object):
        def __init__(self, units, *a, **kw):
            self.units = units
    from types import SimpleNamespace
    keep = {a: getattr(dn, a) for a in ('Sequential', 'LSTM', 'Dense', 'Dropout', 'keras') if hasattr(dn, a)}
    H.assume(len(keep) == 5)                                # otherwise the network is made in another way
    with open('labels.csv', 'w') as f:
        f.write(',label\n' + ''.join('%d,%s\n' % (i, v) for i, v in enumerate(names)))
    dn.Sequential = Network
    dn.LSTM = dn.Dense = dn.Dropout = Layer
    dn.keras = SimpleNamespace(optimizers=SimpleNamespace(Adam=lambda *a, **kw: None))
    try:
        c = dn.ClassifierDNN(dn.ClassifierDNNParams('net', 'weights.h5', os.path.abspath('labels.csv'), w))
        H.check('one network, with its weights', len(built) == 1 and built[0].weights == 'weights.h5')
        H.check('an output for each label', built[0].layers[-1].units == n)
        for q in range(H.int('questions', 1, 3)):
            v = H.array('series%d' % q, (w,))
            total = np.abs(v).sum()
            H.assume(total > 0)
            keep_v = v.copy()
            out = np.array([float((z * (v / total)).sum()) for z in g])
            best = np.sort(out)
            H.assume(n == 1 or best[-1] - best[-2] > 1e-6)
            del seen[:]
            lab = c.label_for_series(v if H.bool('array%d' % q) else list(v))
            H.check('asked once', len(seen) == 1 and seen[0].shape == (1, w, 1))
            H.check('asked for the scaled series', np.allclose(seen[0].reshape(-1), v / total))
            H.check('label of the largest output', lab == names[int(out.argmax())], '%s %s' % (lab, out))
            H.check('series unchanged', np.array_equal(v, keep_v))
    finally:
        for a, v in keep.items():
            setattr(dn, a, v)


def h_names(H):
    """solvers with different settings use different files: no two share the file of their errors, and the files of
    their models only when nothing but the error function differs"""
    H.concrete_only('file names')
    mo, sm = H.load('spta.solver.model'), H.load('spta.solver.metadata')
    km, rg = H.load('spta.clustering.kmedoids'), H.load('spta.clustering.regular')
    dt, rm = H.load('spta.distance.dtw'), H.load('spta.distance.rmse')
    kn, mn, ar = H.load('spta.model.knn'), H.load('spta.model.mean'), H.load('spta.arima')
    mdm, R = H.load('spta.region.metadata'), H.load('spta.region').Region

    def measure(name):
        kind = H.choice(name, ['dtw', 'rmse', 'w1', 'w2', 'w0.5'])
        return kind, {'dtw': dt.DistanceByDTW, 'rmse': rm.DistanceByRMSE}.get(
            kind, lambda: dt.DistanceBySpatialDTW(float(kind[1:])))()

    def one(i, like, changed):
        def pick(j, f):
            return f() if like is None or j == changed else like[j]
        n = '%d ' % i
        parts = [
            pick(0, lambda: H.choice(n + 'region', ['a', 'b', 'ab'])),
            pick(1, lambda: (H.int(n + 'start', 2011, 2013), H.int(n + 'end', 2013, 2015))),
            pick(2, lambda: H.choice(n + 'spd', [1, 4])),
            pick(3, lambda: H.bool(n + 'scaled')),
            pick(4, lambda: H.choice(n + 'clustering', ['regular', 'kmedoids'])),
            pick(5, lambda: H.choice(n + 'k', [1, 2, 12, 21])),
            pick(6, lambda: H.choice(n + 'seed', [0, 1, 12])),
            pick(7, lambda: H.choice(n + 'mode', ['lite', 'build'])),
            pick(8, lambda: measure(n + 'distance')),
            pick(9, lambda: (lambda kind: {
                'mean': lambda: (kind, H.int(n + 'past', 1, 12)),
                'knn': lambda: (kind, H.int(n + 'neighbours', 1, 12), measure(n + 'knn distance')),
                'arima': lambda: (kind,) + tuple(H.int(n + 'arima%d' % q, 0, 12) for q in range(5)) + (H.bool(n + 'step'),),
            }[kind]())(H.choice(n + 'model', ['mean', 'knn', 'arima']))),
            pick(10, lambda: H.choice(n + 'tp', [1, 2, 11, 12])),
            pick(11, lambda: H.choice(n + 'error', ['MSE', 'sMAPE', 'MASE'])),
        ]
        return parts

    def build(p):
        md = mdm.SpatioTemporalRegionMetadata(p[0], R(0, 3, 0, 3), p[1][0], p[1][1], p[2], scaled=p[3])
        cl = rg.RegularClusteringMetadata(p[5]) if p[4] == 'regular' else km.KmedoidsClusteringMetadata(
            p[5], random_seed=p[6], mode=p[7])
        m = p[9]
        params = {'mean': lambda: mn.MeanOfPastParams(m[1]), 'knn': lambda: kn.KNNParams(m[1], m[2][1]),
                  'arima': lambda: ar.AutoArimaParams(*m[1:])}[m[0]]()
        return mo.SolverPickler(sm.SolverMetadataBuilder(md, params, p[10], p[11]).with_clustering(cl, p[8][1]).build())

    def key(p, error=True):
        q = [p[0], p[1], p[2], p[3], p[4], p[5]] + ([p[6], p[7]] if p[4] == 'kmedoids' else []) + [p[8][0]]
        m = p[9]
        q += [m[0], m[1], m[2][0]] if m[0] == 'knn' else list(m)
        return q + [p[10]] + ([p[11]] if error else [])
    import os
    a = one(0, None, None)
    b = one(1, a, H.int('changed', 0, 11)) if H.bool('one change') else one(1, None, None)
    A, B = build(a), build(b)
    norm = os.path.normpath
    same = key(a) == key(b)
    H.check('files of the errors', (norm(A.generalization_errors_pickle_path()) == norm(
        B.generalization_errors_pickle_path())) == same, '%s %s' % (key(a), key(b)))
    same = key(a, False) == key(b, False)
    for name in ('model_training_pickle_path', 'model_whole_pickle_path'):
        pa, pb = norm(getattr(A, name)()), norm(getattr(B, name)())
        H.check('files of the models (%s)' % name, same if pa == pb else key(a) != key(b), '%s %s %s' % (pa, key(a), key(b)))
    files = [norm(f()) for f in (A.model_training_pickle_path, A.model_whole_pickle_path, A.generalization_errors_pickle_path)]
    H.check('three files', len(set(files)) == 3)
    again = build(a)
    H.check('the same settings find the same files', files == [norm(f()) for f in (
        again.model_training_pickle_path, again.model_whole_pickle_path, again.generalization_errors_pickle_path)])


def any_solver(H, tag):
    """-> (values its files depend on, error function, the object that names the files of a solver with any settings)"""
    mo, sm = H.load('spta.solver.model'), H.load('spta.solver.metadata')
    km, rg = H.load('spta.clustering.kmedoids'), H.load('spta.clustering.regular')
    dt, rm = H.load('spta.distance.dtw'), H.load('spta.distance.rmse')
    kn, mn, ar = H.load('spta.model.knn'), H.load('spta.model.mean'), H.load('spta.arima')
    mdm, R = H.load('spta.region.metadata'), H.load('spta.region').Region
    kinds, values = [], []

    def kind(name, options):
        kinds.append(H.choice(name + tag, options))
        return kinds[-1]

    def value(x):
        values.append(x)
        return x

    def measure(name):
        if kind(name, ['dtw', 'spatial']) == 'dtw':
            return dt.DistanceByDTW()
        return dt.DistanceBySpatialDTW(value(H.real('weight of ' + name + tag, 0)))
    k = value(H.int('k' + tag, 1, None, 12))
    cl = rg.RegularClusteringMetadata(k) if kind('clustering', ['regular', 'kmedoids']) == 'regular' else \
        km.KmedoidsClusteringMetadata(k, random_seed=value(H.int('seed' + tag, 0, None, 12)))
    md = mdm.SpatioTemporalRegionMetadata('some', R(0, 3, 0, 3), value(H.int('start' + tag, 2011, None, 2013)),
                                          value(H.int('end' + tag, 2011, None, 2013)), value(H.int('spd' + tag, 1, None, 4)),
                                          scaled=True)
    dm = measure('distance')
    model = kind('model', ['mean', 'knn', 'arima'])
    if model == 'mean':
        params = mn.MeanOfPastParams(value(H.int('past' + tag, 1, None, 12)))
    elif model == 'knn':
        params = kn.KNNParams(value(H.int('neighbours' + tag, 1, None, 12)), dt.DistanceByDTW())
    else:
        params = ar.AutoArimaParams(*[value(H.int('arima%d' % i + tag, 0, None, 12)) for i in range(5)] + [True])
    tp = value(H.int('tp' + tag, 1, None, 12))
    error = H.choice('error' + tag, ['MSE', 'sMAPE'])
    return kinds, values, error, mo.SolverPickler(sm.SolverMetadataBuilder(md, params, tp, error).with_clustering(cl, dm).build())


def h_names_any(H):
    """no two solvers with different settings share a stored file, whatever the numbers in their settings"""
    k1, v1, e1, a = any_solver(H, '')
    k2, v2, e2, b = any_solver(H, ' of the other')
    same = H.and_(*[H.eq(x, y) for x, y in zip(v1, v2)]) if k1 == k2 else False
    H.check('files of the errors', H.eq(a.generalization_errors_pickle_path() == b.generalization_errors_pickle_path(),
                                        H.and_(same, e1 == e2)))
    for name in ('model_training_pickle_path', 'model_whole_pickle_path'):
        shared = getattr(a, name)() == getattr(b, name)()
        H.check('files of the models (%s)' % name, H.and_(H.imp(shared, same), H.imp(H.and_(same, e1 == e2), shared)))


class Kept(object):
    """what a solver stores; only its elements matter"""
    def __init__(self, data):
        self.data = data


def h_stored_any(H):
    """a stored solver reloads with its own models, errors and partition, whatever another one stored before or after,
    unless their settings are equal; a partition that is gone is calculated again from the region"""
    mo, sm = H.load('spta.solver.model'), H.load('spta.solver.metadata')
    km, dt = H.load('spta.clustering.kmedoids'), H.load('spta.distance.dtw')
    fa, mn = H.load('spta.clustering.factory'), H.load('spta.model.mean')
    mdm, R = H.load('spta.region.metadata'), H.load('spta.region').Region
    xl, yl = 2, 3
    x, y = H.index('x', xl), H.index('y', yl)

    def made(tag):
        v = [H.int(n + tag, 1, None, 4) for n in ('k', 'seed', 'start', 'end', 'spd', 'past', 'tp')]
        md = mdm.SpatioTemporalRegionMetadata('some', R(0, xl, 0, yl), v[2], v[3], v[4])
        cl = km.KmedoidsClusteringMetadata(v[0], random_seed=v[1])
        e = H.choice('error' + tag, ['MSE', 'sMAPE'])
        b = sm.SolverMetadataBuilder(md, mn.MeanOfPastParams(v[5]), v[6], e).with_clustering(cl, dt.DistanceByDTW()).build()
        parts = [H.array(n + tag, (xl, yl)) for n in ('training', 'whole', 'errors')]
        return v, e, b, parts, cm.partition(H, xl, yl, name='partition' + tag)
    first, other = made(''), made(' of the other')
    (v1, e1, md1, parts1, (p1, l1)), (v2, e2, md2, parts2, (p2, l2)) = first, other
    same_partition = H.and_(*[H.eq(a, b) for a, b in zip(v1[:5], v2[:5])])
    same = H.and_(same_partition, H.eq(v1[5], v2[5]), H.eq(v1[6], v2[6]))
    if same_partition:
        # the partition is a function of the region, the distance and the clustering
        p2, l2 = p1, l1
    order = [(md1, parts1, p1), (md2, parts2, p2)]
    if H.bool('the other first'):
        order.reverse()
    kept = H.bool('partition kept')
    for md, parts, part in order:
        if kept:
            fa.ClusteringFactory(md.distance_measure).instance(md.clustering_metadata).save_partition(part, md.region_metadata)
        mo.SolverWithMedoids(md, part, *[Kept(a) for a in parts]).save()
    region, _ = cm.spt(H, 2, xl, yl, metadata=md1.region_metadata)
    asked = []
    cls = km.KmedoidsClusteringAlgorithm
    own = cls.partition_impl

    def impl(self, spt_region, with_medoids=True):
        asked.append((self, spt_region))
        return p1
    md1.region_metadata.create_instance = lambda: region
    cls.partition_impl = impl
    try:
        got = mo.SolverPickler(md1).load_solver()
    finally:
        cls.partition_impl = own
    H.check('its own settings', got.metadata is md1 and got.error_type == e1 and got.region_metadata is md1.region_metadata)
    H.check('its own test samples', H.eq(got.test_len, v1[6]))
    last = order[1][1]
    at = [b.data[x, y] for b in (got.model_region_training, got.model_region_whole, got.generalization_errors)]
    for i, what in enumerate(('models of the training part', 'models of the whole series', 'errors')):
        H.check(what, H.ite(H.and_(same, i < 2 or e1 == e2), H.eq(at[i], last[i][x, y]), H.eq(at[i], parts1[i][x, y])))
    H.check('partition', H.eq(got.partition.as_numpy[x, y], l1[x, y]))
    H.check('the partition is calculated exactly when it is gone', len(asked) == (0 if kept else 1))
    again = mo.SolverPickler(md1).load_partition()
    H.check('partition, from now on stored', H.eq(again.as_numpy[x, y], l1[x, y]))
    if asked:
        H.check('from the region', asked[0][1] is region and asked[0][0].metadata is md1.clustering_metadata)


h_history = cm.history(h_asked_solver, last=True)


SPEC = [
    (h_predict, {'sym': True, 'runs': 80}),
    (h_predict_scaled, {'sym': True, 'runs': 80}),
    (h_replicate, {'sym': True, 'runs': 100}),
    (h_errors, {'sym': True, 'runs': 80}),
    (h_train, {'sym': True, 'seconds': 150, 'cost': 10, 'runs': 100}),
    (h_stored, {'runs': 60, 'seconds': 30, 'min': 10, 'why': 'files and pickled objects'}),
    (h_stored_any, {'sym': True, 'runs': 100}),
    (h_classifier, {'runs': 60, 'min': 8, 'why': 'files and pickled objects'}),
    (h_names_any, {'sym': True, 'runs': 200}),
    (h_network, {'runs': 100, 'why': 'external libraries'}),
    (h_names, {'runs': 600, 'why': 'file names'}),
    (h_history, {'sym': True, 'seconds': 150, 'cost': 10, 'runs': 60}),
]
