"""Builders shared by the contracts. Only public constructors of /repo are used."""
import numpy as np


def grid(H, most=4):
    return H.size('xl', 1, most), H.size('yl', 1, most)


def labels(H, name, xl, yl, kmax=4):
    """a label per point; any label below the largest may be unused"""
    return H.array(name, (xl, yl), 'i', 0, None if H.symbolic else H.int(name + '_top', 0, kmax - 1))


def partition(H, xl, yl, kmax=4, name='labels'):
    """-> (partition, label matrix); built from a label per point"""
    part = H.load('spta.region.partition')
    lab = labels(H, name, xl, yl, kmax)
    p = part.PartitionRegionCrisp.from_membership_array(lab.reshape(xl * yl), xl, yl)
    return p, lab


def spatial(H, xl, yl, name='values', **kw):
    sp = H.load('spta.region.spatial')
    v = H.array(name, (xl, yl), **kw)
    return sp.SpatialRegion(v), v


def spt(H, tl, xl, yl, name='data', metadata=None, **kw):
    t = H.load('spta.region.temporal')
    d = H.array(name, (tl, xl, yl), **kw)
    return t.SpatioTemporalRegion(d, metadata), d


def metadata(H, xl, yl, name='some_region', scaled=False, x1=0, y1=0, spd=1, y0=2014, y1_=2015):
    md = H.load('spta.region.metadata')
    reg = H.load('spta.region')
    return md.SpatioTemporalRegionMetadata(name, reg.Region(x1, x1 + xl, y1, y1 + yl), y0, y1_, spd, scaled=scaled)


def scaled(H, tl, xl, yl, name='data', **kw):
    """a region that was scaled: (scaled region, original data)"""
    sc = H.load('spta.region.scaling')
    r, d = spt(H, tl, xl, yl, name, **kw)
    f = sc.ScaleFunction(xl, yl)
    return f.apply_to(r, tl), d


def wrap_scaled(H, tl, xl, yl, name='data'):
    """a scaled region put together from its parts, (region, its data, min, max)"""
    sc = H.load('spta.region.scaling')
    r, d = spt(H, tl, xl, yl, name)
    mn, mna = spatial(H, xl, yl, name + '_min')
    mx, mxa = spatial(H, xl, yl, name + '_max')
    return sc.SpatioTemporalScaled(r, mn, mx), d, mna, mxa


def same_data(H, name, region, data):
    """the region's array equals data"""
    a = region.as_numpy
    H.series_equal(name, a, data)


def frozen(H, a):
    return a.copy()


def points_of(H, xl, yl):
    """all points in row-major order (concrete grids)"""
    return [(x, y) for x in range(xl) for y in range(yl)]


# -- the same object asked many times (concrete only) -----------------------------------
def plain(v):
    """what can be read from a result, for comparing two of them"""
    if isinstance(v, np.ndarray):
        return ('array', v.shape, [plain(x) for x in v.ravel()])
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return 'missing' if np.isnan(v) else float(v)
    if isinstance(v, dict):
        return [(plain(k), plain(x)) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, str):
        return v
    if hasattr(v, 'as_numpy'):
        return region_read(v)
    return repr(v)


def region_read(r):
    """kind, data, and what iterating gives"""
    out = [type(r).__name__, plain(r.as_numpy)]
    if len(r.as_numpy.shape) in (2, 3):
        out.append([plain(tuple(i)) for i in r])
    if hasattr(r, 'has_scaling') and r.has_scaling():
        out.append(plain(r.descale().as_numpy))
    return out


def alike(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b or abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))
    return a == b


def outcome(call):
    """-> (what it gave or the kind of error, the object itself)"""
    try:
        v = call()
    except Exception as e:
        return ['error', type(e).__name__], None
    return ['value', plain(v)], v


class Draws(object):
    """any values, where the concrete runs draw them from a generator"""

    def __init__(self, H, who=''):
        self.H, self.who, self.n = H, who, 0

    def name(self):
        self.n += 1
        return '%sdrawn %d' % (self.who, self.n)

    def pick(self, options):
        return self.H.choice(self.name(), options)

    def randint(self, low, high=None, size=None):
        H = self.H
        if high is None:
            low, high = 0, low
        if size is not None:
            size = size if isinstance(size, tuple) else (size,)
            return H.array(self.name(), size, 'i', low, high - 1)
        return H.int(self.name(), low, high - 1)

    def rand(self, *size):
        return self.H.array(self.name(), size, 'f', 0, 1)

    def permutation(self, n):
        return self.H.array(self.name(), (n,), 'i', 0, n - 1, distinct=True)


def pick(g, options):
    """one of the options"""
    if hasattr(g, 'pick'):
        return g.pick(options)
    return options[int(g.randint(len(options)))]


def other(g):
    """the other data? (in a proof, the second question always has other data than the first)"""
    if hasattr(g, 'pick'):
        return g.who == 'second '
    return bool(g.randint(2))


def leaves_as_is(H, make, questions, changes=(), skip=()):
    """no question changes anything that a later question could see, for any object as made (or changed): so the answers
    to any history of questions are those of a fresh object"""
    o = make()
    if changes:
        j = H.choice('change before', [i for i in range(len(changes) + 1)])
        if j:
            changes[j - 1][1](o, Draws(H, 'change '))
    name, ask = H.choice('question', [q for q in questions if q[0] not in skip])
    was = H.before(o)
    try:
        ask(o, Draws(H))
    except Exception as ex:
        H.note(name, ex)
        name += ', when it is refused'
    H.unchanged('leaves everything as it was: ' + name, was)


def as_after_the_last(H, make, questions, skip=()):
    """after two questions the object is as after the second alone, and has answered that as a fresh one: by induction on
    the history, every answer is that of a fresh object"""
    H.remembered = {}
    first, second = make(), make()
    questions = [q for q in questions if q[0] not in skip]
    n0, q0 = H.choice('first question', questions)
    n1, q1 = H.choice('second question', questions)
    was = H.before()

    def answer(q, o, who):
        try:
            return ['value', q(o, Draws(H, who))]
        except Exception as ex:
            H.note(n1, ex)
            return ['error', type(ex).__name__]
    answer(q0, first, 'first ')
    H.unchanged('leaves the modules as they were: ' + n0, was)
    a1 = answer(q1, first, 'second ')
    a2 = answer(q1, second, 'second ')
    H.alike('answers as a fresh one: %s after %s' % (n1, n0), a1, a2)
    H.alike('is left as a fresh one: %s after %s' % (n1, n0), first, second)


def history(h, skip=(), last=False):
    """the questions of an asked-many-times harness, each proved to leave everything as it was; or (last), proved to leave
    what the last question leaves"""
    def run(H):
        H.frame_skip = skip
        if H.symbolic:
            H.use_iteration_contracts()
            H.remembered = None
        H.frame_last = last
        h(H)
    run.__name__ = h.__name__
    return run


def many_times(H, why):
    """only the frame of the questions is proved; the histories themselves are run"""
    if H.symbolic and getattr(H, 'frame_skip', None) is None:
        H.concrete_only(why)


def asked_again(H, make, questions, changes=(), most=7):
    """the same object, asked many times in any order, answers each time as a fresh one would, and what it has given
    stays as it was. questions: [(name, ask(object, draw))]; changes: the same, applied to the object for good"""
    if H.symbolic:
        if H.frame_last:
            return as_after_the_last(H, make, questions, H.frame_skip)
        return leaves_as_is(H, make, questions, changes, H.frame_skip)
    shared, done, kept = make(), [], []
    for i in range(H.int('asked', 2, None, most)):
        what, j = 'ask', 0
        if changes and H.bool('change before %d' % i):
            j = H.index('change %d' % i, len(changes))
            seed = H.int('detail of change %d' % i, 0, 9999)
            done.append((changes[j][1], seed))
            changes[j][1](shared, np.random.RandomState(seed))
        j = H.index('question %d' % i, len(questions))
        seed = H.int('detail of question %d' % i, 0, 9999)
        name, ask = questions[j]
        fresh = make()
        for change, s in done:
            change(fresh, np.random.RandomState(s))
        want, _ = outcome(lambda: ask(fresh, np.random.RandomState(seed)))
        got, v = outcome(lambda: ask(shared, np.random.RandomState(seed)))
        H.check('answers as a fresh one: ' + name, alike(got, want), '%s, question %d: %s instead of %s' % (
            name, i, got, want))
        kept.append((name, got, v))
    for name, got, v in kept:
        if v is not None:
            H.check('what it gave stays as it was: ' + name, alike(['value', plain(v)], got), '%s: %s was %s' % (
                name, plain(v), got))
