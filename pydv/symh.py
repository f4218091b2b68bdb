"""The contract vocabulary, symbolic reading: every quantifier of the contract text is a proof goal."""
import itertools
import math
import z3
from . import core, folds
from .core import Unsupported, PathEnd
from .sym import (SV, SInt, SReal, SBool, SObj, is_sym, is_num, is_int, zi, zb, mk_int, mk_real, mk_bool, merge,
                  rparts, _nb, compare, arith)
from .nparr import SArray, prod
from .slist import SList, _eq
from . import loops
from .loops import Domain


class SymH:
    symbolic = True

    def __init__(self, loader):
        self.loader = loader
        self.inf = math.inf
        self.nan = math.nan
        self.remembered = None   # choices by name, when the same one is made again

    @property
    def e(self):
        return core.ENG

    def load(self, name):
        return self.loader.load(name)

    # -- inputs -------------------------------------------------------------------------
    def int(self, name, lo=None, hi=None, most=None):
        """an integer lo <= v <= hi (most: only bounds the concrete runs)"""
        e = self.e
        v = z3.Int(name)
        e.inputs.append(('int', name, v))
        if lo is not None:
            e.assume(v >= zi(lo))
        if hi is not None:
            e.assume(v <= zi(hi))
        return SInt(v)

    def size(self, name, lo=1, most=5):
        return self.int(name, lo, None, most)

    def index(self, name, n):
        v = self.int(name, 0, arith('-', n, 1))
        if z3.is_const(zi(v)) and not isinstance(v, int):
            self.e.point_vars.add(zi(v).get_id())
            self.e._keep.append(zi(v))
        return v

    def real(self, name, lo=None, hi=None, nan=False):
        e = self.e
        v = z3.Real(name)
        e.inputs.append(('real', name, v))
        if lo is not None:
            e.assume(v >= rparts(lo)[0])
        if hi is not None:
            e.assume(v <= rparts(hi)[0])
        return SReal(v, z3.Bool(name + '.nan') if nan else False)

    def bool(self, name):
        e = self.e
        v = z3.Bool(name)
        e.inputs.append(('bool', name, v))
        return SBool(v)

    def choice(self, name, options):
        """every option is tried"""
        options = list(options)
        if self.remembered is not None and name in self.remembered:
            return options[self.remembered[name]]
        k = self.e.decide(len(options), 'choice')
        self.e.inputs.append(('choice', name, k))
        if self.remembered is not None:
            self.remembered[name] = k
        return options[k]

    def array(self, name, shape, kind='f', lo=None, hi=None, nan=False, distinct=False):
        """any array of that shape; lo <= element <= hi"""
        e = self.e
        shape = tuple(shape)
        n = len(shape)
        sort = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[kind]
        f = z3.Function(name, *([z3.IntSort()] * n + [sort]))
        nf = z3.Function(name + '.nan', *([z3.IntSort()] * n + [z3.BoolSort()])) if nan else None
        ks = [z3.Int('%s.k%d' % (name, j)) for j in range(n)]
        if lo is not None or hi is not None:
            c = []
            if lo is not None:
                c.append(f(*ks) >= (zi(lo) if kind == 'i' else rparts(lo)[0]))
            if hi is not None:
                c.append(f(*ks) <= (zi(hi) if kind == 'i' else rparts(hi)[0]))
            rng = z3.And(*[z3.And(k >= 0, k < zi(d)) for k, d in zip(ks, shape)])
            e.axioms.append(z3.ForAll(ks, z3.Implies(rng, z3.And(*c)), patterns=[f(*ks)]))
        if distinct:
            g = z3.Function(name + '.inv', *([sort] + [z3.IntSort()]))
            rng = z3.And(*[z3.And(k >= 0, k < zi(d)) for k, d in zip(ks, shape)])
            e.axioms.append(z3.ForAll(ks, z3.Implies(rng, g(f(*ks)) == ks[0]), patterns=[f(*ks)]))

        def content(ix):
            ix = [zi(i) for i in ix]
            t = f(*ix)
            if kind == 'f':
                return mk_real(t, nf(*ix) if nan else False)
            return mk_int(t) if kind == 'i' else mk_bool(t)
        a = SArray.make(shape, content, kind)
        e.inputs.append(('array', name, (shape, content)))
        return a

    def fn(self, name, kinds, out='f'):
        """an arbitrary function of numbers ('f' real, 'i' integer arguments)"""
        S = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort(), 'm': Mapping.SORT}
        f = z3.Function(name, *([S[k] for k in kinds] + [S[out]]))
        mk = {'f': mk_real, 'i': mk_int, 'b': mk_bool}[out]

        def call(*a):
            ts, nan = [], False
            for k, x in zip(kinds, a):
                if k == 'f':
                    t, n = rparts(x)
                    nan = folds.nor(nan, n)
                    ts.append(t)
                elif k == 'm':
                    ts.append(x.t)
                elif k == 'i':
                    ts.append(zi(x))
                else:
                    ts.append(zb(x))
            return mk(f(*ts), nan) if out == 'f' else mk(f(*ts))
        return call

    def stored(self):
        """names of the files written, in order"""
        from .npshim import store
        out = []
        for n, _ in store().list:
            if n not in out:
                out.append(n)
        return out

    # -- frames -------------------------------------------------------------------------
    def before(self, *objects):
        """everything that can be reached from these objects and from the modules, as it is now"""
        from .frame import Snapshot
        return Snapshot(self.loader, objects)

    def alike(self, name, a, b):
        """all that can be read from two values is equal (a refutation decides nothing)"""
        from .frame import alike
        self.e.contracted = True
        self.e.check(name, alike(a, b))

    def note(self, *what):
        """a question was answered with an error: an error of the model itself decides nothing"""
        import traceback
        ex = what[-1]
        tb = traceback.extract_tb(ex.__traceback__)
        if __import__('os').environ.get('PYDV_FRAME'):
            print('NOTE', what, tb[-2:], file=__import__('sys').stderr)
        if '/pydv/' in tb[-1].filename and not isinstance(ex, (IndexError, KeyError, ValueError, ZeroDivisionError, StopIteration, OSError)):
            raise Unsupported('not modelled: %s: %s' % (type(ex).__name__, str(ex)[:150])) from ex

    def unchanged(self, name, snapshot, files=True):
        """everything is as it was. A refutation is no violation (what is kept may be kept for good): undecided"""
        self.e.contracted = True
        c, why = snapshot.unchanged(files)
        if not z3.is_true(c) and __import__('os').environ.get('PYDV_FRAME'):
            print(name, why, file=__import__('sys').stderr)
        self.e.check(name, c)

    # -- propositions -------------------------------------------------------------------
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self.e.assume(zb(c))

    def check(self, name, c, detail=None):
        if isinstance(c, bool) or hasattr(c, 'dtype') and not is_sym(c):
            c = z3.BoolVal(bool(c))
        if isinstance(c, SArray):
            c = c.item()
        self.e.check(name, zb(c))

    def forall(self, name, dims, pred):
        """proof goal for an arbitrary index tuple"""
        e = self.e
        dims = list(dims)
        if e.decide(2, 'forall') == 0:
            ix = [e.index_var('ix') for _ in dims]
            e.add('a', z3.And(*[z3.And(v >= 0, v < zi(d)) for v, d in zip(ix, dims)]))
            if e.feasible(z3.BoolVal(True)):
                self.check(name, pred(*[mk_int(v) for v in ix]))
            raise PathEnd()

    def each(self, name, lst, pred):
        """proof goal for an arbitrary element of a list: pred(position, element)"""
        n = self.len(lst)
        self.forall(name, [n], lambda p: pred(p, lst[p]))

    def all(self, dims, pred):
        return mk_bool(folds.forall_term(dims, lambda ix: zb(pred(*[mk_int(zi(i)) for i in ix]))))

    def any(self, dims, pred):
        return mk_bool(folds.exists_term(dims, lambda ix: zb(pred(*[mk_int(zi(i)) for i in ix]))))

    def and_(self, *cs):
        return mk_bool(z3.And([z3.BoolVal(True)] + [zb(c) for c in cs]))

    def or_(self, *cs):
        return mk_bool(z3.Or([z3.BoolVal(False)] + [zb(c) for c in cs]))

    def not_(self, c):
        return mk_bool(z3.Not(zb(c)))

    def imp(self, a, b):
        return mk_bool(z3.Implies(zb(a), zb(b)))

    def ite(self, c, a, b):
        return merge(zb(c), a, b)

    def eq(self, a, b):
        """equal values (two missing values are equal)"""
        if is_num(a) and is_num(b):
            if is_int(a) and is_int(b):
                return compare('==', a, b)
            ia, ib = _inf(a), _inf(b)
            if ia is not None or ib is not None:
                if ia is not None and ib is not None:
                    return ia == ib
                return False
            (x, n1), (y, n2) = rparts(a), rparts(b)
            if n1 is False and n2 is False:
                return mk_bool(x == y)
            return mk_bool(z3.And(_nb(n1) == _nb(n2), z3.Or(_nb(n1), x == y)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        if a is None or b is None:
            return a is b
        return _eq(a, b)

    def text(self, a, b):
        """equal texts (symbolic: a condition under which they are)"""
        from . import text
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
        return mk_bool(text.equal(a, b, exact=False))

    def text_differs(self, a, b):
        """different texts"""
        from . import text
        if not (isinstance(a, str) and isinstance(b, str)):
            return True
        return mk_bool(z3.Not(text.equal(a, b)))

    def sqrt(self, a):
        from .sym import sym_sqrt
        return sym_sqrt(a)

    def isnan(self, a):
        from .npshim import _isnan
        return _isnan(a)

    def same(self, a, b):
        """the very same stored object / number"""
        if is_num(a) and is_num(b):
            return self.eq(a, b)
        return a is b

    # -- folds --------------------------------------------------------------------------
    def sum(self, dims, f, guard=None):
        return folds.sym_sum(list(dims), _un(f), _ung(guard))

    def count(self, dims, pred):
        return folds.sym_count(list(dims), lambda ix: zb(pred(*[mk_int(zi(i)) for i in ix])))

    def minimum(self, dims, f):
        return folds.sym_extreme('min', list(dims), _un(f))

    def maximum(self, dims, f):
        return folds.sym_extreme('max', list(dims), _un(f))

    def div(self, a, b):
        from .sym import idivmod
        return mk_int(idivmod(zi(a), zi(b))[0])

    def mod(self, a, b):
        from .sym import idivmod
        return mk_int(idivmod(zi(a), zi(b))[1])

    def len(self, x):
        from .pyshim import s_len
        return s_len(x)

    def shape(self, a):
        return a.shape

    def series_equal(self, name, a, b):
        """arrays of equal shape and content"""
        from .npshim import array
        a, b = array(a), array(b)
        self.check(name + ': rank', len(a.shape) == len(b.shape))
        self.check(name + ': shape', self.and_(*[self.eq(x, y) for x, y in zip(a.shape, b.shape)]))
        self.forall(name, a.shape, lambda *ix: self.eq(a[tuple(ix)], b[tuple(ix)]))

    # -- iteration contracts ------------------------------------------------------------
    def use_iteration_contracts(self):
        """loops over regions use the iteration contract (property C01) instead of __next__"""
        e = self.e
        base = self.load('spta.region.base')
        spatial = self.load('spta.region.spatial')
        temporal = self.load('spta.region.temporal')
        mask = self.load('spta.region.mask')
        scaling = self.load('spta.region.scaling')
        Point = self.load('spta.region').Point
        active = []
        h = self

        def contract(it):
            if not isinstance(it, base.BaseRegion):
                return None
            while type(it).__name__ == 'ErrorRegion':
                # its iteration is the one of the region it decorates (contract of ErrorRegion.__next__, property C17)
                it = it.decorated_region
            at = it
            while isinstance(at, scaling.SpatioTemporalScaled):
                at = at.decorated_region
            if not (isinstance(at.point_index, int) and at.point_index == 0):
                raise Unsupported('iteration of a region that is not at its first point')
            it = at         # a scaled region iterates as what it decorates (contract of its __next__, property C01)
            filt = isinstance(it, (spatial.SpatialCluster, temporal.SpatioTemporalCluster, mask.MaskRegion))
            dims = [it.x_len, it.y_len]

            def item(ix):
                p = Point(mk_int(zi(ix[0])), mk_int(zi(ix[1])))
                if isinstance(it, temporal.SpatioTemporalRegion):
                    return (p, it.series_at(p))
                if isinstance(it, spatial.SpatialRegion):
                    return (p, it.value_at(p))
                return p
            guard = None
            if filt:
                def guard(ix):
                    p = Point(mk_int(zi(ix[0])), mk_int(zi(ix[1])))
                    return zb(_member(it, p))
            return Domain(dims, item, guard)
        e.iter_contracts.append(contract)

    LoopSpec = loops.LoopSpec

    # -- ghost values --------------------------------------------------------------------
    def mapping(self, name):
        """any function from positions to integers, as a value"""
        return Mapping(self.e.fresh(name, Mapping.SORT))

    def mapping_of(self, f):
        """the mapping c -> f(c), for an f that reads a mapping, with some positions replaced"""
        c = self.e.index_var('c')
        return Mapping(as_mapping(z3.simplify(zi(f(mk_int(c)))), c))

    def flag(self, name):
        return mk_bool(self.e.fresh(name, z3.BoolSort()))

    def tabulate(self, shape, f, kind='f'):
        """the array with these elements"""
        return SArray.make(tuple(shape), lambda ix: f(*[mk_int(zi(i)) for i in ix]), kind)

    def listed(self, n, f):
        """the list of n elements f(0), f(1), ..."""
        return SList.from_fn([n], lambda ix: f(mk_int(zi(ix[0]))))

    def row(self, a, i):
        """row i of a matrix, 0 <= i < rows assumed"""
        return SArray.make(a.shape[1:], lambda ix: a.read((zi(i),) + tuple(ix)), a.buf.kind)

    def element(self, lst, c):
        """element c of a list, 0 <= c < length assumed"""
        return lst.at(zi(c))

    def loop_contract(self, spec):
        """the loop named by spec (function, nesting depth) is decided by this contract"""
        self.e.loop_specs.append(spec)

    def iterate(self, region, dims, limit=None):
        raise Unsupported('concrete only')

    def concrete_only(self, why=''):
        raise Unsupported('bounded part: ' + why)


class Mapping:
    """a total function from integers to integers"""
    SORT = z3.ArraySort(z3.IntSort(), z3.IntSort())

    def __init__(self, t):
        self.t = t

    def __getitem__(self, i):
        return mk_int(z3.Select(self.t, zi(i)))

    def with_(self, i, v):
        return Mapping(z3.Store(self.t, zi(i), zi(v)))

    def same(self, o):
        return mk_bool(self.t == o.t)


def as_mapping(t, c):
    """the array whose element at c is t"""
    if z3.is_select(t) and t.arg(1).eq(c):
        return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        q = t.arg(0)
        if z3.is_eq(q) and (q.arg(0).eq(c) or q.arg(1).eq(c)):
            k = q.arg(1) if q.arg(0).eq(c) else q.arg(0)
            return z3.Store(as_mapping(t.arg(2), c), k, z3.substitute(t.arg(1), (c, k)))
    e = core.ENG
    k = z3.Int('mp!')
    body = z3.substitute(t, (c, k))
    m = e.mappings.get(body.get_id())
    if m is None:
        a = e.fresh('map', Mapping.SORT)
        e.add('a', z3.ForAll([k], z3.Select(a, k) == body, patterns=[z3.Select(a, k)]))
        m = e.mappings[body.get_id()] = (a, body)
    return m[0]


def _member(it, p):
    for obj in (it, getattr(it, 'partition', None)):
        f = getattr(obj, 'is_member', None)
        if f is None:
            continue
        try:
            return f(p) if obj is it else f(p, it.cluster_index)
        except TypeError:
            continue
    raise Unsupported('no membership query')


def _inf(x):
    return (1 if x > 0 else -1) if isinstance(x, float) and math.isinf(x) else None


def _un(f):
    return lambda ix: f(*[mk_int(zi(i)) for i in ix])


def _ung(g):
    if g is None:
        return None
    return lambda ix: zb(g(*[mk_int(zi(i)) for i in ix]))
