"""Builtins seen by the verified code."""
import builtins
import math
import types
import z3
from . import core
from .core import Unsupported
from .sym import (SV, SInt, SReal, SBool, SObj, Poison, is_sym, is_int, is_num, zi, zb, mk_int, mk_bool, mk_real,
                  arith, compare, merge, subst, mentions, to_int, to_float, sym_abs, rparts)
from .slist import SList, Seg, _eq
from .nparr import SArray, prod
from .loops import SRange, SEnum, SZip, domain_of
from . import folds


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._types)

    def __subclasscheck__(cls, c):
        return any(issubclass(c, t) for t in cls._types)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._types[0]

    def __hash__(cls):
        return hash(cls._types[0])


class Int(metaclass=_Meta):
    _types = (int, SInt)
    _pydv_kind = 'i'
    __name__ = 'int'

    @staticmethod
    def _make(x=0, *a):
        if isinstance(x, str) and '\u27e6' in x:
            return _parse_token(x, to_int)
        if a:
            return int(x, *a)
        return to_int(x)


class Float(metaclass=_Meta):
    _types = (float, SReal)
    _pydv_kind = 'f'

    @staticmethod
    def _make(x=0.0):
        if isinstance(x, str) and '\u27e6' in x:
            return _parse_token(x, to_float)
        return to_float(x)


class Bool(metaclass=_Meta):
    _types = (bool, SBool)
    _pydv_kind = 'b'

    @staticmethod
    def _make(x=False):
        if isinstance(x, SBool):
            return x
        return bool(x)


class _MetaList(_Meta):
    def __instancecheck__(cls, x):
        return isinstance(x, list) and not isinstance(x, STuple)


class _MetaTuple(_Meta):
    def __instancecheck__(cls, x):
        return isinstance(x, (tuple, STuple))


class List(metaclass=_MetaList):
    _types = (list,)

    @staticmethod
    def _make(x=()):
        if isinstance(x, SSet):
            x = x.aslist()
        if isinstance(x, SList):
            return x.frozen()
        if isinstance(x, (SArray, SRange, SEnum, SZip)):
            d = domain_of(x)
            if d is None or isinstance(d, list):
                return SList(list(d if d is not None else x))
            return SList.from_fn(d.dims, d.item, d.guard)
        d = domain_of(x)
        if d is not None and not isinstance(d, list):
            from .runtime import comp
            return comp('list()', 'flat', x, 'a', lambda a: a, None)
        return SList(list(x))


class Tuple(metaclass=_MetaTuple):
    _types = (tuple,)

    @staticmethod
    def _make(x=()):
        if isinstance(x, SList) and x.segs is not None:
            x = x.frozen()
            n = x.symlen()
            if isinstance(n, int):
                return tuple(x[k] for k in range(n))
            return STuple.of(x)
        if isinstance(x, (SArray, SRange, SEnum, SZip)):
            x = List._make(x)
            if x.segs is not None:
                return STuple.of(x)
        return tuple(x)


class STuple(SList):
    """a tuple of symbolic length"""

    @staticmethod
    def of(x):
        r = STuple()
        r.setparts(x.parts())
        return r

    def append(self, *a):
        raise AttributeError("'tuple' object has no such attribute")
    extend = insert = pop = remove = sort = clear = reverse = append

    def __setitem__(self, *a):
        raise TypeError("'tuple' object does not support item assignment")


class SSet(set):
    """a set; its elements are those of a (possibly symbolic) list, unless `elems` is None: then a plain set"""

    def __init__(self, elems=None, distinct=False):
        set.__init__(self)
        self._set(elems, distinct)
        core.ENG.serial += 1
        self.serial = core.ENG.serial

    def _set(self, elems, distinct=False):
        self.elems = elems
        self._list = elems if distinct else None

    __hash__ = None

    @staticmethod
    def _plain(items):
        r = SSet()
        set.update(r, items)
        return r

    def __contains__(self, x):
        if self.elems is None:
            if not hasym(x):
                return set.__contains__(self, x)
            return x in SList(list(set.__iter__(self)))
        return x in self.elems

    def __iter__(self):
        if self.elems is None:
            return set.__iter__(self)
        raise Unsupported('iteration over a symbolic set')

    def __len__(self):
        if self.elems is None:
            return set.__len__(self)
        raise Unsupported('size of a symbolic set')

    def __bool__(self):
        if self.elems is None:
            return set.__len__(self) > 0
        return bool(self.elems.symlen() > 0)

    def listed(self):
        return SList(list(set.__iter__(self))) if self.elems is None else self.elems

    def aslist(self):
        """the elements, each once, in an unknown order"""
        if self.elems is None:
            return self.listed()
        if self._list is None:
            self._list = _distinct(self.elems)
        return self._list

    # -- mutation (never inside a summarised iteration: that would have to be undone)
    def _changes(self):
        for fr in core.ENG.frames:
            if self.serial <= fr.serial:
                raise Unsupported('a set changed in a loop over a symbolic range')

    def update(self, *its):
        self._changes()
        for it in its:
            l = it.listed() if isinstance(it, SSet) else it if isinstance(it, SList) else List._make(it)
            if self.elems is None and l.segs is None and not any(hasym(x) for x in list.__iter__(l)):
                set.update(self, list.__iter__(l))
                continue
            self._set(self.listed() + l)
            set.clear(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def add(self, x):
        self.update(SList([x]))

    # -- set algebra
    def union(self, *os):
        r = mkset(self.listed().frozen())
        for o in os:
            r = mkset(mkset_listed(r) + mkset_listed(o))
        return r

    def _where(self, keep):
        """the elements x with keep(x) (a z3 term)"""
        from .slist import Seg
        l = SList()
        parts = []
        for p in self.listed().parts():
            if isinstance(p, Seg):
                def g(ix, p=p):
                    k = keep(p.fn(ix))
                    return z3.And(zb(p.guard(ix)), k) if p.guard is not None else k
                parts.append(Seg(p.dims, p.fn, g))
            else:
                parts.append([x for x in p if core.ENG.branch(keep(x))])
        l.setparts(parts)
        return mkset(l)

    def difference(self, *os):
        r = self
        for o in os:
            l = mkset_listed(o)
            r = SSet._where(r, lambda x, l=l: z3.Not(member(l, x))) if isinstance(r, SSet) else \
                mkset(SList(list(r))).difference(o)
        return r

    def intersection(self, o):
        l = mkset_listed(o)
        return self._where(lambda x: member(l, x))

    def __sub__(self, o): return self.difference(o)
    def __rsub__(self, o): return SSet(SList(list(o))).difference(self)
    def __or__(self, o): return self.union(o)
    def __ror__(self, o): return self.union(o)
    def __and__(self, o): return self.intersection(o)
    def __rand__(self, o): return self.intersection(o)

    def difference_update(self, *os):
        self._changes()
        r = self.difference(*os)
        self._set(mkset_listed(r))
        set.clear(self)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def mentions(self, ids, memo):
        return self.elems is not None and (mentions(self.elems, ids, memo) or
                                           self._list is not None and mentions(self._list, ids, memo))

    def substituted(self, pairs, memo):
        if self.elems is None:
            return self
        l = subst(self.elems, pairs, memo)
        d = None if self._list is None else subst(self._list, pairs, memo)
        if l is self.elems and d is self._list:
            return self
        r = SSet(l)
        r._list = d
        return r

    def copy(self):
        return SSet(self.listed().frozen())


def _only_plain(name):
    op = getattr(set, name)

    def f(self, *a):
        if self.elems is not None or any(isinstance(x, SSet) and x.elems is not None or hasym(x) for x in a):
            raise Unsupported('operation on a symbolic set')
        if name in ('add', 'remove', 'discard', 'pop', 'clear') or name.endswith('update') or name.startswith('__i'):
            self._changes()
        return op(self, *a)
    return f


for _n in ('remove discard pop clear symmetric_difference __xor__ __rxor__ __ixor__ __iand__ issubset issuperset isdisjoint '
           'intersection_update symmetric_difference_update __eq__ __ne__ __le__ __lt__ __ge__ __gt__').split():
    setattr(SSet, _n, _only_plain(_n))


def mkset_listed(x):
    if isinstance(x, SSet):
        return x.listed()
    if isinstance(x, SList):
        return x
    return List._make(x)


def member(l, x):
    """z3 term: x is an element of the list"""
    from .slist import Seg, _eq
    from .folds import exists_term
    some = []
    for p in l.parts():
        if isinstance(p, Seg):
            def pr(ix, p=p):
                c = zb(_eq(p.fn(ix), x))
                return z3.And(c, zb(p.guard(ix))) if p.guard is not None else c
            some.append(exists_term(p.dims, pr))
        else:
            some.extend(zb(_eq(y, x)) for y in p)
    return z3.Or(some) if some else z3.BoolVal(False)


def _distinct(l):
    """an arbitrary enumeration of the different integers (or tuples of integers) of a list: o(0..n-1), given by its
    defining axioms"""
    from .slist import Seg
    from .folds import Under
    e = core.ENG
    I = z3.IntSort()
    parts = list(l.parts())
    shape = []          # of the elements: None for integers, else (type, how many)

    def nums(x):
        if is_int(x):
            k, v = None, [zi(x)]
        elif isinstance(x, tuple) and all(is_int(y) for y in x):
            k, v = (type(x), len(x)), [zi(y) for y in x]
        else:
            raise Unsupported('set of other things than integers')
        if shape and shape[0] != k:
            raise Unsupported('set of different things')
        shape[:] = [k]
        return v
    for p in parts:
        if isinstance(p, Seg):
            with Under(p.dims) as u:
                w = len(nums(p.fn(tuple(u.vars))))
        else:
            w = len(nums(p[0]))
    if not shape:
        return SList()
    n = e.fresh('set_size', I)
    os = [e.fresh_func('set_item', [I], I) for _ in range(w)]
    pos = e.fresh_func('set_pos', [I] * w, I)
    e.add('a', z3.And(n >= 0, n <= zi(l.symlen())))

    def holds(v):
        q = pos(*v)
        return z3.And([q >= 0, q < n] + [o(q) == t for o, t in zip(os, v)])
    for p in parts:
        if isinstance(p, Seg):
            with Under(p.dims) as u:
                v = nums(p.fn(tuple(u.vars)))
                g = p.guard(tuple(u.vars)) if p.guard is not None else z3.BoolVal(True)
            e.add('a', z3.ForAll(u.vars, _recentre(u.vars, z3.Implies(z3.And(u.rng, zb(g)), holds(v)))))
        else:
            for x in p:
                e.add('a', holds(nums(x)))
    with Under([mk_int(n)]) as u:
        i = u.vars[0]
        at = [o(i) for o in os]
        some = []
        only = len(parts) == 1
        for p in parts:
            if isinstance(p, Seg):
                w_ = tuple(e.fresh_func('set_from', [], I)() for _ in p.dims)
                if only:
                    e.pc.append(('r', z3.And([z3.And(t >= 0, t < zi(d)) for t, d in zip(w_, p.dims)])))
                g = zb(p.guard(w_)) if p.guard is not None else z3.BoolVal(True)
                some.append(z3.And([z3.And(t >= 0, t < zi(d)) for t, d in zip(w_, p.dims)] + [g] +
                                   [a == b for a, b in zip(nums(p.fn(w_)), at)]))
            else:
                some.extend(z3.And([a == b for a, b in zip(nums(x), at)]) for x in p)
        fact = z3.And(pos(*at) == i, z3.Or([z3.BoolVal(False)] + some))
    e.add('a', z3.ForAll(u.vars, z3.Implies(u.rng, fact), patterns=at[:1]))
    k = shape[0]

    def item(ix):
        t = [mk_int(o(zi(ix[0]))) for o in os]
        if k is None:
            return t[0]
        return k[0](*t) if hasattr(k[0], '_fields') else tuple(t)
    return SList.from_fn([mk_int(n)], item)


def _recentre(vars, t):
    """the same quantified statement with bound variables shifted so that functions are applied to them alone"""
    t = z3.simplify(t)
    for v in vars:
        offs, seen, st = {}, set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            st.extend(x.children())
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for a in x.children():
                    if a.eq(v):
                        offs['0'] = None
                    elif z3.is_add(a) and any(c.eq(v) for c in a.children()):
                        o = z3.simplify(a - v)
                        offs[o.sexpr()] = o
        if len(offs) == 1:
            (o,) = offs.values()
            if o is not None:
                t = z3.simplify(z3.substitute(t, (v, v - o)))
    return t


def mkset(x=()):
    if isinstance(x, SList):
        if x.segs is None:
            items = list(list.__iter__(x))
            if not any(hasym(y) for y in items):
                return SSet._plain(items)
            return SSet(dedup(items), True) if len(items) < 6 else SSet(x)
        return SSet(x)
    if isinstance(x, (SRange, SArray)):
        return SSet(List._make(x))
    if isinstance(x, SSet):
        return SSet(x.listed().frozen()) if x.elems is not None else SSet._plain(x)
    items = list(x)
    if any(hasym(y) for y in items):
        return SSet(SList(items))
    return SSet._plain(items)


def dedup(items):
    out = SList()
    for x in items:
        if x not in out:
            out.append(x)
    return out


def hasym(y):
    if isinstance(y, tuple):
        return any(hasym(z) for z in y)
    return is_sym(y)


class Set(metaclass=_Meta):
    _types = (set, SSet)

    @staticmethod
    def _make(x=()):
        return mkset(x)


def _parse_token(x, conv):
    from . import text
    ps = text.parse(x.strip())
    if len(ps) != 1 or ps[0].spec not in ('', 'd') or ps[0].kind not in ('i', 'r'):
        if any(isinstance(p, str) and any(c.isalpha() and c not in 'einfa' for c in p) for p in ps):
            raise ValueError('invalid literal')
        raise Unsupported('parsing of a partly symbolic string')
    if conv is to_int and ps[0].kind == 'r':
        raise Unsupported('int() of the text of a real number')
    return conv(ps[0].value)


def s_len(x):
    if isinstance(x, SList):
        if x.segs is None:
            return len(x)
        return x.symlen()
    if isinstance(x, SArray):
        if not x.shape:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, SRange):
        return x.length()
    if isinstance(x, (SEnum, SZip)):
        raise TypeError('object has no len()')
    if isinstance(x, SSet):
        return s_len(x.aslist())
    if isinstance(x, Poison):
        x._no()
    f = getattr(type(x), '__len__', None)
    if f is not None and core.owned(x):
        return f(x)
    return builtins.len(x)


def s_range(*a):
    if any(is_sym(x) for x in a):
        a = [to_int(x) if not isinstance(x, (SReal, float)) else _noflt() for x in a]
        if len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)
    return builtins.range(*a)


def _noflt():
    raise TypeError("'float' object cannot be interpreted as an integer")


def _iter_items(it):
    """-> ('list', items) | ('dom', Domain)"""
    d = domain_of(it)
    if d is None:
        return 'list', list(it)
    if isinstance(d, list):
        return 'list', list(d)
    if d.on_start or d.on_end:
        l = List._make(it)
        return _iter_items(l)
    return 'dom', d


def s_sum(it, start=0):
    k, v = _iter_items(it)
    if k == 'list':
        r = start
        for x in v:
            r = r + x
        return r
    return arith('+', start, folds.sym_sum(v.dims, v.item, v.guard))


def _extreme(kind, args, key=None, default=None, has_default=False):
    op = '<' if kind == 'min' else '>'
    if len(args) == 1:
        k, v = _iter_items(args[0])
    else:
        k, v = 'list', list(args)
    if k == 'list':
        if not v:
            if has_default:
                return default
            raise ValueError('%s() arg is an empty sequence' % kind)
        best = v[0]
        kb = key(best) if key else best
        for x in v[1:]:
            kx = key(x) if key else x
            c = compare(op, kx, kb) if is_num(kx) and is_num(kb) else \
                (kx < kb if kind == 'min' else kx > kb)
            if isinstance(c, bool):
                if c:
                    best, kb = x, kx
            elif is_num(x) and key is None:
                best = kb = merge(c.t, x, kb)
            elif bool(c):
                best, kb = x, kx
        return best
    n = prod(v.dims)
    if v.guard is not None:
        raise Unsupported('min/max over a filtered list')
    if core.ENG.branch(zi(n) <= 0):
        if has_default:
            return default
        raise ValueError('%s() arg is an empty sequence' % kind)
    if key is None:
        return folds.sym_extreme(kind, v.dims, v.item)
    if len(v.dims) != 1:
        raise Unsupported('min/max with key over a matrix')
    i = folds.sym_arg('arg' + kind, n, lambda ix: key(v.item(ix)))
    return v.item((zi(i),))


def s_min(*a, key=None, **k):
    return _extreme('min', a, key, k.get('default'), 'default' in k)


def s_max(*a, key=None, **k):
    return _extreme('max', a, key, k.get('default'), 'default' in k)


def s_abs(x):
    if isinstance(x, SArray):
        return abs(x)
    return sym_abs(x) if is_sym(x) else builtins.abs(x)


def s_sorted(it, key=None, reverse=False):
    k, v = _iter_items(it if not isinstance(it, SSet) else it.aslist())
    if k != 'list':
        if len(v.dims) != 1 or v.guard is not None or reverse:
            raise Unsupported('sorted() of a filtered list or matrix')
        at = lambda i: v.item((i,))       # noqa: E731
        perm, same = folds.sorted_perm(v.dims[0], (lambda i: key(at(i))) if key else at)
        return SList.from_fn(v.dims, lambda ix: at(perm(zi(ix[0]))))
    keys = [key(x) for x in v] if key else v
    if not any(hasym(x) for x in keys):
        return SList([x for _, _, x in builtins.sorted(
            [(kk, i, x) for i, (kk, x) in enumerate(zip(keys, v))], key=lambda t: t[0], reverse=reverse)])
    if len(v) > 5:
        raise Unsupported('sorted() of many symbolic keys')
    out = []
    for kk, x in zip(keys, v):
        pos = len(out)
        while pos > 0 and bool((out[pos - 1][0] < kk) if reverse else (kk < out[pos - 1][0])):
            pos -= 1
        out.insert(pos, (kk, x))
    return SList([x for _, x in out])


def _symit(x):
    return isinstance(x, (SRange, SEnum, SZip)) or (isinstance(x, SList) and x.segs is not None) or \
        (isinstance(x, SArray) and not isinstance(x.shape[0], int)) or \
        (core.owned(x) and hasattr(type(x), '__next__')
         and any(f(x) is not None for f in core.ENG.iter_contracts))


def s_enumerate(it, start=0):
    return SEnum(it, start) if _symit(it) else builtins.enumerate(it, start)


def s_zip(*its):
    return SZip(its) if any(_symit(x) for x in its) else builtins.zip(*its)


def s_any(it):
    k, v = _iter_items(it)
    if k == 'list':
        for x in v:
            if x:
                return True
        return False
    return mk_bool(folds.exists_term(v.dims, lambda ix: z3.And(
        zb(v.guard(ix)) if v.guard else z3.BoolVal(True), zb(v.item(ix)))))


def s_all(it):
    k, v = _iter_items(it)
    if k == 'list':
        for x in v:
            if not x:
                return False
        return True
    return mk_bool(folds.forall_term(v.dims, lambda ix: z3.Implies(
        zb(v.guard(ix)) if v.guard else z3.BoolVal(True), zb(v.item(ix)))))


def s_map(f, *its):
    from .runtime import comp
    if len(its) == 1:
        return comp('map', 'flat', its[0], 'a', lambda a: f(a), None)
    return comp('map', 'flat', s_zip(*its), tuple('a%d' % i for i in range(len(its))), lambda *a: f(*a), None)


def s_filter(f, it):
    from .runtime import comp
    return comp('filter', 'flat', it, 'a', lambda a: a, (lambda a: f(a)) if f else (lambda a: a))


def s_round(x, n=None):
    if is_sym(x):
        raise Unsupported('round of a symbolic number')
    return builtins.round(x, n) if n is not None else builtins.round(x)


def s_next(it, *d):
    return builtins.next(it, *d)


def s_iter(x, *a):
    return builtins.iter(x, *a)


def s_pow(a, b, *c):
    if is_sym(a) or is_sym(b):
        return arith('**', a, b)
    return builtins.pow(a, b, *c)


def s_divmod(a, b):
    return (a // b, a % b)


def s_open(name, mode='r', *a, **k):
    from .npshim import VFile
    return VFile(str(name), mode)


def s_reversed(x):
    if isinstance(x, SRange) or (isinstance(x, SList) and x.segs is not None):
        raise Unsupported('reversed symbolic sequence')
    return builtins.reversed(x)


def s_isinstance(x, c):
    if isinstance(c, tuple):
        return any(s_isinstance(x, y) for y in c)
    import numpy as np
    if c is np.integer:
        return isinstance(x, (np.integer,))
    return builtins.isinstance(x, c)


def s_iter(x, *a):
    from .loops import SIter, SEnum, SZip
    if not a and (isinstance(x, (SArray, SRange, SEnum, SZip)) or (isinstance(x, SList) and x.segs is not None)):
        return SIter(x)
    return builtins.iter(x, *a)


def make_builtins(loader):
    d = dict(builtins.__dict__)
    d.update(int=Int, float=Float, bool=Bool, list=List, tuple=Tuple, set=Set, len=s_len, range=s_range, sum=s_sum,
             min=s_min, max=s_max, abs=s_abs, sorted=s_sorted, enumerate=s_enumerate, zip=s_zip, any=s_any,
             all=s_all, map=s_map, filter=s_filter, round=s_round, pow=s_pow, divmod=s_divmod, open=s_open,
             reversed=s_reversed, iter=s_iter, isinstance=s_isinstance, print=lambda *a, **k: None,
             __import__=loader.import_)
    return d


class StubModule(types.ModuleType):
    """A library that is not modelled: may be imported and referenced, not called."""

    def __init__(self, name):
        super().__init__(name)
        self.__dict__['_n'] = name
        self.__path__ = []

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        m = StubModule(self._n + '.' + a)
        self.__dict__[a] = m
        return m

    def __call__(self, *a, **k):
        raise Unsupported('call of %s, which is not modelled' % self._n)

    def __mro_entries__(self, bases):
        return (object,)
