"""Model of numpy (and of math, os, pickle, ...) for the verified code."""
import builtins
import io
import itertools
import logging
import math as _math
import types
import numpy as _np
import z3
from . import core
from .core import Unsupported
from .sym import (SV, SInt, SReal, SBool, SObj, Poison, is_sym, is_int, is_num, zi, zb, mk_int, mk_bool, mk_real,
                  arith, compare, merge, to_int, to_float, sym_abs, sym_sqrt, rparts, _nb)
from .slist import SList, Seg
from .nparr import (SArray, DT, kind_of, kind_val, join_kind, cast, prod, as_sarray, elementwise, same, reshape,
                    flat_index, unflat, need_same, bool_select)
from .loops import SRange, SEnum, SZip, domain_of
from . import folds


# -- construction -------------------------------------------------------------------------
def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, SArray):
        r = x.copy()
    elif isinstance(x, _np.ndarray):
        r = as_sarray(x)
    elif isinstance(x, (SList, list, tuple)) or isinstance(x, (builtins.range, SRange)):
        r = from_seq(x, dtype)
    elif is_num(x):
        r = SArray.make((), lambda ix: x, kind_val(x))
    elif hasattr(x, '__next__') or isinstance(x, (SZip, SEnum)):
        raise Unsupported('array from an iterator')
    else:
        r = SArray.make((), lambda ix: x, 'O')
    if dtype is not None:
        r = r.astype(dtype)
    return r


asarray = array


def from_seq(x, dtype=None):
    d = domain_of(x) if not isinstance(x, (tuple,)) else None
    if dtype is not None and kind_of(dtype) == 'O' and isinstance(x, SList):
        # numpy's object arrays spread nested sequences of equal length; an element that is no sequence (the
        # repository's trailing None) keeps the elements whole
        ps = x.parts()
        if len(ps) > 1 and not isinstance(ps[-1], Seg) and ps[-1][-1] is None:
            return SArray.make((x.symlen(),), lambda ix: x.at(zi(ix[0])), 'O')
    if d is None or isinstance(d, list):
        items = list(d if d is not None else x)
        return stack_items(items)
    n = prod(d.dims)
    if d.guard is not None:
        en = folds.enum(d.dims, lambda ix: zb(d.guard(ix)))
        n = en.count
        item = lambda p: d.item(en.at(p))       # noqa: E731
    elif len(d.dims) == 1:
        item = lambda p: d.item((p,))           # noqa: E731
    else:
        item = lambda p: d.item(unflat(p, d.dims))      # noqa: E731
    with folds.Under([n]) as u:
        sample = item(u.vars[0])
        inner = array(sample) if isinstance(sample, (SArray, SList, list, _np.ndarray)) or \
            (isinstance(sample, tuple) and not (dtype is not None and kind_of(dtype) == 'O')) else None
    if inner is None:
        if len(d.dims) > 1 and d.guard is None:
            return reshape(SArray.make(d.dims, lambda ix: d.item(ix), kind_val(sample)), (n,))
        return SArray.make((n,), lambda ix: item(ix[0]), kind_val(sample))
    ids = {v.get_id() for v in u.vars}
    from .sym import mentions
    if mentions(inner.shape, ids):
        raise Unsupported('ragged array')
    if isinstance(sample, tuple):
        def content(ix):
            t = item(ix[0])
            out = t[-1]
            for q in range(len(t) - 2, -1, -1):
                out = merge(zi(ix[1]) == q, t[q], out)
            return out
    elif isinstance(sample, SArray):
        def content(ix):
            return item(ix[0]).read(ix[1:])
    else:
        def content(ix):
            return array(item(ix[0])).read(ix[1:])
    return SArray.make((n,) + tuple(inner.shape), content, inner.buf.kind)


def stack_items(items):
    if not items:
        return SArray.make((0,), lambda ix: 0.0, 'f')
    seqs = [isinstance(i, (list, tuple, SArray)) or (isinstance(i, _np.ndarray) and i.ndim) for i in items]
    if not builtins.any(seqs):
        items = [i.item() if hasattr(i, 'item') and not is_sym(i) else i for i in items]
        kind = kind_val(items[0])
        for i in items[1:]:
            kind = join_kind(kind, kind_val(i))

        def content(ix):
            return pick(items, zi(ix[0]))
        return SArray.make((len(items),), lambda ix: cast(content(ix), kind), kind)
    if not builtins.all(seqs):
        if items[-1] is None:
            # [x, ..., None] with dtype object: elements stay whole
            return SArray.make((len(items),), lambda ix: pick(items, zi(ix[0])), 'O')
        raise ValueError('setting an array element with a sequence')
    arrs = [array(i) for i in items]
    sh = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(sh):
            raise ValueError('inhomogeneous shape')
        for p, q in zip(sh, a.shape):
            if not (same(p, q) or core.ENG.branch(zi(p) == zi(q))):
                raise ValueError('inhomogeneous shape')
    kind = arrs[0].buf.kind
    for a in arrs[1:]:
        kind = join_kind(kind, a.buf.kind)
    fns = [a.snap() for a in arrs]

    def content(ix):
        return cast(pick_fn([lambda f=f: f(ix[1:]) for f in fns], zi(ix[0])), kind)
    return SArray.make((len(items),) + tuple(sh), content, kind)


def pick(items, t):
    return pick_fn([lambda v=v: v for v in items], t)


def pick_fn(fs, t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return fs[t.as_long()]()
    out = fs[-1]()
    for k in range(len(fs) - 2, -1, -1):
        out = merge(t == k, fs[k](), out)
    return out


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(to_int(v) if not isinstance(v, (float, SReal)) else _flt() for v in s)
    if isinstance(s, (float, SReal)):
        _flt()
    return (s,)


def _flt():
    raise TypeError("'float' object cannot be interpreted as an integer")


def check_shape(s):
    for v in s:
        if core.ENG.branch(zi(v) < 0) if is_sym(v) else v < 0:
            raise ValueError('negative dimensions are not allowed')


def full(shape, v, dtype=None, **k):
    s = _shape(shape)
    check_shape(s)
    kd = kind_of(dtype) if dtype is not None else kind_val(v)
    v = cast(v, kd)
    return SArray.make(s, lambda ix: v, kd)


def zeros(shape, dtype=None, **k):
    kd = kind_of(dtype)
    return full(shape, {'f': 0.0, 'i': 0, 'b': False, 'O': 0}[kd], dtype or _np.float64)


def ones(shape, dtype=None, **k):
    kd = kind_of(dtype)
    return full(shape, {'f': 1.0, 'i': 1, 'b': True, 'O': 1}[kd], dtype or _np.float64)


def empty(shape, dtype=None, **k):
    s = _shape(shape)
    check_shape(s)
    kd = kind_of(dtype)
    e = core.ENG
    sorts = [z3.IntSort()] * len(s)
    if kd == 'f':
        f = e.fresh_func('undef', sorts, z3.RealSort())
        return SArray.make(s, lambda ix: mk_real(f(*[zi(i) for i in ix])), kd)
    if kd == 'i':
        f = e.fresh_func('undef', sorts, z3.IntSort())
        return SArray.make(s, lambda ix: mk_int(f(*[zi(i) for i in ix])), kd)
    if kd == 'b':
        f = e.fresh_func('undef', sorts, z3.BoolSort())
        return SArray.make(s, lambda ix: mk_bool(f(*[zi(i) for i in ix])), kd)
    return SArray.make(s, lambda ix: None, kd)


def zeros_like(a, dtype=None, **k): return zeros(array(a).shape, dtype or DT(array(a).buf.kind))
def empty_like(a, dtype=None, **k): return empty(array(a).shape, dtype or DT(array(a).buf.kind))
def ones_like(a, dtype=None, **k): return ones(array(a).shape, dtype or DT(array(a).buf.kind))
def full_like(a, v, dtype=None, **k): return full(array(a).shape, v, dtype)


def arange(*a, dtype=None, **k):
    if len(a) == 1:
        a = (0,) + a
    start, stop = a[0], a[1]
    step = a[2] if len(a) > 2 else 1
    if not builtins.all(is_int(v) for v in (start, stop, step)):
        if builtins.any(is_sym(v) for v in (start, stop, step)):
            raise Unsupported('arange of symbolic floats')
        return as_sarray(_np.arange(*a))
    r = SRange(start, stop, step)
    n = r.length()
    out = SArray.make((n,), lambda ix: r.at(ix[0]), 'i')
    return out.astype(dtype) if dtype is not None else out


def repeat(a, repeats=None, axis=None):
    if not isinstance(a, (SArray, _np.ndarray, list, tuple)):
        v = a
        n = repeats
        check_shape((n,))
        return SArray.make((n,), lambda ix: v, kind_val(v))
    a = array(a)
    if isinstance(repeats, (SArray, list, tuple)):
        raise Unsupported('repeat with a list of counts')
    f = a.snap()
    if axis is None:
        b = reshape(a, (prod(a.shape),)) if a.ndim != 1 else a
        f = b.snap()
        n = arith('*', b.shape[0], repeats)
        # position p = i*repeats + r: register the decomposition
        return SArray.make((n,), lambda ix: f((idiv(zi(ix[0]), repeats),)), a.buf.kind)
    n = arith('*', a.shape[axis], repeats)
    sh = list(a.shape)
    sh[axis] = n

    def content(ix):
        ix = list(ix)
        ix[axis] = idiv(zi(ix[axis]), repeats)
        return f(tuple(ix))
    return SArray.make(tuple(sh), content, a.buf.kind)


def idiv(p, n):
    from .sym import idivmod
    return idivmod(p, zi(n))[0]


def tile(a, reps):
    a = array(a)
    if a.ndim != 1 or not is_int(reps):
        raise Unsupported('tile')
    f = a.snap()
    from .sym import idivmod
    return SArray.make((arith('*', a.shape[0], reps),),
                       lambda ix: f((idivmod(zi(ix[0]), zi(a.shape[0]))[1],)), a.buf.kind)


def copy(a, *x, **k): return array(a)


def copyto(dst, src):
    dst[...] = src


def concatenate(arrs, axis=0, **k):
    if isinstance(arrs, SList) and arrs.segs is not None:
        raise Unsupported('concatenate of a symbolic list')
    arrs = [array(a) for a in arrs]
    if axis is None:
        arrs = [reshape(a, (prod(a.shape),)) for a in arrs]
        axis = 0
    nd = arrs[0].ndim
    if axis < 0:
        axis += nd
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for k2 in range(nd):
            if k2 != axis:
                need_same(arrs[0].shape[k2], a.shape[k2])
    offs = [0]
    for a in arrs:
        offs.append(arith('+', offs[-1], a.shape[axis]))
    fns = [a.snap() for a in arrs]
    sh = list(arrs[0].shape)
    sh[axis] = offs[-1]
    kind = arrs[0].buf.kind
    for a in arrs[1:]:
        kind = join_kind(kind, a.buf.kind)

    def content(ix):
        p = zi(ix[axis])

        def at(k2):
            j = list(ix)
            j[axis] = z3.simplify(p - zi(offs[k2]))
            return fns[k2](tuple(j))
        out = at(len(fns) - 1)
        for k2 in range(len(fns) - 2, -1, -1):
            out = merge(p < zi(offs[k2 + 1]), at(k2), out)
        return cast(out, kind)
    return SArray.make(tuple(sh), content, kind)


def stack(arrs, axis=0, **k):
    r = array(arrs)
    if axis == 0:
        return r
    ax = list(range(1, r.ndim))
    ax.insert(axis if axis >= 0 else axis + r.ndim, 0)
    return r.transpose(*ax)


def vstack(arrs, **k):
    arrs = [array(a) for a in arrs]
    return concatenate([reshape(a, (1,) + a.shape) if a.ndim == 1 else a for a in arrs], 0)


def hstack(arrs, **k):
    arrs = [array(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def append(a, v, axis=None):
    a = array(a)
    v = array(v)
    if axis is None:
        if v.ndim == 0:
            v = reshape(v, (1,))
        return concatenate([reshape(a, (prod(a.shape),)), reshape(v, (prod(v.shape),))])
    return concatenate([a, v], axis)


def transpose(a, axes=None):
    return array(a).transpose(*(axes or ()))


def swapaxes(a, i, j): return a.swapaxes(i, j)


def squeeze(a, axis=None):
    a = array(a)
    keep = [k for k, s in enumerate(a.shape) if not (isinstance(s, int) and s == 1 and axis in (None, k))]
    f = a.snap()

    def content(ix):
        out = [z3.IntVal(0)] * a.ndim
        for p, k in enumerate(keep):
            out[k] = ix[p]
        return f(tuple(out))
    return SArray.make(tuple(a.shape[k] for k in keep), content, a.buf.kind)


def expand_dims(a, axis):
    a = array(a)
    key = [slice(None)] * a.ndim
    key.insert(axis if axis >= 0 else axis + a.ndim + 1, None)
    return a[tuple(key)]


def np_reshape(a, shape, *x, **k):
    return reshape(array(a), shape if isinstance(shape, (tuple, list)) else (shape,))


def take(a, idxs, axis=None):
    a = array(a)
    if axis is None:
        a = reshape(a, (prod(a.shape),)) if a.ndim != 1 else a
        axis = 0
    if is_int(idxs):
        return a[(slice(None),) * axis + (idxs,)]
    idxs = idxs if isinstance(idxs, SArray) else array(idxs)
    if idxs.src is not None and axis == 0 and a.ndim == 1 and idxs.ndim == 1:
        return reshape(a[idxs.src], idxs.shape)
    return a[(slice(None),) * axis + (idxs,)]


# -- elementwise --------------------------------------------------------------------------
def ew(f, *a, kind=None):
    a = [array(x) if isinstance(x, (list, tuple)) else x for x in a]
    if builtins.any(isinstance(x, (SArray, _np.ndarray)) for x in a):
        return elementwise(f, *a, kind=kind)
    return f(*a)


def np_abs(a): return ew(lambda v: sym_abs(v) if is_sym(v) else builtins.abs(v), a)
def sqrt(a): return ew(lambda v: to_float(sym_sqrt(to_float(v))) if is_sym(v) else _sq(v), a)
def _sq(v): return _math.sqrt(v) if v >= 0 else _math.nan
def square(a): return ew(lambda v: v * v, a)
def power(a, b): return ew(lambda v, w: arith('**', v, w), a, b)
def add(a, b): return ew(lambda v, w: arith('+', v, w), a, b)
def subtract(a, b): return ew(lambda v, w: arith('-', v, w), a, b)
def multiply(a, b): return ew(lambda v, w: arith('*', v, w), a, b)
def divide(a, b, **k): return ew(lambda v, w: arith('/', v, w), a, b)


def _isnan(v):
    if isinstance(v, SReal):
        return mk_bool(_nb(v.nan)) if not isinstance(v.nan, bool) else v.nan
    if isinstance(v, float):
        return _math.isnan(v)
    if is_num(v):
        return False
    raise TypeError("ufunc 'isnan' not supported for the input types")


def isnan(a): return ew(_isnan, a, kind='b')


def _isinf(v):
    if isinstance(v, SReal):
        if isinstance(v.inf, int):
            return v.inf != 0
        return mk_bool(v.inf != 0)
    return isinstance(v, float) and _math.isinf(v)


def isinf(a): return ew(_isinf, a, kind='b')


def _pymin(a, b): return merge(zb(compare('<', b, a)), b, a)
def _pymax(a, b): return merge(zb(compare('>', b, a)), b, a)
def minimum(a, b): return ew(_pymin, a, b)
def maximum(a, b): return ew(_pymax, a, b)


def logical_and(a, b): return ew(lambda v, w: mk_bool(z3.And(zb(v), zb(w))), a, b, kind='b')
def logical_or(a, b): return ew(lambda v, w: mk_bool(z3.Or(zb(v), zb(w))), a, b, kind='b')
def logical_not(a): return ew(lambda v: mk_bool(z3.Not(zb(v))), a, kind='b')


def where(c, *xy):
    if not xy:
        c = array(c)
        f = c.snap()
        en = folds.enum(c.shape, lambda ix: zb(f(ix)))
        out = tuple(SArray.make((en.count,), lambda ix, j=j: mk_int(en.at(ix[0])[j]), 'i') for j in range(c.ndim))
        if c.ndim == 1:
            out[0].positions = (list(c.shape), lambda ix: zb(f(ix)), out[0].buf.content)
        return out
    return ew(lambda a, x, y: merge(zb(a), x, y), c, *xy)


def nonzero(c): return where(ew(lambda v: mk_bool(zb(v)), c, kind='b'))


# -- reductions ---------------------------------------------------------------------------
def _reduce(a, axis, f, keepdims=False):
    """f(dims, fn) -> value"""
    a = array(a) if not isinstance(a, SArray) else a
    if axis is None:
        if a.src is not None:
            a = a.src            # the same elements; every reduction that comes here ignores their order
        return f(list(a.shape), a.snap())
    g = a.snap()
    if isinstance(axis, tuple):
        raise Unsupported('reduction over several axes')
    if axis < 0:
        axis += a.ndim
    out = a.shape[:axis] + a.shape[axis + 1:]

    def content(ix):
        ix = tuple(ix)
        return f([a.shape[axis]], lambda k: g(ix[:axis] + (zi(k[0]),) + ix[axis:]))
    if not out:
        return content(())
    ph = tuple(z3.Int('rd!%d' % j) for j in range(len(out)))
    e = core.ENG
    for p in ph:
        e.index_vars.add(p.get_id())
    e._keep = getattr(e, '_keep', []) + list(ph)
    with folds.Under(list(out)) as u:
        kind = kind_val(content(tuple(u.vars)))
    return SArray.make(out, content, kind)


def _num(v):
    return mk_int(zi(v)) if isinstance(v, (SBool, bool)) else v


def np_sum(a, axis=None, dtype=None, **k):
    if not isinstance(a, (SArray, _np.ndarray, list, tuple)):
        return a if is_num(a) else sum_gen(a)
    return _reduce(a, axis, lambda d, f: folds.sym_sum(d, lambda ix: _num(f(ix))))


def sum_gen(a):
    from .pyshim import s_sum
    return s_sum(a)


def _div_count(s, n):
    e = core.ENG
    if isinstance(n, int) and n == 0 or (is_sym(n) and e.branch(zi(n) == 0)):
        return _math.nan
    return to_float(arith('/', to_float(s), to_float(n) if not is_sym(n) else mk_real(z3.ToReal(zi(n)))))


def mean(a, axis=None, **k):
    def f(d, g):
        n = prod(d)
        return _div_count(folds.sym_sum(d, lambda ix: _num(g(ix))), n)
    return _reduce(a, axis, f)


def nansum(a, axis=None, **k):
    return _reduce(a, axis, lambda d, f: folds.sym_sum(d, f, None, True))


def nanmean(a, axis=None, **k):
    def f(d, g):
        s = folds.sym_sum(d, g, None, True)
        n = folds.sym_count(d, lambda ix: z3.Not(zb(_isnan(g(ix)))))
        return _div_count(s, n)
    return _reduce(a, axis, f)


def _ext(kind, skip):
    def red(a, axis=None, **k):
        def f(d, g):
            n = prod(d)
            if (isinstance(n, int) and n == 0) or (is_sym(n) and core.ENG.branch(zi(n) == 0)):
                raise ValueError('zero-size array to reduction operation')
            if builtins.all(isinstance(x, int) for x in d) and _math.prod(d) <= 6 and not skip:
                vals = [g(tuple(z3.IntVal(i) for i in ix)) for ix in itertools.product(*[range(x) for x in d])]
                if not builtins.any(_maybe_nan(v) for v in vals):
                    out = vals[0]
                    for v in vals[1:]:
                        out = (_pymin if kind == 'min' else _pymax)(out, v)
                    return out
            return folds.sym_extreme(kind, d, g, None, skip)
        return _reduce(a, axis, f)
    return red


def _maybe_nan(v):
    return isinstance(v, float) and _math.isnan(v) or isinstance(v, SReal) and v.nan is not False


amin = _ext('min', False)
amax = _ext('max', False)
nanmin = _ext('min', True)
nanmax = _ext('max', True)
min, max = amin, amax


def _arg(kind):
    def red(a, axis=None, **k):
        a = array(a) if not isinstance(a, SArray) else a
        if axis is None and a.ndim > 1:
            a = reshape(a, (prod(a.shape),))
        if a.src is not None:
            a = SArray(a.buf, a.shape, a.imap)      # positions in the flat order are wanted

        def f(d, g):
            n = prod(d)
            if (isinstance(n, int) and n == 0) or (is_sym(n) and core.ENG.branch(zi(n) == 0)):
                raise ValueError('attempt to get %s of an empty sequence' % kind)
            return folds.sym_arg(kind, n, lambda ix: g(ix))
        return _reduce(a, axis, f)
    return red


argmin = _arg('argmin')
argmax = _arg('argmax')


def argpartition(a, kth, axis=-1, **k):
    a = array(a)
    if a.ndim != 1 or k or not is_int(kth):
        raise Unsupported('argpartition of a matrix')
    n = a.shape[0]
    if core.ENG.branch(zi(kth) < 0):
        raise Unsupported('argpartition counted from the end')
    if core.ENG.branch(zi(kth) >= zi(n)):
        raise ValueError('kth(=%s) out of bounds (%s)' % (kth, n))
    at = a.snap()
    perm = folds.loose_perm(n, lambda i: at((i,)), kth)
    return SArray.make((n,), lambda ix: mk_int(perm(zi(ix[0]))), 'i')


def argsort(a, axis=-1, kind=None, **k):
    a = array(a)
    if a.ndim != 1 or k:
        raise Unsupported('argsort of a matrix')
    n, at = a.shape[0], a.snap()
    if kind in ('stable', 'mergesort'):
        perm, same = folds.sorted_perm(n, lambda i: at((i,)))
    else:
        perm = folds.loose_perm(n, lambda i: at((i,)))
    return SArray.make((n,), lambda ix: mk_int(zi(perm(zi(ix[0])))), 'i')


def np_any(a, axis=None, **k):
    if not isinstance(a, (SArray, list, tuple, _np.ndarray)):
        return mk_bool(zb(a))
    return _reduce(a, axis, lambda d, f: mk_bool(folds.exists_term(d, lambda ix: zb(f(ix)))))


def np_all(a, axis=None, **k):
    if not isinstance(a, (SArray, list, tuple, _np.ndarray)):
        return mk_bool(zb(a))
    return _reduce(a, axis, lambda d, f: mk_bool(folds.forall_term(d, lambda ix: zb(f(ix)))))


any, all = np_any, np_all


def count_nonzero(a, axis=None, **k):
    return _reduce(a, axis, lambda d, f: folds.sym_count(d, lambda ix: zb(f(ix))))


def np_prod(a, axis=None, **k):
    if isinstance(a, (list, tuple)) and not (isinstance(a, SList) and a.segs is not None):
        return prod(list(a))
    raise Unsupported('prod')


def array_equal(a, b, **k):
    a, b = array(a), array(b)
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a.shape, b.shape):
        if not (same(p, q) or core.ENG.branch(zi(p) == zi(q))):
            return False
    return np_all(compare('==', a, b))


def norm(a, ord=None, axis=None, **k):
    if ord not in (None, 2):
        raise Unsupported('norm order')
    return sqrt(np_sum(square(array(a)), axis=axis))


def unique(a, **k):
    raise Unsupported('np.unique of symbolic data')


def apply_along_axis(f, axis, arr, *args, **k):
    arr = array(arr)
    if axis < 0:
        axis += arr.ndim
    out = arr.shape[:axis] + arr.shape[axis + 1:]

    def lane(ix):
        key = list(mk_int(zi(i)) for i in ix)
        key.insert(axis, slice(None))
        return arr[tuple(key)]
    with folds.Under(list(out)) as u:
        r = f(lane(tuple(u.vars)), *args, **k)
    if isinstance(r, SArray):
        if r.ndim != 1:
            raise Unsupported('apply_along_axis result')
        n = r.shape[0]
        sh = out[:axis] + (n,) + out[axis:]
        return SArray.make(sh, lambda ix: f(lane(tuple(ix[:axis]) + tuple(ix[axis + 1:])), *args, **k).read((ix[axis],)),
                           r.buf.kind)
    return SArray.make(out, lambda ix: f(lane(ix), *args, **k), kind_val(r))


class vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f = f

    def __call__(self, *a):
        return ew(self.f, *a)


# -- random: any value in range -----------------------------------------------------------
class _Random(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.random')

    def seed(self, seed=None):
        e = core.ENG
        e.rng_seed = seed

    def randint(self, low, high=None, size=None, dtype=None):
        e = core.ENG
        if high is None:
            low, high = 0, low
        if size is None:
            v = e.fresh('rnd', z3.IntSort())
            e.assume(z3.And(v >= zi(low), v < zi(high)))
            return mk_int(v)
        sh = _shape(size)
        f = e.fresh_func('rnd', [z3.IntSort()] * len(sh), z3.IntSort())
        ks = [z3.Int('rk!%d' % j) for j in range(len(sh))]
        e.assume(z3.ForAll(ks, z3.And(f(*ks) >= zi(low), f(*ks) < zi(high)), patterns=[f(*ks)]))
        return SArray.make(sh, lambda ix: mk_int(f(*[zi(i) for i in ix])), 'i')

    def choice(self, a, size=None, replace=True, p=None):
        e = core.ENG
        if is_int(a):
            n = a
            el = lambda t: mk_int(t)        # noqa: E731
        else:
            from .pyshim import SSet
            if isinstance(a, SSet):
                a = a.aslist()
            a = array(a)
            n = a.shape[0]
            el = lambda t: a.read((t,))     # noqa: E731
        if size is None:
            if core.ENG.branch(zi(n) <= 0):
                raise ValueError('a must be non-empty')
            v = e.fresh('rnd', z3.IntSort())
            e.assume(z3.And(v >= 0, v < zi(n)))
            return el(v)
        (m,) = _shape(size)
        f = e.fresh_func('rnd', [z3.IntSort()], z3.IntSort())
        if not replace:
            if e.branch(zi(m) > zi(n)):
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        k, q = z3.Int('rk!0'), z3.Int('rk!1')
        e.assume(z3.ForAll([k], z3.And(f(k) >= 0, f(k) < zi(n)), patterns=[f(k)]))
        if not replace:
            # injective on 0..m-1, by a left inverse
            inv = e.fresh_func('rndinv', [z3.IntSort()], z3.IntSort())
            e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(m)), inv(f(k)) == k), patterns=[f(k)]))
        return SArray.make((m,), lambda ix: el(f(zi(ix[0]))), kind_val(el(f(z3.IntVal(0)))))

    def rand(self, *sh):
        e = core.ENG
        if not sh:
            v = e.fresh('rnd', z3.RealSort())
            e.assume(z3.And(v >= 0, v < 1))
            return mk_real(v)
        f = e.fresh_func('rnd', [z3.IntSort()] * len(sh), z3.RealSort())
        return SArray.make(sh, lambda ix: mk_real(f(*[zi(i) for i in ix])), 'f')
    random = rand

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('np.random.%s' % n)


# -- files: an in-memory store ------------------------------------------------------------
class VFile:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.rows = None
        if 'r' in mode:
            v = store().find(name)
            if v is None:
                raise FileNotFoundError(name)
            if isinstance(v[0], Table):
                self.rows = v[0].rows
        elif 'w' in mode and 'b' not in mode:
            self.rows = SList()
            store().put(name, Table(self.rows))
        elif 'a' in mode and 'b' not in mode:
            v = store().find(name)
            if v is None:
                v = (Table(SList()),)
                store().put(name, v[0])
            if isinstance(v[0], Table):
                self.rows = v[0].rows

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass

    def write(self, s):
        raise Unsupported('text file output')

    def read(self, *a):
        raise Unsupported('text file input')

    def __iter__(self):
        raise Unsupported('text file input')


class Table:
    """what csv.writer wrote: a list of rows, each a tuple of the text of its cells"""
    def __init__(self, rows):
        self.rows = rows


def cell_text(c):
    return '' if c is None else c if isinstance(c, str) else str(c)


class _CSVWriter:
    def __init__(self, f):
        if not isinstance(f, VFile) or f.rows is None:
            raise Unsupported('csv.writer of this file')
        self.rows = f.rows

    def writerow(self, row):
        if isinstance(row, SList) and row.segs is not None:
            if [1 for p in row.parts() if isinstance(p, Seg) and p.guard is not None]:
                raise Unsupported('row of filtered cells')
            parts = []
            for p in row.parts():
                parts.append(Seg(p.dims, lambda ix, f=p.fn: cell_text(f(ix))) if isinstance(p, Seg)
                             else [cell_text(c) for c in p])
            r = SList()
            r.setparts(parts)
            self.rows.append(r)
            return
        self.rows.append(tuple(cell_text(c) for c in row))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


class _CSV(types.ModuleType):
    QUOTE_MINIMAL, QUOTE_ALL, QUOTE_NONNUMERIC, QUOTE_NONE = range(4)

    def writer(self, f, *a, **k):
        return _CSVWriter(f)

    def reader(self, f, *a, **k):
        if not isinstance(f, VFile) or f.rows is None:
            raise Unsupported('csv.reader of this file')
        return f.rows


class Files:
    """an in-memory store; names are text, possibly with symbolic values in it"""

    def __init__(self):
        self.list = []

    def find(self, name):
        """the value stored last under a name, in a 1-tuple; None if there is none"""
        from . import text
        for n, v in reversed(self.list):
            if n == name:
                return (v,)
            if text.has(n) or text.has(name):
                if core.ENG.branch(text.equal(n, name)):
                    return (v,)
        return None

    def put(self, name, v):
        if isinstance(name, str):
            self.list.append((name, v))
        else:
            raise Unsupported('file name %s' % type(name).__name__)


def store():
    e = core.ENG
    if not isinstance(e.fs, Files):
        e.fs = Files()
    return e.fs


def lookup(name):
    return store().find(name) is not None


def fsnap(v):
    """a snapshot of a value: later changes of the stored object do not change the file"""
    import copy as _copy
    return _copy.deepcopy(v)


def np_save(name, a, **k):
    name = name if isinstance(name, str) else str(name)
    if not name.endswith('.npy'):
        name += '.npy'
    store().put(name, array(a).copy())


def np_load(name, *a, **k):
    v = store().find(name if isinstance(name, str) else str(name))
    if v is None:
        raise FileNotFoundError(name)
    return v[0].copy()


class _Pickle(types.ModuleType):
    PickleError = __import__('pickle').PickleError
    UnpicklingError = __import__('pickle').UnpicklingError
    HIGHEST_PROTOCOL = 5

    def dump(self, obj, f, *a, **k):
        store().put(f.name, fsnap(obj))

    def load(self, f, *a, **k):
        return fsnap(store().find(f.name)[0])


class _OSPath(types.ModuleType):
    def exists(self, p): return lookup(str(p))
    isfile = exists

    def isdir(self, p): return True

    def join(self, *a):
        import os
        return os.path.join(*a)

    def dirname(self, p):
        import os
        return os.path.dirname(p)

    def basename(self, p):
        import os
        return os.path.basename(p)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('os.path.%s' % n)


class _OS(types.ModuleType):
    def __init__(self):
        super().__init__('os')
        self.path = _OSPath('os.path')
        self.environ = {}
        self.sep = '/'

    def makedirs(self, *a, **k): pass
    mkdir = makedirs
    def getpid(self): return 1

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('os.%s' % n)


# -- math -----------------------------------------------------------------------------------
class _MathM(types.ModuleType):
    pi, e, inf, nan = _math.pi, _math.e, _math.inf, _math.nan

    def sqrt(self, x):
        if is_sym(x):
            if core.ENG.branch(rparts(x)[0] < 0):
                raise ValueError('math domain error')
            return sym_sqrt(x)
        return _math.sqrt(x)

    def isnan(self, x): return _isnan(x)

    def floor(self, x):
        if is_sym(x):
            if isinstance(x, SReal) and x.frac is not None and not isinstance(x.frac[0], str) \
                    and core.ENG.known(x.frac[1] > 0):
                from .sym import idivmod
                return mk_int(idivmod(x.frac[0], x.frac[1])[0])
            return mk_int(z3.ToInt(rparts(x)[0]))
        return _math.floor(x)

    def ceil(self, x):
        if is_sym(x):
            return mk_int(-zi(self.floor(-x) if not isinstance(x, SInt) else -x))
        return _math.ceil(x)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = getattr(_math, n)

        def g(*a):
            if builtins.any(is_sym(x) for x in a):
                raise Unsupported('math.%s of a symbolic number' % n)
            return f(*a)
        return g if callable(f) else f


# -- calendar -------------------------------------------------------------------------------
class SDelta:
    def __init__(self, days):
        self.days = days


class SDate:
    """datetime(year, 1, 1) for a symbolic year: proleptic Gregorian ordinal"""

    def __init__(self, year, month=1, day=1, *a):
        if not (month == 1 and day == 1) or a:
            raise Unsupported('symbolic date other than January 1st')
        if core.ENG.branch(z3.Or(zi(year) < 1, zi(year) > 9999)):
            raise ValueError('year is out of range')
        y = zi(year) - 1
        self.year = year
        self.ordinal = mk_int(y * 365 + y / 4 - y / 100 + y / 400 + 1)

    def toordinal(self): return self.ordinal

    def __sub__(self, o):
        if not isinstance(o, SDate):
            o = SDate(o.year, o.month, o.day)
        return SDelta(arith('-', self.ordinal, o.ordinal))

    def __rsub__(self, o):
        return SDate(o.year, o.month, o.day) - self


class _DT(types.ModuleType):
    def __init__(self):
        super().__init__('datetime')
        import datetime as d

        class _M(type):
            def __getattr__(c, n): return getattr(d.datetime, n)

        class datetime(metaclass=_M):
            def __new__(cls, year, month=1, day=1, *a, **k):
                if builtins.any(is_sym(x) for x in (year, month, day)):
                    return SDate(year, month, day, *a)
                return d.datetime(year, month, day, *a, **k)

        class date(metaclass=_M):
            def __new__(cls, year, month, day):
                if builtins.any(is_sym(x) for x in (year, month, day)):
                    return SDate(year, month, day)
                return d.date(year, month, day)
        self.datetime, self.date, self.timedelta = datetime, date, d.timedelta


# -- module objects -------------------------------------------------------------------------
class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArray, _np.ndarray))


class ndarray(metaclass=_NdMeta):
    pass


class NP(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = getattr(_np, n)          # AttributeError when numpy does not have it either
        if isinstance(f, type) or not callable(f):
            return f

        def g(*a, **k):
            if builtins.any(deep_sym(x) for x in a) or builtins.any(deep_sym(x) for x in k.values()):
                raise Unsupported('numpy.%s is not modelled' % n)
            return f(*a, **k)
        return g


def deep_sym(x):
    if isinstance(x, SV):
        return True
    if isinstance(x, SList) and x.segs is not None:
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(deep_sym(y) for y in x)
    return callable(x)


def external_modules():
    g = globals()
    np = NP('numpy')
    for n in ('array asarray full zeros ones empty zeros_like empty_like ones_like full_like arange repeat tile copy '
              'copyto concatenate stack vstack hstack append transpose swapaxes squeeze expand_dims take sqrt square '
              'power add subtract multiply divide isnan isinf minimum maximum logical_and logical_or logical_not '
              'where nonzero mean nansum nanmean amin amax nanmin nanmax argmin argmax argpartition argsort count_nonzero array_equal '
              'unique apply_along_axis vectorize min max ndarray').split():
        np.__dict__[n] = g[n]
    np.__dict__.update(abs=np_abs, absolute=np_abs, fabs=np_abs, sum=np_sum, any=np_any, all=np_all,
                       reshape=np_reshape, save=np_save, load=np_load, prod=np_prod, random=_Random(),
                       nan=_math.nan, NaN=_math.nan, inf=_math.inf, Inf=_math.inf, pi=_math.pi, newaxis=None,
                       set_printoptions=lambda *a, **k: None, ravel=lambda a: array(a).ravel(),
                       round=lambda a, *k: Unsup('np.round'))
    la = NP('numpy.linalg')
    la.__dict__.update(norm=norm, LinAlgError=_np.linalg.LinAlgError)
    np.__dict__['linalg'] = la
    mlog = logging
    math = _MathM('math')
    os = _OS()
    d = {'numpy': np, 'numpy.random': np.random, 'numpy.linalg': la, 'math': math, 'os': os, 'os.path': os.path,
         'pickle': _Pickle('pickle'), 'csv': _CSV('csv'), 'datetime': _DT(), 'logging': mlog}
    return d


def Unsup(n):
    raise Unsupported(n)


def _method(name):
    return external_modules


# methods reached through SArray.__getattr__
def std(a, *x, **k): raise Unsupported('std')
def var(a, *x, **k): raise Unsupported('var')
def dot(a, *x, **k): raise Unsupported('dot')
def cumsum(a, *x, **k): raise Unsupported('cumsum')
def np_round(a, *x, **k): raise Unsupported('round')


sum = np_sum
prod_method = np_prod
round = np_round
