"""Symbolic numpy arrays: concrete rank, symbolic shape, contents as a function of the index."""
import itertools
import math
import numpy as np
import z3
from . import core
from .core import Unsupported
from .sym import (SV, SInt, SReal, SBool, SObj, Poison, zi, zb, mk_int, mk_real, mk_bool, merge, subst,
                  is_sym, is_num, is_int, rparts, arith, compare, to_int)


_serial = itertools.count()


class DT:
    """dtype: kind i, f, b or O"""
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        try:
            return self.kind == kind_of(o)
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return 'dtype(%s)' % self.kind


def kind_of(dt):
    if dt is None:
        return 'f'
    if isinstance(dt, DT):
        return dt.kind
    if dt is object or dt is np.object_:
        return 'O'
    if getattr(dt, '_pydv_kind', None):
        return dt._pydv_kind
    k = np.dtype(dt).kind
    if k in 'iu':
        return 'i'
    if k == 'f':
        return 'f'
    if k == 'b':
        return 'b'
    return 'O'


def kind_val(v):
    if isinstance(v, (SBool, bool, np.bool_)):
        return 'b'
    if isinstance(v, (SInt, int, np.integer)):
        return 'i'
    if isinstance(v, (SReal, float, np.floating)):
        return 'f'
    return 'O'


def join_kind(a, b):
    order = 'bif'
    if a == b:
        return a
    if a in order and b in order:
        return order[max(order.index(a), order.index(b))]
    return 'O'


def cast(v, kind):
    if isinstance(v, Poison):
        return v
    if kind == 'f' and isinstance(v, (SInt, SBool)):
        return mk_real(rparts(v)[0], False, (zi(v), z3.IntVal(1)) if isinstance(v, SInt) else None)
    if kind == 'f' and isinstance(v, (int, bool)):
        return float(v)
    if kind == 'i' and isinstance(v, (SReal, float)):
        return to_int(v)
    if kind == 'i' and isinstance(v, (SBool, bool)):
        return mk_int(zi(v))
    return v


class Buf:
    __slots__ = ('content', 'shape', 'kind', 'serial', 'readonly')

    def __init__(self, content, shape, kind):
        self.content, self.shape, self.kind = content, tuple(shape), kind
        self.readonly = False
        e = core.ENG
        e.serial += 1
        self.serial = e.serial


_probing = set()


class SArray(SV):
    __slots__ = ('buf', 'imap', 'shape', 'src', 'positions')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, buf, shape, imap=None):
        self.buf, self.shape, self.imap = buf, tuple(shape), imap
        self.positions = None    # (dims, guard): the array lists, in order, the positions where a condition holds
        self.src = None          # the array this one is a reshape of (same elements, same order)

    @staticmethod
    def make(shape, fn, kind='f'):
        return SArray(Buf(fn, shape, kind), shape)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return DT(self.buf.kind)

    @property
    def size(self):
        return prod(self.shape)

    @property
    def T(self):
        return self.transpose()

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return n
        return n.__index__()

    def read(self, idx):
        """value at index (tuple of z3 ints / ints), no bounds check"""
        idx = tuple(zi(i) for i in idx)
        if self.imap is not None:
            idx = self.imap(idx)
        note_read(self.buf, idx)
        return self.buf.content(idx)

    def snap(self):
        """content function (captured now) of this view"""
        content, imap, buf = self.buf.content, self.imap, self.buf
        if core.ENG.frames:
            ph = tuple(z3.Int('snap!%d' % k) for k in range(self.ndim))
            note_read(buf, imap(ph) if imap is not None else ph)

        def f(idx):
            idx = tuple(zi(i) for i in idx)
            if imap is not None:
                idx = imap(idx)
            return content(idx)
        return f

    def probe(self):
        idx = tuple(z3.Int('probe!%d' % k) for k in range(len(self.buf.shape)))
        return self.buf.content(idx)

    def mentions(self, ids, memo=None):
        from .sym import mentions
        if mentions(tuple(self.shape), ids):
            return True
        if id(self.buf) not in _probing:       # an array that (through its elements) holds itself is looked into once
            _probing.add(id(self.buf))
            was, core.PROBING = core.PROBING, True
            try:
                if mentions(self.probe(), ids, memo):
                    return True
            except Unsupported:
                return True
            finally:
                core.PROBING = was
                _probing.discard(id(self.buf))
        return self.imap is not None and mentions(
            tuple(self.imap(tuple(z3.Int('probe!%d' % k) for k in range(self.ndim)))), ids)

    def substituted(self, pairs, memo):
        content, imap = self.buf.content, self.imap
        e = core.ENG
        ids = {p[0].get_id() for p in pairs}
        if not self.mentions(ids):
            return self
        rank_b = len(self.buf.shape)
        key = ('buf', id(self.buf))
        serial = next(_serial)

        def newcontent(idx):
            ph = tuple(z3.Int('ph!%d!%d' % (serial, k)) for k in range(rank_b))
            v = content(ph)
            return subst(v, list(pairs) + [(p, zi(i)) for p, i in zip(ph, idx)])
        nb = memo.get(key, (None, None))[1]
        if nb is None:
            nb = Buf(newcontent, subst(self.buf.shape, pairs), self.buf.kind)
            memo[key] = (self.buf, nb)
        nimap = None
        if imap is not None:
            rank = self.ndim

            def nimap(idx):
                ph = tuple(z3.Int('pi!%d!%d' % (serial, k)) for k in range(rank))
                return tuple(z3.substitute(t, *(list(pairs) + [(p, zi(i)) for p, i in zip(ph, idx)]))
                             for t in imap(ph))
        return SArray(nb, subst(self.shape, pairs), nimap)

    # -- indexing -----------------------------------------------------------------------
    def __getitem__(self, key):
        if isinstance(key, SArray) and key.buf.kind == 'b' or \
                isinstance(key, np.ndarray) and key.dtype.kind == 'b':
            return bool_select(self, key)
        key = norm_key(key, self.ndim)
        if any(isinstance(k, tuple) for k in key):
            # a tuple of one index list inside the key is an index array of shape (1, n)
            t = [k for k in key if isinstance(k, tuple)]
            if len(t) > 1 or len(t[0]) != 1 or any(isinstance(k, (SArray, np.ndarray, list, slice)) for k in key) or \
                    as_sarray(t[0][0]).ndim != 1:
                raise Unsupported('tuple inside an index')
            return gather(self, tuple(k[0] if isinstance(k, tuple) else k for k in key))[None, :]
        if any(isinstance(k, (SArray, np.ndarray, list)) for k in key):
            return gather(self, key)
        new_shape, build = basic_index(self.shape, key)
        imap = self.imap

        def imap2(idx):
            b = build(idx)
            return imap(b) if imap is not None else b
        if not new_shape:
            return self.read(build(()))
        return SArray(self.buf, new_shape, imap2)

    def __setitem__(self, key, value):
        if isinstance(key, (SArray, np.ndarray)) and (kind_arr(key) == 'b'):
            mask = as_sarray(key)
            m = mask.snap()
            if self.imap is not None:
                raise Unsupported('masked write through a view')
            val = value_fn(value, None)
            if isinstance(value, SArray):
                raise Unsupported('masked write of an array')
            self._write(lambda c: zb(m(c)), lambda c: val(()), ['any'] * len(self.buf.shape))
            return
        key = norm_key(key, self.ndim)
        if any(isinstance(k, (SArray, np.ndarray, list)) for k in key):
            raise Unsupported('fancy-index assignment')
        new_shape, build = basic_index(self.shape, key)
        if isinstance(value, tuple) and self.buf.kind == 'O' and len(new_shape) == 0:
            vf = lambda ix: value       # noqa: E731  (an object array holds the tuple itself)
        else:
            if isinstance(value, (list, tuple)) and not hasattr(value, '_fields'):
                from . import npshim
                value = npshim.array(value)
            vf = value_fn(value, new_shape)
        # coverage in terms of buffer indices: dims of the view
        ranges, pins = view_ranges(self, key)
        inv = ranges

        def cover(c):
            conds = [f(c) for f in inv['conds']]
            return z3.And(*conds) if conds else z3.BoolVal(True)

        def val(c):
            return vf(inv['back'](c))
        self._write(cover, val, pins)

    def _write(self, cover, val, pts):
        b = self.buf
        if b.readonly:
            raise Unsupported('write through a value that may be one of two arrays')
        note_write(b, cover, val, pts)
        apply_write(b, cover, val)

    # -- structure ----------------------------------------------------------------------
    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, *a):
        return reshape(self, (self.size,))

    def flatten(self, *a):
        return reshape(self, (self.size,)).copy()

    def copy(self, *a, **k):
        f = self.snap()
        return SArray.make(self.shape, f, self.buf.kind)

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def astype(self, dt, *a, **k):
        kd = kind_of(dt)
        f = self.snap()
        return SArray.make(self.shape, lambda i: cast(f(i), kd), kd)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(reversed(range(self.ndim)))
        imap = self.imap

        def im(idx):
            out = [None] * len(axes)
            for k, a in enumerate(axes):
                out[a] = zi(idx[k])
            out = tuple(out)
            return imap(out) if imap is not None else out
        return SArray(self.buf, tuple(self.shape[a] for a in axes), im)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def tolist(self):
        from .slist import SList
        if self.ndim == 1:
            if self.src is not None:
                f = self.src.snap()
                return SList.from_fn(list(self.src.shape), lambda ix: f(ix))
            f = self.snap()
            return SList.from_fn([self.shape[0]], lambda ix: f(ix))
        raise Unsupported('tolist of a matrix')

    def take(self, idxs, axis=None):
        from . import npshim
        return npshim.take(self, idxs, axis)

    def fill(self, v):
        self[...] = v

    def item(self):
        return self.read(tuple(0 for _ in self.shape))

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return iter([self[k] for k in range(n)])
        try:
            k = n.__index__()
        except Unsupported:
            raise Unsupported('iteration over an array of symbolic length in library code')
        return iter([self[j] for j in range(k)])

    def __bool__(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return bool(self.item())
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __repr__(self):
        from . import text
        return text.token(self.copy())
    __str__ = __repr__

    def __format__(self, spec):
        from . import text
        return text.token(self.copy(), spec)
    __hash__ = None

    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __floordiv__(self, o): return arith('//', self, o)
    def __mod__(self, o): return arith('%', self, o)
    def __pow__(self, o): return arith('**', self, o)
    def __neg__(self): return arith('-', 0, self)
    def __abs__(self):
        from .sym import sym_abs
        return elementwise(sym_abs, self)
    def __eq__(self, o): return compare('==', self, o)
    def __ne__(self, o): return compare('!=', self, o)
    def __lt__(self, o): return compare('<', self, o)
    def __le__(self, o): return compare('<=', self, o)
    def __gt__(self, o): return compare('>', self, o)
    def __ge__(self, o): return compare('>=', self, o)
    def __and__(self, o): return elementwise(lambda a, b: a & b, self, o, kind='b')
    def __or__(self, o): return elementwise(lambda a, b: a | b, self, o, kind='b')
    def __invert__(self): return elementwise(lambda a: mk_bool(z3.Not(zb(a))), self, kind='b')

    def _inplace(self, op, o):
        r = arith(op, self, o)
        self[...] = r
        return self

    def __iadd__(self, o): return self._inplace('+', o)
    def __isub__(self, o): return self._inplace('-', o)
    def __imul__(self, o): return self._inplace('*', o)
    def __itruediv__(self, o): return self._inplace('/', o)

    def __getattr__(self, n):
        from . import npshim
        if n in ('sum', 'mean', 'min', 'max', 'argmin', 'argmax', 'any', 'all', 'std', 'repeat',
                 'nonzero', 'squeeze', 'dot', 'prod', 'var', 'cumsum', 'round'):
            f = getattr(npshim, n)
            return lambda *a, **k: f(self, *a, **k)
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('array attribute %s' % n)


def bool_select(arr, mask):
    """a[mask]"""
    from .folds import enum
    mask = as_sarray(mask)
    m = mask.snap()
    for x, y in zip(mask.shape, arr.shape):
        need_same_index(x, y)
    en = enum(mask.shape, lambda ix: zb(m(ix)))
    f = arr.snap()
    return SArray.make((en.count,) + tuple(arr.shape[mask.ndim:]),
                       lambda c: f(tuple(en.at(c[0])) + tuple(c[1:])), arr.buf.kind)


def need_same_index(a, b):
    if isinstance(a, int) and isinstance(b, int):
        ok = a == b
    else:
        ok = core.ENG.branch(zi(a) == zi(b))
    if not ok:
        raise IndexError('boolean index did not match indexed array')


def kind_arr(a):
    return a.buf.kind if isinstance(a, SArray) else kind_of(a.dtype)


def apply_write(b, cover, val):
    old = b.content
    kind = b.kind

    def content(c):
        cv = z3.simplify(cover(c))
        if z3.is_false(cv):
            return old(c)
        if z3.is_true(cv):
            return cast(val(c), kind)
        return merge(cv, cast(val(c), kind), old(c))
    b.content = content


def note_read(b, idx):
    e = core.ENG
    for fr in e.frames:
        if b.serial <= fr.serial:
            fr.reads.append((b, idx))


def note_write(b, cover, val, pts):
    e = core.ENG
    if e.frames:
        fr = e.frames[-1]
        if b.serial <= fr.serial:
            fr.writes.append((b, cover, val, pts))
            fr.undo.append((b, b.content))


def prod(shape):
    r = 1
    for s in shape:
        r = r * s
    return r


def norm_key(key, ndim):
    if not isinstance(key, tuple) or hasattr(key, '_fields'):
        key = (key,)
    if any(k is Ellipsis for k in key):
        i = next(j for j, k in enumerate(key) if k is Ellipsis)
        n = len([k for k in key if k is not Ellipsis and k is not None])
        key = key[:i] + (slice(None),) * (ndim - n) + key[i + 1:]
    n = len([k for k in key if k is not None])
    if n > ndim:
        raise IndexError('too many indices for array')
    key = key + (slice(None),) * (ndim - n)
    out = []
    for k in key:
        if isinstance(k, np.ndarray) and k.ndim == 0:
            k = k.item()
        if isinstance(k, np.integer):
            k = int(k)
        if isinstance(k, (float, SReal)):
            raise IndexError('only integers, slices are valid indices')
        if isinstance(k, range):
            k = list(k)
        out.append(k)
    return tuple(out)


def bound(k, n, low, high):
    """clip a slice bound"""
    e = core.ENG
    if isinstance(k, int) and isinstance(n, int):
        if k < 0:
            k = max(k + n, 0)
        return min(k, n)
    kt, nt = zi(k), zi(n)
    if e.branch(kt < 0):
        kt = z3.simplify(kt + nt)
        if e.branch(kt < 0):
            return 0
        return mk_int(kt)
    if e.branch(kt > nt):
        return n
    return mk_int(kt)


def slice_bounds(sl, n):
    """-> (start, length, step)"""
    e = core.ENG
    step = 1 if sl.step is None else sl.step
    if isinstance(step, SInt):
        try:
            step = step.__index__()
        except Unsupported:
            start = 0 if sl.start is None else bound(sl.start, n, 0, n)
            stop = n if sl.stop is None else bound(sl.stop, n, 0, n)
            if e.known(step.t >= 1):
                ln = arith('//', arith('-', arith('+', stop, arith('-', step, 1)), start), step)
                ln = mk_int(z3.If(zi(ln) > 0, zi(ln), 0))
                return start, ln, step
            raise Unsupported('slice step of unknown sign')
    if step == -1 and sl.start is None and sl.stop is None:
        return arith('-', n, 1), n, -1
    if step < 1:
        raise Unsupported('negative slice step')
    start = 0 if sl.start is None else bound(sl.start, n, 0, n)
    stop = n if sl.stop is None else bound(sl.stop, n, 0, n)
    if isinstance(start, int) and isinstance(stop, int):
        return start, max(0, -(-(stop - start) // step)), step
    ln = arith('-', stop, start)
    if step != 1:
        ln = arith('//', arith('+', ln, step - 1), step)
    t = zi(ln)
    if not e.known(t >= 0):
        if e.branch(t < 0):
            ln = 0
    return start, ln, step


def basic_index(shape, key):
    """-> (new shape, build(view idx) -> idx in the array's own coordinates)"""
    e = core.ENG
    plan, new_shape, d = [], [], 0
    for k in key:
        if k is None:
            plan.append(('new',))
            new_shape.append(1)
            continue
        n = shape[d]
        d += 1
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                plan.append(('sl', 0, 1))
                new_shape.append(n)
            else:
                s, ln, st = slice_bounds(k, n)
                plan.append(('sl', s, st))
                new_shape.append(ln)
        elif isinstance(k, Poison):
            k._no()
        else:
            if isinstance(k, (SBool, bool)):
                raise Unsupported('boolean index')
            kt, nt = zi(k), zi(n)
            if e.branch(kt < 0):
                kt = z3.simplify(kt + nt)
                if e.branch(kt < 0):
                    raise IndexError('index out of bounds')
            elif e.branch(kt >= nt):
                raise IndexError('index out of bounds')
            plan.append(('pt', kt))

    def build(idx):
        out, j = [], 0
        for p in plan:
            if p[0] == 'new':
                j += 1
            elif p[0] == 'pt':
                out.append(p[1])
            else:
                t = zi(idx[j])
                j += 1
                if isinstance(p[1], int) and p[1] == 0 and isinstance(p[2], int) and p[2] == 1:
                    out.append(t)
                else:
                    out.append(z3.simplify(zi(p[1]) + t * zi(p[2])))
        return tuple(out)
    build.plan = plan
    return tuple(new_shape), build


def view_ranges(arr, key):
    """For an assignment arr[key] = v: coverage conditions over buffer indices, the map back
    from buffer indices to the assigned value's index, and per-dimension pins."""
    if arr.imap is not None:
        return view_ranges_generic(arr, key)
    new_shape, build = basic_index(arr.shape, key)
    conds, pins = [], []
    back_plan = []
    d = 0
    j = 0
    for p in build.plan:
        if p[0] == 'new':
            back_plan.append(None)
            j += 1
            continue
        if p[0] == 'pt':
            conds.append(lambda c, d=d, t=p[1]: c[d] == t)
            pins.append(p[1])
        else:
            ln = new_shape[j]
            s, st = p[1], p[2]
            full = s == 0 and isinstance(s, int) and isinstance(st, int) and st == 1 and same(ln, arr.shape[d])
            if not (isinstance(st, int) and st == 1):
                raise Unsupported('strided slice assignment')
            if not full:
                conds.append(lambda c, d=d, s=s, ln=ln: z3.And(c[d] >= zi(s), c[d] < zi(s) + zi(ln)))
            back_plan.append((d, s))
            pins.append('any')
            j += 1
        d += 1

    def back(c):
        return tuple(z3.IntVal(0) if b is None else z3.simplify(c[b[0]] - zi(b[1])) for b in back_plan)
    return {'conds': conds, 'back': back}, pins


def view_ranges_generic(arr, key):
    """assignment through a view whose map is a slice/point view of the buffer"""
    # try: the view map is affine with unit coefficients per dimension
    rank_v, rank_b = arr.ndim, len(arr.buf.shape)
    ph = tuple(z3.Int('vr!%d' % k) for k in range(rank_v))
    b = arr.imap(ph)
    src = []
    for t in b:
        t = z3.simplify(t)
        hit = None
        for k, p in enumerate(ph):
            off = z3.simplify(t - p)
            from .sym import _term_mentions
            if not any(_term_mentions(off, {q.get_id()}) for q in ph):
                hit = (k, off)
        if hit is None:
            from .sym import _term_mentions
            if any(_term_mentions(t, {q.get_id()}) for q in ph):
                raise Unsupported('write through a reshaped view')
            src.append(('pt', t))
        else:
            src.append(('ix',) + hit)
    tmp = SArray(arr.buf, arr.shape, None)
    r, pins_v = view_ranges(tmp, key)
    conds, pins = [], []
    for d, s in enumerate(src):
        if s[0] == 'pt':
            conds.append(lambda c, d=d, t=s[1]: c[d] == t)
            pins.append(s[1])
        else:
            k, off = s[1], s[2]
            conds.append(lambda c, d=d, k=k, off=off: z3.And(c[d] - off >= 0, c[d] - off < zi(arr.shape[k])))
            pv = pins_v[k]
            pins.append('any' if isinstance(pv, str) else z3.simplify(pv + off))

    def toview(c):
        out = [z3.IntVal(0)] * rank_v
        for d, s in enumerate(src):
            if s[0] == 'ix':
                out[s[1]] = z3.simplify(c[d] - s[2])
        return tuple(out)
    for f in r['conds']:
        conds.append(lambda c, f=f: f(toview(c)))
    return {'conds': conds, 'back': lambda c: r['back'](toview(c))}, pins


def same(a, b):
    """sizes known equal"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return core.ENG.known(zi(a) == zi(b))


def as_sarray(a):
    if isinstance(a, SArray):
        return a
    if isinstance(a, np.ndarray):
        data = a

        def f(idx):
            idx = [z3.simplify(zi(i)) for i in idx]
            if all(z3.is_int_value(i) for i in idx):
                v = data[tuple(i.as_long() for i in idx)]
                return v.item() if hasattr(v, 'item') else v
            import itertools
            first, r = True, None
            for ix in itertools.product(*[range(n) for n in data.shape]):
                v = data[ix]
                v = v.item() if hasattr(v, 'item') else v
                c = z3.And(*[i == k for i, k in zip(idx, ix)])
                r = v if first else merge(c, v, r)
                first = False
            return r
        return SArray.make(a.shape, f, kind_of(a.dtype))
    raise Unsupported('array expected, got %r' % type(a))


def value_fn(value, shape):
    """value broadcast to shape, as function of the index in shape"""
    if isinstance(value, np.ndarray):
        value = as_sarray(value) if value.ndim else value.item()
    if isinstance(value, SArray):
        f = value.snap()
        vs = value.shape
        off = len(shape) - len(vs)
        if off < 0:
            if all(isinstance(s, int) and s == 1 for s in vs[:-off]):
                g = f
                return lambda idx: g((0,) * (-off) + tuple(idx))
            raise ValueError('could not broadcast input array')
        drop = []
        for k, s in enumerate(vs):
            tgt = shape[off + k]
            if isinstance(s, int) and s == 1 and not (isinstance(tgt, int) and tgt == 1):
                drop.append(True)
            else:
                need_same(s, tgt)
                drop.append(False)
        return lambda idx: f(tuple(z3.IntVal(0) if d else idx[off + k] for k, d in enumerate(drop)))
    return lambda idx: value


def need_same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        ok = a == b
    else:
        ok = core.ENG.branch(zi(a) == zi(b))
    if not ok:
        raise ValueError('operands could not be broadcast together')


def elementwise(f, *args, kind=None):
    arrs = []
    for a in args:
        if isinstance(a, np.ndarray):
            a = as_sarray(a) if a.ndim else a.item()
        from .slist import SList
        if isinstance(a, (list, SList)):
            from . import npshim
            a = npshim.array(a)
        arrs.append(a)
    rank = max(a.ndim for a in arrs if isinstance(a, SArray))
    shape = [None] * rank
    fns = []
    for a in arrs:
        if not isinstance(a, SArray):
            fns.append(lambda idx, a=a: a)
            continue
        off = rank - a.ndim
        g = a.snap()
        drop = []
        for k, s in enumerate(a.shape):
            cur = shape[off + k]
            one = isinstance(s, int) and s == 1
            if cur is None:
                shape[off + k] = s
            elif isinstance(cur, int) and cur == 1 and not one:
                shape[off + k] = s
            elif not one:
                need_same(cur, s)
        fns.append((g, off, a))
    fin = []
    for fn in fns:
        if callable(fn):
            fin.append(fn)
            continue
        g, off, a = fn
        drop = [isinstance(s, int) and s == 1 and not (isinstance(shape[off + k], int) and shape[off + k] == 1)
                for k, s in enumerate(a.shape)]
        fin.append(lambda idx, g=g, off=off, drop=drop:
                   g(tuple(z3.IntVal(0) if d else idx[off + k] for k, d in enumerate(drop))))

    def content(idx):
        return f(*[fn(idx) for fn in fin])
    if kind is None:
        kind = result_kind(f, arrs)
    return SArray.make(tuple(shape), content, kind)


def result_kind(f, arrs):
    kinds = [a.buf.kind if isinstance(a, SArray) else kind_val(a) for a in arrs]
    k = kinds[0]
    for x in kinds[1:]:
        k = join_kind(k, x)
    if k == 'O':
        return 'O'
    try:
        sample = f(*[{'f': 1.5, 'i': 3, 'b': True}[x] for x in kinds])
        return kind_val(sample)
    except (Unsupported, Exception):
        return k


def flat_index(idx, shape):
    t = zi(idx[0]) if idx else z3.IntVal(0)
    for k in range(1, len(shape)):
        t = t * zi(shape[k]) + zi(idx[k])
    return z3.simplify(t)


def unflat(t, shape):
    """flat index -> tuple of z3 ints"""
    from .sym import idivmod
    t = z3.simplify(zi(t))
    out = []
    for k in range(len(shape) - 1, 0, -1):
        q, r = idivmod(t, zi(shape[k]))
        out.append(r)
        t = q
    out.append(t)
    return tuple(reversed(out))


def reshape(a, shape):
    shape = tuple(shape)
    e = core.ENG
    if any(isinstance(s, int) and s == -1 for s in shape):
        rest = prod([s for s in shape if not (isinstance(s, int) and s == -1)])
        tot = prod(a.shape)
        if same(rest, tot):
            m = 1
        else:
            m = arith('//', tot, rest)
        shape = tuple(m if isinstance(s, int) and s == -1 else s for s in shape)
    t1, t2 = prod(a.shape), prod(shape)
    if isinstance(t1, int) and isinstance(t2, int):
        if t1 != t2:
            raise ValueError('cannot reshape')
    elif not e.known(zi(t1) == zi(t2)):
        if e.branch(zi(t1) != zi(t2)):
            raise ValueError('cannot reshape array')
    src = a.src if a.src is not None else a
    if len(src.shape) == len(shape) and all(same(x, y) for x, y in zip(src.shape, shape)):
        return SArray(src.buf, src.shape, src.imap)
    old = a.shape
    # group dimensions greedily: match equal dims from both ends
    pre = 0
    while pre < len(old) and pre < len(shape) and same(old[pre], shape[pre]) and \
            (len(old) - pre > 1 or len(shape) - pre == 1) and (len(shape) - pre > 1 or len(old) - pre == 1):
        pre += 1
    imap = a.imap
    mid_old, mid_new = old[pre:], shape[pre:]

    def im(idx):
        idx = tuple(zi(i) for i in idx)
        head = idx[:pre]
        tail = idx[pre:]
        if not mid_new and not mid_old:
            b = head
        else:
            if not mid_new:
                fl = z3.IntVal(0)
            else:
                fl = flat_index(tail, mid_new)
            b = head + (unflat(fl, mid_old) if mid_old else ())
        return imap(b) if imap is not None else b
    r = SArray(a.buf, shape, im)
    r.src = src
    return r


def gather(a, key):
    """a[idx_list] (fancy index in exactly one dimension) or two aligned index lists"""
    from . import npshim
    fancy = [k for k, x in enumerate(key) if isinstance(x, (SArray, np.ndarray, list))]
    idxs = {k: as_sarray(npshim.array(key[k])) if not isinstance(key[k], SArray) else key[k] for k in fancy}
    if any(x.buf.kind == 'b' for x in idxs.values()):
        raise Unsupported('boolean mask index')
    if any(x.ndim != 1 for x in idxs.values()):
        if len(fancy) == 1 and len(key) == 1:
            ix = idxs[0]
            f, g = a.snap(), ix.snap()
            r = ix.ndim
            return SArray.make(ix.shape + a.shape[1:],
                               lambda c: f((zi(g(c[:r])),) + tuple(c[r:])), a.buf.kind)
        raise Unsupported('multi-dimensional fancy index')
    e = core.ENG
    n = idxs[fancy[0]].shape[0]
    for k in fancy[1:]:
        need_same(idxs[k].shape[0], n)
    # bounds: every index in range
    for k in fancy:
        g = idxs[k].snap()
        check_forall_index(g, n, a.shape[k])
    basic = tuple(slice(None) if k in fancy else x for k, x in enumerate(key))
    sub_shape, build = basic_index(a.shape, basic)
    f = a.snap()
    fns = {k: idxs[k].snap() for k in fancy}
    # position of the gathered axis in the result
    lead = 0
    for k in range(fancy[0]):
        if isinstance(key[k], slice):
            lead += 1
    if len(fancy) > 1 and fancy != list(range(fancy[0], fancy[0] + len(fancy))):
        raise Unsupported('separated fancy indices')
    nf = len(fancy)
    kept = [s for j, s in enumerate(sub_shape)]
    new_shape = kept[:lead] + [n] + kept[lead + nf:]

    def content(c):
        p = c[lead]
        inner = list(c[:lead]) + [z3.IntVal(0)] * nf + list(c[lead + 1:])
        for j, k in enumerate(fancy):
            v = zi(fns[k]((p,)))
            inner[lead + j] = z3.simplify(z3.If(v < 0, v + zi(a.shape[k]), v)) if not core.ENG.known(v >= 0) else v
        return f(build(tuple(inner)))
    return SArray.make(tuple(new_shape), content, a.buf.kind)


def check_forall_index(g, n, dim):
    """fork: all g(i) in [-dim, dim) else IndexError"""
    e = core.ENG
    from .folds import forall_term
    t = forall_term([n], lambda ix: z3.And(zi(g(ix)) >= -zi(dim), zi(g(ix)) < zi(dim)))
    if not e.branch(t):
        raise IndexError('index out of bounds')
