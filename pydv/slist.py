"""Lists that may have segments of symbolic length. Concrete lists stay in the real list storage."""
import itertools
import z3
from . import core
from .core import Unsupported
from .sym import (SInt, zi, zb, mk_int, mk_bool, subst, merge, is_sym, compare, Poison, mentions, arith)


_serial = itertools.count()


def _fresh_ph(n):
    s = next(_serial)
    return tuple(z3.Int('sl!%d!%d' % (s, k)) for k in range(n))


class Seg:
    """dims, fn(idx tuple)->value, guard(idx tuple)->z3 Bool or None (filtered)"""
    __slots__ = ('dims', 'fn', 'guard')

    def __init__(self, dims, fn, guard=None):
        self.dims, self.fn, self.guard = list(dims), fn, guard

    def length(self):
        if self.guard is None:
            from .nparr import prod
            return prod(self.dims)
        from .folds import sym_count
        return sym_count(self.dims, self.guard)


class SList(list):
    """segs is None: plain list. Otherwise content = segs (each a list of items or a Seg)."""

    def __init__(self, items=()):
        list.__init__(self, items)
        self.segs = None
        e = core.ENG
        e.serial += 1
        self.serial = e.serial

    @staticmethod
    def from_fn(dims, fn, guard=None):
        if guard is None and all(isinstance(d, int) for d in dims):
            import itertools
            return SList([fn(tuple(z3.IntVal(i) for i in ix))
                          for ix in itertools.product(*[range(d) for d in dims])])
        r = SList()
        r.segs = [Seg(dims, fn, guard)]
        return r

    def parts(self):
        if self.segs is None:
            return [list(list.__iter__(self))] if list.__len__(self) else []
        return self.segs

    def setparts(self, parts):
        parts = [p for p in parts if isinstance(p, Seg) or p]
        if all(not isinstance(p, Seg) for p in parts):
            self.segs = None
            list.clear(self)
            for p in parts:
                list.extend(self, p)
        else:
            list.clear(self)
            self.segs = parts

    def symlen(self):
        n = 0
        for p in self.parts():
            n = n + (p.length() if isinstance(p, Seg) else len(p))
        return n

    def substituted(self, pairs, memo):
        ids = {p[0].get_id() for p in pairs}
        if not self.mentions(ids, {}):
            return self
        r = SList()
        parts = []
        for p in self.parts():
            if isinstance(p, Seg):
                def fn(ix, f=p.fn):
                    ph = _fresh_ph(len(ix))
                    return subst(f(ph), list(pairs) + [(a, zi(b)) for a, b in zip(ph, ix)])

                def gd(ix, f=p.guard):
                    ph = _fresh_ph(len(ix))
                    return z3.substitute(f(ph), *(list(pairs) + [(a, zi(b)) for a, b in zip(ph, ix)]))
                parts.append(Seg(subst(tuple(p.dims), pairs), fn, gd if p.guard else None))
            else:
                parts.append([subst(x, pairs, memo) for x in p])
        r.setparts(parts)
        return r

    def mentions(self, ids, memo):
        for p in self.parts():
            if isinstance(p, Seg):
                ph = tuple(z3.Int('sl!%d' % k) for k in range(len(p.dims)))
                if mentions(tuple(p.dims), ids, memo) or mentions(p.fn(ph), ids, memo):
                    return True
                if p.guard is not None and mentions(p.guard(ph), ids, memo):
                    return True
            elif any(mentions(x, ids, memo) for x in p):
                return True
        return False

    # -- reading ------------------------------------------------------------------------
    def at(self, i):
        """element at z3 int index, 0 <= i < len assumed"""
        note_lread(self)
        off = 0
        parts = self.parts()
        if len(parts) == 1 and isinstance(parts[0], Seg):
            return self._seg_at(parts[0], i)
        res = None
        chain = []
        for p in parts:
            n = p.length() if isinstance(p, Seg) else len(p)
            if isinstance(p, Seg):
                chain.append((off, n, lambda j, p=p: self._seg_at(p, j)))
            else:
                for k, x in enumerate(p):
                    chain.append((off + k, 1, lambda j, x=x: x))
            off = off + n
        e = core.ENG
        cand = []
        for o, n, f in chain:
            c = z3.simplify(z3.And(i >= zi(o), i < zi(o) + zi(n)))
            if z3.is_false(c):
                continue
            if not z3.is_true(c) and len(chain) <= 4 and e.known(z3.Not(c)):
                continue
            cand.append((c, o, f))
            if z3.is_true(c):
                break
        if not cand:
            raise Unsupported('list index outside every segment')
        out, first = None, True
        for c, o, f in reversed(cand):
            v = f(z3.simplify(i - zi(o)))
            out = v if first else merge(c, v, out)
            first = False
        return out

    def _seg_at(self, p, i):
        if p.guard is not None:
            from .folds import enum
            return p.fn(enum(p.dims, p.guard).at(i))
        if len(p.dims) == 1:
            return p.fn((i,))
        from .nparr import unflat
        return p.fn(unflat(i, p.dims))

    def __len__(self):
        if self.segs is None:
            note_lread(self)
            return list.__len__(self)
        n = self.symlen()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        if self.segs is None:
            return list.__len__(self) > 0
        return bool(compare('>', self.symlen(), 0))

    def __iter__(self):
        note_lread(self)
        if self.segs is None:
            return list.__iter__(self)
        raise Unsupported('library iteration over a list of symbolic length')

    def __getitem__(self, k):
        if self.segs is None and not is_sym(k):
            note_lread(self)
            if isinstance(k, slice) and not any(is_sym(b) for b in (k.start, k.stop, k.step)):
                return SList(list.__getitem__(self, k))
            if not isinstance(k, slice):
                return list.__getitem__(self, k)
        if isinstance(k, slice):
            from .nparr import slice_bounds
            n = self.symlen()
            s, ln, st = slice_bounds(k, n)
            frozen = self.frozen()
            return SList.from_fn([ln], lambda ix: frozen.at(z3.simplify(zi(s) + ix[0] * zi(st))))
        if isinstance(k, Poison):
            k._no()
        e = core.ENG
        kt, nt = zi(k), zi(self.symlen())
        if e.branch(kt < 0):
            kt = z3.simplify(kt + nt)
            if e.branch(kt < 0):
                raise IndexError('list index out of range')
        elif e.branch(kt >= nt):
            raise IndexError('list index out of range')
        return self.at(z3.simplify(kt))

    def frozen(self):
        r = SList()
        r.setparts([p if isinstance(p, Seg) else list(p) for p in self.parts()])
        return r

    def __contains__(self, x):
        if self.segs is None and not is_sym(x):
            items = list(list.__iter__(self))
            if not any(is_sym(y) or isinstance(y, tuple) for y in items):
                return x in items
            for y in items:
                if y is x or bool(_eq(y, x)):
                    return True
            return False
        if self.segs is None:
            for y in list.__iter__(self):
                if bool(_eq(y, x)):
                    return True
            return False
        from .folds import exists_term
        for p in self.parts():
            if isinstance(p, Seg):
                def pr(ix, p=p):
                    c = zb(_eq(p.fn(ix), x))
                    return z3.And(c, zb(p.guard(ix))) if p.guard else c
                if core.ENG.branch(exists_term(p.dims, pr)):
                    return True
            else:
                for y in p:
                    if bool(_eq(y, x)):
                        return True
        return False

    def __eq__(self, o):
        if not isinstance(o, list):
            return False
        a, b = self.parts(), o.parts() if isinstance(o, SList) else [list(o)]
        if self.segs is None and getattr(o, 'segs', None) is None:
            la, lb = list(list.__iter__(self)), list(list.__iter__(o))
            if len(la) != len(lb):
                return False
            return all(bool(_eq(x, y)) for x, y in zip(la, lb))
        n, m = self.symlen(), (o.symlen() if isinstance(o, SList) else len(o))
        if not bool(compare('==', n, m)):
            return False
        from .folds import forall_term
        ob = o if isinstance(o, SList) else SList(o)
        return mk_bool(forall_term([n], lambda ix: zb(_eq(self.at(ix[0]), ob.at(ix[0])))))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    # -- writing ------------------------------------------------------------------------
    def append(self, x):
        if note_append(self, x):
            return
        if self.segs is None:
            list.append(self, x)
        elif isinstance(self.segs[-1], Seg):
            self.segs = self.segs + [[x]]
        else:
            self.segs = self.segs[:-1] + [self.segs[-1] + [x]]

    def append_seg(self, seg):
        if note_append(self, seg):
            return
        self.setparts(self.parts() + [seg])

    def extend(self, o):
        if isinstance(o, SList):
            for p in o.parts():
                if isinstance(p, Seg):
                    self.append_seg(p)
                else:
                    for x in p:
                        self.append(x)
            return
        from .nparr import SArray
        if isinstance(o, SArray):
            f = o
            self.append_seg(Seg([o.shape[0]], lambda ix: f[SInt(ix[0])] if f.ndim > 1 else f.read(ix)))
            return
        for x in o:
            self.append(x)

    def __setitem__(self, k, v):
        note_lwrite(self)
        if self.segs is None and not is_sym(k):
            return list.__setitem__(self, k, v)
        if isinstance(k, slice):
            raise Unsupported('slice assignment to a symbolic list')
        e = core.ENG
        kt, nt = zi(k), zi(self.symlen())
        if e.branch(kt < 0):
            kt = z3.simplify(kt + nt)
            if e.branch(kt < 0):
                raise IndexError('list assignment index out of range')
        elif e.branch(kt >= nt):
            raise IndexError('list assignment index out of range')
        old = self.frozen()
        n = self.symlen()
        self.setparts([Seg([n], lambda ix: merge(ix[0] == kt, v, old.at(ix[0])))])

    def __add__(self, o):
        r = self.frozen()
        r.extend(o)
        return r

    def __radd__(self, o):
        r = SList(o)
        r.extend(self)
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        if self.segs is None and not is_sym(n):
            return SList(list.__mul__(self, n))
        if self.segs is None and list.__len__(self) == 1:
            x = list.__getitem__(self, 0)
            return SList.from_fn([n], lambda ix: x)
        raise Unsupported('list repetition')
    __rmul__ = __mul__

    def copy(self):
        return self.frozen()

    def __copy__(self): return self.frozen()

    def __deepcopy__(self, memo): return self.frozen()

    def index(self, x, *a):
        if self.segs is None:
            for i, y in enumerate(list.__iter__(self)):
                if bool(_eq(y, x)):
                    return i
            raise ValueError('not in list')
        raise Unsupported('index in symbolic list')

    def _nosym(self, name):
        if self.segs is not None:
            raise Unsupported('list.%s on a symbolic list' % name)
        note_lwrite(self)

    def sort(self, **k):
        self._nosym('sort')
        list.sort(self, **k)

    def pop(self, *a):
        self._nosym('pop')
        return list.pop(self, *a)

    def insert(self, *a):
        self._nosym('insert')
        list.insert(self, *a)

    def remove(self, *a):
        self._nosym('remove')
        list.remove(self, *a)

    def reverse(self):
        self._nosym('reverse')
        list.reverse(self)

    def __reversed__(self):
        self._nosym('reversed')
        return list.__reversed__(self)

    def __repr__(self):
        if self.segs is None:
            return list.__repr__(self)
        from . import text
        return text.token(self.frozen())
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = z3.And([z3.BoolVal(True)] + [zb(_eq(x, y)) for x, y in zip(a, b)])
        return mk_bool(r)
    if isinstance(a, str) and isinstance(b, str) and ('\u27e6' in a or '\u27e6' in b):
        from . import text
        return text.eq(a, b)
    r = a == b
    return r


def note_lread(l):
    for fr in core.ENG.frames:
        if l.serial <= fr.serial:
            fr.lreads.append(l)


def note_lwrite(l):
    for fr in core.ENG.frames:
        if l.serial <= fr.serial:
            fr.lwrites.append(l)


def note_append(l, x):
    """inside a generic loop iteration, appends to an outer list are recorded"""
    fr = core.ENG.frames[-1] if core.ENG.frames else None
    if fr is not None and l.serial <= fr.serial:
        fr.appends.append((l, x))
        return True
    return False
