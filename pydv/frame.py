"""What a call leaves behind: everything reachable from the objects asked and from the modules of /repo (globals, class
attributes, default arguments, closures), before and after."""
import collections
import functools
import types
import z3
from . import core
from .core import Unsupported
from .sym import SV, SObj, is_num, is_sym, zb, mk_int, zi
from .nparr import SArray
from .slist import SList, Seg, _eq

OWN = ('spta', 'experiments')


def own(module):
    return isinstance(module, str) and module.split('.')[0] in OWN + ('contracts',)


def content(v):
    """-> (kind, [(key, child)]) of a container, None for a value without parts of its own"""
    if isinstance(v, SArray):
        return ('array', [('content', v.buf.content), ('shape', v.shape), ('map', v.imap)])
    if isinstance(v, SList):
        parts = []
        for p in v.parts():
            if isinstance(p, Seg):
                parts.append(('segment', p))
            else:
                parts += [('item', x) for x in p]
        return ('list', parts)
    if isinstance(v, (list, tuple, collections.deque)):
        return ('list', [('item', x) for x in v])
    if isinstance(v, (set, frozenset)):
        if type(v) not in (set, frozenset):
            if getattr(v, 'segs', None) or vars(v) if hasattr(v, '__dict__') else False:
                raise Unsupported('a symbolic set is kept')
        return ('set', [('item', x) for x in v])
    if isinstance(v, dict):
        out = [(k, x) for k, x in v.items()]
        d = getattr(v, '__dict__', None)
        return ('dict', out + [(('.', k), x) for k, x in d.items()] if d else out)
    if isinstance(v, types.ModuleType):
        if v.__name__.split('.')[0] not in OWN:
            return None
        return ('module', [(k, x) for k, x in vars(v).items() if k not in ('__builtins__', '__pydv__')])
    if isinstance(v, types.FunctionType):
        if not own(v.__module__):
            return None
        out = [(('default', i), x) for i, x in enumerate(v.__defaults__ or ())]
        out += [(('default', k), x) for k, x in (v.__kwdefaults__ or {}).items()]
        for i, c in enumerate(v.__closure__ or ()):
            try:
                out.append((('closure', i), c.cell_contents))
            except ValueError:
                pass
        return ('function', out + list(vars(v).items()))
    if isinstance(v, (staticmethod, classmethod)):
        return ('wrapper', [('f', v.__func__)])
    if isinstance(v, property):
        return ('wrapper', [('get', v.fget), ('set', v.fset)])
    if isinstance(v, types.MethodType):
        return ('wrapper', [('f', v.__func__), ('self', v.__self__)])
    if isinstance(v, functools.partial):
        return ('wrapper', [('f', v.func), ('args', v.args), ('kw', v.keywords)])
    if isinstance(v, functools._lru_cache_wrapper):
        return ('cache', [('size', tuple(v.cache_info()))])
    if isinstance(v, type):
        if not own(v.__module__):
            return None
        return ('class', [(k, x) for k, x in vars(v).items() if k not in ('__dict__', '__weakref__')] +
                [(('base', i), b) for i, b in enumerate(v.__bases__)])
    if isinstance(v, SV) or is_num(v):
        return None
    if own(type(v).__module__):
        return ('object', list(vars(v).items()) if hasattr(v, '__dict__') else [])
    if hasattr(type(v), '__next__'):
        raise Unsupported('an iterator is kept')
    return None


class Snapshot:
    def __init__(self, loader, roots):
        self.seen = {}
        todo = [('given', list(roots))] + [(n, m) for n, m in list(loader.mods.items()) if n.split('.')[0] in OWN]
        self.keep = todo
        for _, v in todo:
            self.walk(v)
        from .npshim import store
        self.files = list(store().list)

    def walk(self, v):
        st = [v]
        while st:
            v = st.pop()
            if id(v) in self.seen:
                continue
            c = content(v)
            if c is None:
                continue
            self.seen[id(v)] = (v, c)
            st += [x for _, x in c[1]]

    def same(self, a, b, pairs):
        """value a of then against value b of now -> z3 Bool"""
        if a is b:
            return z3.BoolVal(True)
        if isinstance(a, str) and isinstance(b, str):
            from . import text
            return text.equal(a, b)
        if is_num(a) and is_num(b):
            return zb(_num_eq(a, b))
        if isinstance(a, SObj) or isinstance(b, SObj):
            return zb(a == b)
        if type(a) is not type(b):
            return z3.BoolVal(False)
        if (id(a), id(b)) in pairs:
            return z3.BoolVal(True)
        pairs[id(a), id(b)] = (a, b)
        rec = self.seen.get(id(a))
        if rec is None:
            return z3.BoolVal(bool(_plain_eq(a, b)))
        if isinstance(a, SArray):
            old = dict(rec[1][1])
            return self.arrays(old['content'], old['map'], old['shape'], b)
        now = content(b)
        return self.contents(rec[1], now, pairs)

    def arrays(self, content0, map0, shape0, b):
        from . import folds
        if len(shape0) != len(b.shape):
            return z3.BoolVal(False)
        new = b.snap()

        def eq(ix):
            ix = tuple(zi(i) for i in ix)
            return alike(content0(map0(ix) if map0 is not None else ix), new(ix), {})
        dims = [zb(_num_eq(x, y)) for x, y in zip(shape0, b.shape)]
        return z3.And(*dims + [folds.forall_term(list(shape0), eq)])

    def contents(self, was, now, pairs):
        (k0, c0), (k1, c1) = was, now
        if k0 != k1 or len(c0) != len(c1):
            return z3.BoolVal(False)
        out = []
        if k0 == 'list':
            for (ka, x), (kb, y) in zip(c0, c1):
                if ka != kb:
                    return z3.BoolVal(False)
                if ka == 'segment':
                    if x is not y and not (x.fn is y.fn and x.guard is y.guard):
                        return z3.BoolVal(False)
                    continue
                out.append(self.same(x, y, pairs))
        elif k0 == 'set':
            if {id(x) for _, x in c0} != {id(x) for _, x in c1} and {x for _, x in c0} != {x for _, x in c1}:
                return z3.BoolVal(False)
        else:
            for (ka, x), (kb, y) in zip(c0, c1):
                if ka is not kb and not (isinstance(ka, (str, tuple, int)) and ka == kb):
                    return z3.BoolVal(False)
                out.append(self.same(x, y, pairs))
        return z3.And(*out) if out else z3.BoolVal(True)

    def unchanged(self, files=True):
        """z3 Bool: nothing that was reachable is any different now; and why, when it plainly is"""
        from .npshim import store
        pairs, out, why = {}, [], []
        now = store().list
        if files and len(now) != len(self.files) or files and any(a is not b for a, b in zip(now, self.files)):
            return z3.BoolVal(False), ['a file was written']
        for v, was in list(self.seen.values()):
            if isinstance(v, SArray):
                if v.buf.content is dict(was[1])['content']:
                    continue
                old = dict(was[1])
                c = self.arrays(old['content'], old['map'], old['shape'], v)
            else:
                c = self.contents(was, content(v), pairs)
            c = z3.simplify(c)
            if z3.is_true(c):
                continue
            why.append('%s %s' % (was[0], getattr(v, '__name__', type(v).__name__)))
            out.append(c)
        return (z3.And(*out) if out else z3.BoolVal(True)), why


def alike(a, b, pairs=None):
    """two values, as they are now, are equal: all that can be reached from them -> z3 Bool"""
    pairs = {} if pairs is None else pairs
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, str) and isinstance(b, str):
        from . import text
        return text.equal(a, b, exact=False)
    if is_num(a) and is_num(b):
        return zb(_num_eq(a, b))
    if isinstance(a, SObj) or isinstance(b, SObj):
        return zb(a == b)
    if isinstance(a, SArray) and isinstance(b, SArray):
        f = a.snap()
        return Snapshot.arrays(None, f, None, a.shape, b)
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return z3.BoolVal(False)
    if (id(a), id(b)) in pairs:
        return z3.BoolVal(True)
    pairs[id(a), id(b)] = (a, b)
    if isinstance(a, (SList, list, tuple)) and not hasattr(a, '_fields'):
        return _lists(a, b, pairs)
    ca, cb = content(a), content(b)
    if ca is None or cb is None:
        return z3.BoolVal(bool(_plain_eq(a, b)))
    if ca[0] == 'function' and a.__code__ is not b.__code__:
        return z3.BoolVal(False)
    if ca[0] == 'set':
        return z3.BoolVal(bool(_plain_eq(a, b)))
    if len(ca[1]) != len(cb[1]):
        return z3.BoolVal(False)
    out = []
    for (ka, x), (kb, y) in zip(ca[1], cb[1]):
        if ka is not kb and not (isinstance(ka, (str, tuple, int)) and ka == kb):
            return z3.BoolVal(False)
        out.append(alike(x, y, pairs))
    return z3.And(*out) if out else z3.BoolVal(True)


def _lists(a, b, pairs):
    if not isinstance(a, SList) and not isinstance(b, SList) or \
            all(getattr(x, 'segs', None) is None for x in (a, b)):
        x, y = list(list.__iter__(a) if isinstance(a, list) else a), list(list.__iter__(b) if isinstance(b, list) else b)
        if len(x) != len(y):
            return z3.BoolVal(False)
        return z3.And(*[z3.BoolVal(True)] + [alike(p, q, pairs) for p, q in zip(x, y)])
    from . import folds
    from .pyshim import s_len
    na, nb = s_len(a), s_len(b)
    same_len = zb(_num_eq(na, nb))
    return z3.And(same_len, folds.forall_term([na], lambda ix: alike(_at(a, ix[0]), _at(b, ix[0]), {})))


def _at(l, i):
    return l.at(zi(i)) if isinstance(l, SList) else l[mk_int(zi(i))]


def _num_eq(a, b):
    from .symh import SymH
    return SymH.eq(None, a, b) if not (isinstance(a, float) or isinstance(b, float)) else _float_eq(a, b)


def _float_eq(a, b):
    import math
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    from .symh import SymH
    return SymH.eq(None, a, b)


def _plain_eq(a, b):
    try:
        r = a == b
        return r if isinstance(r, bool) else False
    except Exception:
        return False
