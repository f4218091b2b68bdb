"""Functions the rewritten source calls (`__pydv__`)."""
import z3
from . import core
from .core import Unsupported
from .slist import SList, Seg
from .sym import SV, zb, zi, subst, mentions, mk_bool, Poison
from . import loops
from .loops import run_for, run_while, domain_of, SRange, PGen as pgen   # noqa: F401


def mklist(items):
    return SList(items)


def spread(pat, item, out):
    """flatten item along the target pattern into argument list"""
    if isinstance(pat, str):
        out.append(item)
        return
    if isinstance(item, SList) and item.segs is not None:
        vals = [item[k] for k in range(len(pat))]
    else:
        vals = list(item)
    if len(vals) != len(pat):
        raise ValueError('not enough / too many values to unpack')
    for p, v in zip(pat, vals):
        spread(p, v, out)


def comp(cid, kind, it, pat, elt, cond):
    """a comprehension, run as a loop that appends (kind 'nest': elt gives the inner list)"""
    res = SList()

    def args(item):
        a = []
        spread(pat, item, a)
        return a

    def body(item):
        a = args(item)
        if cond is not None and not cond(*a):
            return None
        v = elt(*a)
        if kind == 'nest':
            res.extend(v)
        else:
            res.append(v)
        return None
    loops.run_for(cid, it, CompBody(body, elt, cond), ())
    return res


class CompBody:
    """body of a comprehension; exposes the closures of the element and condition"""

    def __init__(self, body, elt, cond):
        self.body = body
        self.__pydv_cells__ = [f for f in (elt, cond) if f is not None]

    def __call__(self, item):
        return self.body(item)


def as_gen(l):
    if l.segs is None:
        return iter(list(list.__iter__(l)))
    return l


def as_set(l):
    from . import pyshim
    return pyshim.mkset(l)


def as_dict(l):
    if l.segs is not None:
        raise Unsupported('dict of symbolic size')
    return dict(list.__iter__(l))


slice = slice
from .text import method, eq, ne, contains, cut   # noqa: E402,F401
