"""Text with symbolic values in it.

Formatting a symbolic value puts a token into an ordinary Python string. A token stands for the text of one value under
one format specification. Operations on such strings are decided from the characters a token's text can have; what
cannot be decided that way is Unsupported.
"""
import re
import z3
from . import core
from .core import Unsupported

L, R = '\u27e6', '\u27e7'
TOK = re.compile(L + '[^' + R + ']*' + R)
DIGITS = frozenset('0123456789')
REAL = DIGITS | frozenset('+-.einfa')


class Tok:
    __slots__ = ('key', 'kind', 'value', 'spec', 'chars')

    def __init__(self, key, kind, value, spec):
        self.key, self.kind, self.value, self.spec = key, kind, value, spec
        self.chars = None


def has(s):
    return isinstance(s, str) and L in s


def _register(key, kind, value, spec):
    e = core.ENG
    if key not in e.tokens:
        e.tokens[key] = Tok(key, kind, value, spec)
    return key


def token(x, spec=''):
    """the text of a symbolic value"""
    from .sym import SInt, SReal, SBool, SObj
    if isinstance(x, SInt):
        return _register('%si%d|%s%s' % (L, x.t.get_id(), spec, R), 'i', x, spec)
    if isinstance(x, SReal):
        n = x.nan if isinstance(x.nan, bool) else x.nan.get_id()
        return _register('%sr%d.%s.%s|%s%s' % (L, x.t.get_id(), n, x.inf, spec, R), 'r', x, spec)
    if isinstance(x, SBool):
        return _register('%sb%d|%s%s' % (L, x.t.get_id(), spec, R), 'b', x, spec)
    if isinstance(x, SObj):
        return _register('%so%d|%s%s' % (L, x.t.get_id(), spec, R), 'o', x, spec)
    # arrays and lists: the value now; two texts are told apart by what they hold
    e = core.ENG
    return _register('%sa%d|%s%s' % (L, len(e.tokens), spec, R), 'a', x, spec)


def joined(sep, lst):
    """the text of sep.join(list of symbolic length)"""
    e = core.ENG
    return _register('%sj%d|%s' % (L, len(e.tokens), R), 'j', lst, sep)


def parse(s):
    """-> list of literal strings and Tok"""
    out, pos = [], 0
    for m in TOK.finditer(s):
        if m.start() > pos:
            out.append(s[pos:m.start()])
        t = core.ENG.tokens.get(m.group())
        if t is None:
            raise Unsupported('text of a symbolic value was cut')
        out.append(t)
        pos = m.end()
    if pos < len(s):
        out.append(s[pos:])
    for p in out:
        if isinstance(p, str) and (L in p or R in p):
            raise Unsupported('text of a symbolic value was cut')
    return out


def unparse(parts):
    return ''.join(p if isinstance(p, str) else p.key for p in parts)


def chars(t):
    """the characters the text of a token can have; None: any"""
    if t.chars is None:
        t.chars = (_chars(t),)
    return t.chars[0]


def _chars(t):
    if t.kind == 'i':
        if t.spec not in ('', 'd'):
            return DIGITS | {'-', '+', ' ', '0'} if re.fullmatch(r'0?\d*d?', t.spec) else None
        return DIGITS if core.ENG.known(t.value.t >= 0) else DIGITS | {'-'}
    if t.kind == 'r':
        return REAL if re.fullmatch(r'(\.\d+f)?', t.spec) else REAL | {' '} if re.fullmatch(r'[ ]?(\.\d+f)?', t.spec) else None
    if t.kind == 'b':
        return frozenset('TrueFals') if not t.spec else None
    if t.kind == 'j':
        def look(x):
            res = set(t.spec)
            for p in parse(x):
                c = frozenset(p) if isinstance(p, str) else _chars(p)
                if c is None:
                    return None
                res |= c
            return frozenset(res)
        return _generic(t, look)
    return None


def _generic(t, f):
    """f(text of an arbitrary element of a joined list)"""
    from .folds import Under
    from .sym import mk_int
    lst = t.value
    with Under([lst.symlen()]) as u:
        return f(lst[mk_int(u.vars[0])])


def _element_free(t, sep):
    """(no element is empty, no element's text holds a character of sep); None when not known"""
    def look(x):
        if not isinstance(x, str):
            raise Unsupported('join of what is not text')
        ps = parse(x)
        if not ps:
            return None
        for p in ps:
            c = frozenset(p) if isinstance(p, str) else _chars(p)
            if c is None or any(ch in c for ch in sep):
                return None
        return True
    return _generic(t, look)


# -- equality ---------------------------------------------------------------------------------------------------------

def value_eq(a, b):
    """z3 Bool: the values of two tokens are equal (then so are their texts when the specs are)"""
    from .sym import zb, compare, is_num, rparts, _nb
    if a.kind == 'j' or b.kind == 'j':
        if a.kind != 'j' or b.kind != 'j' or a.spec != b.spec:
            raise Unsupported('comparison of joined text')
        return _list_eq(a.value, b.value)
    x, y = a.value, b.value
    if a.kind in 'ir' and b.kind in 'ir':
        if a.kind == 'r' or b.kind == 'r':
            (p, n1), (q, n2) = rparts(x), rparts(y)
            return z3.Or(z3.And(_nb(n1), _nb(n2)), z3.And(z3.Not(_nb(n1)), z3.Not(_nb(n2)), p == q))
        return zb(compare('==', x, y))
    if a.kind != b.kind:
        raise Unsupported('comparison of text of values of different kinds')
    if a.kind == 'a':
        return _data_eq(x, y)
    return zb(x == y)


def _data_eq(x, y):
    """arrays or lists of numbers: same shape and elements"""
    from .nparr import SArray
    from .slist import SList
    from .sym import zi, zb, compare, mk_int, is_num, rparts, _nb
    from .folds import forall_term

    def same(p, q):
        if not (is_num(p) and is_num(q)):
            raise Unsupported('comparison of text of lists of other things than numbers')
        (v, n1), (w, n2) = rparts(p), rparts(q)
        return z3.And(_nb(n1) == _nb(n2), z3.Or(_nb(n1), v == w))
    if isinstance(x, SArray) and isinstance(y, SArray):
        if len(x.shape) != len(y.shape) or x.dtype != y.dtype:
            raise Unsupported('comparison of text of arrays of different ranks')
        dims = z3.And([z3.BoolVal(True)] + [zi(a) == zi(b) for a, b in zip(x.shape, y.shape)])
        return z3.And(dims, forall_term(list(x.shape), lambda ix: same(x[tuple(mk_int(i) for i in ix)],
                                                                       y[tuple(mk_int(i) for i in ix)])))
    if isinstance(x, SList) and isinstance(y, SList):
        return z3.And(zi(x.symlen()) == zi(y.symlen()),
                      forall_term([x.symlen()], lambda ix: same(x[mk_int(ix[0])], y[mk_int(ix[0])])))
    raise Unsupported('comparison of text of a list and an array')


def _list_eq(a, b):
    from .folds import forall_term
    from .sym import zi, mk_int
    n, m = zi(a.symlen()), zi(b.symlen())
    same = z3.simplify(n == m)
    if z3.is_false(same):
        return same
    return z3.And(same, forall_term([mk_int(z3.If(n <= m, n, m))],
                                    lambda ix: equal(a[mk_int(ix[0])], b[mk_int(ix[0])])))


def _shape(parts):
    return [p if isinstance(p, str) else (p.spec, 'n' if p.kind in 'ir' else p.kind) for p in parts]


def equal(a, b, exact=True):
    """z3 Bool: equality of two texts. Not exact: a condition under which they are equal."""
    if a == b:
        return z3.BoolVal(True)
    if not has(a) and not has(b):
        return z3.BoolVal(False)
    pa, pb = parse(a), parse(b)
    if _shape(pa) == _shape(pb) and all(x.kind == y.kind for x, y in zip(pa, pb) if not isinstance(x, str)):
        c = z3.And([z3.BoolVal(True)] + [value_eq(x, y) for x, y in zip(pa, pb) if not isinstance(x, str)])
        if not exact or core.ENG.known(c):
            return c
    r = _aligned(list(pa), list(pb))
    if r is None:
        r = _exact(pa, pb)
    if r is None:
        if exact:
            raise Unsupported('comparison of text with symbolic values')
        return z3.BoolVal(False)
    return r


def _aligned(a, b):
    """compare from left to right, when each token's text ends where characters it cannot have begin"""
    conds = []
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return z3.BoolVal(False)
            for q, w in ((a, x), (b, y)):
                if len(w) > n:
                    q[0] = w[n:]
                else:
                    del q[0]
            continue
        if isinstance(x, str):
            a, b, x, y = b, a, y, x
        # x is a token
        cs = chars(x)
        if cs is None or x.kind not in 'ir' or x.spec not in ('', 'd'):
            return None
        if isinstance(y, str):
            n = 0
            while n < len(y) and y[n] in cs:
                n += 1
            if n == len(y) and len(b) > 1:
                return None
            if not _ends(a, cs):
                return None
            if n == 0:
                return z3.BoolVal(False)
            c = _literal_eq(x, y[:n])
            if c is None:
                return None
            if n < len(y):
                b[0] = y[n:]
            else:
                del b[0]
        else:
            cy = chars(y)
            if cy is None or y.kind not in 'ir' or y.spec not in ('', 'd'):
                return None
            both = cs | cy
            if not _ends(a, both) or not _ends(b, both):
                return None
            # the text of a real number is never that of an integer
            c = value_eq(x, y) if x.kind == y.kind else z3.BoolVal(False)
            del b[0]
        del a[0]
        if z3.is_false(z3.simplify(c)):
            return z3.BoolVal(False)
        conds.append(c)
    if a or b:
        if any(isinstance(p, str) or p.kind in 'irb' for p in a + b):
            return z3.BoolVal(False)
        return None
    return z3.And([z3.BoolVal(True)] + conds)


def _ends(parts, cs):
    """the text of the first part ends where no character of cs follows"""
    return len(parts) == 1 or (isinstance(parts[1], str) and parts[1][0] not in cs)


def _exact(pa, pb):
    """split both texts into runs of characters the tokens can have; the rest must agree, and the runs pairwise"""
    cs = set()
    for p in pa + pb:
        if not isinstance(p, str):
            c = chars(p)
            if c is None:
                return None
            cs |= c
    ra, rb = _runs(pa, cs), _runs(pb, cs)
    # alternate: run, other, run, other, ... run
    if len(ra) != len(rb) or any(x != y for x, y in zip(ra[1::2], rb[1::2])):
        return z3.BoolVal(False)
    conds = []
    for x, y in zip(ra[0::2], rb[0::2]):
        c = _run_eq(x, y)
        if c is None:
            return None
        conds.append(c)
    return z3.And([z3.BoolVal(True)] + conds)


def _runs(parts, cs):
    out = [[]]
    for p in parts:
        if not isinstance(p, str):
            out[-1].append(p)
            continue
        for ch in p:
            if ch in cs:
                if len(out) % 2 == 0:
                    out.append([])
                if out[-1] and isinstance(out[-1][-1], str):
                    out[-1][-1] += ch
                else:
                    out[-1].append(ch)
            else:
                if len(out) % 2 == 1:
                    out.append('')
                out[-1] += ch
        # a token after other characters starts a new run
        if len(out) % 2 == 0:
            out.append([])
    return out


def _run_eq(x, y):
    if _shape(x) == _shape(y) and not any(not isinstance(p, str) for p in x):
        return z3.BoolVal(True)
    if all(isinstance(p, str) for p in x + y):
        return z3.BoolVal(''.join(x) == ''.join(y))
    if len(x) == 1 and len(y) == 1:
        p, q = x[0], y[0]
        if isinstance(p, str):
            p, q = q, p
        if isinstance(q, str):
            return _literal_eq(p, q)
        if p.spec == q.spec and p.kind == q.kind and (p.spec in ('', 'd') and p.kind in 'irb' or p.kind == 'j'):
            if p.kind == 'j':
                return _joined_eq(p, q)
            return value_eq(p, q)
        return None
    if not x or not y:
        # a number has at least one character
        if any(isinstance(p, str) or p.kind in 'irb' for p in x + y):
            return z3.BoolVal(False)
        return None
    # literal prefixes that no number can match
    lx, ly = x[0], y[0]
    if isinstance(lx, str) and isinstance(ly, str):
        n = min(len(lx), len(ly))
        if lx[:n] != ly[:n]:
            return z3.BoolVal(False)
        nx, ny = ([lx[n:]] if lx[n:] else []) + x[1:], ([ly[n:]] if ly[n:] else []) + y[1:]
        return _run_eq(nx, ny)
    return None


def _joined_eq(p, q):
    """sep.join(a) == sep.join(b) iff the lists are equal, when no element is empty or holds the separator"""
    for t in (p, q):
        if len(t.spec) != 1 or not _element_free(t, t.spec):
            return None
    return value_eq(p, q)


def _literal_eq(t, s):
    if t.spec not in ('', 'd'):
        return None
    if t.kind == 'i':
        if re.fullmatch(r'0|-?[1-9][0-9]*', s):
            return t.value.t == int(s)
        return z3.BoolVal(False)
    if t.kind == 'r':
        try:
            v = float(s)
        except ValueError:
            return z3.BoolVal(False)
        if repr(v) != s:
            return z3.BoolVal(False)
    return None


# -- operations on strings --------------------------------------------------------------------------------------------

METHODS = frozenset(('split', 'rsplit', 'join', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'find',
                     'rfind', 'index', 'rindex', 'partition', 'rpartition', 'lower', 'upper', 'title', 'capitalize',
                     'count', 'splitlines', 'encode', 'zfill', 'isdigit', 'isnumeric', 'ljust', 'rjust', 'center',
                     'removeprefix', 'removesuffix', 'translate', 'casefold', 'swapcase', 'isalpha', 'isalnum'))


def method(o, name, /, *a, **k):
    from .slist import SList
    if isinstance(o, str) and (L in o or any(has(x) or isinstance(x, SList) for x in a)):
        return _method(o, name, a, k)
    return getattr(o, name)(*a, **k)


def _free_of(parts, sub):
    """no occurrence of sub can touch a token's text"""
    for p in parts:
        if not isinstance(p, str):
            c = chars(p)
            if c is None or any(ch in c for ch in sub):
                return False
    return True


def _method(o, name, a, k):
    from .slist import SList
    if name == 'join' and len(a) == 1:
        x = a[0]
        if isinstance(x, SList) and x.segs is not None:
            n = x.symlen()
            if not isinstance(n, int):
                if has(o):
                    raise Unsupported('join with symbolic text')
                return joined(o, x.frozen())
            x = [x[i] for i in range(n)]
        return str.join(o, list.__iter__(x) if isinstance(x, SList) else x)
    if any(has(x) for x in a):
        raise Unsupported('str.%s with symbolic text' % name)
    parts = parse(o)
    if name in ('split', 'rsplit') and len(a) == 1 and not k and isinstance(a[0], str):
        sep = a[0]
        if len(parts) == 1 and parts[0].kind == 'j' and parts[0].spec == sep and len(sep) == 1:
            t = parts[0]
            if _element_free(t, sep):
                if core.ENG.branch(zi_(t.value.symlen()) == 0):
                    return SList([''])
                return t.value.frozen()
        if sep and _free_of(parts, sep):
            return SList(getattr(o, name)(sep))
    if name == 'startswith' and isinstance(a[0], str) and isinstance(parts[0], str):
        p, s = parts[0], a[0]
        if len(p) >= len(s) or p != s[:len(p)]:
            return p.startswith(s)
        t = parts[1]
        c = chars(t)
        if c is not None and s[len(p)] not in c and t.kind in 'irb':
            return False
    if name == 'startswith' and isinstance(a[0], str) and not isinstance(parts[0], str) and a[0]:
        c = chars(parts[0])
        if c is not None and a[0][0] not in c and parts[0].kind in 'irb':
            return False
    if name == 'endswith' and isinstance(a[0], str) and isinstance(parts[-1], str):
        p, s = parts[-1], a[0]
        if len(p) >= len(s) or not s.endswith(p):
            return p.endswith(s)
    if name in ('strip', 'lstrip', 'rstrip'):
        sub = a[0] if a else ' \t\n\r'
        if _free_of([p for p in (parts[0], parts[-1])], sub):
            return getattr(o, name)(*a)
    if name in ('replace', 'count', 'find', 'index', 'partition', 'rpartition') and a and a[0] and _free_of(parts, a[0]):
        if name in ('replace', 'partition', 'rpartition'):
            return getattr(o, name)(*a)
    if name == 'capitalize' or name == 'title':
        raise Unsupported('str.%s of symbolic text' % name)
    raise Unsupported('str.%s of symbolic text' % name)


def zi_(n):
    from .sym import zi
    return zi(n)


def cut(o, sl):
    """o[slice]"""
    if not has(o):
        return o[sl]
    if sl.step is not None or not all(x is None or isinstance(x, int) for x in (sl.start, sl.stop)):
        raise Unsupported('slice of symbolic text')
    parts = parse(o)
    lo, hi = sl.start or 0, sl.stop
    if lo > 0 and isinstance(parts[0], str) and len(parts[0]) >= lo:
        parts[0] = parts[0][lo:]
        lo = 0
    elif lo < 0 and isinstance(parts[-1], str) and len(parts[-1]) >= -lo:
        return parts[-1][lo:hi] if hi is None or hi < 0 else _no()
    if lo != 0:
        _no()
    if hi is not None:
        if hi < 0 and isinstance(parts[-1], str) and len(parts[-1]) >= -hi:
            parts[-1] = parts[-1][:hi]
        elif hi >= 0 and sl.start in (None, 0) and isinstance(parts[0], str) and len(parts[0]) >= hi:
            return parts[0][:hi]
        else:
            _no()
    return unparse([p for p in parts if p != ''])


def _no():
    raise Unsupported('slice through symbolic text')


# -- comparison in the verified code ----------------------------------------------------------------------------------

def eq(a, b):
    if (has(a) and isinstance(b, str)) or (has(b) and isinstance(a, str)):
        from .sym import mk_bool
        return mk_bool(z3.simplify(equal(a, b)))
    if type(a) in (tuple, list) and type(b) in (tuple, list) and len(a) == len(b) and (_deep(a) or _deep(b)):
        if type(a) is not type(b):
            return False
        for x, y in zip(a, b):
            if not bool_(eq(x, y)):
                return False
        return True
    return a == b


def bool_(x):
    return bool(x)


def ne(a, b):
    r = None
    if (has(a) and isinstance(b, str)) or (has(b) and isinstance(a, str)) or _deep(a) or _deep(b):
        r = eq(a, b)
        return (not r) if isinstance(r, bool) else ~r
    return a != b


def _deep(x):
    return type(x) in (tuple, list) and any(has(y) or _deep(y) for y in x)


def contains(a, b):
    """a in b"""
    if has(a) and isinstance(b, (tuple, list, set, frozenset)):
        if getattr(b, 'segs', None) is not None:
            raise Unsupported('search of symbolic text in a symbolic list')
        return any(bool_(eq(a, x)) for x in b)
    if isinstance(b, (tuple, list)) and isinstance(a, str) and getattr(b, 'segs', None) is None and any(has(x) for x in b):
        return any(bool_(eq(a, x)) for x in b)
    if isinstance(b, str) and (has(a) or has(b)):
        parts = parse(b)
        if has(a):
            raise Unsupported('search of symbolic text')
        if any(isinstance(p, str) and a in p for p in parts):
            return True
        if a and _free_of(parts, a):
            return False
        raise Unsupported('search in symbolic text')
    if has(a) or (isinstance(b, dict) and any(has(x) for x in b)):
        raise Unsupported('search of symbolic text')
    return a in b


# -- structure --------------------------------------------------------------------------------------------------------

def substituted(s, pairs, memo):
    from .sym import subst
    out, changed = [], False
    for p in parse(s):
        if isinstance(p, str):
            out.append(p)
            continue
        v = subst(p.value, pairs, memo)
        if v is p.value:
            out.append(p.key)
        else:
            changed = True
            out.append(joined(p.spec, v) if p.kind == 'j' else format_value(v, p.spec))
    return ''.join(out) if changed else s


def format_value(v, spec):
    return format(v, spec)


def mentions(s, ids, memo):
    from . import sym
    return any(sym.mentions(p.value, ids, memo) for p in parse(s) if not isinstance(p, str))


def merged(c, a, b):
    """the text that is a if c else b, when both differ only in the values of their tokens; else None"""
    from .sym import merge
    try:
        pa, pb = parse(a), parse(b)
    except Unsupported:
        return None
    if _shape(pa) != _shape(pb) or any(x.dtype != y.dtype or x.kind in 'ja' for x, y in zip(pa, pb)
                                       if not isinstance(x, str)):
        return None
    return ''.join(x if isinstance(x, str) else format_value(merge(c, x.value, y.value), x.spec) for x, y in zip(pa, pb))
