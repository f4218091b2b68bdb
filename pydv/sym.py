"""Symbolic values: ints, reals (with a not-a-number flag), booleans, opaque objects."""
import functools
import math
import types
import z3
from . import core
from .core import Unsupported, PathEnd  # noqa: F401

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
Uni = z3.DeclareSort('Obj')
DIV = z3.Function('DIV', IntS, IntS, IntS)
MOD = z3.Function('MOD', IntS, IntS, IntS)
ISQRT = z3.Function('ISQRT', IntS, IntS)
SQRT = z3.Function('SQRT', RealS, RealS)
POW = z3.Function('POW', RealS, RealS, RealS)


def divmod_axioms():
    a, b = z3.Ints('a! b!')
    return [z3.ForAll([a, b], z3.Implies(b > 0, z3.And(a == b * DIV(a, b) + MOD(a, b), MOD(a, b) >= 0,
                                                       MOD(a, b) < b)), patterns=[DIV(a, b)]),
            z3.ForAll([a, b], z3.Implies(b > 0, z3.And(a == b * DIV(a, b) + MOD(a, b), MOD(a, b) >= 0,
                                                       MOD(a, b) < b)), patterns=[MOD(a, b)])]


class SV:
    __slots__ = ()
    __hash__ = None


def is_sym(x):
    return isinstance(x, SV)


def zi(x):
    """python int / SInt / z3 -> z3 Int term"""
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if hasattr(x, '__index__') and not is_sym(x):
        return z3.IntVal(int(x))
    if isinstance(x, SReal) or isinstance(x, float):
        raise TypeError('a float used as an integer index')
    raise Unsupported('integer expected, got %r' % (type(x),))


def mk_int(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t) if core.ENG.simplify_on else t
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mk_real(t, nan=False, frac=None, inf=0):
    t = z3.simplify(t)
    if isinstance(inf, z3.ExprRef):
        inf = z3.simplify(inf)
        if z3.is_int_value(inf):
            inf = inf.as_long()
    if isinstance(inf, z3.ExprRef) or inf:
        if isinstance(inf, int) and nan is False:
            return math.inf if inf > 0 else -math.inf
        return SReal(t, nan, None, inf)
    if not isinstance(nan, bool):
        nan = z3.simplify(nan)
        if z3.is_true(nan):
            nan = True
        elif z3.is_false(nan):
            nan = False
    if nan is True:
        return math.nan
    if nan is False and z3.is_rational_value(t):
        n, d = t.numerator_as_long(), t.denominator_as_long()
        f = n / d
        if frac is None and z3.simplify(z3.RealVal(f.as_integer_ratio()[0]) / f.as_integer_ratio()[1] == t).eq(z3.BoolVal(True)):
            return f
    return SReal(t, nan, frac)


def mk_bool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def zb(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SInt):
        return x.t != 0
    if isinstance(x, (int, float)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SReal):
        return z3.Or(x.t != 0, _nb(x.nan))
    raise Unsupported('boolean expected, got %r' % (type(x),))


def _nb(nan):
    return z3.BoolVal(nan) if isinstance(nan, bool) else nan


def nor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def isinf(x):
    return isinstance(x, float) and math.isinf(x)


def rparts(x):
    """-> (real term, nan flag) of a number"""
    if isinstance(x, SReal):
        if _hasinf(x):
            raise Unsupported('arithmetic on a possibly infinite value')
        return x.t, x.nan
    if isinstance(x, SInt):
        return z3.ToReal(x.t), False
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0)), False
    if isinstance(x, bool):
        return z3.RealVal(int(x)), False
    if isinstance(x, int):
        return z3.RealVal(x), False
    if isinstance(x, float):
        if math.isnan(x):
            return z3.RealVal(0), True
        if math.isinf(x):
            raise Unsupported('arithmetic on infinity')
        n, d = x.as_integer_ratio()
        return z3.Q(n, d), False
    if hasattr(x, 'item') and not is_sym(x):
        return rparts(x.item())
    raise Unsupported('number expected, got %r' % (type(x),))


def is_num(x):
    return isinstance(x, (int, float, SInt, SReal, SBool))


def is_int(x):
    return isinstance(x, (int, SInt, SBool))


def guard_zero(t):
    if core.ENG.branch(t == 0):
        raise ZeroDivisionError('division by zero')


def idivmod(a, b):
    """floor division and remainder of z3 ints, divisor sign must be known positive"""
    e = core.ENG
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(b):
        bv = b.as_long()
        if bv > 0:
            return z3.simplify(a / b), z3.simplify(a % b)
    r = e.flat.get((a.get_id(), b.get_id()))
    if r is not None:
        return r[0], r[1]
    if not e.known(b > 0):
        if e.branch(b <= 0):
            raise Unsupported('division by a non-positive symbolic integer')
    for q, rem in split_flat(a, b):
        if e.known(z3.And(rem >= 0, rem < b)):
            res = (q, rem)
            e.flat[(a.get_id(), b.get_id())] = res + (a, b)
            return res
    q, r = DIV(a, b), MOD(a, b)
    e.add('a', z3.And(a == b * q + r, r >= 0, r < b, z3.Implies(a >= 0, q >= 0),
                      z3.Implies(z3.And(a >= 0, a < b), q == 0)))
    e.flat[(a.get_id(), b.get_id())] = (q, r, a, b)
    return q, r


def split_flat(a, b):
    """candidate decompositions a = q*b + r, syntactic"""
    terms = list(a.children()) if z3.is_add(a) else [a]
    hit, rest = None, []
    for t in terms:
        if hit is None and z3.is_mul(t) and any(c.eq(b) for c in t.children()):
            cs = list(t.children())
            for k, c in enumerate(cs):
                if c.eq(b):
                    del cs[k]
                    break
            q = cs[0]
            for c in cs[1:]:
                q = q * c
            hit = q
        elif hit is None and t.eq(b):
            hit = z3.IntVal(1)
        else:
            rest.append(t)
    if hit is not None:
        r = z3.IntVal(0)
        for t in rest:
            r = r + t
        yield hit, z3.simplify(r)
        yield z3.simplify(hit - 1), z3.simplify(r + b)
    yield z3.IntVal(0), a


def _ground_apps(t, want):
    """sub-terms outside quantifiers for which want(term) holds, innermost first"""
    seen, out, st = set(), [], [(t, False)]
    while st:
        x, done = st.pop()
        if done:
            if want(x):
                out.append(x)
            continue
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        st.append((x, True))
        for c in x.children():
            st.append((c, False))
    return out


def simp_ground(e, goal):
    """the goal with divisions and conditionals decided by the path condition replaced by their results"""
    for _ in range(30):
        done = True
        for x in _ground_apps(goal, lambda y: y.decl().name() in ('DIV', 'MOD') or z3.is_app_of(y, z3.Z3_OP_ITE)):
            new = None
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                if e.known(x.arg(0)):
                    new = x.arg(1)
                elif e.known(z3.Not(x.arg(0))):
                    new = x.arg(2)
            else:
                a, b = x.arg(0), x.arg(1)
                for q, rem in split_flat(a, b):
                    if e.known(z3.And(rem >= 0, rem < b)):
                        new = q if x.decl().name() == 'DIV' else rem
                        break
                if new is None and z3.is_mul(b) and len(b.children()) == 2:
                    # a // (c*d) = (a // d) // c and a % (c*d) = ((a // d) % c)*d + a % d, for c, d > 0
                    for c, d in ((b.arg(0), b.arg(1)), (b.arg(1), b.arg(0))):
                        if z3.is_int_value(c) or z3.is_int_value(d) or not e.known(z3.And(c > 0, d > 0)):
                            continue
                        for q, rem in split_flat(a, d):
                            if not q.eq(z3.IntVal(0)) and e.known(z3.And(rem >= 0, rem < d)):
                                new = DIV(z3.simplify(q), c) if x.decl().name() == 'DIV' else MOD(z3.simplify(q), c) * d + rem
                                break
                        if new is not None:
                            break
            if new is not None:
                goal = z3.simplify(z3.substitute(goal, (x, new)))
                done = False
                break
        if done:
            return goal
    return goal


class _Num(SV):
    __slots__ = ()

    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __floordiv__(self, o): return arith('//', self, o)
    def __rfloordiv__(self, o): return arith('//', o, self)
    def __mod__(self, o): return arith('%', self, o)
    def __rmod__(self, o): return arith('%', o, self)
    def __pow__(self, o): return arith('**', self, o)
    def __rpow__(self, o): return arith('**', o, self)
    def __neg__(self): return arith('-', 0, self)
    def __pos__(self): return self
    def __abs__(self): return sym_abs(self)
    def __eq__(self, o): return compare('==', self, o)
    def __ne__(self, o): return compare('!=', self, o)
    def __lt__(self, o): return compare('<', self, o)
    def __le__(self, o): return compare('<=', self, o)
    def __gt__(self, o): return compare('>', self, o)
    def __ge__(self, o): return compare('>=', self, o)
    __hash__ = None

    def __format__(self, spec):
        return token(self, spec)

    def __repr__(self):
        return token(self)
    __str__ = __repr__

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # numpy scalar protocol used by the code
    ndim = 0
    shape = ()

    @property
    def dtype(self):
        from .nparr import DT
        return DT('i' if isinstance(self, SInt) else 'b' if isinstance(self, SBool) else 'f')

    def item(self): return self

    def astype(self, dt):
        from .nparr import cast, kind_of
        return cast(self, kind_of(dt))


def token(x, spec=''):
    from . import text
    return text.token(x, spec)


class SInt(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return core.ENG.branch(self.t != 0)

    def __index__(self):
        return pin(self.t)

    def __int__(self):
        return pin(self.t)

    def __float__(self):
        raise Unsupported('float() of a symbolic int in library code')

    def __hash__(self):
        raise Unsupported('hash of a symbolic int')


def pin(t):
    """Concrete value of t when the path condition determines it."""
    e = core.ENG
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    s = z3.Solver()
    s.set('timeout', 500)
    s.add([c for _, c in e.pc])
    if s.check() == z3.sat:
        v = s.model().eval(t, model_completion=True)
        if z3.is_int_value(v) and e.known(t == v):
            return v.as_long()
    raise Unsupported('symbolic integer used where a concrete one is needed')


class SReal(_Num):
    __slots__ = ('t', 'nan', 'frac', 'inf')

    def __init__(self, t, nan=False, frac=None, inf=0):
        self.t, self.nan, self.frac, self.inf = t, nan, frac, inf

    def __bool__(self):
        return core.ENG.branch(zb(self))

    def __float__(self):
        raise Unsupported('float() of a symbolic real in library code')

    def __int__(self):
        raise Unsupported('int() of a symbolic real in library code')

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')


class SBool(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return core.ENG.branch(self.t)

    def __and__(self, o): return mk_bool(z3.And(self.t, zb(o)))
    __rand__ = __and__
    def __or__(self, o): return mk_bool(z3.Or(self.t, zb(o)))
    __ror__ = __or__
    def __xor__(self, o): return mk_bool(z3.Xor(self.t, zb(o)))
    def __invert__(self): return mk_bool(z3.Not(self.t))

    def __index__(self):
        return int(bool(self))

    def __hash__(self):
        return hash(bool(self))


class SObj(SV):
    """An opaque value (a model, a function result) known only up to equality."""
    __slots__ = ('t', 'call', 'attrs')

    def __init__(self, t, call=None, attrs=None):
        self.t, self.call, self.attrs = t, call, attrs

    def __eq__(self, o):
        if isinstance(o, SObj):
            return mk_bool(self.t == o.t)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported('hash of an opaque value')

    def __call__(self, *a, **k):
        if self.call is None:
            raise Unsupported('call of an opaque value')
        return self.call(self, *a, **k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        at = object.__getattribute__(self, 'attrs')
        if at and n in at:
            return at[n](self)
        raise AttributeError(n)

    def __repr__(self):
        return token(self)
    __str__ = __repr__

    def __format__(self, spec):
        return token(self, spec)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


class Poison(SV):
    """A value that must not be read (undetermined after / during a loop)."""
    __slots__ = ('why',)

    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _no(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, 'why'))

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __iter__ = __len__ = _no
    __getitem__ = __setitem__ = __call__ = __index__ = __neg__ = __hash__ = __format__ = __repr__ = _no

    def __getattr__(self, n):
        raise Unsupported(object.__getattribute__(self, 'why'))


def nonzero_divisor(b):
    """the division of an array happens here and now: is the divisor (all of it) not zero on this path?"""
    from .nparr import SArray
    e = core.ENG
    if isinstance(b, SArray):
        ix = tuple(e.index_var('dv') for _ in b.shape)
        v = b.snap()(ix)
        if not is_num(v):
            return False
        if not is_sym(v):
            return v != 0
        y = rparts(v)[0]
        if z3.is_rational_value(z3.simplify(y)):
            return False
        rng = z3.And(*[z3.And(k >= 0, k < zi(d)) for k, d in zip(ix, b.shape)])
        return e.known(z3.Implies(rng, y != 0))
    if not is_num(b) or not is_sym(b):
        return False
    if e.branch(rparts(b)[0] == 0):
        raise Unsupported('float division by zero')
    return True


def arith(op, a, b):
    from .nparr import SArray, elementwise
    if isinstance(a, SArray) or isinstance(b, SArray):
        if op == '/' and nonzero_divisor(b):
            return elementwise(lambda x, y: arith('/nz', x, y), a, b)
        return elementwise(lambda x, y: arith(op, x, y), a, b)
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return elementwise(lambda x, y: arith(op, x, y), a, b)
    if hasattr(a, 'item') and not is_sym(a):
        a = a.item()
    if hasattr(b, 'item') and not is_sym(b):
        b = b.item()
    if not is_num(a) or not is_num(b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            (a if isinstance(a, Poison) else b)._no()
        return NotImplemented
    nz = op == '/nz'
    if nz:
        op = '/'
    if not is_sym(a) and not is_sym(b):
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b,
                '//': lambda: a // b, '%': lambda: a % b, '**': lambda: a ** b}[op]()
    if is_int(a) and is_int(b) and op != '/':
        x, y = zi(a), zi(b)
        if op == '+':
            return mk_int(x + y)
        if op == '-':
            return mk_int(x - y)
        if op == '*':
            return mk_int(x * y)
        if op in ('//', '%'):
            guard_zero(y)
            q, r = idivmod(x, y)
            return mk_int(q if op == '//' else r)
        if op == '**':
            if isinstance(b, int) and 0 <= b <= 6:
                r = z3.IntVal(1)
                for _ in range(b):
                    r = r * x
                return mk_int(r)
            if isinstance(b, float):
                return arith('**', mk_real(z3.ToReal(x)), b)
            raise Unsupported('symbolic exponent')
    if isinf(a) or isinf(b):
        if op == '/' and isinf(b) and not isinf(a):
            return mk_real(z3.RealVal(0), rparts(a)[1])
        if op in '+-' and not (isinf(a) and isinf(b)):
            other = b if isinf(a) else a
            if rparts(other)[1] is False:
                return a if isinf(a) else (b if op == '+' else -b)
        raise Unsupported('arithmetic on infinity')
    (x, n1), (y, n2) = rparts(a), rparts(b)
    nan = nor(n1, n2)
    if op == '+':
        return mk_real(x + y, nan)
    if op == '-':
        return mk_real(x - y, nan)
    if op == '*':
        return mk_real(x * y, nan)
    if op == '/':
        if isinstance(b, int) and b == 1 and isinstance(a, (SInt, int)):
            return mk_real(x, nan, (zi(a), z3.IntVal(1)))
        if is_int(a) and is_int(b):
            if not nz:
                guard_zero(zi(b))
            # int / int stays a quotient of integers until int() is applied to it
            return SReal(z3.simplify(x / y), False, (zi(a), zi(b)))
        if z3.is_rational_value(z3.simplify(y)):
            if isinstance(b, (int, float)) and b == 0:
                raise ZeroDivisionError('division by zero')
        elif nz:
            pass
        elif not core.ENG.known(y != 0):
            # numpy division by zero gives inf/nan: outside the fragment on that branch
            if core.ENG.branch(y == 0):
                raise Unsupported('float division by zero')
        return mk_real(x / y, nan)
    if op == '**':
        if isinstance(b, (int, float)) and float(b) == 2.0:
            return mk_real(x * x, nan)
        if isinstance(b, (int, float)) and float(b) == 1.0:
            return mk_real(x, nan)
        if isinstance(b, float) and b == 0.5:
            return sym_sqrt(a)
        if isinstance(b, int) and 0 <= b <= 6:
            r = z3.RealVal(1)
            for _ in range(b):
                r = r * x
            return mk_real(r, nan)
        return mk_real(POW(x, y), nan)
    if op in ('//', '%'):
        fa = a.frac if isinstance(a, SReal) else None
        if fa is not None and is_int(b):
            # (n/d) // b = n // (d*b)
            q, _ = idivmod(fa[0], z3.simplify(fa[1] * zi(b)))
            if op == '//':
                return mk_real(z3.ToReal(q))
        raise Unsupported('floor operation on symbolic reals')
    raise Unsupported('operator ' + op)


def compare(op, a, b):
    from .nparr import SArray, elementwise
    import numpy as np
    if isinstance(a, (SArray, np.ndarray)) or isinstance(b, (SArray, np.ndarray)):
        return elementwise(lambda x, y: compare(op, x, y), a, b, kind='b')
    if hasattr(a, 'item') and not is_sym(a):
        a = a.item()
    if hasattr(b, 'item') and not is_sym(b):
        b = b.item()
    if not is_num(a) or not is_num(b):
        for v in (a, b):
            if isinstance(v, Poison):
                v._no()
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if _hasinf(a) or _hasinf(b):
        return compare_ext(op, a, b)
    if isinf(a) or isinf(b):
        if op == '==':
            return False
        if op == '!=':
            return True
        other = b if isinf(a) else a
        n = z3.Not(_nb(rparts(other)[1]))
        if isinf(a):
            res = {'<': a < 0, '<=': a < 0, '>': a > 0, '>=': a > 0}[op]
        else:
            res = {'<': b > 0, '<=': b > 0, '>': b < 0, '>=': b < 0}[op]
        return mk_bool(n) if res else False
    if is_int(a) and is_int(b):
        x, y, nan = zi(a), zi(b), False
        if isinstance(a, SBool) and isinstance(b, (bool, SBool)) and op in ('==', '!='):
            x, y = a.t, zb(b)
        elif isinstance(b, SBool) and isinstance(a, bool) and op in ('==', '!='):
            x, y = zb(a), b.t
    else:
        # compare an integer quotient with an integer exactly: n/d OP m  <=>  n OP m*d (d>0)
        fa = a.frac if isinstance(a, SReal) else None
        fb = b.frac if isinstance(b, SReal) else None
        if (fa and is_int(b)) or (fb and is_int(a)) or (fa and fb):
            (n1, d1) = fa if fa else (zi(a), z3.IntVal(1))
            (n2, d2) = fb if fb else (zi(b), z3.IntVal(1))
            if core.ENG.known(z3.And(d1 > 0, d2 > 0)):
                x, y, nan = n1 * d2, n2 * d1, False
            else:
                (x, n1), (y, n2) = rparts(a), rparts(b)
                nan = nor(n1, n2)
        else:
            (x, n1), (y, n2) = rparts(a), rparts(b)
            nan = nor(n1, n2)
    if op == '==':
        r = x == y
    elif op == '!=':
        r = x != y
        return mk_bool(z3.Or(r, _nb(nan)))
    elif op == '<':
        r = x < y
    elif op == '<=':
        r = x <= y
    elif op == '>':
        r = x > y
    else:
        r = x >= y
    if nan is not False:
        r = z3.And(z3.Not(_nb(nan)), r)
    return mk_bool(r)


def _hasinf(a):
    return isinstance(a, SReal) and not (isinstance(a.inf, int) and a.inf == 0)


def xparts(x):
    if isinf(x):
        return z3.RealVal(0), False, z3.IntVal(1 if x > 0 else -1)
    t, n = rparts(x) if not _hasinf(x) else (x.t, x.nan)
    i = x.inf if isinstance(x, SReal) else 0
    return t, n, (i if isinstance(i, z3.ExprRef) else z3.IntVal(i))


def compare_ext(op, a, b):
    (x, n1, i1), (y, n2, i2) = xparts(a), xparts(b)
    nan = nor(n1, n2)
    lt = z3.Or(i1 < i2, z3.And(i1 == 0, i2 == 0, x < y))
    eq = z3.And(i1 == i2, z3.Or(i1 != 0, x == y))
    gt = z3.And(z3.Not(lt), z3.Not(eq))
    r = {'==': eq, '!=': z3.Not(eq), '<': lt, '<=': z3.Or(lt, eq), '>': gt, '>=': z3.Or(gt, eq)}[op]
    if op == '!=':
        return mk_bool(z3.Or(r, _nb(nan)))
    return mk_bool(z3.And(z3.Not(_nb(nan)), r))


def sym_abs(a):
    if isinstance(a, SInt):
        return mk_int(z3.If(a.t >= 0, a.t, -a.t))
    if isinstance(a, SReal):
        return mk_real(z3.If(a.t >= 0, a.t, -a.t), a.nan)
    return abs(a)


def sym_sqrt(a):
    if not is_sym(a):
        return math.sqrt(a)
    x, nan = rparts(a)
    e = core.ENG
    if is_int(a):
        n = zi(a)
        r = SReal(SQRT(z3.simplify(x)), nan, None)
        r.frac = ('isqrt', n)
        q = ISQRT(n)
        e.add('a', z3.Implies(n >= 0, z3.And(q >= 0, q * q <= n, n < (q + 1) * (q + 1))))
        return r
    s = SQRT(z3.simplify(x))
    e.add('a', z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
    return mk_real(s, nan)


def to_int(x):
    """int(x)"""
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mk_int(zi(x))
    if isinstance(x, SReal):
        e = core.ENG
        if x.frac is not None:
            n, d = x.frac
            if n == 'isqrt' if isinstance(n, str) else False:
                return mk_int(ISQRT(d))
            if e.known(z3.And(n >= 0, d > 0)):
                return mk_int(idivmod(n, d)[0])
            if not e.known(d > 0):
                raise Unsupported('int() of a quotient with unknown sign')
            if e.branch(n >= 0):
                return mk_int(idivmod(n, d)[0])
            return mk_int(-idivmod(-n, d)[0])
        if x.nan is not False and not e.known(z3.Not(_nb(x.nan))):
            if e.branch(_nb(x.nan)):
                raise ValueError('cannot convert float NaN to integer')
        t = z3.simplify(x.t)
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return mk_int(t.children()[0])
        return mk_int(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if isinstance(x, Poison):
        x._no()
    return int(x)


def to_float(x):
    if isinstance(x, SReal):
        return x
    if isinstance(x, (SInt, SBool)):
        return mk_real(rparts(x)[0])
    return float(x)


# -- generic structure operations ---------------------------------------------------------
def merge(c, a, b):
    """if c then a else b (c: z3 Bool)"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return mk_bool(z3.If(c, zb(a), zb(b)))
    if is_int(a) and is_int(b):
        return mk_int(z3.If(c, zi(a), zi(b)))
    if is_num(a) and is_num(b) and not isinf(a) and not isinf(b) and not _hasinf(a) and not _hasinf(b):
        (x, n1), (y, n2) = rparts(a), rparts(b)
        nan = False if (n1 is False and n2 is False) else z3.If(c, _nb(n1), _nb(n2))
        return mk_real(z3.If(c, x, y), nan)
    if is_num(a) and is_num(b) and core.ENG.no_branch:
        (x, n1, i1), (y, n2, i2) = xparts(a), xparts(b)
        nan = False if (n1 is False and n2 is False) else z3.If(c, _nb(n1), _nb(n2))
        return mk_real(z3.If(c, x, y), nan, None, z3.If(c, i1, i2))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b):
        vals = [merge(c, x, y) for x, y in zip(a, b)]
        return type(a)(*vals) if hasattr(a, '_fields') else tuple(vals)
    if isinstance(a, SObj) and isinstance(b, SObj):
        return SObj(z3.If(c, a.t, b.t), a.call or b.call, a.attrs or b.attrs)
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return a
        if '\u27e6' in a and '\u27e6' in b:
            from . import text
            m = text.merged(c, a, b)
            if m is not None:
                return m
    if isinstance(a, Poison) and not isinstance(b, Poison):
        return a
    if isinstance(b, Poison):
        return b
    from .nparr import SArray
    if isinstance(a, SArray) and isinstance(b, SArray) and a.ndim == b.ndim and a.buf.kind == b.buf.kind and \
            all(x is y or is_int(x) and is_int(y) and z3.simplify(zi(x) == zi(y)).eq(z3.BoolVal(True))
                for x, y in zip(a.shape, b.shape)):
        # read only: a write through it would have to reach one of the two
        f, g = a.snap(), b.snap()
        r = SArray.make(a.shape, lambda ix: merge(c, f(ix), g(ix)), a.buf.kind)
        r.buf.readonly = True
        return r
    if core.PROBING:
        return (a, b)       # only looked into for the constants it holds
    return a if core.ENG.branch(c) else b


def subst(v, pairs, memo=None):
    """substitute z3 terms inside any value (structure copied only where it changes)"""
    if memo is None:
        memo = {}
    from . import nparr, slist
    if isinstance(v, str) and '\u27e6' in v:
        from . import text
        return text.substituted(v, pairs, memo)
    if v is None or isinstance(v, (str, bytes, int, float, bool, type)):
        return v
    if isinstance(v, z3.ExprRef):
        r = z3.substitute(v, *pairs)
        return v if r.get_id() == v.get_id() else r
    if isinstance(v, SInt):
        r = z3.substitute(v.t, *pairs)
        return v if r.get_id() == v.t.get_id() else mk_int(r)
    if isinstance(v, SReal):
        ids = {p[0].get_id() for p in pairs}
        fr = v.frac
        parts = [v.t] + ([] if isinstance(v.nan, bool) else [v.nan]) + \
            ([v.inf] if isinstance(v.inf, z3.ExprRef) else []) + \
            [f for f in (fr or ()) if not isinstance(f, str)]
        if not any(_term_mentions(t, ids) for t in parts):
            return v
        nan = v.nan if isinstance(v.nan, bool) else z3.substitute(v.nan, *pairs)
        if fr is not None:
            fr = tuple(f if isinstance(f, str) else z3.substitute(f, *pairs) for f in fr)
        inf = z3.substitute(v.inf, *pairs) if isinstance(v.inf, z3.ExprRef) else v.inf
        return mk_real(z3.substitute(v.t, *pairs), nan, fr, inf)
    if isinstance(v, SBool):
        r = z3.substitute(v.t, *pairs)
        return v if r.get_id() == v.t.get_id() else mk_bool(r)
    if isinstance(v, SObj):
        r = z3.substitute(v.t, *pairs)
        return v if r.get_id() == v.t.get_id() else SObj(r, v.call, v.attrs)
    if isinstance(v, tuple):
        vals = [subst(x, pairs, memo) for x in v]
        if all(x is y for x, y in zip(vals, v)):
            return v
        return type(v)(*vals) if hasattr(v, '_fields') else tuple(vals)
    if id(v) in memo:
        return memo[id(v)][1]
    # the memo keeps its keys alive: ids of collected objects are reused
    if isinstance(v, nparr.SArray):
        r = v.substituted(pairs, memo)
        memo[id(v)] = (v, r)
        return r
    if isinstance(v, slist.SList) or type(v).__name__ == 'SSet':
        r = v.substituted(pairs, memo)
        memo[id(v)] = (v, r)
        return r
    if isinstance(v, dict):
        r = {k: subst(x, pairs, memo) for k, x in v.items()}
        return r if any(r[k] is not v[k] for k in v) else v
    d = getattr(v, '__dict__', None)
    if d is not None and core.owned(v):
        r = object.__new__(type(v))
        memo[id(v)] = (v, r)
        changed = False
        for k, x in d.items():
            y = subst(x, pairs, memo)
            r.__dict__[k] = y
            if y is not x and not (y is r and x is v):
                changed = True
        if not changed:
            memo[id(v)] = (v, v)
            return v
        return r
    if callable(v) and getattr(v, '__closure__', None):
        return subst_closure(v, pairs, memo)
    if isinstance(v, functools.partial):
        f, a, kw = subst(v.func, pairs, memo), subst(v.args, pairs, memo), subst(v.keywords, pairs, memo)
        return v if f is v.func and a is v.args and kw is v.keywords else functools.partial(f, *a, **kw)
    if isinstance(v, types.MethodType):
        o = subst(v.__self__, pairs, memo)
        return v if o is v.__self__ else types.MethodType(v.__func__, o)
    if type(v) is list:
        r = [subst(x, pairs, memo) for x in v]
        return v if all(x is y for x, y in zip(r, v)) else r
    if not isinstance(v, PLAIN) and not isinstance(v, BaseException) and type(v) is not object \
            and type(v).__name__ != 'SymH':
        raise Unsupported('substitution in a ' + str(type(v)))
    return v


PLAIN = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, range, frozenset, set, slice,
         z3.FuncDeclRef)


def subst_closure(f, pairs, memo):
    import types
    cells = []
    changed = False
    for c in f.__closure__:
        try:
            x = c.cell_contents
        except ValueError:
            cells.append(c)
            continue
        y = subst(x, pairs, memo)
        if y is not x:
            changed = True
            cells.append(types.CellType(y))
        else:
            cells.append(c)
    if not changed:
        return f
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


def mentions(v, ids, memo=None):
    """does value v contain any z3 constant whose id is in ids"""
    if memo is None:
        memo = {}
    from . import nparr, slist
    if isinstance(v, z3.ExprRef):
        return _term_mentions(v, ids)
    if isinstance(v, (SInt, SBool, SObj)):
        return _term_mentions(v.t, ids)
    if isinstance(v, SReal):
        return _term_mentions(v.t, ids) or (not isinstance(v.nan, bool) and _term_mentions(v.nan, ids)) or \
            (isinstance(v.inf, z3.ExprRef) and _term_mentions(v.inf, ids))
    if isinstance(v, str):
        if '\u27e6' in v:
            from . import text
            return text.mentions(v, ids, memo)
        return False
    if isinstance(v, (tuple, list)) and not isinstance(v, slist.SList):
        return any(mentions(x, ids, memo) for x in v)
    if id(v) in memo:
        return False
    memo[id(v)] = v
    if isinstance(v, nparr.SArray):
        return v.mentions(ids, memo)
    if isinstance(v, slist.SList) or type(v).__name__ == 'SSet':
        return v.mentions(ids, memo)
    d = getattr(v, '__dict__', None)
    if d is not None and core.owned(v):
        return any(mentions(x, ids, memo) for x in d.values())
    if isinstance(v, functools.partial):
        return mentions((v.func, v.args, tuple(v.keywords.values())), ids, memo)
    if isinstance(v, types.MethodType):
        return mentions(v.__self__, ids, memo)
    if type(v) is dict:
        return mentions(tuple(v.values()), ids, memo)
    return False


def _term_mentions(t, ids):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False
