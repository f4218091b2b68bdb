"""The contract vocabulary, concrete reading: runs the same contract text on the real, unmodified modules
with generated (or replayed) inputs. No solver here; works with the repository's own interpreter."""
import hashlib
import importlib
import itertools
import math
import random
import numpy as np


class Violation(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, name)
        self.name, self.detail = name, detail


class Skip(Exception):
    pass


class ConcH:
    symbolic = False

    def __init__(self, rng=None, replay=None, tier='quick'):
        self.rng = rng or random.Random(0)
        self.replay = replay
        self.inputs = {}
        self.checks = 0
        self.names = set()
        self.inf, self.nan = math.inf, math.nan
        self.style = self.rng.choice(['ties', 'ints', 'dyadic', 'gauss', 'ties', 'ints', 'dyadic', 'gauss', 'tight'])
        self.tight = float(1 << self.rng.choice([10, 20, 30]))
        self.big = self.rng.random() < 0.1
        self.tier = tier

    def load(self, name):
        return importlib.import_module(name)

    # -- inputs -------------------------------------------------------------------------
    def _rec(self, name, v, gen):
        if self.replay is not None and name in self.replay:
            v = self.replay[name]
        else:
            v = gen()
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, most=None):
        def gen():
            a = -5 if lo is None else int(lo)
            b = a + 10 if lo is None else a + 4
            if most is not None:
                b = most
            if self.big and most is None:
                b += 4
            if hi is not None:
                b = min(b, int(hi)) if most is not None or hi - a > 30 else int(hi)
            if b < a:
                raise Skip()
            return self.rng.randint(a, b)
        v = int(self._rec(name, None, gen))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip()
        return v

    def size(self, name, lo=1, most=5):
        return self.int(name, lo, None, most)

    def index(self, name, n):
        return self.int(name, 0, n - 1)

    def _num(self, lo, hi):
        r, s = self.rng, self.style
        if s == 'ties':
            v = float(r.choice([0, 1, 1, 2]))
        elif s == 'ints':
            v = float(r.randint(-6, 6))
        elif s == 'tight':
            # values that differ by very little, far from zero
            v = 1000 + r.randint(0, 8) / 1024.0
        elif s == 'dyadic':
            v = r.randint(-40, 40) / 8.0
        else:
            v = r.gauss(0, 3)
        if lo is not None or hi is not None:
            a = float(lo) if lo is not None else float(hi) - 8
            b = float(hi) if hi is not None else a + 8
            if not a <= v <= b:
                if s == 'gauss':
                    v = r.uniform(a, b)
                else:
                    v = a + (b - a) * r.randint(0, 4) / 4
        return v

    def real(self, name, lo=None, hi=None, nan=False):
        return float(self._rec(name, None, lambda: self._num(lo, hi)))

    def bool(self, name):
        return bool(self._rec(name, None, lambda: self.rng.random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        k = int(self._rec(name, None, lambda: self.rng.randrange(len(options))))
        if not 0 <= k < len(options):
            raise Skip()
        return options[k]

    def array(self, name, shape, kind='f', lo=None, hi=None, nan=False, distinct=False):
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape)) if shape else 1
        given = self.replay.get(name) if self.replay is not None else None
        if given is not None and given.get('data') is not None and len(given['data']) == n:
            data = [math.nan if x == 'nan' else x for x in given['data']]
        else:
            r = self.rng
            pn = (r.choice([0, 0.15, 0.4]) if nan else 0)
            if kind == 'f':
                data = [math.nan if r.random() < pn else self._num(lo, hi) for _ in range(n)]
            elif kind == 'i':
                a = -5 if lo is None else int(lo)
                b = a + 10 if hi is None else int(hi)
                if b < a and n:
                    raise Skip()
                if distinct:
                    if b - a + 1 < n:
                        raise Skip()
                    data = r.sample(range(a, b + 1), n)
                else:
                    data = [r.randint(a, b) for _ in range(n)]
            else:
                p = r.choice([0.5, 0.5, 0.9, 0.1])
                data = [r.random() < p for _ in range(n)]
        self.inputs[name] = {'shape': list(shape),
                             'data': ['nan' if isinstance(x, float) and math.isnan(x) else x for x in data]}
        return np.array(data, dtype={'f': float, 'i': int, 'b': bool}[kind]).reshape(shape)

    def fn(self, name, kinds, out='f'):
        salt = self._rec(name, None, lambda: self.rng.randrange(1 << 30))
        small, tight = self.style == 'ties', self.style == 'tight'

        def call(*a):
            key = []
            nan = False
            for k, x in zip(kinds, a):
                if k == 'f':
                    x = float(x)
                    if math.isnan(x):
                        nan = True
                    key.append('%.9g' % (0.0 if x == 0 else x))
                else:
                    key.append(str(int(x)))
            if nan and out == 'f':
                return math.nan
            h = int(hashlib.md5(('%s|%s' % (salt, '|'.join(key))).encode()).hexdigest()[:12], 16)
            if out == 'b':
                return h % 2 == 0
            if out == 'i':
                return h % 7
            if tight:
                return 1000 + h % 9 / self.tight
            return float(h % 3) if small else (h % 6007) / 64.0 - 40
        return call

    # -- propositions -------------------------------------------------------------------
    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, name, c, detail=None):
        self.checks += 1
        self.names.add(name)
        if isinstance(c, np.ndarray):
            c = bool(c.all())
        if not c:
            raise Violation(name, detail)

    def forall(self, name, dims, pred):
        self.names.add(name)
        for ix in itertools.product(*[range(int(d)) for d in dims]):
            self.check(name, pred(*ix), 'at index %s' % (ix,))

    def each(self, name, lst, pred):
        self.names.add(name)
        for p, x in enumerate(lst):
            self.check(name, pred(p, x), 'at position %s' % (p,))

    def all(self, dims, pred):
        return all(bool(pred(*ix)) for ix in itertools.product(*[range(int(d)) for d in dims]))

    def any(self, dims, pred):
        return any(bool(pred(*ix)) for ix in itertools.product(*[range(int(d)) for d in dims]))

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def imp(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        num = (int, float, np.integer, np.floating, np.bool_)
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
                return bool(a) == bool(b)
            if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
                return int(a) == int(b)
            a, b = float(a), float(b)
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if math.isinf(a) or math.isinf(b):
                return a == b
            return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            return a.shape == b.shape and all(self.eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
        if a is None or b is None:
            return a is b
        return bool(a == b)

    def stored(self):
        """names of the files below the working directory, in order of their last change"""
        import os
        out = [os.path.normpath(os.path.join(d, f)) for d, _, fs in os.walk('.') for f in fs]
        return sorted(out, key=lambda n: (os.stat(n).st_mtime_ns, n))

    def text(self, a, b):
        return isinstance(a, str) and isinstance(b, str) and a == b

    def text_differs(self, a, b):
        return not self.text(a, b)

    def sqrt(self, a):
        return float(a) ** 0.5

    def isnan(self, a):
        return isinstance(a, (float, np.floating)) and math.isnan(a)

    def same(self, a, b):
        num = (int, float, np.integer, np.floating)
        if isinstance(a, num) and isinstance(b, num):
            return self.eq(a, b)
        return a is b

    def sum(self, dims, f, guard=None):
        return sum(f(*ix) for ix in itertools.product(*[range(int(d)) for d in dims]) if guard is None or guard(*ix))

    def count(self, dims, pred):
        return sum(1 for ix in itertools.product(*[range(int(d)) for d in dims]) if pred(*ix))

    def minimum(self, dims, f):
        return min(f(*ix) for ix in itertools.product(*[range(int(d)) for d in dims]))

    def maximum(self, dims, f):
        return max(f(*ix) for ix in itertools.product(*[range(int(d)) for d in dims]))

    def div(self, a, b):
        return int(a) // int(b)

    def mod(self, a, b):
        return int(a) % int(b)

    def len(self, x):
        return len(x)

    def shape(self, a):
        return np.asarray(a).shape

    def series_equal(self, name, a, b):
        a, b = np.asarray(a), np.asarray(b)
        self.check(name + ': shape', a.shape == b.shape, '%s against %s' % (a.shape, b.shape))
        self.check(name, self.eq(a, b))

    def use_iteration_contracts(self):
        pass

    def concrete_only(self, why=''):
        pass
