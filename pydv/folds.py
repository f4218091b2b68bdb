"""Sums, minima, maxima and counts over symbolic ranges, as lambda-lifted uninterpreted functions
with lemmas (extensionality, bounds, witnesses) instantiated per query."""
import itertools
import math
import z3
from . import core
from .core import Unsupported
from .sym import (zi, zb, mk_int, mk_real, mk_bool, rparts, xparts, is_int, isinf, _hasinf, IntS, RealS, BoolS, _nb, nor)


class Under:
    """evaluate something for generic indices 0 <= k_j < dims_j without forking"""

    def __init__(self, dims, hint='k'):
        self.dims, self.hint = dims, hint

    def __enter__(self):
        e = core.ENG
        self.vars = [e.index_var(self.hint) for _ in self.dims]
        self.mark = len(e.pc)
        e.gens.extend(self.vars)
        for v, d in zip(self.vars, self.dims):
            e.pc.append(('r', z3.And(v >= 0, v < zi(d))))
        e.no_branch = getattr(e, 'no_branch', 0) + 1
        return self

    def __exit__(self, et, ev, tb):
        e = core.ENG
        e.no_branch -= 1
        new = e.pc[self.mark:]
        del e.pc[self.mark:]
        del e.gens[len(e.gens) - len(self.vars):]
        if et is None:
            facts = [t for k, t in new if k == 'a']
            self.rng = z3.And(*[z3.And(v >= 0, v < zi(d)) for v, d in zip(self.vars, self.dims)]) \
                if self.vars else z3.BoolVal(True)
            if facts:
                e.add('a', z3.ForAll(self.vars, z3.Implies(self.rng, z3.And(*facts))))
        return False


def forall_term(dims, pred):
    dims = list(dims)
    if all(isinstance(d, int) for d in dims) and math.prod(dims) <= 30:
        return z3.And([z3.BoolVal(True)] + [zb(pred(tuple(z3.IntVal(i) for i in ix)))
                                           for ix in itertools.product(*[range(d) for d in dims])])
    with Under(dims) as u:
        p = zb(pred(tuple(u.vars)))
    p = z3.simplify(p)
    if z3.is_true(p):
        return p
    return z3.ForAll(u.vars, z3.Implies(u.rng, p))


def exists_term(dims, pred):
    t = forall_term(dims, lambda ix: z3.Not(zb(pred(ix))))
    return z3.Not(t)


class FoldDef:
    __slots__ = ('name', 'kind', 'params', 'kvars', 'dims', 'guard', 'body', 'func')


class Enum:
    """The increasing enumeration of the index tuples that satisfy a guard."""
    __slots__ = ('count', 'dims', 'guardfn', 'fns', 'rankf', 'params')

    def at(self, p):
        return tuple(f(*(self.params + [zi(p)])) for f in self.fns)

    def rank(self, idx):
        return self.rankf(*(self.params + [zi(i) for i in idx]))


def enum(dims, guardfn):
    e = core.ENG
    t = fold('count', dims, lambda ix: z3.IntVal(1), guardfn, canon=False)
    fd = e.folds[t.decl().name()]
    t2 = fold('count', dims, lambda ix: z3.IntVal(1), guardfn)
    if not t2.eq(t):
        e.add('a', t == t2)
    r = Enum()
    r.count, r.dims, r.guardfn = mk_int(t), list(dims), guardfn
    r.params = list(t.children())
    n = len(fd.kvars)
    r.fns = [z3.Function('%s.at%d' % (fd.name, j), *([IntS] * (len(fd.params) + 1) + [IntS])) for j in range(n)]
    r.rankf = z3.Function('%s.rank' % fd.name, *([IntS] * (len(fd.params) + n) + [IntS]))
    if not hasattr(e, 'enums'):
        e.enums = {}
    e.enums[fd.name] = (fd, r.fns, r.rankf)
    if fd.name not in e.enum_done:
        e.enum_done.add(fd.name)
        pv, kv = fd.params, fd.kvars
        p, q = z3.Int('ep!'), z3.Int('eq!')
        N = fd.func(*pv) if pv else fd.func()
        inr = z3.And([z3.BoolVal(True)] + [z3.And(k >= 0, k < d) for k, d in zip(kv, fd.dims)])
        at = lambda x: [f(*(pv + [x])) for f in r.fns]      # noqa: E731
        sub = list(zip(kv, at(p)))
        e.axioms.append((z3.ForAll(pv + [p], z3.Implies(z3.And(p >= 0, p < N), z3.And(
            z3.substitute(z3.And(inr, fd.guard), *sub), r.rankf(*(pv + at(p))) == p)),
            patterns=[r.fns[0](*(pv + [p]))])))
        rk = r.rankf(*(pv + kv))
        e.axioms.append((z3.ForAll(pv + kv, z3.Implies(z3.And(inr, fd.guard), z3.And(
            rk >= 0, rk < N, *[a == k for a, k in zip(at(rk), kv)])), patterns=[rk])))
        lt = z3.BoolVal(False)
        for a, b in reversed(list(zip(at(p), at(q)))):
            lt = z3.Or(a < b, z3.And(a == b, lt))
        e.axioms.append((z3.ForAll(pv + [p, q], z3.Implies(z3.And(p >= 0, p < q, q < N), lt),
                                    patterns=[z3.MultiPattern(r.fns[0](*(pv + [p])), r.fns[0](*(pv + [q])))])))
    return r


def unenum(e, dims, body, g, kv):
    """a fold over the positions of an enumeration, as a guarded fold over the enumerated indices"""
    if len(dims) != 1 or not hasattr(e, 'enums'):
        return None
    d = dims[0]
    if not z3.is_app(d) or d.decl().name() not in e.enums:
        return None
    fd, fns, rankf = e.enums[d.decl().name()]
    prm = list(d.children())
    nk = [z3.Int('ue!%d' % j) for j in range(len(fns))]
    apps = [f(*(prm + [kv[0]])) for f in fns]
    sub = list(zip(apps, nk))
    b2, g2 = z3.substitute(body, *sub), z3.substitute(g, *sub)
    from .sym import _term_mentions
    if _term_mentions(b2, {kv[0].get_id()}) or _term_mentions(g2, {kv[0].get_id()}):
        return None
    psub = list(zip(fd.params, prm))
    dims2 = [z3.substitute(x, *psub) if psub else x for x in fd.dims]
    gd = z3.substitute(fd.guard, *(psub + list(zip(fd.kvars, nk))))
    return dims2, b2, z3.simplify(z3.And(g2, gd)), nk


def merge_cases(e, d, body, k):
    """sum over k < d of the sum of b(k, j) over the j with T(j) == k  is  the sum of b(T(j), j) over the j with
    0 <= T(j) < d"""
    if not (z3.is_app(body) and body.decl().name() in e.folds):
        return None
    fd = e.folds[body.decl().name()]
    if fd.kind != 'sum' or fd.params == []:
        return None
    from .sym import _term_mentions
    hits = [n for n, a in enumerate(body.children()) if a.eq(k)]
    if len(hits) != 1 or any(_term_mentions(a, {k.get_id()}) for n, a in enumerate(body.children()) if n != hits[0]):
        return None
    p = fd.params[hits[0]]
    if any(_term_mentions(x, {p.get_id()}) for x in fd.dims):
        return None
    cs = list(fd.guard.children()) if z3.is_and(fd.guard) else [fd.guard]
    for n, c in enumerate(cs):
        if not z3.is_eq(c):
            continue
        for me, T in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if me.eq(p) and not _term_mentions(T, {p.get_id()}):
                nk = [z3.Int(e.uniq('mc')) for _ in fd.kvars]
                ins = [(q, a) for q, a in zip(fd.params, body.children()) if not q.eq(p)]
                put = lambda t: z3.substitute(z3.substitute(t, (p, T)), *(ins + list(zip(fd.kvars, nk))))
                dims = [z3.simplify(put(x)) for x in fd.dims]
                T2 = put(T)
                g = z3.And([put(x) for m, x in enumerate(cs) if m != n] + [z3.BoolVal(True)])
                mark = len(e.pc)
                e.pc.append(('r', z3.And([z3.And(v >= 0, v < x) for v, x in zip(nk, dims)])))
                try:
                    inr = e.known(z3.And(T2 >= 0, T2 < d)) or e.prove(z3.And(T2 >= 0, T2 < d), 2000)[0] == 'unsat'
                finally:
                    del e.pc[mark:]
                if not inr:
                    g = z3.And(g, T2 >= 0, T2 < d)
                e.lemmas_used.add('sum over classes')
                return dims, z3.simplify(put(fd.body)), z3.simplify(g), nk
    return None


def drop_units(dims, body, g, kv):
    """a dimension of length 1 has the index 0"""
    unit = [z3.is_int_value(d) and d.as_long() == 1 for d in dims]
    if not any(unit) or all(unit):
        return dims, body, g, kv
    sub = [(v, z3.IntVal(0)) for v, u in zip(kv, unit) if u]
    return ([d for d, u in zip(dims, unit) if not u], z3.simplify(z3.substitute(body, *sub)),
            z3.simplify(z3.substitute(g, *sub)), [v for v, u in zip(kv, unit) if not u])


def in_range(e, dims, body, g, kv):
    """comparisons that are assumed on this path (ranges of indices) are true in the body and the condition"""
    facts = []
    for _, t in e.pc:
        st = [t]
        while st:
            x = st.pop()
            if z3.is_and(x):
                st.extend(x.children())
            elif z3.is_app(x) and (z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x) or z3.is_not(x)):
                facts.append(x)
    for v, d in zip(kv, dims):
        facts += [v >= 0, v < d]
    sub = []
    for x in facts:
        x = z3.simplify(x)
        if z3.is_not(x):
            if z3.is_le(x.arg(0)) or z3.is_ge(x.arg(0)):
                sub.append((x.arg(0), z3.BoolVal(False)))
        elif z3.is_le(x) or z3.is_ge(x):
            sub.append((x, z3.BoolVal(True)))
    if not sub:
        return body, g
    b2, g2 = z3.substitute(body, *sub), z3.substitute(g, *sub)
    return (body if b2.eq(body) else z3.simplify(b2)), (g if g2.eq(g) else z3.simplify(g2))


def tidy(e, kind, dims, body, g, kv):
    """an equal fold (for order-independent kinds): conditionals decided by the range removed, and a range 0..A*B that is
    only used through quotient and remainder by B read as the two ranges 0..A and 0..B"""
    from .sym import simp_ground, _ground_apps, DIV, MOD
    work = lambda t: bool(_ground_apps(t, lambda y: y.decl().name() in ('DIV', 'MOD') or z3.is_app_of(y, z3.Z3_OP_ITE)))
    changed = False
    if work(body) or work(g):
        mark = len(e.pc)
        e.pc.append(('r', z3.And([z3.And(v >= 0, v < d) for v, d in zip(kv, dims)])))
        try:
            g2 = simp_ground(e, g) if work(g) else g
            if not z3.is_true(g2):
                e.pc.append(('r', g2))
            b2 = simp_ground(e, body) if work(body) else body
        finally:
            del e.pc[mark:]
        changed = not (g2.eq(g) and b2.eq(body))
        body, g = b2, g2
    if kind == 'sum' and len(dims) == 1 and z3.is_true(g):
        r = merge_cases(e, dims[0], body, kv[0])
        if r is not None:
            return r
    if len(dims) == 1:
        k, d = kv[0], z3.simplify(dims[0])
        bs = {}
        for t in (body, g):
            for x in _ground_apps(t, lambda y: y.decl().name() in ('DIV', 'MOD') and y.arg(0).eq(k)):
                bs[x.arg(1).get_id()] = x.arg(1)
        if len(bs) == 1 and z3.is_mul(d) and len(d.children()) == 2:
            b = next(iter(bs.values()))
            for n in (0, 1):
                if d.arg(n).eq(b) and e.known(b > 0):
                    i, j = z3.Int(e.uniq('ti')), z3.Int(e.uniq('tj'))
                    sub = [(DIV(k, b), i), (MOD(k, b), j)]
                    body, g = [z3.simplify(z3.substitute(z3.substitute(t, *sub), (k, i * b + j))) for t in (body, g)]
                    return [d.arg(1 - n), b], body, g, [i, j]
    return (dims, body, g, kv) if changed else None


def orient(t, memo=None):
    """the same term with every a <= b written b >= a"""
    memo = {} if memo is None else memo
    r = memo.get(t.get_id())
    if r is None:
        cs = [orient(c, memo) for c in t.children()] if z3.is_app(t) else []
        if z3.is_app_of(t, z3.Z3_OP_LE):
            r = z3.ArithRef.__ge__(cs[1], cs[0])      # (>= would ask a number on the right first)
        elif any(not a.eq(b) for a, b in zip(cs, t.children())):
            r = t.decl()(*cs)
        else:
            r = t
        memo[t.get_id()] = r
        memo.setdefault('keep', []).append(t)
    return r


AC = (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ)


def arrange(t, e, memo):
    """the same term with the arguments of commutative operations in an order that does not depend on how the term was
    written; -> (term, text of the term with every index named alike)"""
    r = memo.get(t.get_id())
    if r is not None:
        return r
    if not z3.is_app(t) or z3.is_const(t):
        x = '?' if z3.is_const(t) and (t.get_id() in e.index_vars or t.get_id() in e.point_vars) else t.sexpr()
        r = (t, x)
    else:
        cs = [arrange(c, e, memo) for c in t.children()]
        if t.decl().kind() in AC:
            cs = sorted(cs, key=lambda c: c[1])
        new = [c[0] for c in cs]
        u = t
        if any(not a.eq(b) for a, b in zip(new, t.children())):
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD:
                u = z3.Sum(new)
            elif k == z3.Z3_OP_MUL:
                u = z3.Product(new)
            elif k == z3.Z3_OP_AND:
                u = z3.And(new)
            elif k == z3.Z3_OP_OR:
                u = z3.Or(new)
            else:
                u = t.decl()(*new)
        r = (u, '(%s %s)' % (t.decl().name(), ' '.join(c[1] for c in cs)))
    memo[t.get_id()] = r
    memo.setdefault('keep', []).append(t)
    return r


def constant_factor(body):
    """(number, rest) with body == number * rest, or None"""
    if z3.is_mul(body) and len(body.children()) >= 2 and (z3.is_int_value(body.arg(0)) or
                                                         z3.is_rational_value(body.arg(0))):
        return body.arg(0), z3.Product(body.children()[1:])
    return None


def constant_sum(e, dims, body, uvars):
    """the sum of a term that is the same for every index is a multiple of it"""
    from .sym import _term_mentions
    if not uvars or _term_mentions(body, {v.get_id() for v in uvars}):
        return None
    if not all(e.known(d >= 0) for d in dims):
        return None
    n = dims[0]
    for d in dims[1:]:
        n = n * d
    return z3.simplify(body * (n if body.sort() == IntS else z3.ToReal(n)))


def fold(kind, dims, bodyfn, guardfn=None, sort=None, canon=True):
    """-> z3 term of the fold; bodyfn(idx)-> z3 term"""
    e = core.ENG
    dims = [zi(d) for d in dims]
    with Under([d for d in dims]) as u:
        g = z3.simplify(zb(guardfn(tuple(u.vars)))) if guardfn else z3.BoolVal(True)
        body = z3.simplify(bodyfn(tuple(u.vars)))
    sort = body.sort()
    # canonical names
    uvars = u.vars
    if kind in ('sum', 'min', 'max', 'count', 'any'):
        dims, body, g, uvars = drop_units(dims, body, g, uvars)
        ue = unenum(e, dims, body, g, uvars)
        if ue is not None:
            dims, body, g, uvars = ue
        if canon:
            body, g = in_range(e, dims, body, g, uvars)
            r = tidy(e, kind, dims, body, g, uvars)
            if r is not None:
                dims, body, g, uvars = r
        if canon and kind in ('sum', 'count') and z3.is_true(g):
            c = constant_sum(e, dims, body, uvars)
            if c is not None:
                return c
    if kind == 'sum' and canon:
        # a term that is zero unless a condition holds: the condition guards the sum; a constant term is a count
        while z3.is_app_of(body, z3.Z3_OP_ITE) and (is_zero(body.arg(2)) or is_zero(body.arg(1))):
            c = body.arg(0)
            if is_zero(body.arg(2)):
                body = body.arg(1)
            else:
                c, body = z3.Not(c), body.arg(2)
            g = z3.simplify(z3.And(g, c))
        if not z3.is_true(g) and (z3.is_int_value(body) or z3.is_rational_value(body)):
            back = list(uvars)
            g0 = g
            n = fold('count', dims, lambda ix: z3.IntVal(1), lambda ix: z3.substitute(g0, *zip(back, ix)))
            return z3.simplify(body * (n if body.sort() == IntS else z3.ToReal(n)))
        c = constant_factor(body)
        if c is not None:
            rest, g0, back = c[1], g, list(uvars)
            t = fold('sum', dims, lambda ix: z3.substitute(rest, *zip(back, ix)),
                     lambda ix: z3.substitute(g0, *zip(back, ix)))
            return z3.simplify(c[0] * t)
    body, g = orient(body), orient(g)
    kv = [z3.Int('k!%d' % j) for j in range(len(dims))]
    sub = list(zip(uvars, kv))
    body, g = z3.substitute(body, *sub) if sub else body, z3.substitute(g, *sub) if sub else g
    if canon:
        memo = {}
        body, g = arrange(body, e, memo)[0], arrange(g, e, memo)[0]
        dims = [arrange(z3.simplify(d), e, memo)[0] for d in dims]
    params = find_params([body, g] + dims, e)
    pv = [z3.Int('p!%d' % j) for j in range(len(params))]
    psub = list(zip(params, pv))
    if psub:
        body, g = z3.substitute(body, *psub), z3.substitute(g, *psub)
        dims = [z3.substitute(d, *psub) for d in dims]
    dims = [z3.simplify(d) for d in dims]
    key = (kind, body.sexpr(), g.sexpr(), tuple(d.sexpr() for d in dims), len(params))
    fd = e.fold_by_key.get(key)
    if fd is None:
        fd = FoldDef()
        fd.name = '%s#%d' % (kind, len(e.folds))
        fd.kind, fd.params, fd.kvars, fd.dims, fd.guard, fd.body = kind, pv, kv, dims, g, body
        out = IntS if kind in ('argmin', 'argmax', 'count') else sort
        if pv:
            fd.func = z3.Function(fd.name, *([IntS] * len(pv) + [out]))
        else:
            fd.func = z3.Const(fd.name, out).decl()
        e.folds[fd.name] = fd
        e.fold_by_key[key] = fd
    return fd.func(*params)


def is_zero(t):
    if z3.is_int_value(t):
        return t.as_long() == 0
    return z3.is_rational_value(t) and t.numerator_as_long() == 0


def find_params(terms, e):
    """generic index variables occurring in the terms, in order of first occurrence"""
    out, seen = [], set()
    st = list(reversed(terms))
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in e.index_vars or i in e.point_vars:
            out.append(t)
            continue
        if z3.is_quantifier(t):
            st.append(t.body())
        else:
            st.extend(reversed(t.children()))
    return out


def collect(e, terms, acc):
    seen = set()
    st = list(terms)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if not z3.is_app(t):
            continue
        if t.decl().name() in e.folds and not has_var(t):
            acc.setdefault(i, t)
        st.extend(t.children())
    return acc


def has_var(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        st.extend(x.children())
    return False


def inst(fd, app, k):
    """(range, guard, body) of the fold application at index tuple k"""
    sub = list(zip(fd.params, app.children())) + list(zip(fd.kvars, k))
    dims = [z3.substitute(d, *sub) if sub else d for d in fd.dims]
    rng = z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(k, dims)])
    g = z3.substitute(fd.guard, *sub) if sub else fd.guard
    b = z3.substitute(fd.body, *sub) if sub else fd.body
    return dims, rng, g, b


def lemmas(e, asserts, light):
    if not e.folds or light:
        return []
    out = enum_ext(e, asserts)
    done, pairs = {}, set()
    terms = list(asserts) + out
    for rnd in range(3):
        acc = collect(e, terms, {})
        new = {i: t for i, t in acc.items() if i not in done}
        if not new:
            break
        fresh_l = []
        for i, t in new.items():
            fd = e.folds[t.decl().name()]
            fresh_l += single(fd, t)
        allapps = dict(done)
        allapps.update(new)
        items = list(allapps.items())
        for (i, a), (j, b) in itertools.combinations(items, 2):
            if (i, j) in pairs or (i not in new and j not in new):
                continue
            pairs.add((i, j))
            fa, fb = e.folds[a.decl().name()], e.folds[b.decl().name()]
            if fa.kind != fb.kind or len(fa.kvars) != len(fb.kvars) or a.sort() != b.sort():
                continue
            w = [z3.Int('ext!%d!%d!%d' % (i, j, q)) for q in range(len(fa.kvars))]
            d1, r1, g1, b1 = inst(fa, a, w)
            d2, r2, g2, b2 = inst(fb, b, w)
            same_d = z3.And(*[x == y for x, y in zip(d1, d2)])
            fresh_l.append(z3.Implies(z3.And(same_d, z3.Implies(r1, z3.And(g1 == g2, z3.Implies(g1, b1 == b2)))),
                                      a == b))
        out += fresh_l
        terms = fresh_l
        done = allapps
        if len(done) > 24:
            break
    return out


def enum_ext(e, asserts):
    """enumerations of equal guards are equal"""
    if not getattr(e, 'enums', None):
        return []
    byname = {}
    for nm, (fd, fns, rk) in e.enums.items():
        for j, f in enumerate(fns):
            byname[f.name()] = (fd, fns, j)
    found, seen = {}, set()
    st = list(asserts)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            if t.decl().name() in byname and not has_var(t):
                found.setdefault(i, t)
            st.extend(t.children())
    out = []
    items = list(found.values())[:16]
    for a, b in itertools.combinations(items, 2):
        fa, _, ja = byname[a.decl().name()]
        fb, _, jb = byname[b.decl().name()]
        if fa is fb or ja != jb or len(fa.kvars) != len(fb.kvars):
            continue
        ca, cb = a.children(), b.children()
        w = [z3.Int('eext!%d!%d!%d' % (a.get_id(), b.get_id(), q)) for q in range(len(fa.kvars))]
        s1 = list(zip(fa.params, ca[:-1])) + list(zip(fa.kvars, w))
        s2 = list(zip(fb.params, cb[:-1])) + list(zip(fb.kvars, w))
        d1 = [z3.substitute(d, *s1) for d in fa.dims]
        d2 = [z3.substitute(d, *s2) for d in fb.dims]
        rng = z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(w, d1)])
        g1, g2 = z3.substitute(fa.guard, *s1), z3.substitute(fb.guard, *s2)
        out.append(z3.Implies(z3.And(*([x == y for x, y in zip(d1, d2)] +
                                       [ca[-1] == cb[-1], z3.Implies(rng, g1 == g2)])), a == b))
    return out + flat_enum_ext(byname, items)


def flat_enum_ext(byname, items):
    """the enumeration of a flat range agrees with that of the rectangle in row-major order, when the guards agree"""
    from .sym import DIV, MOD
    out = []
    rect = {}
    for b in items:
        fb, fns, _ = byname[b.decl().name()]
        if len(fb.kvars) == 2:
            rect.setdefault((fb.name, tuple(x.get_id() for x in b.children()[:-1])), (fb, fns, b))
    for a in items:
        fa, _, _ = byname[a.decl().name()]
        if len(fa.kvars) != 1:
            continue
        for fb, fns, b in rect.values():
            pa, pb, p = a.children()[:-1], b.children()[:-1], a.children()[-1]
            w = [z3.Int('eflat!%d!%d!%d' % (a.get_id(), b.get_id(), q)) for q in range(2)]
            s2 = list(zip(fb.params, pb)) + list(zip(fb.kvars, w))
            d2 = [z3.substitute(d, *s2) for d in fb.dims]
            k = d2[1] * w[0] + w[1]
            s1 = list(zip(fa.params, pa)) + [(fa.kvars[0], k)]
            d1 = z3.substitute(fa.dims[0], *s1)
            g1, g2 = z3.substitute(fa.guard, *s1), z3.substitute(fb.guard, *s2)
            rng = z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(w, d2)])
            n = fb.func(*pb) if pb else fb.func()
            out.append(z3.Implies(rng, z3.And(DIV(k, d2[1]) == w[0], MOD(k, d2[1]) == w[1])))
            out.append(z3.Implies(z3.And(z3.simplify(d1) == z3.simplify(d2[0] * d2[1]), p >= 0, p < n,
                                         z3.Implies(rng, g1 == g2)),
                                  a == d2[1] * fns[0](*(pb + [p])) + fns[1](*(pb + [p]))))
    return out


def single(fd, a):
    out = []
    n = len(fd.kvars)
    i = a.get_id()
    w = [z3.Int('wit!%d!%d' % (i, q)) for q in range(n)]
    k = [z3.Int('q!%d' % q) for q in range(n)]
    dims, rw, gw, bw = inst(fd, a, w)
    _, rk, gk, bk = inst(fd, a, k)
    empty = z3.Or(*[d <= 0 for d in dims])
    if fd.kind == 'sum':
        zero = z3.IntVal(0) if a.sort() == IntS else z3.RealVal(0)
        out.append(z3.Implies(empty, a == zero))
        if n == 1:
            _, r0, g0, b0 = inst(fd, a, [z3.IntVal(0)])
            out.append(z3.Implies(dims[0] == 1, a == z3.If(g0, b0, zero)))
        # all terms >= 0 (resp. == 0) -> sum >= 0 (== 0)
        out.append(z3.Or(z3.And(rw, gw, bw < 0), a >= 0))
        w2 = [z3.Int('witz!%d!%d' % (i, q)) for q in range(n)]
        _, r2, g2, b2 = inst(fd, a, w2)
        out.append(z3.Or(z3.And(r2, g2, b2 != 0), a == 0))
    elif fd.kind in ('min', 'max'):
        le = (lambda x, y: x <= y) if fd.kind == 'min' else (lambda x, y: x >= y)
        ex = z3.And(rw, gw, a == bw)
        out.append(z3.ForAll(k, z3.Implies(z3.And(rk, gk), z3.And(le(a, bk), ex))))
        w2 = [z3.Int('witm!%d!%d' % (i, q)) for q in range(n)]
        _, r2, g2, b2 = inst(fd, a, w2)
        # non-empty: one in-range guarded element implies the witness; element 0 is enough when unguarded
        z = [z3.IntVal(0)] * n
        _, rz, gz, bz = inst(fd, a, z)
        out.append(z3.Implies(z3.And(rz, gz), z3.And(le(a, bz), ex)))
    elif fd.kind in ('argmin', 'argmax'):
        assert n == 1
        le = (lambda x, y: x <= y) if fd.kind == 'argmin' else (lambda x, y: x >= y)
        lt = (lambda x, y: x < y) if fd.kind == 'argmin' else (lambda x, y: x > y)
        _, ra, ga, ba = inst(fd, a, [a])
        out.append(z3.Implies(z3.Not(empty), ra))
        out.append(z3.ForAll(k, z3.Implies(z3.And(rk, gk), z3.And(ga, le(ba, bk), z3.Implies(k[0] < a, lt(ba, bk))))))
    elif fd.kind == 'count':
        out.append(a >= 0)
        out.append(z3.Implies(a > 0, z3.And(rw, gw)))
        out.append(z3.ForAll(k, z3.Implies(z3.And(rk, gk), a >= 1)))
        if n == 1:
            out.append(z3.Implies(dims[0] >= 0, a <= dims[0]))
    elif fd.kind == 'any':
        out.append(z3.Implies(a, z3.And(rw, gw, bw)))
        out.append(z3.ForAll(k, z3.Implies(z3.And(rk, gk, bk), a)))
    return out


# -- user-level folds ---------------------------------------------------------------------
def _small(dims):
    return all(isinstance(d, int) for d in dims) and math.prod(dims) <= 24


def cells(dims):
    return itertools.product(*[range(d) for d in dims])


def any_nan(dims, fn, guard=None):
    """z3/bool: some element is NaN"""
    with Under(dims) as u:
        n = rparts(fn(tuple(u.vars)))[1]
    if n is False:
        return False
    return fold('any', dims, lambda ix: _nb(rparts(fn(ix))[1]), guard)


def sym_sum(dims, fn, guard=None, skipnan=False):
    if _small(dims):
        r = 0
        for ix in cells(dims):
            iv = tuple(z3.IntVal(i) for i in ix)
            v = fn(iv)
            if skipnan:
                t, n = rparts(v)
                if n is not False:
                    v = mk_real(z3.If(_nb(n), z3.RealVal(0), t))
            if guard is not None:
                from .sym import merge
                v = merge(zb(guard(iv)), v, 0)
            r = r + v
        return r
    with Under(dims) as u:
        v = fn(tuple(u.vars))
        inty = is_int(v)
        nan = False if inty else rparts(v)[1]
    if inty:
        return mk_int(fold('sum', dims, lambda ix: zi(fn(ix)), guard))
    if skipnan and nan is not False:
        g0 = guard

        def g(ix):
            n = z3.Not(_nb(rparts(fn(ix))[1]))
            return z3.And(n, zb(g0(ix))) if g0 else n
        return mk_real(fold('sum', dims, lambda ix: rparts(fn(ix))[0], g))
    t = fold('sum', dims, lambda ix: rparts(fn(ix))[0], guard)
    if nan is False or skipnan:
        return mk_real(t)
    return mk_real(t, fold('any', dims, lambda ix: _nb(rparts(fn(ix))[1]), guard))


def sym_count(dims, pred):
    if _small(dims):
        r = 0
        for ix in cells(dims):
            r = r + mk_int(z3.If(zb(pred(tuple(z3.IntVal(i) for i in ix))), 1, 0))
        return r
    return mk_int(fold('count', dims, lambda ix: z3.IntVal(1), pred))


def sym_extreme(kind, dims, fn, guard=None, skipnan=False):
    """min / max; NaN: propagates unless skipnan"""
    with Under(dims) as u:
        v = fn(tuple(u.vars))
        inty = is_int(v)
        nan = False if inty else rparts(v)[1]
    if inty:
        return mk_int(fold(kind, dims, lambda ix: zi(fn(ix)), guard))
    if nan is False:
        return mk_real(fold(kind, dims, lambda ix: rparts(fn(ix))[0], guard))
    if skipnan:
        g0 = guard

        def g(ix):
            n = z3.Not(_nb(rparts(fn(ix))[1]))
            return z3.And(n, zb(g0(ix))) if g0 else n
        t = fold(kind, dims, lambda ix: rparts(fn(ix))[0], g)
        allnan = z3.Not(fold('any', dims, lambda ix: zb(g(ix))))
        return mk_real(t, allnan)
    t = fold(kind, dims, lambda ix: rparts(fn(ix))[0], guard)
    return mk_real(t, fold('any', dims, lambda ix: _nb(rparts(fn(ix))[1]), guard))


def sym_arg(kind, n, fn):
    with Under([n]) as u:
        v = fn(tuple(u.vars))
        inty = is_int(v)
        bound = not inty and (isinf(v) or _hasinf(v))
        nan = False if inty else v.nan if bound and not isinf(v) else False if bound else rparts(v)[1]
        if bound and not core.ENG.known(xparts(v)[2] * (1 if kind == 'argmin' else -1) >= 0):
            raise Unsupported('%s over values that may be infinite' % kind)
    if nan is not False:
        raise Unsupported('argmin over values that may be NaN')
    if bound:
        # the first extreme of the finite ones, the first of all if there are none
        def finite(ix):
            return xparts(fn(ix))[2] == 0
        a = z3.If(fold('any', [n], finite), fold(kind, [n], lambda ix: xparts(fn(ix))[0], finite), 0)
    elif inty:
        a = fold(kind, [n], lambda ix: zi(fn(ix)))
    else:
        a = fold(kind, [n], lambda ix: rparts(fn(ix))[0])
    if not core.ENG.no_branch:
        core.ENG.add('a', z3.And(a >= 0, z3.Implies(zi(n) > 0, a < zi(n))))      # one of the positions
    return mk_int(a)


def sorted_perm(n, key, what='sort'):
    """stable sorting of n items by a symbolic key: -> (perm, identity?) with perm(p) the item at place p.
    The permutation is a fresh function with its inverse; the order of the keys is its defining axiom."""
    from .sym import compare
    e = core.ENG
    with Under([n]) as u:
        p = u.vars[0]
        k0, k1 = key(p), key(p + 1)
        with_next = z3.Implies(p + 1 < zi(n), zb(compare('<=', k0, k1)))
        already = e.known(with_next)
        inty = is_int(k0)
        if not inty and rparts(k0)[1] is not False:
            raise Unsupported('sorting keys that may be missing')
    if already:
        return (lambda q: q), True
    perm = e.fresh_func(what + '_perm', [z3.IntSort()], z3.IntSort())
    inv = e.fresh_func(what + '_inv', [z3.IntSort()], z3.IntSort())
    a, b = z3.Int('k!sa'), z3.Int('k!sb')
    in_ = lambda v: z3.And(v >= 0, v < zi(n))       # noqa: E731
    e.add('a', z3.ForAll([a], z3.Implies(in_(a), z3.And(in_(perm(a)), inv(perm(a)) == a)), patterns=[perm(a)]))
    e.add('a', z3.ForAll([a], z3.Implies(in_(a), z3.And(in_(inv(a)), perm(inv(a)) == a)), patterns=[inv(a)]))
    with Under([n, n]) as u:
        p, q = u.vars
        kp, kq = key(perm(p)), key(perm(q))
        order = z3.And(zb(compare('<=', kp, kq)),
                       z3.Implies(zb(compare('==', kp, kq)), perm(p) < perm(q)))
        order = z3.substitute(order, (p, a), (q, b))
    e.add('a', z3.ForAll([a, b], z3.Implies(z3.And(in_(a), in_(b), a < b), order),
                         patterns=[z3.MultiPattern(perm(a), perm(b))]))
    if inty:
        # n different integers of [0, n) in increasing order are 0, 1, ..., n-1
        with Under([n, n]) as u:
            p, q = u.vars
            kp, kq = zi(key(p)), zi(key(q))
            permuted = e.known(z3.And(kp >= 0, kp < zi(n), z3.Implies(p != q, kp != kq)))
        if permuted:
            with Under([n]) as u:
                p = u.vars[0]
                t = z3.substitute(zi(key(perm(p))), (p, a))
                s = z3.substitute(zi(key(p)), (p, a))
            e.add('a', z3.ForAll([a], z3.Implies(in_(a), t == a), patterns=[perm(a)]))
            # and the item with key s stands at place s
            e.add('a', z3.ForAll([a], z3.Implies(in_(a), inv(a) == s), patterns=[inv(a)]))
    return perm, False


def loose_perm(n, key, kth=None):
    """the contract of numpy's argsort (any order of ties) and argpartition: a permutation in which the keys do not
    decrease, or (kth) no key before place kth is larger, and none after it smaller, than the key at kth"""
    from .sym import compare
    e = core.ENG
    what = 'argsort' if kth is None else 'argpartition'
    perm = e.fresh_func(what + '_perm', [z3.IntSort()], z3.IntSort())
    inv = e.fresh_func(what + '_inv', [z3.IntSort()], z3.IntSort())
    a, b = z3.Int('k!sa'), z3.Int('k!sb')
    in_ = lambda v: z3.And(v >= 0, v < zi(n))       # noqa: E731
    e.add('a', z3.ForAll([a], z3.Implies(in_(a), z3.And(in_(perm(a)), inv(perm(a)) == a)), patterns=[perm(a)]))
    e.add('a', z3.ForAll([a], z3.Implies(in_(a), z3.And(in_(inv(a)), perm(inv(a)) == a)), patterns=[inv(a)]))
    with Under([n, n]) as u:
        p, q = u.vars
        kp, kq = key(perm(p)), key(perm(q))
        if not is_int(kp) and rparts(kp)[1] is not False:
            raise Unsupported('sorting keys that may be missing')
        order = z3.substitute(zb(compare('<=', kp, kq)), (p, a), (q, b))
    before = a < b if kth is None else z3.And(a <= zi(kth), b >= zi(kth))
    e.add('a', z3.ForAll([a, b], z3.Implies(z3.And(in_(a), in_(b), before), order),
                         patterns=[z3.MultiPattern(perm(a), perm(b))]))
    return perm
