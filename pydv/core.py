"""pydv core: path exploration, path conditions, obligations, solver calls.

The verifier executes the *real* (mechanically rewritten, see loader.py) Python source under
CPython with symbolic values.  A run follows a trail of decisions; all trails are explored
depth-first by re-execution.  Loops over symbolic ranges are handled in loops.py.
"""
import time
import z3

z3.set_param('smt.random_seed', 1)


class PathEnd(BaseException):
    """This path is finished (infeasible, or a sub-exploration that has been recorded)."""


class RestartAll(BaseException):
    """explore again from the beginning (a loop is now treated differently)"""


class RestartLoop(BaseException):
    def __init__(self, pos):
        self.pos = pos


class Unsupported(BaseException):
    """The code left the fragment the verifier handles."""


class Budget(BaseException):
    pass


class Refuted(BaseException):
    pass


class Obl:
    __slots__ = ('name', 'status', 'time', 'backend', 'model', 'reason', 'paths')

    def __init__(self, name):
        self.name = name
        self.status = 'discharged'
        self.time = 0.0
        self.backend = set()
        self.model = None
        self.reason = None
        self.paths = 0


class Dec:
    __slots__ = ('choice', 'alts', 'kind')

    def __init__(self, choice, alts, kind):
        self.choice, self.alts, self.kind = choice, alts, kind


ENG = None


PROBING = False     # an array's element is built only to see which constants it mentions


import contextlib


@contextlib.contextmanager
def probing():
    global PROBING
    was, PROBING = PROBING, True
    try:
        yield
    finally:
        PROBING = was



def owned(v):
    """an object of the verified code (or of the contract text)"""
    return getattr(type(v), '__module__', '').startswith(('spta', 'contracts', 'experiments'))


def eng():
    return ENG


class Engine:
    def __init__(self, solver_ms=8000, feas_ms=400, max_paths=4000, deadline=None):
        global ENG
        ENG = self
        self.solver_ms, self.feas_ms = solver_ms, feas_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.obls = {}
        self.sym_whiles = set()
        self.contracted = False  # a loop was decided by a contract written by hand
        self.loop_sums = {}      # persistent over re-executions: loop key -> LoopInfo
        self.ctx_ids = {}
        self.folds = {}          # name -> Fold definition
        self.fold_by_key = {}
        self.solver_time = 0.0
        self.queries = 0
        self.asked = {}
        self.paths = 0
        self.complete_paths = 0
        self.reached = set()     # reachability covers
        self.trail = []
        self.inexact = None
        self.funcs_seen = set()
        self.watch = None
        self.index_vars = set()
        self._keep = []
        self.point_vars = set()     # constants that name one position: folds take them as parameters
        self.model_inputs = {}
        self.simplify_on = True
        self.lemmas_used = set()

    # -- one run ------------------------------------------------------------------------
    def reset_run(self):
        self.pos = 0
        self.pc = []             # (kind, term)
        self.gens = []           # generic index variables in scope
        self.n_fresh = 0
        self.ctx = ()
        self.frames = []         # loop body recording frames
        self.flat = {}           # registered decompositions k -> (q, r, Y)
        self.serial = 0
        self.tokens = {}
        self.inputs = []
        self.path_inexact = None
        self.fs = {}
        self.no_branch = 0
        self.replaying = 0
        self.while_symbolic = False
        self.iter_contracts = []
        self.loop_specs = []
        self.mappings = {}
        self.enum_done = set()
        self.axioms = []

    def explore(self, fn):
        """Run fn over all paths. Unsupported etc. propagate to the caller."""
        self.trail = []
        while True:
            self.reset_run()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            self.check_deadline()
            try:
                fn()
                self.complete_paths += 1
            except PathEnd:
                pass
            except RestartLoop as r:
                del self.trail[r.pos + 1:]
                d = self.trail[r.pos]
                d.choice, d.alts = 0, [1, 2]
                continue
            except RestartAll:
                self.trail = []
                continue
            while self.trail and not self.trail[-1].alts:
                self.trail.pop()
            if not self.trail:
                return
            d = self.trail[-1]
            d.choice = d.alts.pop(0)

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    # -- decisions ----------------------------------------------------------------------
    def _advance(self, choice):
        self.pos += 1
        self.ctx = self.ctx + (choice,)
        self.n_fresh = 0

    def decide(self, n, kind=''):
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
        else:
            d = Dec(0, list(range(1, n)), kind)
            self.trail.append(d)
        c = d.choice
        self._advance(c)
        return c

    def branch(self, cond):
        """cond: z3 Bool. Returns a concrete bool, forking when both sides are feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            c = d.choice
            forced = d.kind == 'forced'
            self._advance(c)
        else:
            self.check_deadline()
            t = self.feasible(cond)
            # when one side is impossible the other one is taken for possible unless that is refuted at once
            f = self.feasible(z3.Not(cond), quick=not t)
            if self.no_branch and t and f:
                # the facts about sums and extremes may decide it
                if self.prove(cond, 2000)[0] == 'unsat':
                    f = False
                elif self.prove(z3.Not(cond), 2000)[0] == 'unsat':
                    t = False
                else:
                    raise Unsupported('undecided condition under a quantifier: ' + str(cond)[:200])
            if not t and not f:
                raise PathEnd()
            if t and f:
                self.check_scope(cond)
                d = Dec(1, [0], 'br')
                forced = False
            else:
                d = Dec(1 if t else 0, [], 'forced')
                forced = True
            self.trail.append(d)
            c = d.choice
            self._advance(c)
        self.add('f' if forced else 'b', cond if c else z3.Not(cond))
        return bool(c)

    def check_scope(self, cond):
        """a fork may only depend on this path's constants, never on a bound variable that is out of scope"""
        live = {g.get_id() for g in self.gens}
        seen, st = set(), [cond]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.get_id() not in live and _bound_name(x.decl().name()):
                    raise Unsupported('fork on a bound variable: ' + str(cond)[:200])
            st.extend(x.children())

    def add(self, kind, term):
        if z3.is_true(term):
            return
        self.pc.append((kind, term))

    def assume(self, term):
        if isinstance(term, bool):
            if not term:
                raise PathEnd()
            return
        term = getattr(term, 't', term)
        term = z3.simplify(term) if not z3.is_quantifier(term) else term
        if z3.is_false(term):
            raise PathEnd()
        self.add('a', term)

    # -- fresh symbols ------------------------------------------------------------------
    def uniq(self, hint):
        cid = self.ctx_ids.setdefault(self.ctx, len(self.ctx_ids))
        self.n_fresh += 1
        return '%s!%d.%d' % (hint, cid, self.n_fresh)

    def fresh(self, hint, sort):
        name = self.uniq(hint)
        if self.gens:
            f = z3.Function(name, *([g.sort() for g in self.gens] + [sort]))
            return f(*self.gens)
        return z3.Const(name, sort)

    def fresh_func(self, hint, arg_sorts, sort):
        """A fresh function; also depends on generic indices in scope."""
        name = self.uniq(hint)
        gens = list(self.gens)
        if not arg_sorts and not gens:
            c = z3.Const(name, sort)
            return lambda: c
        f = z3.Function(name, *([g.sort() for g in gens] + list(arg_sorts) + [sort]))
        return lambda *a: f(*(gens + list(a)))

    def index_var(self, hint):
        v = z3.Int(self.uniq(hint))
        self.index_vars.add(v.get_id())
        self._keep = getattr(self, '_keep', [])
        self._keep.append(v)
        return v

    # -- solver -------------------------------------------------------------------------
    def feasible(self, cond, quick=False):
        """paths are re-executed from the start: the same question under the same assumptions is asked once"""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        key = (quick, cond.get_id(), tuple(t.get_id() for _, t in self.pc), tuple(t.get_id() for t in self.axioms))
        r = self.asked.get(key)
        if r is None:
            # (the terms are kept alive with the answer, so that their identities are not used again)
            r = self.asked[key] = (self._feasible(cond, quick), cond, [t for _, t in self.pc], list(self.axioms))
        return r[0]

    def _feasible(self, cond, quick=False):
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.feas_ms)
        cond = z3.BoolVal(cond) if isinstance(cond, bool) else cond
        asserts = [t for _, t in self.pc if not has_quant(t)] + [cond] + self.bounds_of(cond)
        s.add(asserts)
        r = s.check()
        if r != z3.unsat and not quick and (self.axioms or any(has_quant(t) for _, t in self.pc)):
            s.set('timeout', self.feas_ms // 2)
            s.add([t for _, t in self.pc if has_quant(t)] + self.axioms)
            r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        return r != z3.unsat

    def bounds_of(self, cond):
        """the ranges of the positions and counts that occur in a condition"""
        if not self.folds:
            return []
        from .sym import _ground_apps
        out = []
        for a in _ground_apps(cond, lambda y: y.decl().name() in self.folds):
            fd = self.folds[a.decl().name()]
            if fd.kind in ('argmin', 'argmax', 'count') and len(fd.dims) == 1:
                d = z3.substitute(fd.dims[0], *zip(fd.params, a.children())) if fd.params else fd.dims[0]
                out.append(z3.Implies(d >= 0, z3.And(a >= 0, a <= d)) if fd.kind == 'count' else
                           z3.Implies(d > 0, z3.And(a >= 0, a < d)) if z3.is_true(fd.guard) else a >= 0)
        return out

    def known(self, cond):
        """True when the path condition entails cond (no fork, cheap)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return not self.feasible(z3.Not(cond))

    def prove(self, goal, timeout=None):
        """-> ('unsat'|'sat'|'unknown', model, backend)"""
        t0 = time.time()
        self.queries += 1
        asserts = self.axioms + [t for _, t in self.pc] + [z3.Not(goal)]
        lems = self.fold_lemmas(asserts)
        ms = timeout or self.solver_ms
        for seed, share in ((0, 0.4), (7, 0.3), (23, 0.3)):     # quantifier instantiation is a matter of luck
            s = z3.Solver()
            s.set('timeout', int(ms * share) if not timeout else ms)
            if seed:
                s.set('smt.random_seed', seed)
                s.set('smt.relevancy', 0 if seed == 23 else 2)
            s.add(asserts)
            s.add(lems)
            r = s.check()
            if r != z3.unknown or timeout:
                break
        m = None
        backend = 'z3'
        if r == z3.unknown:
            r2 = self.try_cvc5(s)
            if r2 == 'unsat':
                self.solver_time += time.time() - t0
                return 'unsat', None, 'cvc5'
        if r == z3.sat:
            m = self.small_model(asserts + lems) or s.model()
        self.solver_time += time.time() - t0
        return str(r), m, backend

    def small_model(self, asserts):
        """Prefer a counterexample with small sizes, for replay."""
        for lim in (3, 6):
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(asserts)
            for kind, name, v in self.inputs:
                if kind == 'int':
                    s.add(v <= lim)
                    s.add(v >= -lim)
            if s.check() == z3.sat:
                return s.model()
        return None

    def try_cvc5(self, s):
        try:
            import cvc5.pythonic as cp  # noqa: F401
        except Exception:
            return 'unknown'
        try:
            import cvc5
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(min(self.solver_ms, 5000)))
            slv.setOption('nl-ext-tplanes', 'true')
            parser = cvc5.InputParser(slv)
            text = s.to_smt2().replace('(check-sat)', '')
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + text, 'q')
            sm = parser.getSymbolManager()
            while True:
                c = parser.nextCommand()
                if c.isNull():
                    break
                c.invoke(slv, sm)
            r = slv.checkSat()
            return 'unsat' if r.isUnsat() else 'unknown'
        except Exception:
            return 'unknown'

    # -- obligations --------------------------------------------------------------------
    def check(self, name, goal):
        """Obligation: pc entails goal. After a discharged check the goal is assumed."""
        self.check_deadline()
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name)
        o.paths += 1
        goal = getattr(goal, 't', goal)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        t0 = time.time()
        if self.replaying:
            if o.status == 'discharged':
                self.add('a', goal)
            return
        if z3.is_true(g):
            o.backend.add('simplifier')
            return
        if o.status != 'discharged':
            return   # already failed on another path
        from .sym import simp_ground
        g2 = simp_ground(self, g)
        if z3.is_true(g2):
            r, m, be = 'unsat', None, 'z3'
        else:
            r, m, be = self.prove(g2 if not g2.eq(g) else goal)
        o.time += time.time() - t0
        if r == 'unsat':
            o.backend.add(be)
            self.add('a', goal)
            return
        o.status = 'refuted' if r == 'sat' else 'unknown'
        if r == 'sat' and (self.path_inexact or self.gens):
            o.reason = self.path_inexact or 'inside a generic loop iteration'
        if m is not None:
            o.model = self.decode_inputs(m)
            o.reason = (o.reason or '') + ' goal: ' + str(g)[:400].replace('\n', ' ')
        else:
            o.reason = (o.reason or '') + ' solver: unknown; goal: ' + str(g)[:400].replace('\n', ' ')

    def fail_path(self, name, why):
        """Obligation that this point is unreachable."""
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name)
        o.paths += 1
        if o.status != 'discharged':
            return
        r, m, be = self.prove(z3.BoolVal(False))
        if r == 'unsat':
            o.backend.add(be)
            return
        o.status = 'refuted' if r == 'sat' else 'unknown'
        o.reason = why
        if m is not None:
            o.model = self.decode_inputs(m)

    def cover(self, name):
        """Reachability cover: some path must get here with a satisfiable path condition."""
        if name in self.reached:
            return
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(self.axioms + [t for _, t in self.pc])
        r = s.check()
        if r != z3.unsat:
            self.reached.add(name if r == z3.sat else name + ' (satisfiability unknown)')
            self.reached.add(name)

    # -- model decoding -----------------------------------------------------------------
    def decode_inputs(self, m):
        out = {}
        try:
            for kind, name, v in self.inputs:
                if kind == 'int':
                    out[name] = m.eval(v, model_completion=True).as_long()
                elif kind == 'real':
                    out[name] = _real(m.eval(v, model_completion=True))
                elif kind == 'bool':
                    out[name] = z3.is_true(m.eval(v, model_completion=True))
                elif kind == 'choice':
                    out[name] = v
                elif kind == 'array':
                    shape, get = v
                    dims = [d if isinstance(d, int) else
                            m.eval(d.t, model_completion=True).as_long() for d in shape]
                    tot = 1
                    for d in dims:
                        tot *= max(d, 0)
                    if tot > 4000:
                        out[name] = {'shape': dims, 'data': None}
                        continue
                    out[name] = {'shape': dims, 'data': [
                        _dec(m, get(ix)) for ix in _ndindex(dims)]}
        except Exception as e:   # a model that cannot be decoded is not fatal
            out['__decode_error__'] = repr(e)
        return out

    # -- folds (sum/min/max/count over symbolic ranges) ---------------------------------
    def fold_lemmas(self, asserts, light=False):
        from . import folds
        return folds.lemmas(self, asserts, light)


def _bound_name(n):
    return n.startswith(('i!', 'k!', 'c!', 'ph!', 'sl!', 'probe!', 'pi!', 'lw!', 'eext!', 'rd!', 'snap!', 'vr!', 'rk!'))


_hq = {}


def has_quant(t):
    k = t.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    res, seen, st = False, set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    _hq[k] = (t, res)
    return res


def _ndindex(dims):
    if not dims:
        yield ()
        return
    import itertools
    yield from itertools.product(*[range(d) for d in dims])


def _real(v):
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return float(v.approx(10).as_fraction())
    return 0.0


def _dec(m, val):
    if isinstance(val, (int, float, bool)):
        return val
    t = getattr(val, 't', None)
    r = m.eval(t, model_completion=True)
    if getattr(val, 'nan', False) is not False:
        n = m.eval(val.nan, model_completion=True) if not isinstance(val.nan, bool) else val.nan
        if n is True or (not isinstance(n, bool) and z3.is_true(n)):
            return 'nan'
    if z3.is_bool(r):
        return z3.is_true(r)
    if z3.is_int_value(r):
        return r.as_long()
    return _real(r)
