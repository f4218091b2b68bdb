"""Loops over symbolic ranges.

A loop is decided in three modes (a decision of the trail):
 0  one generic iteration is executed from an arbitrary loop state (all its paths are recorded);
    obligations met in the body are proved for the generic iteration;
 1  the loop is left early (break / return / exception / while-condition) at some iteration i*;
    the state is the summary of the iterations before i*, and the body runs for real at i*;
 2  the loop runs to its end; the state is the summary of all iterations.
The summary is an invariant derived from the recorded paths; every derivation step that is not an
identity is discharged by the solver (linear counters, selection loops), anything else is Unsupported.
"""
import z3
from . import core
from .core import Unsupported, PathEnd, RestartLoop
from .sym import (SV, SInt, SReal, SBool, SObj, Poison, zi, zb, mk_int, mk_real, mk_bool, merge, subst, idivmod,
                  is_sym, is_int, is_num, rparts, mentions, _term_mentions, _nb, arith)
from .nparr import SArray, Buf, as_sarray, apply_write, note_write, flat_index, unflat, prod, cast
from .slist import SList, Seg
from .folds import sym_sum, Under
import numpy as np


class Domain:
    def __init__(self, dims, item, guard=None, on_start=None, on_end=None):
        self.dims, self.item, self.guard = list(dims), item, guard
        self.on_start, self.on_end = on_start, on_end
        self.unbounded = False


class SRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        e = core.ENG
        st = zi(self.step)
        if not e.known(st > 0):
            if e.known(st < 0) and isinstance(self.step, int):
                n = arith('//', arith('+', arith('-', self.start, self.stop), -self.step - 1), -self.step)
                return mk_int(z3.If(zi(n) > 0, zi(n), 0))
            if e.branch(st == 0):
                raise ValueError('range() arg 3 must not be zero')
            raise Unsupported('range step of unknown sign')
        d = arith('-', self.stop, self.start)
        if isinstance(self.step, int) and self.step == 1:
            t = zi(d)
            if e.known(t >= 0):
                return d
            return mk_int(z3.If(t > 0, t, 0))
        if isinstance(d, SInt):
            # ceil(d/step) for d > 0
            if e.branch(d.t <= 0):
                return 0
            return arith('+', arith('//', arith('-', d, 1), self.step), 1)
        n = arith('//', arith('+', d, arith('-', self.step, 1)), self.step)
        return mk_int(z3.If(zi(n) > 0, zi(n), 0))

    def at(self, i):
        return arith('+', self.start, arith('*', mk_int(zi(i)), self.step))

    def __iter__(self):
        raise Unsupported('library iteration over a symbolic range')

    def __contains__(self, x):
        if isinstance(self.step, int) and self.step == 1:
            return bool(mk_bool(z3.And(zi(x) >= zi(self.start), zi(x) < zi(self.stop))))
        raise Unsupported('in stepped symbolic range')


class SEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def __iter__(self):
        raise Unsupported('library iteration over symbolic enumerate')


class SZip:
    def __init__(self, its):
        self.its = its

    def __iter__(self):
        raise Unsupported('library iteration over symbolic zip')


class PGen:
    """What a generator of the verified code yields: run natively when its iterations are concrete; otherwise the list
    of what it yields (generators that only bind local names; assumption: the consumer does not change, while it
    consumes, what the generator reads)."""

    def __init__(self, native, build):
        self.native, self.build, self.it, self.lst = native, build, None, None

    def listed(self):
        if self.it is not None:
            raise Unsupported('a generator that has been read partly')
        if self.lst is None:
            self.lst = self.build()
        return self.lst

    def __iter__(self):
        if self.it is None:
            self.it = self.native()
        return self.it

    def __next__(self):
        return next(iter(self))


class SIter:
    """iter() of something of symbolic length: can be consumed once, as a whole"""

    def __init__(self, it):
        self.it, self.used = it, False

    def take(self):
        if self.used:
            raise Unsupported('an iterator that has been read')
        self.used = True
        return self.it

    def __iter__(self):
        return self

    def __next__(self):
        raise Unsupported('next() of something of symbolic length')


def domain_of(it):
    """-> Domain, or None when `it` can be iterated concretely"""
    e = core.ENG
    if type(it).__name__ == 'SSet':
        if it.elems is None:
            return None
        l = it.aslist()
        return domain_of(l) if l.segs is not None else l
    if isinstance(it, SList):
        if it.segs is None:
            return None
        if len(it.segs) == 1 and isinstance(it.segs[0], Seg):
            s = it.segs[0]
            return Domain(s.dims, s.fn, s.guard)
        if any(isinstance(s, Seg) and s.guard for s in it.segs):
            raise Unsupported('iteration over a list with filtered and other parts')
        fr = it.frozen()
        return Domain([it.symlen()], lambda ix: fr.at(ix[0]))
    if isinstance(it, SArray):
        n = it.shape[0]
        if isinstance(n, int):
            return None
        if it.positions is not None and it.imap is None and it.buf.content is it.positions[2]:
            return Domain(it.positions[0], lambda ix: mk_int(zi(ix[0])), it.positions[1])
        return Domain([n], lambda ix: it[SInt(ix[0])] if it.ndim > 1 else it.read(ix))
    if isinstance(it, SRange):
        n = it.length()
        if isinstance(n, int) and isinstance(it.start, int) and isinstance(it.step, int):
            return SList([it.start + k * it.step for k in range(n)])
        return Domain([n], lambda ix: it.at(ix[0]))
    if isinstance(it, SEnum):
        d = domain_of(it.it)
        if d is None or isinstance(d, list):
            return SList([(it.start + k, v) for k, v in enumerate(it.it)])
        if d.guard is not None:
            from .folds import enum
            en = enum(d.dims, lambda ix: d.guard(ix))
            return Domain(d.dims, lambda ix: (mk_int(en.rank(ix) + zi(it.start)), d.item(ix)), d.guard,
                          d.on_start, d.on_end)
        return Domain(d.dims, lambda ix: (mk_int(flat_index(ix, d.dims) + zi(it.start)), d.item(ix)), None,
                      d.on_start, d.on_end)
    if isinstance(it, SZip):
        ds = []
        n = None
        for x in it.its:
            d = domain_of(x)
            if d is None or isinstance(d, list):
                x = SList(list(x))
                d = Domain([len(x)], lambda ix, x=x: x.at(ix[0]))
            if d.guard is not None or d.on_start or d.on_end:
                raise Unsupported('zip over a filtered iteration')
            ds.append(d)
            ln = prod(d.dims)
            if n is None:
                n = ln
            elif not core.ENG.branch(zi(n) == zi(ln)):
                n = ln if core.ENG.branch(zi(ln) < zi(n)) else n
        if all(len(d.dims) == 1 for d in ds):
            return Domain([n], lambda ix: tuple(d.item(ix) for d in ds))
        if all(len(d.dims) == len(ds[0].dims) for d in ds) and \
                all(e.known(zi(a) == zi(b)) for d in ds for a, b in zip(d.dims, ds[0].dims)):
            return Domain(ds[0].dims, lambda ix: tuple(d.item(ix) for d in ds))
        return Domain([n], lambda ix: tuple(d.item(unflat(ix[0], d.dims) if len(d.dims) > 1 else ix) for d in ds))
    if isinstance(it, PGen):
        l = it.listed()
        return None if l.segs is None else domain_of(l)
    if isinstance(it, SIter):
        it = it.take()
        d = domain_of(it)
        return SList(list(it)) if d is None else d
    if isinstance(it, Poison):
        it._no()
    if core.owned(it) and hasattr(type(it), '__iter__') and not hasattr(type(it), '__next__'):
        r = type(it).__iter__(it)
        return domain_of(r) if isinstance(r, (SIter, PGen)) else None
    if core.owned(it) and hasattr(type(it), '__next__'):
        for f in e.iter_contracts:
            d = f(it)
            if d is not None:
                return d
        raise Unsupported('no iteration contract for %s' % type(it).__name__)
    return None


class Frame:
    def __init__(self, serial):
        self.serial = serial
        self.reads, self.writes, self.appends, self.lreads, self.lwrites = [], [], [], [], []
        self.undo = []


class LoopInfo:
    def __init__(self):
        self.paths = []          # (decisions, kind)
        self.modes = {}          # slot -> ('havoc',kind) | ('lin', c) | ('poison',)
        self.nolin = set()
        self.carried_attrs = []


class LoopSpec:
    """A loop contract written by hand (contract files subclass it).

    entry(S)       called once when the loop is reached; may keep ghost values on the spec (returned object g)
    havoc(S, g, t) sets the loop's variables to arbitrary values that can hold after t iterations
    inv(S, g, t)   yields (name, proposition): checked on entry (t = 0) and after an iteration (t + 1)
    assume(S, g, t) adds what havoc does not build in (default: every proposition of inv)
    A variable assigned by the loop that havoc does not set is unusable afterwards (until it is assigned).
    """
    func, depth, needs = '', 1, ()

    def entry(self, S):
        return None

    def assume(self, S, g, t):
        for _, c in self.inv(S, g, t):
            core.ENG.assume(zb(c))


class LoopVars:
    """the local variables of the function that the loop reads or assigns"""

    def __init__(self, cells):
        object.__setattr__(self, '_c', cells)

    def __getattr__(self, n):
        c = self._c.get(n)
        if c is None:
            raise Unsupported('loop contract: no variable %s' % n)
        try:
            return c.cell_contents
        except ValueError:
            raise Unsupported('loop contract: %s has no value' % n)

    def __setattr__(self, n, v):
        c = self._c.get(n)
        if c is None:
            raise Unsupported('loop contract: no variable %s' % n)
        c.cell_contents = v


def spec_for(body):
    e = core.ENG
    q = getattr(body, '__qualname__', None)
    if not e.loop_specs or q is None:
        return None
    parts = [p for p in q.split('.') if p != '<locals>']
    depth = sum(1 for p in parts if p.startswith('__loop'))
    fn = '.'.join(p for p in parts if not p.startswith('__loop'))
    for s in e.loop_specs:
        if s.func == fn and s.depth == depth:
            return s
    return None


def contracted(spec, d, cond, body, assigned):
    """a loop decided by its contract: entry, one arbitrary iteration, exit. A filtered iteration goes over the
    positions of what is filtered; where the filter does not hold nothing happens."""
    e = core.ENG
    e.contracted = True
    cells = dict(cell_map(body))
    for c in [cond] if cond is not None else []:
        for n, x in cell_map(c).items():
            cells.setdefault(n, x)
    if any(n not in cells for n in spec.needs):
        raise Unsupported('loop contract of %s: the loop has other variables' % spec.func)
    S = LoopVars(cells)
    tag = '%s, loop %d' % (spec.func, spec.depth)
    n = guard = None
    if d is not None:
        if len(d.dims) != 1 or d.on_start or d.on_end:
            raise Unsupported('loop contract over this kind of iteration')
        guard, n = d.guard, d.dims[0]
        spec.item = lambda t: d.item((zi(t),))
        spec.visits = lambda t: True if guard is None else mk_bool(zb(guard((zi(t),))))
    g = spec.entry(S)
    for name, c in spec.inv(S, g, 0):
        e.check('%s: %s (on entry)' % (tag, name), zb(c))
    mode = e.decide(2, 'inv')
    for nm in assigned:
        if nm in cells:
            cells[nm].cell_contents = Poison('value of %s after an iteration' % nm)

    def at(t):
        spec.havoc(S, g, t)
        spec.assume(S, g, t)

    def kept(t):
        for name, c in spec.inv(S, g, mk_int(z3.simplify(t + 1))):
            e.check('%s: %s (kept)' % (tag, name), zb(c))
        raise PathEnd()
    if mode == 0:
        t = e.fresh('t', z3.IntSort())
        e.add('a', z3.And(t >= 0, t < zi(n)) if d is not None else t >= 0)
        at(mk_int(t))
        if cond is not None and not cond():
            raise PathEnd()
        if guard is not None:
            gt = zb(guard((t,)))
            if e.decide(2, 'guard') == 1:
                e.add('a', z3.Not(gt))
                kept(t)
            e.add('a', gt)
        if not e.feasible(z3.BoolVal(True)):
            raise PathEnd()
        objs = [(o, dict(o.__dict__)) for _, o in reachable(cells, None)]
        e.serial += 1
        fr = Frame(e.serial)
        e.frames.append(fr)
        r = body(d.item((t,)) if d is not None else None)
        e.frames.pop()
        if fr.writes or fr.appends or fr.lwrites or any(
                set(o.__dict__) != set(dd) or any(o.__dict__[a] is not dd[a] for a in dd) for o, dd in objs):
            raise Unsupported('loop contract: the loop changes an object')
        if r is not None:
            return r
        kept(t)
    if d is None:
        t = e.fresh('t', z3.IntSort())
        e.add('a', t >= 0)
        at(mk_int(t))
        if cond():
            raise PathEnd()
        return None
    at(mk_int(z3.If(zi(n) > 0, zi(n), 0)))
    return None


def run_for(loop_id, it, body, assigned=()):
    """executes `for target in it: body`; body(item) -> None | ('b',) | ('r', v)"""
    d = domain_of(it)
    if core.ENG.loop_specs:
        sp = spec_for(body)
        if sp is not None:
            if d is None or isinstance(d, list):
                raise Unsupported('loop contract over a concrete iteration')
            return contracted(sp, d, None, body, assigned)
    if d is None or isinstance(d, list):
        src = it if d is None else d
        if isinstance(src, SRange):
            src = range(src.start, src.stop, src.step)
        for x in src:
            r = body(x)
            if r is not None:
                return r
        return None
    if all(isinstance(n, int) for n in d.dims) and prod(d.dims) <= 12:
        import itertools
        if d.on_start:
            d.on_start()
        for ix in itertools.product(*[range(n) for n in d.dims]):
            iv = tuple(z3.IntVal(i) for i in ix)
            if d.guard is not None and not core.ENG.branch(zb(d.guard(iv))):
                continue
            r = body(d.item(iv))
            if r is not None:
                return r
        if d.on_end:
            d.on_end()
        return None
    return sym_loop(loop_id, d, body, assigned, it)


def run_while(loop_id, cond, body, assigned=()):
    """while cond(): body()  -- concrete steps first, symbolic treatment when it does not end"""
    e = core.ENG
    if e.loop_specs:
        sp = spec_for(body)
        if sp is not None:
            return contracted(sp, None, cond, body, assigned)
    if not e.while_symbolic and loop_id not in e.sym_whiles:
        pos = e.pos
        for _ in range(200):
            if not cond():
                return None
            r = body(None)
            if r is not None:
                return r
            if any(dd.kind == 'br' for dd in e.trail[pos:e.pos]):
                # its iterations depend on symbolic data: treat it with a summary
                e.sym_whiles.add(loop_id)
                raise core.RestartAll()
        raise Unsupported('while loop does not end within 200 concrete steps')
    d = Domain([None], lambda ix: None)
    d.unbounded = True

    def step(item):
        if not cond():
            return ('c',)
        return body(item)
    step.__pydv_cells__ = [body, cond]
    r = sym_loop(loop_id, d, step, assigned, None)
    return None if r == ('c',) else r


# -----------------------------------------------------------------------------------------
def cell_map(body):
    out = {}
    fs = getattr(body, '__pydv_cells__', [body])
    for f in fs:
        names = f.__code__.co_freevars
        for n, c in zip(names, f.__closure__ or ()):
            out.setdefault(n, c)
    return out


def reachable(cells, extra):
    """spta objects reachable from the loop's variables, with a deterministic path"""
    out, seen = [], set()
    st = []
    for n in sorted(cells):
        try:
            st.append(((n,), cells[n].cell_contents))
        except ValueError:
            pass
    if extra is not None:
        st.append((('<iter>',), extra))
    st.reverse()
    while st:
        path, v = st.pop()
        if len(path) > 6 or isinstance(v, SV):
            continue
        if isinstance(v, (tuple,)) or (isinstance(v, SList) and v.segs is None) or type(v) is list:
            if id(v) in seen:
                continue
            seen.add(id(v))
            for k, x in list(enumerate(list.__iter__(v) if isinstance(v, list) else v))[:20]:
                st.append((path + (k,), x))
            continue
        d = getattr(v, '__dict__', None)
        if isinstance(d, dict) and core.owned(v) and not isinstance(v, type):
            if id(v) in seen:
                continue
            seen.add(id(v))
            out.append((path, v))
            for k in sorted(d):
                st.append((path + (k,), d[k]))
    return out


def sym_loop(loop_id, d, body, assigned, it):
    e = core.ENG
    key = (loop_id, e.ctx)
    info = e.loop_sums.get(key)
    if info is None:
        info = e.loop_sums[key] = LoopInfo()
    pos = e.pos
    ctx0 = e.ctx
    cells = cell_map(body)
    names = [n for n in assigned if n in cells]
    first = pos >= len(e.trail)
    objs = reachable(cells, it)
    mode = e.decide(3, 'loop')
    ls = LoopState(e, info, d, body, cells, names, objs, pos, ctx0)
    if mode == 0:
        if not e.trail[pos + 1:]:
            info.paths = []
        ls.explore()
        raise PathEnd()
    if mode == 1:
        if not any(k != 'normal' for _, k in info.paths):
            raise PathEnd()
        return ls.early_exit()
    if d.unbounded:
        raise PathEnd()
    if not any(k == 'normal' for _, k in info.paths):
        # no iteration completes normally: the loop can only end by having no iteration
        e.assume(z3.Or(*[zi(n) <= 0 for n in d.dims]) if d.guard is None else z3.BoolVal(True))
        if d.guard is not None:
            raise Unsupported('filtered loop whose body never completes')
        if d.on_end:
            d.on_end()
        return None
    return ls.complete()


class PathRec:
    pass


class LoopState:
    def __init__(self, e, info, d, body, cells, names, objs, pos, ctx0):
        self.e, self.info, self.d, self.body = e, info, d, body
        self.cells, self.names, self.objs, self.pos, self.ctx0 = cells, names, objs, pos, ctx0
        self.pre = {}
        for n in names:
            try:
                self.pre[('cell', n)] = cells[n].cell_contents
            except ValueError:
                self.pre[('cell', n)] = UNBOUND
        self.objmap = {p: o for p, o in objs}
        for p, a in info.carried_attrs:
            self.pre[('attr', p, a)] = self.objmap[p].__dict__.get(a, UNBOUND)
        self.snap = [(p, o, dict(o.__dict__)) for p, o in objs]

    # -- slots ---------------------------------------------------------------------------
    def setslot(self, s, v):
        if s[0] == 'cell':
            c = self.cells[s[1]]
            if v is UNBOUND:
                try:
                    del c.cell_contents
                except ValueError:
                    pass
            else:
                c.cell_contents = v
        else:
            o = self.objmap[s[1]]
            if v is UNBOUND:
                o.__dict__.pop(s[2], None)
            else:
                o.__dict__[s[2]] = v

    def getslot(self, s):
        if s[0] == 'cell':
            try:
                return self.cells[s[1]].cell_contents
            except ValueError:
                return UNBOUND
        return self.objmap[s[1]].__dict__.get(s[2], UNBOUND)

    def restore(self):
        for s, v in self.pre.items():
            self.setslot(s, v)
        for p, o, dd in self.snap:
            o.__dict__.clear()
            o.__dict__.update(dd)

    # -- one generic iteration -----------------------------------------------------------
    def enter(self, idx, restrict=None):
        """assume idx is in the domain; install loop-state values; returns havoc map"""
        e, d = self.e, self.d
        self.mark = len(e.pc)
        e.gens.extend(idx)
        rng = []
        for v, n in zip(idx, d.dims):
            rng.append(v >= 0)
            if n is not None:
                rng.append(v < zi(n))
        e.pc.append(('r', z3.And(*rng)))
        if restrict is not None:
            e.pc.append(('r', restrict))
        if d.on_start:
            d.on_start('body')
        if d.guard is not None:
            g = zb(d.guard(idx))
            self.gterm = (tuple(idx), g)
            e.pc.append(('r', g))
        self.havoc = {}
        for s, v in self.pre.items():
            self.setslot(s, self.havoc_value(s, v, idx))
        e.serial += 1
        self.frame = Frame(e.serial)
        e.frames.append(self.frame)

    def guard_at(self, ix):
        """the filter at ix (its term was computed for an index inside the dimensions)"""
        i, g = self.gterm
        return z3.substitute(g, *[(a, zi(b)) for a, b in zip(i, ix)])

    def position(self, idx):
        return idx[0] if len(idx) == 1 else flat_index(idx, self.d.dims)

    def havoc_value(self, s, v, idx):
        e = self.e
        m = self.info.modes.get(s)
        if m is not None and m[0] == 'poison' or v is UNBOUND:
            p = Poison('loop-carried value of %s' % (s[-1],))
            self.havoc[s] = ('poison', p)
            return p if v is not UNBOUND else UNBOUND
        if m is not None and m[0] == 'lin':
            t = mk_int(zi(v) + m[1] * self.position(idx))
            self.havoc[s] = ('lin', t)
            return t
        kind = m[1] if m is not None and m[0] == 'havoc' else None
        nm = 'h_%s' % s[-1]
        if kind is None:
            if isinstance(v, (bool, SBool)):
                kind = 'b'
            elif isinstance(v, (int, SInt)):
                kind = 'i'
            elif isinstance(v, float) and abs(v) == float('inf'):
                kind = 'x'
            elif isinstance(v, (float, SReal)):
                kind = 'f'
        if kind == 'b':
            h = SBool(e.fresh(nm, z3.BoolSort()))
        elif kind == 'i':
            h = SInt(e.fresh(nm, z3.IntSort()))
        elif kind == 'f':
            h = SReal(e.fresh(nm, z3.RealSort()), e.fresh(nm + '_nan', z3.BoolSort())
                      if not (isinstance(v, (int, float, SInt)) or getattr(v, 'nan', False) is False) else False)
        elif kind == 'x':
            h = SReal(e.fresh(nm, z3.RealSort()), False, None)
            h.inf = e.fresh(nm + '_inf', z3.IntSort())
            e.pc.append(('r', z3.And(h.inf >= -1, h.inf <= 1)))
        else:
            self.havoc[s] = ('same', v)
            return v
        self.havoc[s] = ('havoc', h)
        return h

    def run_body(self, idx):
        """-> kind"""
        e = self.e
        try:
            r = self.body(self.d.item(idx))
        except Exception as ex:      # noqa: the code under verification may raise anything
            return 'exc'
        if r is None:
            return 'normal'
        return {'b': 'break', 'r': 'return', 'c': 'cond'}[r[0]]

    def leave(self):
        e = self.e
        new = e.pc[self.mark:]
        del e.pc[self.mark:]
        n = len(self.idx)
        if n:
            del e.gens[len(e.gens) - n:]
        e.frames.pop()
        return new

    def explore(self):
        e, info = self.e, self.info
        idx = tuple(e.index_var('i') for _ in self.d.dims)
        self.idx = idx
        self.enter(idx)
        kind = self.run_body(idx)
        self.check_slots(kind, idx)
        decs = [(dd.choice, dd.kind) for dd in e.trail[self.pos + 1:]]
        info.paths.append((decs, kind))

    def restart(self):
        self.info.paths = []
        raise RestartLoop(self.pos)

    def check_slots(self, kind, idx):
        """discover further loop-carried state; restart the exploration when found"""
        e, info = self.e, self.info
        for p, o, dd in self.snap:
            for a in set(dd) | set(o.__dict__):
                s = ('attr', p, a)
                if s in self.pre:
                    continue
                x, y = dd.get(a, UNBOUND), o.__dict__.get(a, UNBOUND)
                if x is not y and not _same(x, y):
                    if a == 'logger':
                        continue
                    info.carried_attrs.append((p, a))
                    self.restart()
        if kind != 'normal':
            return
        for s, (hk, h) in self.havoc.items():
            f = self.getslot(s)
            if hk == 'same' and f is not h:
                info.modes[s] = ('poison',)
                self.restart()
            if hk == 'havoc':
                if isinstance(h, SInt) and isinstance(f, (SReal, float)):
                    info.modes[s] = ('havoc', 'f')
                    self.restart()
                if isinstance(h, SReal) and f is not h and isinstance(f, SReal) and f.nan is not False \
                        and h.nan is False and _term_mentions_nan(f, h):
                    pass
                if not is_num(f):
                    info.modes[s] = ('poison',)
                    self.restart()
                if isinstance(h, SInt) and is_int(f) and s not in info.nolin and self.d.guard is None:
                    diff = z3.simplify(zi(f) - h.t)
                    ids = {g.get_id() for g in self.idx}
                    if not _term_mentions(diff, ids) and not (z3.is_int_value(diff) and diff.as_long() == 0):
                        info.modes[s] = ('lin', diff)
                        self.restart()
            if hk == 'lin':
                m = info.modes[s]
                goal = zi(f) == zi(self.pre[s]) + m[1] * (self.position(idx) + 1)
                if e.known(z3.simplify(goal)):
                    continue
                info.nolin.add(s)
                del info.modes[s]
                self.restart()

    # -- replaying the recorded paths in the current run ---------------------------------
    def replay_all(self):
        e = self.e
        recs = []
        idx = None
        saved = (e.trail, e.pos, e.ctx, e.n_fresh)
        for decs, kind in self.info.paths:
            e.trail = saved[0][:self.pos] + [core.Dec(0, [], 'loop')] + [core.Dec(c, [], k) for c, k in decs]
            e.pos = self.pos + 1
            e.ctx = self.ctx0 + (0,)
            e.n_fresh = 0
            e.replaying += 1
            bufsnap = {}
            idx = tuple(e.index_var('i') for _ in self.d.dims)
            self.idx = idx
            self.enter(idx)
            try:
                k = self.run_body(idx)
            except PathEnd:
                raise Unsupported('loop replay diverged')
            if k != kind or e.pos != len(e.trail):
                raise Unsupported('loop replay diverged')
            r = PathRec()
            r.kind, r.idx = kind, idx
            r.final = {s: self.getslot(s) for s in self.pre}
            r.havoc = dict(self.havoc)
            r.fr = self.frame
            new = self.leave()
            r.guard = z3.And([z3.BoolVal(True)] + [t for k2, t in new if k2 == 'b'])
            r.facts = [t for k2, t in new if k2 in ('a',)]
            r.trace = [(k2, t) for k2, t in new if k2 in ('a', 'b')]
            r.rng = z3.And([z3.BoolVal(True)] + [t for k2, t in new if k2 == 'r'])
            # undo buffer writes of this replay
            for b, old in reversed(r.fr.undo):
                b.content = old
            self.restore()
            e.replaying -= 1
            recs.append(r)
        e.trail, e.pos, e.ctx, e.n_fresh = saved
        self.recs = recs
        self.normal = [r for r in recs if r.kind == 'normal']
        self.exits = [r for r in recs if r.kind != 'normal']
        self.idx = idx
        return recs

    # -- the summary over the iterations in a (restricted) domain ------------------------
    def apply_summary(self, in_dom, prefix_of=None):
        """in_dom(idx) -> z3 Bool: which iterations have been executed.
        Sets slots, buffers, lists to the state after them."""
        e, d = self.e, self.d
        normal = self.normal
        i = self.idx
        hav_ids = set()
        for r in normal[:1]:
            for s, (hk, h) in r.havoc.items():
                if hk == 'havoc':
                    for t in (h.t, getattr(h, 'nan', None), getattr(h, 'inf', None)):
                        if isinstance(t, z3.ExprRef):
                            hav_ids.add(t.get_id())
        self.hav_ids = hav_ids
        i_ids = {x.get_id() for x in i}

        def dom(ix):
            c = [v >= 0 for v in ix] + [v < zi(n) for v, n in zip(ix, d.dims) if n is not None]
            if d.guard is not None:
                c.append(self.guard_at(ix))
            return z3.And(*(c + [in_dom(ix)]))
        self.dom = dom

        def at(v, ix):
            return subst(v, [(a, zi(b)) for a, b in zip(i, ix)])

        # facts established by each iteration
        for r in normal:
            fs = [f for f in r.facts if not _term_mentions(f, hav_ids)]
            if fs and not _term_mentions(r.guard, hav_ids):
                e.add('a', z3.ForAll(list(i), z3.Implies(z3.And(dom(i), r.guard), z3.And(*fs))))
            elif fs:
                # what was established before the carried state first mattered
                before, early = [], []
                for k2, t in r.trace:
                    if _term_mentions(t, hav_ids):
                        if k2 == 'b':
                            break
                    elif k2 == 'b':
                        before.append(t)
                    else:
                        early.append(t)
                if early:
                    e.add('a', z3.ForAll(list(i), z3.Implies(z3.And(*([dom(i)] + before)), z3.And(*early))))
        if self.exits and not any(_term_mentions(r.guard, hav_ids) for r in normal):
            g = z3.simplify(z3.Or(*[r.guard for r in normal]))
            if not z3.is_true(g):
                e.add('a', z3.ForAll(list(i), z3.Implies(dom(i), g)))
        elif self.exits and normal:
            # keep what the exits say without the carried state
            for r in self.exits:
                if not _term_mentions(r.guard, hav_ids):
                    e.add('a', z3.ForAll(list(i), z3.Implies(dom(i), z3.Not(r.guard))))
        # slots
        post = {}
        select = []
        for s in self.pre:
            hk, h = normal[0].havoc[s]
            fin = [r.final[s] for r in normal]
            hs = [r.havoc[s][1] for r in normal]
            if hk == 'same' or all(f is hh for f, hh in zip(fin, hs)):
                continue
            if hk == 'lin':
                m = self.info.modes[s]
                if prefix_of is not None:
                    cnt = self.position(prefix_of)
                else:
                    cnt = z3.simplify(z3.If(z3.Or(*[zi(n) <= 0 for n in d.dims]), 0, zi(prod(d.dims))))
                    if e.known(z3.And(*[zi(n) >= 0 for n in d.dims])):
                        cnt = zi(prod(d.dims))
                post[s] = mk_int(zi(self.pre[s]) + m[1] * cnt)
                continue
            if hk == 'havoc' and all(is_num(f) for f in fin) and self.try_sum(s, fin, normal, dom, post, prefix_of):
                continue
            changed = [r for r, f in zip(normal, fin) if f is not r.havoc[s][1]]
            if len(changed) < len(normal) or (len(normal) == 1 and hk == 'havoc' and False):
                select.append((s, changed))
                continue
            post[s] = Poison('value of %s after a loop' % (s[-1],))
        if select:
            self.select_template(select, dom, post, at)
        # arrays
        self.apply_writes(dom)
        self.apply_appends(dom, prefix_of)
        self.restore()
        for s, v in post.items():
            self.setslot(s, v)

    def try_sum(self, s, fin, normal, dom, post, prefix_of):
        """slot' = slot + e(i) on every path, e independent of the carried state"""
        d, i = self.d, self.idx
        inty = all(is_int(f) for f in fin) and isinstance(normal[0].havoc[s][1], SInt)
        deltas = []
        nans = []
        for r, f in zip(normal, fin):
            h = r.havoc[s][1]
            if has_inf(h):
                return False
            if isinstance(h, SBool):
                return False
            if inty:
                dl = z3.simplify(zi(f) - zi(h))
                nan = False
            else:
                (a, n1), (b, n2) = rparts(f), rparts(h)
                dl = z3.simplify(a - b)
                if n1 is False or n1 is n2:
                    nan = False
                else:
                    nan = z3.simplify(z3.substitute(_nb(n1), (_nb(n2), z3.BoolVal(False)))) \
                        if not isinstance(n2, bool) else n1
            if _term_mentions(dl, self.hav_ids) or _term_mentions(r.guard, self.hav_ids) or \
                    (nan is not False and _term_mentions(_nb(nan), self.hav_ids)):
                return False
            deltas.append((r.guard, dl))
            nans.append((r.guard, nan))

        def body(ix):
            sub = [(a, zi(b)) for a, b in zip(i, ix)]
            out = None
            for g, dl in reversed(deltas):
                v = z3.substitute(dl, *sub)
                out = v if out is None else z3.If(z3.substitute(g, *sub), v, out)
            nan = False
            if any(n is not False for _, n in nans):
                nan = z3.Or(*[z3.substitute(z3.And(g, _nb(n)), *sub) for g, n in nans])
            return mk_int(out) if inty else mk_real(out, nan)
        if prefix_of is not None:
            if len(d.dims) != 1:
                return False
            dims = [mk_int(prefix_of[0])]
        else:
            dims = d.dims
        guard = self.guard_at if d.guard is not None else None
        post[s] = arith('+', self.pre[s], sym_sum(dims, body, guard))
        return True

    def select_template(self, select, dom, post, at):
        """slots that are replaced together on an update path and kept on the others"""
        e = self.e
        upd = None
        for s, ch in select:
            for r in ch:
                if upd is None:
                    upd = r
                elif upd is not r:
                    raise Unsupported('loop-carried state outside the supported invariants (%s)' % (s[-1],))
        slots = [s for s, _ in select]
        h = {s: upd.havoc[s][1] for s in slots}
        f = {s: upd.final[s] for s in slots}
        for s in slots:
            if mentions(f[s], self.hav_ids):
                raise Unsupported('loop-carried state outside the supported invariants (%s)' % (s[-1],))
        gh = upd.guard
        ids = set()
        for s in slots:
            for t in _parts(h[s]):
                ids.add(t.get_id())
        if any(_term_mentions(gh, self.hav_ids - ids) for _ in [0]):
            raise Unsupported('selection loop depends on other carried state')

        i = self.idx

        def update(ix, state):
            """guard of the update path at iteration ix in state (dict slot->value)"""
            pairs = []
            for s in slots:
                if upd.havoc[s][0] != 'havoc':
                    continue
                hp = _parts(h[s])
                vp = _value_parts(state[s], h[s])
                pairs += list(zip(hp, vp))
            # the havoc constants are functions of i: replace them before i
            g = z3.substitute(gh, *pairs) if pairs else gh
            return subst_protect(g, i, ix)

        def stateof(ix):
            return {s: at(f[s], ix) for s in slots}
        pre = {s: self.pre[s] for s in slots}
        nofail = lambda: None
        j1 = tuple(z3.Int('selA!%d' % k) for k in range(len(i)))
        j2 = tuple(z3.Int('selB!%d' % k) for k in range(len(i)))
        hs = {s: h[s] for s in slots}
        base = [dom(j1), dom(j2)]
        s1, s2 = stateof(j1), stateof(j2)
        hg = {s: _fresh_like(h[s], e, upd.havoc[s][0]) for s in slots}
        wf = [z3.And(x.inf >= -1, x.inf <= 1) for x in hg.values() if has_inf(x)]
        side = [
            ('an iteration does not replace its own selection', z3.Implies(dom(j1), z3.Not(update(j1, s1)))),
            ('a rejected iteration stays rejected', z3.Implies(
                z3.And(*(base + wf + [update(j1, hg), z3.Not(update(j2, hg))])), z3.Not(update(j2, s1)))),
            ('transitive', z3.Implies(z3.And(*(base + wf + [update(j1, s2), update(j2, hg)])), update(j1, hg))),
        ]
        for nm, goal in side:
            r, m, be = e.prove(goal, 4000)
            if r != 'unsat':
                raise Unsupported('selection loop: cannot show "%s"' % nm)
        first = z3.Implies(z3.And(*(base + wf + [update(j1, hg), z3.Not(update(j2, hg))])), update(j1, s2))
        has_first = e.prove(first, 4000)[0] == 'unsat'
        rel_first = False
        if not has_first:
            rel = z3.Implies(z3.And(*(base + wf + [update(j1, hg), z3.Not(update(j2, hg)), update(j2, pre)])), update(j1, s2))
            rel_first = e.prove(rel, 4000)[0] == 'unsat'
        e.lemmas_used.add('selection loop')
        if e.decide(2, 'select') == 0:
            e.assume(z3.ForAll(list(i), z3.Implies(dom(i), z3.Not(update(i, pre)))))
            for s in slots:
                post[s] = self.pre[s]
            return
        w = tuple(e.fresh('sel', z3.IntSort()) for _ in i)
        for x in w:
            e.point_vars.add(x.get_id())
            e._keep.append(x)
        sw = stateof(w)
        e.assume(dom(w))
        e.assume(update(w, pre))
        for t in upd.facts:
            # the update path was taken at w
            if not _term_mentions(t, self.hav_ids):
                e.assume(at(t, w))
        e.assume(z3.ForAll(list(i), z3.Implies(dom(i), z3.Not(update(i, sw)))))
        if has_first:
            si = stateof(i)
            e.assume(z3.ForAll(list(i), z3.Implies(z3.And(dom(i), lex_lt(i, w)), update(w, si))))
        elif rel_first:
            # an earlier iteration that could have been selected at all is beaten by w
            si = stateof(i)
            e.assume(z3.ForAll(list(i), z3.Implies(z3.And(dom(i), lex_lt(i, w), update(i, pre)), update(w, si))))
        for s in slots:
            post[s] = sw[s]
        if not e.feasible(z3.BoolVal(True)):
            raise PathEnd()

    # -- array writes --------------------------------------------------------------------
    def apply_writes(self, dom):
        e, i = self.e, self.idx
        bufs = []
        for r in self.normal:
            if r.fr.lwrites:
                raise Unsupported('list element assignment in a symbolic loop')
            for b, *_ in r.fr.writes:
                if b not in bufs:
                    bufs.append(b)
        for b in bufs:
            per = []     # (guard, cover, val) per path; sequential writes merged
            pins_all = []
            for r in self.normal:
                ws = [(c, v, p) for bb, c, v, p in r.fr.writes if bb is b]
                if not ws:
                    per.append((r.guard, None, None))
                    continue
                for c, v, p in ws:
                    pins_all.append(p)

                def cover(c, ws=ws):
                    return z3.Or(*[w[0](c) for w in ws])

                def val(c, ws=ws):
                    out = ws[0][1](c)
                    for w in ws[1:]:
                        out = merge(w[0](c), w[1](c), out)
                    return out
                per.append((r.guard, cover, val))
            if any(_term_mentions(g, self.hav_ids) for g, c, v in per):
                raise Unsupported('conditional array write depending on carried state')
            sol = invert(pins_all, i, self.d)
            # the body must not read other cells of an array it writes
            for r in self.normal + self.exits:
                for bb, ridx in r.fr.reads:
                    if bb is not b:
                        continue
                    if sol is None:
                        raise Unsupported('loop reads an array it writes')
                    ok = False
                    for p in pins_all:
                        if all(pin_matches(e, q, x) for q, x in zip(p, ridx)):
                            ok = True
                    if not ok:
                        raise Unsupported('loop reads cells of an array written by other iterations')
            hav = self.hav_ids

            def covered(ix, c):
                sub = [(a, zi(x)) for a, x in zip(i, ix)]
                parts = []
                for g, cv, vl in per:
                    if cv is None:
                        continue
                    ph = fresh_ph(len(c))
                    t = z3.substitute(z3.And(g, cv(ph)), *(sub + list(zip(ph, c))))
                    parts.append(t)
                return z3.Or(*parts)

            def value(ix, c):
                sub = [(a, zi(x)) for a, x in zip(i, ix)]
                out = UNSET
                for g, cv, vl in reversed(per):
                    if cv is None:
                        continue
                    ph = fresh_ph(len(c))
                    v = subst(vl(ph), sub + list(zip(ph, [zi(x) for x in c])))
                    if mentions(v, hav):
                        raise Unsupported('array write of a carried value')
                    if out is UNSET:
                        out = v
                    else:
                        gg = z3.substitute(z3.And(g, cv(ph)), *(sub + list(zip(ph, c))))
                        out = merge(gg, v, out)
                return out
            # force one evaluation so that unsupported values surface here
            with core.probing():
                value(i, tuple(z3.Int('probe!%d' % k) for k in range(len(b.shape))))
            if sol is not None:
                def fcover(c, sol=sol):
                    ix = sol(c)
                    return z3.simplify(z3.And(dom(ix), covered(ix, c)))

                def fval(c, sol=sol):
                    return value(sol(c), c)
                pins = []
                for q in range(len(b.shape)):
                    ps = [p[q] for p in pins_all]
                    ids = {v.get_id() for v in i}
                    if any(isinstance(x, str) for x in ps):
                        same = all(isinstance(x, RangePin) and x.same(ps[0]) and not _term_mentions(x.base, ids)
                                   and not _term_mentions(x.ext, ids) for x in ps)
                        pins.append(ps[0] if same else 'any')
                    elif any(mentions(x, ids) for x in ps) or any(not x.eq(ps[0]) for x in ps):
                        pins.append(range_pin(ps, i, self.d))
                    else:
                        pins.append(ps[0])
                note_write(b, fcover, fval, pins)
                apply_write(b, fcover, fval)
            else:
                self.last_writer(b, covered, value, dom)

    def last_writer(self, b, covered, value, dom):
        """general case: the last iteration that covers a cell determines it"""
        e, i = self.e, self.idx
        rank = len(b.shape)
        W = [e.fresh_func('lastw', [z3.IntSort()] * rank, z3.IntSort()) for _ in i]
        has = e.fresh_func('has', [z3.IntSort()] * rank, z3.BoolSort())
        c = tuple(e.index_var('c') for _ in range(rank))
        wc = tuple(f(*c) for f in W)
        j = tuple(z3.Int('lw!%d' % k) for k in range(len(i)))
        inb = z3.And(*[z3.And(x >= 0, x < zi(n)) for x, n in zip(c, b.shape)])
        e.add('a', z3.ForAll(list(c), z3.Implies(z3.And(inb, has(*c)), z3.And(dom(wc), covered(wc, c))),
                             patterns=[has(*c)]))
        e.add('a', z3.ForAll(list(c) + list(j), z3.Implies(z3.And(inb, dom(j), covered(j, c)),
                                                          z3.And(has(*c), z3.Not(lex_lt(wc, j))))))

        def fcover(x):
            return has(*x)

        def fval(x):
            return value(tuple(f(*x) for f in W), x)
        note_write(b, fcover, fval, ['any'] * rank)
        apply_write(b, fcover, fval)

    # -- list appends --------------------------------------------------------------------
    def apply_appends(self, dom, prefix_of):
        e, i, d = self.e, self.idx, self.d
        lists = []
        for r in self.normal:
            for l, _ in r.fr.appends:
                if not any(l is x for x in lists):
                    lists.append(l)
        for l in lists:
            for r in self.normal + self.exits:
                if any(x is l for x in r.fr.lreads):
                    raise Unsupported('loop reads a list it appends to')
            per = [(r.guard, [x for ll, x in r.fr.appends if ll is l]) for r in self.normal]
            if any(len(xs) > 1 for _, xs in per):
                n = len(per[0][1])
                if all(len(xs) == n for _, xs in per) and len(per) == 1 and not any(isinstance(x, Seg) for x in per[0][1]):
                    # n elements per iteration: one more (concrete) dimension
                    xs = per[0][1]

                    def fn(ix, xs=xs):
                        sub = [(a, b) for a, b in zip(i, ix[:-1])]
                        out = subst(xs[-1], sub)
                        for k in range(len(xs) - 2, -1, -1):
                            out = merge(ix[-1] == k, subst(xs[k], sub), out)
                        return out
                    if d.guard is not None or prefix_of is not None:
                        raise Unsupported('several appends per iteration')
                    l.append_seg(Seg(list(d.dims) + [n], fn))
                    continue
                raise Unsupported('several appends per iteration')
            if any(mentions(g, self.hav_ids) for g, _ in per):
                raise Unsupported('append guarded by carried state')
            dims = list(d.dims)
            lexg = None
            if prefix_of is not None:
                if len(dims) == 1 and d.guard is None:
                    dims = [mk_int(prefix_of[0])]
                else:
                    lexg = lambda ix: lex_lt(ix, prefix_of)     # noqa: E731
            if any(isinstance(x, Seg) for _, xs in per for x in xs):
                if len(per) != 1 or per[0][1][0].guard is not None and False:
                    raise Unsupported('conditional nested append')
                sg = per[0][1][0]
                if any(mentions(x, {v.get_id() for v in i}) for x in sg.dims):
                    raise Unsupported('nested append of varying length')

                def fn2(ix, sg=sg):
                    k = len(i)
                    ph = fresh_ph(len(sg.dims))
                    return subst(sg.fn(ph), list(zip(i, ix[:k])) + list(zip(ph, ix[k:])))
                gfs = []
                if sg.guard is not None:
                    def gsg(ix, sg=sg):
                        k = len(i)
                        ph = fresh_ph(len(sg.dims))
                        return z3.substitute(zb(sg.guard(ph)), *(list(zip(i, ix[:k])) + list(zip(ph, ix[k:]))))
                    gfs.append(gsg)
                if d.guard is not None:
                    gfs.append(lambda ix: zb(d.guard(ix[:len(i)])))
                if lexg:
                    gfs.append(lambda ix: lexg(ix[:len(i)]))
                l.append_seg(Seg(dims + list(sg.dims), fn2,
                                 (lambda ix: z3.And(*[g(ix) for g in gfs])) if gfs else None))
                continue
            always = all(xs for _, xs in per)

            def fn(ix, per=per):
                sub = list(zip(i, [zi(x) for x in ix]))
                out = UNSET
                for g, xs in reversed(per):
                    if not xs:
                        continue
                    v = subst(xs[0], sub)
                    out = v if out is UNSET else merge(z3.substitute(g, *sub), v, out)
                return out
            guards = []
            if d.guard is not None:
                guards.append(lambda ix: zb(d.guard(ix)))
            if lexg:
                guards.append(lexg)
            if not always:
                def gg(ix, per=per):
                    sub = list(zip(i, [zi(x) for x in ix]))
                    return z3.Or(*[z3.substitute(g, *sub) for g, xs in per if xs])
                guards.append(gg)
            guard = (lambda ix, gs=tuple(guards): z3.And(*[g(ix) for g in gs])) if guards else None
            ph = tuple(z3.Int('probe!%d' % k) for k in range(len(i)))
            with core.probing():
                if mentions(fn(ph), self.hav_ids):
                    raise Unsupported('append of a carried value')
            l.append_seg(Seg(dims, fn, guard))

    # -- modes 1 and 2 -------------------------------------------------------------------
    def complete(self):
        self.replay_all()
        self.apply_summary(lambda ix: z3.BoolVal(True))
        if self.d.on_end:
            self.d.on_end()
        if not self.e.feasible(z3.BoolVal(True)):
            raise PathEnd()
        return None

    def early_exit(self):
        e, d = self.e, self.d
        self.replay_all()
        at = tuple(e.fresh('exit', z3.IntSort()) for _ in d.dims)
        c = [v >= 0 for v in at] + [v < zi(n) for v, n in zip(at, d.dims) if n is not None]
        e.assume(z3.And(*c))
        if d.guard is not None:
            e.assume(zb(d.guard(at)))
        if self.normal:
            self.apply_summary(lambda ix: lex_lt(ix, at), at)
        else:
            e.assume(z3.And(*[v == 0 for v in at]) if d.guard is None else z3.BoolVal(True))
        if d.on_start:
            d.on_start('exit')
        if not e.feasible(z3.BoolVal(True)):
            raise PathEnd()
        r = self.body(d.item(at))
        if r is None:
            raise PathEnd()
        return r


class _Unbound:
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = _Unbound()


def has_inf(h):
    if isinstance(h, Poison):
        return False
    i = getattr(h, 'inf', 0)
    return not (isinstance(i, int) and i == 0)


def _same(x, y):
    if isinstance(x, SV) or isinstance(y, SV):
        tx, ty = getattr(x, 't', None), getattr(y, 't', None)
        return tx is not None and ty is not None and tx.eq(ty)
    try:
        return type(x) is type(y) and isinstance(x, (int, float, str)) and x == y
    except Exception:
        return False


def _term_mentions_nan(f, h):
    return True


def lex_lt(a, b):
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(x < y, z3.And(x == y, r))
    return z3.simplify(r)


_phn = [0]


UNSET = object()     # None is a value


def fresh_ph(n):
    _phn[0] += 1
    return tuple(z3.Int('ph!%d!%d' % (_phn[0], k)) for k in range(n))


def subst_protect(t, i, ix):
    return z3.substitute(t, *[(a, zi(b)) for a, b in zip(i, ix)])


def _parts(h):
    if isinstance(h, (SInt, SBool)):
        return [h.t]
    if isinstance(h, SReal):
        out = [h.t]
        if not isinstance(h.nan, bool):
            out.append(h.nan)
        if isinstance(h.inf, z3.ExprRef):
            out.append(h.inf)
        return out
    return []


def _value_parts(v, h):
    if isinstance(h, SInt):
        return [zi(v)]
    if isinstance(h, SBool):
        return [zb(v)]
    inf = 0
    if isinstance(v, float) and abs(v) == float('inf'):
        t, n, inf = z3.RealVal(0), False, (1 if v > 0 else -1)
    elif isinstance(v, SReal):
        t, n, inf = v.t, v.nan, v.inf
    else:
        t, n = rparts(v)
    out = [t]
    if not isinstance(h.nan, bool):
        out.append(_nb(n))
    if isinstance(h.inf, z3.ExprRef):
        out.append(inf if isinstance(inf, z3.ExprRef) else z3.IntVal(inf))
    return out


def _fresh_like(h, e, hk):
    if hk != 'havoc':
        return h
    if isinstance(h, SInt):
        return SInt(z3.Int(e.uniq('hg')))
    if isinstance(h, SBool):
        return SBool(z3.Bool(e.uniq('hg')))
    r = SReal(z3.Real(e.uniq('hg')), z3.Bool(e.uniq('hgn')) if not isinstance(h.nan, bool) else h.nan)
    if isinstance(h.inf, z3.ExprRef):
        r.inf = z3.Int(e.uniq('hgi'))
    return r


class RangePin(str):
    """a written coordinate that lies in [base, base + ext)"""
    def __new__(cls, base, ext):
        r = str.__new__(cls, 'any')
        r.base, r.ext = base, ext
        return r

    def same(self, o):
        return isinstance(o, RangePin) and self.base.eq(o.base) and self.ext.eq(o.ext)


def pin_matches(e, q, x):
    if isinstance(q, RangePin):
        return e.known(z3.And(q.base <= x, x < q.base + q.ext))
    return isinstance(q, str) or z3.simplify(q - x).eq(z3.IntVal(0))


def range_pin(ps, i, d):
    """the coordinate is offset + the loop's index (one dimension), the same on every path"""
    if any(not x.eq(ps[0]) for x in ps):
        return 'any'
    for v, n in zip(i, d.dims):
        if n is None:
            continue
        off = z3.simplify(ps[0] - v)
        if not any(_term_mentions(off, {u.get_id()}) for u in i):
            return RangePin(off, z3.simplify(zi(n)))
    return 'any'


def invert(pins_all, i, d):
    """solve for the iteration index from the written cell; None if not possible"""
    if not pins_all:
        return None
    sols = None
    for p in pins_all:
        s = {}
        for q, t in enumerate(p):
            if isinstance(t, RangePin):
                # base = i * ext + offset, and the coordinate is in [base, base + ext): i = (c - offset) div ext
                for k, v in enumerate(i):
                    off = z3.simplify(t.base - v * t.ext)
                    if not any(_term_mentions(x, {u.get_id()}) for u in i for x in (off, t.ext)) and \
                            core.ENG.known(t.ext > 0):
                        s.setdefault(k, ('div', q, off, t.ext))
                continue
            if isinstance(t, str):
                continue
            t = z3.simplify(t)
            hit = [k for k, v in enumerate(i) if _term_mentions(t, {v.get_id()})]
            if not hit:
                continue
            if len(hit) == 1:
                k = hit[0]
                off = z3.simplify(t - i[k])
                if not _term_mentions(off, {i[k].get_id()}):
                    s.setdefault(k, ('off', q, off))
                    continue
            # flattened index over all generic variables
            if len(i) > 1 and set(hit) == set(range(len(i))):
                fl = flat_index(i, d.dims)
                off = z3.simplify(t - fl)
                if not any(_term_mentions(off, {v.get_id()}) for v in i):
                    for k in range(len(i)):
                        s.setdefault(k, ('flat', q, off))
        if set(s) != set(range(len(i))):
            return None
        sig = tuple((s[k][0], s[k][1]) + tuple(x.sexpr() for x in s[k][2:]) for k in range(len(i)))
        if sols is None:
            sols = (sig, s)
        elif sols[0] != sig:
            return None
    s = sols[1]

    def solve(c):
        out = []
        un = None
        for k in range(len(i)):
            kind, q, off = s[k][:3]
            if kind == 'div':
                out.append(idivmod(z3.simplify(c[q] - off), s[k][3])[0])
            elif kind == 'off':
                out.append(z3.simplify(c[q] - off))
            else:
                if un is None:
                    un = unflat(z3.simplify(c[q] - off), d.dims)
                out.append(un[k])
        return tuple(out)
    return solve
