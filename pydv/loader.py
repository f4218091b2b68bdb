"""Loads /repo's current source for verification.

Every module of the package is read from /repo, parsed, and rewritten mechanically:
 * `for` / `while` loops and comprehensions in function bodies become calls of the loop handler with
   the original body as a nested function (no statement is dropped or changed);
 * calls of methods named like those of str, ==, != and in, and slices go through functions that do the same except on
   text with symbolic values in it (text.py);
 * list displays in functions create SList (a list subclass);
 * zero-argument super() is spelled out; annotations and docstrings are kept.
Builtins (int, len, range, ...) and imported libraries (numpy, math, ...) are replaced by models.
Nothing else of the source is changed; what is executed is the repository's code.
"""
import ast
import builtins
import copy
import hashlib
import os
import sys
import types

from . import core, text
from .core import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDV_REPO', '/repo')


def bound_names(nodes):
    """names assigned in statements (not inside nested functions/classes)"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)

        def visit_FunctionDef(self, n):
            out.append(n.name)
            for d in n.decorator_list:
                self.visit(d)

        def visit_AsyncFunctionDef(self, n):
            out.append(n.name)

        def visit_ClassDef(self, n):
            out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            self.visit(n.generators[0].iter)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.append(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)
    v = V()
    for n in nodes:
        v.visit(n)
    seen, res = set(), []
    for n in out:
        if n not in seen:
            seen.add(n)
            res.append(n)
    return res


def has_yield(node):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n): self.found = True
        def visit_YieldFrom(self, n): self.found = True
        def visit_Await(self, n): self.found = True
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass
    v = V()
    for n in (node if isinstance(node, list) else [node]):
        for c in ([n] if isinstance(node, list) else ast.iter_child_nodes(n)):
            v.visit(c)
    return v.found


def plain_generator(node):
    """yields are statements; only local names are bound, none of them a parameter; loops, conditions and yields only"""
    params = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
    params |= {a.arg for a in (node.args.vararg, node.args.kwarg) if a}

    def target(t):
        if isinstance(t, ast.Name):
            return t.id not in params
        return isinstance(t, (ast.Tuple, ast.List)) and all(target(x) for x in t.elts)

    def ok(body):
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
                if s.value.value is None or has_yield([ast.Expr(s.value.value)]):
                    return False
            elif has_yield([s]) and not isinstance(s, (ast.For, ast.If)):
                return False
            elif isinstance(s, ast.Assign):
                if not all(target(t) for t in s.targets):
                    return False
            elif isinstance(s, ast.For):
                if s.orelse or not target(s.target) or has_yield([ast.Expr(s.iter)]) or not ok(s.body):
                    return False
            elif isinstance(s, ast.If):
                if has_yield([ast.Expr(s.test)]) or not ok(s.body) or not ok(s.orelse):
                    return False
            elif not (isinstance(s, (ast.Pass, ast.Continue)) or
                      isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                return False
        return True
    return not node.decorator_list and ok(node.body)


class Listing(ast.NodeTransformer):
    """yield e -> __yields.append(e)"""

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Yield):
            return ast.copy_location(ast.Expr(ast.Call(
                ast.Attribute(ast.Name('__yields', ast.Load()), 'append', ast.Load()), [node.value.value], [])), node)
        return node

    def visit_FunctionDef(self, node):
        return node
    visit_Lambda = visit_FunctionDef


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.fn = []         # stack of function contexts: dict(globals, first arg)
        self.n = 0
        self.cls = []

    def uid(self):
        self.n += 1
        return self.n

    def visit_FunctionDef(self, node):
        gl = set()
        for s in ast.walk(node):
            if isinstance(s, ast.Global):
                gl.update(s.names)
        nl = set()
        for s in node.body:
            for t in ast.walk(s):
                if isinstance(t, ast.Nonlocal):
                    nl.update(t.names)
        args = node.args.posonlyargs + node.args.args
        ctx = dict(globals=gl, first=args[0].arg if args else None, gen=has_yield(node), loops=[])
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        if ctx['gen'] and plain_generator(node):
            return self.generator(node, ctx)
        self.fn.append(ctx)
        node.body = self.block(node.body)
        self.fn.pop()
        return node

    def generator(self, node, ctx):
        """a generator that only binds local names: also as a function that lists what it yields"""
        u = self.uid()
        none = lambda: ast.arguments([], [], None, [], [], None, [])      # noqa: E731
        native = ast.FunctionDef('__native%d' % u, none(), node.body, [], None, None)
        native.type_params = []
        listing = [Listing().visit(copy.deepcopy(s)) for s in node.body]
        self.fn.append(ctx)
        native.body = self.block(native.body)
        self.fn.pop()
        self.fn.append(dict(ctx, gen=False, loops=[]))
        out = ast.Name('__yields', ast.Load())
        body = [ast.Assign([ast.Name('__yields', ast.Store())], ast.List([], ast.Load()))] + listing + [ast.Return(out)]
        build = ast.FunctionDef('__list%d' % u, none(), [ast.copy_location(ast.fix_missing_locations(s), node) if not
                                                         hasattr(s, 'lineno') else s for s in body], [], None, None)
        build.type_params = []
        build.body = self.block(build.body)
        self.fn.pop()
        ret = ast.Return(ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'pgen', ast.Load()),
                                  [ast.Name(native.name, ast.Load()), ast.Name(build.name, ast.Load())], []))
        node.body = [native, build, ret]
        for s in node.body:
            ast.copy_location(s, node)
        return node

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Lambda(self, node):
        self.fn.append(dict(globals=set(), first=None, gen=False, loops=[]))
        node = self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args and self.fn:
            f = next((c for c in reversed(self.fn) if c['first'] and not c.get('loopfn')), None)
            if f:
                node.args = [ast.Name('__class__', ast.Load()), ast.Name(f['first'], ast.Load())]
        if isinstance(node.func, ast.Attribute) and node.func.attr in text.METHODS and self.fn and \
                not any(isinstance(a, ast.Starred) for a in node.args):
            # methods of strings: decided on text with symbolic values in it
            return ast.copy_location(ast.Call(
                ast.Attribute(ast.Name('__pydv__', ast.Load()), 'method', ast.Load()),
                [node.func.value, ast.Constant(node.func.attr)] + node.args, node.keywords), node)
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if not self.fn or len(node.ops) != 1 or not isinstance(node.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            return node
        if any(isinstance(x, ast.Constant) and not isinstance(x.value, str) for x in [node.left] + node.comparators):
            return node
        op = node.ops[0]
        name = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.In: 'contains', ast.NotIn: 'contains'}[type(op)]
        call = ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), name, ast.Load()),
                        [node.left, node.comparators[0]], [])
        if isinstance(op, ast.NotIn):
            call = ast.UnaryOp(ast.Not(), call)
        return ast.copy_location(call, node)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if self.fn and isinstance(node.ctx, ast.Load) and isinstance(node.slice, ast.Slice):
            return ast.copy_location(ast.Call(
                ast.Attribute(ast.Name('__pydv__', ast.Load()), 'cut', ast.Load()),
                [node.value, ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'slice', ast.Load()),
                                      [x or ast.Constant(None) for x in (node.slice.lower, node.slice.upper,
                                                                         node.slice.step)], [])], []), node)
        return node

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.fn:
            return ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'mklist', ast.Load()), [node], [])
        return node

    # -- comprehensions -----------------------------------------------------------------
    def _pattern(self, t):
        if isinstance(t, ast.Name):
            return t.id, [t.id]
        if isinstance(t, (ast.Tuple, ast.List)):
            pats, names = [], []
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    return None
                r = self._pattern(x)
                if r is None:
                    return None
                pats.append(r[0])
                names += r[1]
            return tuple(pats), names
        return None

    def _comp(self, node, kind):
        if not self.fn or has_yield(node):
            return self.generic_visit(node)
        gens = node.generators
        pats = [self._pattern(g.target) for g in gens]
        if any(p is None for p in pats) or any(g.is_async for g in gens):
            return self.generic_visit(node)
        self.fn.append(dict(globals=set(), first=None, gen=False, loops=[], loopfn=True))
        if kind == 'dict':
            elt = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
        else:
            elt = self.visit(node.elt)
        # innermost first
        expr = None
        for g, (pat, names) in list(zip(gens, pats))[::-1]:
            # a name bound twice keeps its last value
            names = ['__pydv_unused%d' % i if n in names[i + 1:] else n for i, n in enumerate(names)]
            cond = None
            ifs = [self.visit(c) for c in g.ifs]
            if ifs:
                cond = ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs)
            it = g.iter
            if g is not gens[0]:
                it = self.visit(it)
            args = lambda: ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])  # noqa
            nested = expr is not None
            body = expr if nested else elt
            call = ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'comp', ast.Load()),
                            [ast.Constant('%s:c%d' % (self.modname, self.uid())),
                             ast.Constant('nest' if nested else 'flat'),
                             None, ast.Constant(pat), ast.Lambda(args(), body),
                             ast.Lambda(args(), cond) if cond is not None else ast.Constant(None)], [])
            call._it = it
            if g is not gens[0]:
                call.args[2] = it
            expr = call
        self.fn.pop()
        expr.args[2] = self.visit(gens[0].iter)
        if kind != 'list':
            expr = ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'as_' + kind, ast.Load()), [expr], [])
        return ast.copy_location(expr, node)

    def visit_ListComp(self, node): return self._comp(node, 'list')
    def visit_SetComp(self, node): return self._comp(node, 'set')
    def visit_DictComp(self, node): return self._comp(node, 'dict')
    def visit_GeneratorExp(self, node): return self._comp(node, 'gen')

    # -- loops --------------------------------------------------------------------------
    def visit_For(self, node):
        return self._loop(node, True)

    def visit_While(self, node):
        return self._loop(node, False)

    def visit_Return(self, node):
        node = self.generic_visit(node)
        if self.fn and self.fn[-1].get('inloop'):
            v = node.value or ast.Constant(None)
            return ast.copy_location(ast.Return(ast.Tuple([ast.Constant('r'), v], ast.Load())), node)
        return node

    def visit_Break(self, node):
        if self.fn and self.fn[-1].get('inloop'):
            return ast.copy_location(ast.Return(ast.Tuple([ast.Constant('b')], ast.Load())), node)
        return node

    def visit_Continue(self, node):
        if self.fn and self.fn[-1].get('inloop'):
            return ast.copy_location(ast.Return(ast.Constant(None)), node)
        return node

    def _loop(self, node, is_for):
        if not self.fn or self.fn[-1]['gen'] or has_yield(node):
            if self.fn:
                saved = self.fn[-1].get('inloop')
                self.fn[-1]['inloop'] = False
                node = self.generic_visit(node)
                self.fn[-1]['inloop'] = saved
                return node
            return self.generic_visit(node)
        u = self.uid()
        fname = '__loop%d' % u
        ctx = self.fn[-1]
        assigned = bound_names(([node.target] if is_for else []) + node.body)
        if not is_for:
            class W(ast.NodeVisitor):
                def visit_NamedExpr(s, n): assigned.append(n.target.id)
            W().visit(node.test)
        gl = [n for n in assigned if n in ctx['globals']]
        nl = [n for n in assigned if n not in ctx['globals']]
        it = self.visit(node.iter) if is_for else self.visit(node.test)
        sub = dict(ctx)
        sub.update(inloop=True, loopfn=True, first=ctx['first'] if not ctx.get('loopfn') else ctx['first'])
        sub['loopfn'] = False
        self.fn.append(sub)
        body = self.block(node.body)
        self.fn.pop()
        item = '__item%d' % u
        pre = []
        if is_for:
            pre = [ast.Assign([node.target], ast.Name(item, ast.Load()))]
        head = []
        if nl:
            head.append(ast.Nonlocal(nl))
        if gl:
            head.append(ast.Global(gl))
        fdef = ast.FunctionDef(name=fname, args=ast.arguments([], [ast.arg(item)], None, [], [], None, []),
                               body=head + pre + body + [ast.Return(ast.Constant(None))],
                               decorator_list=[], returns=None, type_params=[])
        out = []
        if nl:
            # make the names locals of the enclosing function without binding them
            out.append(ast.If(ast.Constant(False), [ast.Assign([ast.Name(n, ast.Store())], ast.Constant(None))
                                                    for n in nl], []))
        out.append(fdef)
        res = '__res%d' % u
        idc = ast.Constant('%s:L%d' % (self.modname, u))
        if is_for:
            call = ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'run_for', ast.Load()),
                            [idc, it, ast.Name(fname, ast.Load()), ast.Constant(tuple(nl))], [])
        else:
            cond = ast.Lambda(ast.arguments([], [], None, [], [], None, []), it)
            call = ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'run_while', ast.Load()),
                            [idc, cond, ast.Name(fname, ast.Load()), ast.Constant(tuple(nl))], [])
        out.append(ast.Assign([ast.Name(res, ast.Store())], call))
        outer_inloop = ctx.get('inloop')
        retval = ast.Subscript(ast.Name(res, ast.Load()), ast.Constant(1), ast.Load())
        ret = ast.Return(ast.Tuple([ast.Constant('r'), retval], ast.Load()) if outer_inloop else retval)
        isret = ast.BoolOp(ast.And(), [
            ast.Compare(ast.Name(res, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
            ast.Compare(ast.Subscript(ast.Name(res, ast.Load()), ast.Constant(0), ast.Load()), [ast.Eq()],
                        [ast.Constant('r')])])
        out.append(ast.If(isret, [ret], []))
        if node.orelse:
            orelse = self.block(node.orelse)
            out.append(ast.If(ast.Compare(ast.Name(res, ast.Load()), [ast.Is()], [ast.Constant(None)]), orelse, []))
        for s in out:
            ast.copy_location(s, node)
        return out


class Loader:
    """one instance per verification run of a property"""

    def __init__(self):
        from . import npshim, pyshim
        self.mods = {}
        self.sources = {}
        self.external = npshim.external_modules()
        self.builtins = pyshim.make_builtins(self)
        self.stubs = {}

    def path(self, name):
        base = VERIF if name.split('.')[0] == 'contracts' else REPO
        p = os.path.join(base, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        path, pkg = self.path(name)
        if pkg and not os.path.exists(path):        # a namespace package
            src = b''
        elif not os.path.exists(path):
            raise ModuleNotFoundError('No module named %r' % name)
        else:
            src = open(path, 'rb').read()
        self.sources[name] = hashlib.sha256(src).hexdigest()[:16]
        tree = ast.parse(src, path)
        tree = Rewrite(name).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rsplit('.', 1)[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        from . import runtime
        m.__dict__['__pydv__'] = runtime
        self.mods[name] = m
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            setattr(self.mods[par], leaf, m)
        try:
            exec(compile(tree, path, 'exec'), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            full = base + ('.' + name if name else '')
        else:
            full = name
        root = full.split('.')[0]
        if root in ('spta', 'experiments', 'contracts'):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and f != '*':
                        try:
                            self.load(full + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[root]
        if full in self.external:
            return self.external[full] if fromlist or '.' not in full else self.external[root]
        if root in self.external:
            return self.external[root]
        if root in ('collections', 'functools', 'itertools', 'enum', 'abc', 'typing', 'string', 'os', 'sys', 're',
                    'logging', 'argparse', 'time', 'csv', 'io', 'copy', 'warnings', 'operator', 'json', 'textwrap',
                    'contextlib', 'dataclasses', 'numbers', 'traceback', 'inspect'):
            return builtins.__import__(name, globals, locals, fromlist, level)
        return self.stub(full, bool(fromlist))

    def stub(self, full, leaf):
        from .pyshim import StubModule
        root = full.split('.')[0]
        if root not in self.stubs:
            self.stubs[root] = StubModule(root)
        m = self.stubs[root]
        if not leaf:
            return m
        for p in full.split('.')[1:]:
            m = getattr(m, p)
        return m
