"""Simulated threads for numba's parallel loops.

`install(sched)` replaces numba.njit: a kernel compiled with parallel=True has the outermost prange loops of its
source rewritten so that every iteration is a generator that yields between statements (and between the read and the
write of updates in place).  Iterations are dealt to threads the way numba does (contiguous chunks) and a Sched
decides which thread goes on.  Names that an iteration assigns are private to it, as in numba; everything else is
shared; `name op= value` on a shared name is a reduction.
"""

import ast
import inspect
import textwrap

import numpy as np

from .world import Sched


class NotSupported(Exception):
    pass


def names(node, ctx):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def is_prange(node):
    if not (isinstance(node, ast.For) and isinstance(node.iter, ast.Call)):
        return False
    f = node.iter.func
    return (isinstance(f, ast.Name) and f.id == "prange") or (isinstance(f, ast.Attribute) and f.attr == "prange")


class Split(ast.NodeTransformer):
    """Statements of a loop body: a yield after each, and in the middle of updates."""

    def __init__(self, shared):
        self.n = 0
        self.shared = shared
        self.depth = 0

    def pause(self):
        return ast.Expr(ast.Yield(None))

    def body(self, stmts):
        out = []
        for s in stmts:
            out += self.stmt(s)
        return out or [ast.Pass()]

    def tmp(self):
        self.n += 1
        return f"__t{self.n}"

    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript):
            v, old = self.tmp(), self.tmp()
            load = ast.Subscript(s.target.value, s.target.slice, ast.Load())
            return [
                ast.Assign([ast.Name(v, ast.Store())], s.value), self.pause(),
                ast.Assign([ast.Name(old, ast.Store())], ast.Call(ast.Name("__keep", ast.Load()), [load], [])), self.pause(),
                ast.Assign([s.target], ast.BinOp(ast.Name(old, ast.Load()), s.op, ast.Name(v, ast.Load()))), self.pause()]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in self.shared:
            v = self.tmp()
            return [ast.Assign([ast.Name(v, ast.Store())], s.value), self.pause(),
                    ast.AugAssign(s.target, s.op, ast.Name(v, ast.Load())), self.pause()]
        if isinstance(s, ast.Assign):
            v = self.tmp()
            val = s.value
            if any(isinstance(t, ast.Subscript) for t in s.targets):
                val = ast.Call(ast.Name("__keep", ast.Load()), [val], [])
            return [ast.Assign([ast.Name(v, ast.Store())], val), self.pause(),
                    ast.Assign(s.targets, ast.Name(v, ast.Load())), self.pause()]
        if isinstance(s, (ast.For, ast.While)):
            self.depth += 1
            it = s
            if is_prange(s):
                s.iter.func = ast.Name("range", ast.Load())
            it.body = self.body(s.body)
            it.orelse = self.body(s.orelse) if s.orelse else []
            self.depth -= 1
            return [it]
        if isinstance(s, ast.If):
            s.body = self.body(s.body)
            s.orelse = self.body(s.orelse) if s.orelse else []
            return [s]
        if isinstance(s, ast.With):
            s.body = self.body(s.body)
            return [s]
        if isinstance(s, ast.Continue):
            return [s] if self.depth else [ast.Return(None)]
        if isinstance(s, (ast.Break,)):
            if self.depth:
                return [s]
            raise NotSupported("break")
        if isinstance(s, (ast.Return, ast.FunctionDef, ast.Try)):
            raise NotSupported(type(s).__name__)
        return [s, self.pause()]


def first_is_load(body, name):
    """Is the first use of the name in the body, in execution order, a read?"""
    def visit(n):
        if isinstance(n, ast.AugAssign):
            r = visit(n.value)
            if r is not None:
                return r
            if isinstance(n.target, ast.Name):
                return True if n.target.id == name else None
            return visit(n.target)
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is not None:
                r = visit(n.value)
                if r is not None:
                    return r
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                r = visit(t)
                if r is not None:
                    return r
            return None
        if isinstance(n, ast.For):
            for c in [n.iter, n.target] + n.body + n.orelse:
                r = visit(c)
                if r is not None:
                    return r
            return None
        if isinstance(n, ast.Name):
            return None if n.id != name else isinstance(n.ctx, ast.Load)
        for c in ast.iter_child_nodes(n):
            r = visit(c)
            if r is not None:
                return r
        return None
    for s in body:
        r = visit(s)
        if r is not None:
            return r
    return False


class Rewrite(ast.NodeTransformer):
    def __init__(self, fdef):
        self.fdef = fdef
        self.k = 0
        self.params = {a.arg for a in fdef.args.args + fdef.args.kwonlyargs}

    def visit_FunctionDef(self, node):
        return node if node is not self.fdef else self.generic_visit(node)

    def visit_For(self, node):
        if not is_prange(node):
            return self.generic_visit(node)
        if node.orelse or not isinstance(node.target, ast.Name):
            raise NotSupported("loop shape")
        self.k += 1
        inner = {n.id for s in node.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        outer = set(self.params)
        for n in ast.walk(self.fdef):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not (node.lineno <= n.lineno <= node.end_lineno):
                outer.add(n.id)
        shared = {x for x in inner if x in outer and first_is_load(node.body, x)}
        for x in inner - shared:
            for n in ast.walk(self.fdef):
                if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load) and n.lineno > node.end_lineno:
                    # value used after the loop: only fine if it is assigned again before
                    again = [m for m in ast.walk(self.fdef) if isinstance(m, ast.Name) and m.id == x and isinstance(m.ctx, ast.Store)
                             and node.end_lineno < m.lineno <= n.lineno]
                    if not again:
                        raise NotSupported(f"{x} is used after the loop")
        body = Split(shared).body(node.body)
        if shared:
            body = [ast.Nonlocal(sorted(shared))] + body
        name = f"__iter{self.k}"
        gen = ast.FunctionDef(name, ast.arguments([], [ast.arg(node.target.id)], None, [], [], None, []), body + [ast.Expr(ast.Yield(None))], [], None, type_params=[])
        call = ast.Expr(ast.Call(ast.Name("__parallel", ast.Load()),
                                 [ast.Name(name, ast.Load()), ast.Call(ast.Name("range", ast.Load()), node.iter.args, [])], []))
        return [gen, call]


class Threads:
    def __init__(self, nthreads, sched, chunking="static"):
        self.n, self.sched = nthreads, sched
        self.stats = {"parallel_loops": 0, "iterations": 0, "thread_switches": 0, "not_rewritten": 0}
        self.chunking = chunking
        self.trace = []
        self.current = 0
        self.kernels = {}

    def parallel(self, gen, idx):
        idx = list(idx)
        self.stats["parallel_loops"] += 1
        self.stats["iterations"] += len(idx)
        t = max(1, min(self.n, len(idx)))
        chunks = [list(c) for c in np.array_split(np.array(idx, dtype=object), t)] if idx else []
        queues = [c for c in chunks if c]
        running = [None] * len(queues)
        last = 0
        alive = [q for q in range(len(queues))]
        while alive:
            q = self.sched.pick(alive, last if last in alive else alive[0]) if len(alive) > 1 else alive[0]
            if q != last:
                self.stats["thread_switches"] += 1
                last = q
            self.current = q
            if running[q] is None:
                running[q] = gen(queues[q].pop(0))
            try:
                next(running[q])
            except StopIteration:
                running[q] = None
                if not queues[q]:
                    alive.remove(q)
        self.current = 0

    def njit(self, *a, **k):
        def deco(f):
            if not k.get("parallel"):
                return f
            try:
                g = self.rewrite(f)
            except (NotSupported, OSError, SyntaxError, TypeError):
                self.stats["not_rewritten"] += 1
                g = f
            self.kernels[f.__name__] = g
            return g
        if a and callable(a[0]):
            return deco(a[0])
        return deco

    def rewrite(self, f):
        tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
        fdef = tree.body[0]
        if not isinstance(fdef, ast.FunctionDef):
            raise NotSupported("not a function")
        fdef.decorator_list = []
        r = Rewrite(fdef)
        tree = ast.fix_missing_locations(r.visit(tree))
        if not r.k:
            return f
        ns = {}
        glob = f.__globals__
        outer = ast.parse("def __make(__parallel, __keep):\n    pass\n    return None")
        outer.body[0].body = [fdef, ast.Return(ast.Name(fdef.name, ast.Load()))]
        code = compile(ast.fix_missing_locations(outer), f.__code__.co_filename, "exec")
        exec(code, glob, ns)
        return ns["__make"](self.parallel, keep)


def keep(x):
    """Value of an array expression at this moment."""
    return np.array(x) if isinstance(x, np.ndarray) else x


def install(nthreads, sched_plan):
    """Replace numba's decorator in this process; modules imported afterwards get simulated threads."""
    import numba
    t = Threads(nthreads, Sched(sched_plan))
    numba.njit = t.njit
    numba.jit = t.njit
    numba.prange = range
    numba.get_num_threads = lambda: t.n
    numba.get_thread_id = lambda: t.current
    numba.set_num_threads = lambda n: setattr(t, "n", max(1, min(int(n), nthreads)))
    return t
