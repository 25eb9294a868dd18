"""A tiny MPI for demonstrations: `run(n, main)` starts n real processes that see a minimal mpi4py.

Ranks talk to a coordinator over pipes; a collective completes when all ranks called the same one.
A job that does not finish within `timeout` seconds is reported as deadlocked.
"""
import multiprocessing as mp
import os
import sys
import types


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f


def _module(rank, size, pipe):
    import numpy as np
    MPI = types.ModuleType("mpi4py.MPI")
    for n, f in (("SUM", lambda a, b: a + b), ("MAX", np.maximum), ("MIN", np.minimum), ("PROD", lambda a, b: a * b)):
        setattr(MPI, n, Op(n, f))
    for n in ("DOUBLE", "COMPLEX", "COMPLEX16", "DOUBLE_COMPLEX", "C_DOUBLE_COMPLEX", "INT", "FLOAT", "INT64_T"):
        setattr(MPI, n, n)

    def call(kind, obj=None, dest=None):
        pipe.send((kind, obj, dest))
        out = pipe.recv()
        if isinstance(out, Exception):
            raise out
        return out

    def arr(b):
        return b[0] if isinstance(b, (list, tuple)) else b

    def layout(b, n):
        a = np.asarray(arr(b)).reshape(-1)
        spec = [x for x in b[1:] if not isinstance(x, str)] if isinstance(b, (list, tuple)) else []
        if len(spec) == 1 and isinstance(spec[0], tuple):
            spec = list(spec[0])
        counts = [int(c) for c in spec[0]] if spec else [a.size // n] * n
        displs = [int(c) for c in spec[1]] if len(spec) > 1 and spec[1] is not None else [sum(counts[:i]) for i in range(n)]
        return a, counts, displs

    def put(dst, src):
        arr(dst).reshape(-1)[: np.asarray(src).size] = np.asarray(src).reshape(-1)

    class Request:
        def __init__(self, f=None):
            self.f, self.v = f, None

        def wait(self, status=None):
            if self.f:
                self.v, self.f = self.f(), None
            return self.v

        Wait = wait

    class Comm:
        def Get_rank(self):
            return rank

        def Get_size(self):
            return size

        rank = property(Get_rank)
        size = property(Get_size)

        def allgather(self, x):
            return call("allgather", x)

        def gather(self, x, root=0):
            out = call("gather", x)
            return out if rank == root else None

        def bcast(self, x=None, root=0):
            return call("bcast", x)[root]

        def scatter(self, x=None, root=0):
            return call("scatter", x)[root][rank]

        def barrier(self):
            call("barrier")

        Barrier = barrier

        def _red(self, vals, op):
            acc = vals[0]
            for v in vals[1:]:
                acc = (op or MPI.SUM).f(acc, v)
            return acc

        def allreduce(self, x, op=None):
            return self._red(call("allreduce", x), op)

        def reduce(self, x, op=None, root=0):
            out = call("reduce", x)
            return self._red(out, op) if rank == root else None

        def Allreduce(self, a, b, op=None):
            put(b, self._red(call("Allreduce", np.array(arr(a))), op))

        def Reduce(self, a, b, op=None, root=0):
            out = call("Reduce", np.array(arr(a)))
            if rank == root:
                put(b, self._red(out, op))

        def Bcast(self, a, root=0):
            put(a, call("Bcast", np.array(arr(a)))[root])

        def Scatterv(self, a, b, root=0):
            parts = None
            if rank == root:
                x, c, d = layout(a, size)
                parts = [x[j: j + k].copy() for k, j in zip(c, d)]
            put(b, call("Scatterv", parts)[root][rank])

        Scatter = Scatterv

        def Gatherv(self, a, b, root=0):
            out = call("Gatherv", np.array(arr(a)).reshape(-1))
            if rank == root:
                x, c, d = layout(b, size)
                for part, k, j in zip(out, c, d):
                    x[j: j + k] = part

        Gather = Gatherv

        def Allgather(self, a, b):
            put(b, np.concatenate([np.asarray(x).reshape(-1) for x in call("Allgather", np.array(arr(a)))]))

        def send(self, x, dest=0, tag=0):
            call("send", x, dest)

        def Send(self, x, dest=0, tag=0):
            call("send", np.array(arr(x)), dest)

        def isend(self, x, dest=0, tag=0):
            self.send(x, dest)
            return Request()

        def Isend(self, x, dest=0, tag=0):
            self.Send(x, dest)
            return Request()

        def recv(self, buf=None, source=0, tag=0):
            return call("recv", None, source)

        def Recv(self, buf, source=0, tag=0):
            put(buf, call("recv", None, source))

        def Irecv(self, buf, source=0, tag=0):
            return Request(lambda: self.Recv(buf, source))

        def irecv(self, buf=None, source=0, tag=0):
            return Request(lambda: self.recv(None, source))

        def Split(self, color=0, key=0):
            return self

        Dup = Clone = lambda self: self

    MPI.Comm = MPI.Intracomm = Comm
    MPI.COMM_WORLD = Comm()
    MPI.Exception = RuntimeError
    pkg = types.ModuleType("mpi4py")
    pkg.MPI = MPI
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, MPI


def _rank(rank, size, pipe, main, quiet):
    try:
        if quiet:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        sys.path.insert(0, os.getcwd())
        _module(rank, size, pipe)
        out = ("ok", main(rank, size))
    except BaseException as e:  # noqa
        out = ("exc", f"{type(e).__name__}: {e}")
    pipe.send(("end", out, None))


def run(size, main, timeout=200, quiet=True):
    """Returns a list of ("ok", value) | ("exc", text) | ("deadlock", None), one per rank."""
    ctx = mp.get_context("fork")
    pipes, procs = [], []
    for r in range(size):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_rank, args=(r, size, b, main, quiet), daemon=True)
        p.start()
        b.close()
        pipes.append(a)
        procs.append(p)
    out = [None] * size
    waiting = {}
    mail = {}
    while any(o is None for o in out):
        ready = mp.connection.wait([pipes[r] for r in range(size) if out[r] is None and r not in waiting], timeout) \
            if any(out[r] is None and r not in waiting for r in range(size)) else []
        if not ready:
            break
        for c in ready:
            r = pipes.index(c)
            try:
                kind, obj, who = c.recv()
            except EOFError:
                out[r] = ("exc", "process died")
                continue
            if kind == "end":
                out[r] = obj
            elif kind == "send":
                mail.setdefault((r, who), []).append(obj)
                c.send(None)
            else:
                waiting[r] = (kind, obj, who)
        for r, (kind, obj, who) in list(waiting.items()):
            if kind == "recv" and mail.get((who, r)):
                del waiting[r]
                pipes[r].send(mail[(who, r)].pop(0))
        coll = {r: w for r, w in waiting.items() if w[0] != "recv"}
        if len(coll) == size:
            kinds = {w[0] for w in coll.values()}
            vals = [coll[r][1] for r in range(size)]
            waiting.clear()
            for r in range(size):
                pipes[r].send(vals if len(kinds) == 1 else RuntimeError(f"collective mismatch {sorted(kinds)}"))
    for p in procs:
        p.kill() if p.is_alive() and any(o is None for o in out) else None
        p.join(5)
        if p.is_alive():
            p.kill()
    return [o if o is not None else ("deadlock", None) for o in out]
