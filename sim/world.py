"""Simulated MPI job: every rank is a parked thread, one runs at a time, a seeded
scheduler decides which.

Ranks are isolated the way processes are: each has its own copy of the
``openms`` modules, its own global numpy / ``random`` generator state, its own
``builtins.print``, ``sys.stdout`` and ``sys.stderr`` and its own clock.  They meet only in
the simulated communicator.  No real clock, socket or sleep is involved; the
threads exist only because Python needs a stack per rank.
"""

import builtins
import hashlib
import os
import pickle
import random
import sys
import threading
import types

import numpy as np


class SimKilled(BaseException):
    """Raised inside a rank that the simulator tears down."""


class SimCrash(BaseException):
    """An injected crash of the rank's process."""


class HarnessError(Exception):
    """The simulator itself was used in a way it does not support."""


class MPIError(Exception):
    """Stands for mpi4py.MPI.Exception."""

    def __init__(self, code=15, msg=""):
        super().__init__(f"MPI error {code} {msg}")
        self.code = code

    def Get_error_code(self):
        return self.code


# ----------------------------------------------------------------------------
# decisions
# ----------------------------------------------------------------------------
class Sched:
    """Every nondeterministic choice of a run goes through one of these.

    plan: {"seed": s, "p": prob, "eager": prob} draws deviations from the default policy;
          {"dev": [[k, v], ...]} replays recorded deviations.
    """

    def __init__(self, plan):
        plan = plan or {}
        self.replay = None
        if "dev" in plan:
            self.replay = {int(k): v for k, v in plan["dev"]}
        self.rng = random.Random(plan.get("seed", 0))
        self.p = plan.get("p", 0.0)
        self.eager = plan.get("eager", 0.0)
        self.k = 0
        self.dev = []

    def pick(self, options, default):
        k = self.k
        self.k += 1
        if self.replay is not None:
            v = self.replay.get(k, default)
            if v not in options:
                v = default
        else:
            # draw always, so the stream does not depend on the outcome
            u = self.rng.random()
            w = self.rng.random()
            v = options[int(w * len(options))] if u < self.p else default
        if v != default:
            self.dev.append([k, v])
        return v

    def flip(self):
        k = self.k
        self.k += 1
        if self.replay is not None:
            v = bool(self.replay.get(k, False))
        else:
            u = self.rng.random()
            v = u < self.eager
        if v:
            self.dev.append([k, 1])
        return v


class Clock:
    """Simulated clock of one rank; moves a little at every reading."""

    def __init__(self, start=1.0e9, tick=1e-4, jumps=()):
        self.t = float(start)
        self.t0 = self.t
        self.tick = float(tick)
        self.n = 0
        self.jumps = {int(n): float(d) for n, d in jumps}
        self.fired = 0

    def read(self):
        self.n += 1
        self.t += self.tick
        if self.n in self.jumps:
            self.t += self.jumps[self.n]
            self.fired += 1
        return self.t


class Stream:
    """stdout / stderr of a rank."""

    encoding = "utf-8"
    errors = "strict"

    def __init__(self, world, rank, name):
        self.world, self.rank, self.name = world, rank, name
        self.chunks = []

    def write(self, s):
        self.world.on_write(self.rank, self.name, s)
        self.chunks.append(s)
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        self.world.on_flush(self.rank)

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no file descriptor")

    @property
    def closed(self):
        return False

    def text(self):
        return "".join(self.chunks)


class Context:
    """The process-wide state that belongs to one rank."""

    PREFIXES = ("openms", "mpi4py")
    EXACT = ("numba",)  # every process imports the compiler itself, see env.NumbaGate

    def __init__(self, np_seed, stdout, stderr):
        self.modules = {n: None for n in self.EXACT if n in sys.modules and sys.modules[n] is None}
        rs = np.random.RandomState(np_seed)
        self.np_state = rs.get_state()
        self.py_state = random.Random(np_seed).getstate()
        self.print = REAL_PRINT
        self.stdout, self.stderr = stdout, stderr
        self.cwd = None     # set for simulated processes that change directory

    @classmethod
    def owned(cls, name):
        return name in cls.EXACT or any(name == p or name.startswith(p + ".") for p in cls.PREFIXES)

    def save(self):
        self.modules = {n: m for n, m in sys.modules.items() if self.owned(n)}
        self.np_state = np.random.get_state()
        self.py_state = random.getstate()
        self.print = builtins.print
        self.stdout, self.stderr = sys.stdout, sys.stderr
        if self.cwd is not None:
            self.cwd = os.getcwd()

    def restore(self):
        if self.cwd is not None:
            os.chdir(self.cwd)
        for n in [n for n in sys.modules if self.owned(n)]:
            del sys.modules[n]
        sys.modules.update(self.modules)
        np.random.set_state(self.np_state)
        random.setstate(self.py_state)
        builtins.print = self.print
        sys.stdout, sys.stderr = self.stdout, self.stderr


REAL_PRINT = builtins.print


class Rank:
    def __init__(self, world, r):
        self.world, self.r = world, r
        self.go = threading.Semaphore(0)
        self.cond = None  # None: runnable
        self.done = False
        self.outcome = None  # ("ok", value) | ("exc", type, text, tb) | ("crash",) | ("killed", why)
        self.nops = 0
        self.nwrites = 0
        self.nflushes = 0
        self.oplog = []     # names of the communication calls so far
        self.wlog = []      # first word of every write so far
        self.stalled = 0
        self.stdout = Stream(world, r, "out")
        self.stderr = Stream(world, r, "err")
        self.ctx = None
        self.thread = None
        self.notes = []  # free space for observers


class World:
    def __init__(self, size, sched=None, faults=(), clocks=None, mpi="sim",
                 np_seeds=None, reduce_order=None, max_decisions=400000, independent=False):
        self.size = size
        self.independent = independent  # processes of different jobs: one ending badly does not end the others
        self.sched = Sched(sched)
        self.mpi = mpi  # "sim": simulated mpi4py, "none": mpi4py not importable
        self.ranks = [Rank(self, r) for r in range(size)]
        for rk in self.ranks:
            seed = (np_seeds[rk.r] if np_seeds else 1234 + rk.r)
            rk.ctx = Context(seed, rk.stdout, rk.stderr)
            if mpi == "none":
                rk.ctx.modules["mpi4py"] = None
            else:
                rk.ctx.modules.update(make_mpi4py(self, rk.r))
        self.clocks = clocks or [Clock() for _ in range(size)]
        self.current = None
        self.machine = {"pid": 4000, "name": "node"}
        self.comms = {}
        self.msgs = {}
        self.msg_seq = 0
        self.trace = []        # (rank, event) in global order
        self.verdict = None    # None | ("deadlock", text) | ("mismatch", text) | ("livelock",)
        self.aborted = None
        self.max_decisions = max_decisions
        self.reduce_order = reduce_order  # None: rank order; else seed of a seeded order
        self._ro = random.Random(reduce_order if reduce_order is not None else 0)
        self.faults = [dict(f) for f in faults]
        self.fired = {}
        self.outlog = []       # (rank, stream, text) in global order
        self.all_done = threading.Semaphore(0)
        self.host = Context(0, None, None)

    # -- faults ---------------------------------------------------------------
    def fault(self, rank, point, n):
        for f in self.faults:
            if f.get("point") == point and f["rank"] == rank and (f["at"] == n and not f.get("used") or f.get("sticky") and n > f["at"]):
                f["used"] = True
                self.fired[f["kind"]] = self.fired.get(f["kind"], 0) + 1
                self.trace.append((rank, "fault:" + f["kind"]))
                return f
        return None

    def on_write(self, rank, name, s):
        rk = self.ranks[rank]
        if self.current != rank:
            # code of one rank kept another rank's stream: leakage between ranks
            self.trace.append((self.current, f"foreign-write:{rank}"))
        rk.nwrites += 1
        rk.wlog.append((s.split() or [""])[0][:12])
        f = self.fault(rank, "write", rk.nwrites)
        if f is not None:
            if f["kind"] == "write_error":
                raise OSError(28, "No space left on device")
            if f["kind"] == "crash":
                raise SimCrash()
        self.outlog.append((rank, name, s))

    def on_flush(self, rank):
        rk = self.ranks[rank]
        rk.nflushes += 1
        f = self.fault(rank, "flush", rk.nflushes)
        if f is not None:
            if f["kind"] == "write_error":
                raise OSError(28, "No space left on device")
            if f["kind"] == "crash":
                raise SimCrash()

    # -- scheduling -----------------------------------------------------------
    def run(self, mains):
        """mains: list of callables, one per rank.  Returns when every rank ended."""
        self.host.save()
        for rk, fn in zip(self.ranks, mains):
            rk.thread = threading.Thread(target=self._thread, args=(rk, fn), daemon=True)
            rk.thread.start()
        self.current = None
        first = self._choose()
        self._activate(first)
        self.all_done.acquire()
        for rk in self.ranks:
            rk.thread.join()
        self.host.restore()
        self.current = None
        return self

    def _activate(self, r):
        self.current = r
        self.ranks[r].ctx.restore()
        self.ranks[r].go.release()

    def _thread(self, rk, fn):
        rk.go.acquire()
        try:
            if self.aborted:
                raise SimKilled()
            rk.outcome = ("ok", fn(rk))
        except SimKilled:
            rk.outcome = ("killed", self.aborted)
        except SimCrash:
            rk.outcome = ("crash",)
            self._abort(f"rank {rk.r} crashed")
        except BaseException as e:  # noqa: B036 the rank's process dies with this
            import traceback
            if self.aborted:
                rk.outcome = ("killed", self.aborted)
            else:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f"{f.filename.split('/repo/')[-1]}:{f.name}" for f in tb if "/sim/" not in f.filename]
                rk.outcome = ("exc", type(e).__name__, str(e)[:300], where[-4:])
                self._abort(f"rank {rk.r} raised {type(e).__name__}")
        self.trace.append((rk.r, "end:" + rk.outcome[0]))
        rk.done = True
        rk.ctx.save()
        nxt = self._choose()
        if nxt is None:
            self.all_done.release()
        else:
            self._activate(nxt)

    def _abort(self, why):
        if self.independent and why.startswith("rank "):
            return
        if self.aborted is None:
            self.aborted = why

    def _runnable(self):
        out = []
        for rk in self.ranks:
            if rk.done:
                continue
            if self.aborted or rk.cond is None or rk.cond():
                out.append(rk.r)
        return out

    def _choose(self):
        opts = self._runnable()
        if not opts:
            alive = [rk for rk in self.ranks if not rk.done]
            if not alive:
                return None
            waits = "; ".join(f"rank {rk.r} waits in {rk.waiting}" for rk in alive)
            ended = [rk.r for rk in self.ranks if rk.done]
            self.verdict = self.verdict or ("deadlock", waits + (f"; ended: {ended}" if ended else ""))
            self._abort("deadlock")
            return alive[0].r
        awake = []
        for r in opts:
            rk = self.ranks[r]
            if rk.stalled > 0:
                rk.stalled -= 1
            else:
                awake.append(r)
        if not awake:
            awake = opts
        if self.aborted or len(awake) == 1:
            return awake[0]
        if self.sched.k > self.max_decisions:
            self.verdict = ("livelock", f"no end within {self.max_decisions} decisions")
            self._abort("livelock")
            return awake[0]
        default = self.current if self.current in awake else awake[0]
        return self.sched.pick(awake, default)

    def switch(self, rk):
        """Scheduling point of the running rank."""
        nxt = self._choose()
        if nxt != rk.r:
            rk.ctx.save()
            self._activate(nxt)
            rk.go.acquire()
        if self.aborted:
            raise SimKilled()

    def block(self, rk, cond, what):
        rk.waiting = what
        rk.cond = cond
        self.switch(rk)
        rk.cond = None

    def me(self):
        return self.ranks[self.current]

    # -- communication --------------------------------------------------------
    def enter(self, what):
        """Common part of every communication call of the running rank."""
        rk = self.me()
        rk.nops += 1
        rk.oplog.append(what)
        f = self.fault(rk.r, "comm", rk.nops)
        if f is not None:
            if f["kind"] == "comm_error":
                raise MPIError(15, f"injected in {what}")
            if f["kind"] == "crash":
                raise SimCrash()
            if f["kind"] == "stall":
                rk.stalled = int(f.get("n", 20))
            if f["kind"] == "clock_jump":
                self.clocks[rk.r].t += float(f.get("d", 0.0))
        self.trace.append((rk.r, what))
        self.switch(rk)
        return rk

    def leave(self, rk, what):
        f = self.fault(rk.r, "commx", rk.nops)
        if f is not None:
            if f["kind"] == "comm_error":
                raise MPIError(15, f"injected after {what}")
            if f["kind"] == "crash":
                raise SimCrash()

    def reduce_list(self, op, vals):
        idx = list(range(len(vals)))
        if self.reduce_order is not None:
            self._ro.shuffle(idx)
        acc = vals[idx[0]]
        for i in idx[1:]:
            acc = op.fn(acc, vals[i])
        return acc

    def leftovers(self):
        """Communication that was started and never completed by all of its partners."""
        out = [f"{c.sig[0]} {k}: joined by {len(c.data)} of {c.size} ranks"
               for k, c in self.comms.items() if len(c.data) != c.size]
        for (cid, dest), q in self.msgs.items():
            out += [f"message {m['src']}->{dest} tag {m['tag']} never received" for m in q if not m["taken"]]
        return out

    def summary(self):
        h = hashlib.sha256(repr(self.trace).encode()).hexdigest()[:16]
        return {"decisions": self.sched.k, "deviations": len(self.sched.dev), "ops": [r.nops for r in self.ranks],
                "interleaving": h, "fired": dict(self.fired),
                "sim_time": max(c.t - c.t0 for c in self.clocks) if self.clocks else 0.0}


# ----------------------------------------------------------------------------
# mpi4py
# ----------------------------------------------------------------------------
class Op:
    def __init__(self, name, fn, commute=True):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)

    def __repr__(self):
        return self.name


def _minmax(np_fn, py_fn):
    def f(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np_fn(a, b)
        return py_fn(a, b)
    return f


OPS = {
    "SUM": Op("SUM", lambda a, b: a + b),
    "PROD": Op("PROD", lambda a, b: a * b),
    "MAX": Op("MAX", _minmax(np.maximum, max)),
    "MIN": Op("MIN", _minmax(np.minimum, min)),
    "LAND": Op("LAND", lambda a, b: np.logical_and(a, b)),
    "LOR": Op("LOR", lambda a, b: np.logical_or(a, b)),
    "BAND": Op("BAND", lambda a, b: a & b),
    "BOR": Op("BOR", lambda a, b: a | b),
}


class Datatype:
    def __init__(self, name, dt):
        self.name, self.dt = name, np.dtype(dt)

    def Get_size(self):
        return self.dt.itemsize

    size = property(Get_size)

    def __repr__(self):
        return self.name


DATATYPES = {
    "DOUBLE": "f8", "FLOAT": "f4", "REAL8": "f8", "COMPLEX16": "c16", "DOUBLE_COMPLEX": "c16",
    "C_DOUBLE_COMPLEX": "c16", "COMPLEX": "c8", "COMPLEX8": "c8", "INT": "i4", "INT32_T": "i4", "INT64_T": "i8",
    "LONG": "i8", "LONG_LONG": "i8", "BOOL": "?", "C_BOOL": "?", "BYTE": "u1", "CHAR": "i1",
}


def snap(x):
    return pickle.loads(pickle.dumps(x, protocol=4))


def buf(spec):
    """(flat array or None, counts or None, displs or None) of an MPI buffer argument."""
    if spec is None:
        return None, None, None
    if isinstance(spec, np.ndarray):
        a, rest = spec, []
    elif isinstance(spec, (list, tuple)) and spec and (spec[0] is None or isinstance(spec[0], np.ndarray)):
        a, rest = spec[0], list(spec[1:])
    else:
        a, rest = np.asarray(spec), []
    counts = displs = dtype = None
    if rest and isinstance(rest[-1], Datatype):
        dtype = rest.pop()
    elif rest and rest[-1] is None:
        rest.pop()
    if rest:
        c = rest[0]
        if isinstance(c, (tuple, list)) and len(c) == 2 and c[1] is not None and np.ndim(c[0]) == 1 and np.ndim(c[1]) == 1:
            counts, displs = c
        else:
            counts = c
        if len(rest) > 1:
            displs = rest[1]
    if counts is not None:
        counts = [int(v) for v in np.atleast_1d(np.asarray(counts))]
    if displs is not None:
        displs = [int(v) for v in np.atleast_1d(np.asarray(displs))]
    if a is None:
        return None, counts, displs
    if not (a.flags["C_CONTIGUOUS"] or a.flags["F_CONTIGUOUS"]):
        raise ValueError("ndarray is not contiguous")
    if dtype is not None and dtype.dt != a.dtype:
        raise MPIError(3, f"datatype {dtype} does not describe an array of {a.dtype}")
    return a.reshape(-1, order="A"), counts, displs


class InPlace:
    def __repr__(self):
        return "IN_PLACE"


IN_PLACE = InPlace()
ANY_SOURCE, ANY_TAG, PROC_NULL = -2, -1, -3


class Status:
    def __init__(self):
        self.source = self.tag = None

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Coll:
    __slots__ = ("sig", "data", "result", "size", "left")

    def __init__(self, sig, size):
        self.sig, self.data, self.result, self.size, self.left = sig, {}, None, size, 0


class Request:
    def __init__(self, world, test=None, finish=None):
        self.world, self._test, self._finish, self.value, self.complete = world, test, finish, None, False

    def wait(self, status=None):
        rk = self.world.enter("wait")
        if not self.complete:
            if self._test is not None:
                self.world.block(rk, self._test, "wait")
            if self._finish is not None:
                self.value = self._finish()
            self.complete = True
        return self.value

    Wait = wait

    def test(self, status=None):
        self.world.enter("test")
        if not self.complete and (self._test is None or self._test()):
            if self._finish is not None:
                self.value = self._finish()
            self.complete = True
        return self.complete, self.value

    def Test(self, status=None):
        return self.test()[0]

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall


class Comm:
    def __init__(self, world, cid, members, rank):
        self._w, self._cid, self._members = world, cid, list(members)
        self._rank = self._members.index(rank)
        self._seq = 0

    # plain queries
    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self._members)

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return "sim"

    def Free(self):
        pass

    def Abort(self, errorcode=1):
        raise SystemExit(f"MPI_Abort({errorcode})")

    # -- engine ---------------------------------------------------------------
    def _coll(self, kind, payload, root=None, extra=None, shape="all"):
        """One collective.  shape: all | from_root | to_root."""
        w = self._w
        rk = w.enter(kind)
        n = self._seq
        self._seq += 1
        key = (self._cid, n)
        sig = (kind, root, extra)
        c = w.comms.get(key)
        if c is None:
            c = w.comms[key] = Coll(sig, self.Get_size())
        elif c.sig != sig:
            other = [self._members[r] for r in c.data]
            text = f"collective {n} of communicator {self._cid}: rank {rk.r} calls {sig}, ranks {other} called {c.sig}"
            w.verdict = w.verdict or ("mismatch", text)
            w._abort("mismatch")
            raise SimKilled()
        c.data[self._rank] = payload
        size, me = self.Get_size(), self._rank
        everybody = lambda: len(c.data) == size
        if shape == "all":
            cond = everybody
        elif shape == "from_root":
            if me == root:
                cond = (lambda: True) if w.sched.flip() else everybody
            else:
                cond = lambda: root in c.data
        else:
            if me == root:
                cond = everybody
            else:
                cond = (lambda: True) if w.sched.flip() else (lambda: root in c.data)
        if not cond():
            w.block(rk, cond, f"{kind}#{n}")
        else:
            w.switch(rk)
        return rk, c

    def _exit(self, rk, c, kind):
        c.left += 1
        self._w.leave(rk, kind)

    # -- object collectives ---------------------------------------------------
    def barrier(self):
        rk, c = self._coll("barrier", None)
        self._exit(rk, c, "barrier")

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        rk, c = self._coll("bcast", snap(obj) if self._rank == root else None, root, shape="from_root")
        out = obj if self._rank == root else snap(c.data[root])
        self._exit(rk, c, "bcast")
        return out

    def scatter(self, sendobj=None, root=0):
        if self._rank == root:
            sendobj = [x for x in sendobj]
            if len(sendobj) != self.Get_size():
                raise ValueError(f"expecting {self.Get_size()} items, got {len(sendobj)}")
        rk, c = self._coll("scatter", snap(sendobj) if self._rank == root else None, root, shape="from_root")
        out = snap(c.data[root][self._rank])
        self._exit(rk, c, "scatter")
        return out

    def gather(self, sendobj, root=0):
        rk, c = self._coll("gather", snap(sendobj), root, shape="to_root")
        out = [snap(c.data[r]) for r in range(self.Get_size())] if self._rank == root else None
        self._exit(rk, c, "gather")
        return out

    def allgather(self, sendobj):
        rk, c = self._coll("allgather", snap(sendobj))
        out = [snap(c.data[r]) for r in range(self.Get_size())]
        self._exit(rk, c, "allgather")
        return out

    def alltoall(self, sendobj):
        rk, c = self._coll("alltoall", snap(list(sendobj)))
        out = [snap(c.data[r][self._rank]) for r in range(self.Get_size())]
        self._exit(rk, c, "alltoall")
        return out

    def _reduced(self, c, op):
        if c.result is None:
            c.result = self._w.reduce_list(op, [snap(c.data[r]) for r in range(self.Get_size())])
        return snap(c.result)

    def reduce(self, sendobj, op=OPS["SUM"], root=0):
        op = op or OPS["SUM"]
        rk, c = self._coll("reduce", snap(sendobj), root, op.name, shape="to_root")
        out = self._reduced(c, op) if self._rank == root else None
        self._exit(rk, c, "reduce")
        return out

    def allreduce(self, sendobj, op=OPS["SUM"]):
        op = op or OPS["SUM"]
        rk, c = self._coll("allreduce", snap(sendobj), None, op.name)
        out = self._reduced(c, op)
        self._exit(rk, c, "allreduce")
        return out

    def scan(self, sendobj, op=OPS["SUM"]):
        rk, c = self._coll("scan", snap(sendobj), None, op.name)
        acc = snap(c.data[0])
        for r in range(1, self._rank + 1):
            acc = op.fn(acc, snap(c.data[r]))
        self._exit(rk, c, "scan")
        return acc

    def exscan(self, sendobj, op=OPS["SUM"]):
        rk, c = self._coll("exscan", snap(sendobj), None, op.name)
        acc = None
        for r in range(self._rank):
            acc = snap(c.data[r]) if acc is None else op.fn(acc, snap(c.data[r]))
        self._exit(rk, c, "exscan")
        return acc

    # -- buffer collectives ---------------------------------------------------
    @staticmethod
    def _fill(dst, src):
        if src.size > dst.size:
            raise MPIError(15, "message truncated")
        if src.size < dst.size or src.dtype != dst.dtype:
            if src.dtype != dst.dtype:
                raise MPIError(3, f"type mismatch {src.dtype} -> {dst.dtype}")
        dst[: src.size] = src

    def Bcast(self, b, root=0):
        a, _, _ = buf(b)
        rk, c = self._coll("Bcast", a.copy() if self._rank == root else None, root, shape="from_root")
        if self._rank != root:
            self._fill(a, c.data[root])
        self._exit(rk, c, "Bcast")

    def _layout(self, a, counts, displs):
        n = self.Get_size()
        if counts is None:
            q, rem = divmod(a.size, n)
            if rem:
                raise MPIError(2, "buffer is not a multiple of the communicator size")
            counts = [q] * n
        elif len(counts) == 1:
            counts = counts * n
        if displs is None:
            displs = [sum(counts[:i]) for i in range(n)]
        return counts, displs

    def _scatterv(self, kind, send, recv, root):
        payload = None
        if self._rank == root:
            a, counts, displs = buf(send)
            counts, displs = self._layout(a, counts, displs)
            payload = [a[d: d + k].copy() for k, d in zip(counts, displs)]
            if any(p.size != k for p, k in zip(payload, counts)):
                raise MPIError(2, "send buffer too small")
        rk, c = self._coll(kind, payload, root, shape="from_root")
        if recv is not IN_PLACE:
            dst, cnt, _ = buf(recv)
            part = c.data[root][self._rank]
            want = cnt[0] if cnt else dst.size
            if part.size != want:
                raise MPIError(15, f"{kind}: root sends {part.size} items, rank {self._rank} expects {want}")
            self._fill(dst, part)
        self._exit(rk, c, kind)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._scatterv("Scatter", sendbuf, recvbuf, root)

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self._scatterv("Scatterv", sendbuf, recvbuf, root)

    def _gatherv(self, kind, send, recv, root):
        n = self.Get_size()
        allg = root is None
        here = allg or self._rank == root
        if send is IN_PLACE:
            a, counts, displs = buf(recv)
            counts, displs = self._layout(a, counts, displs)
            src = a[displs[self._rank]: displs[self._rank] + counts[self._rank]].copy()
        else:
            src, cnt, _ = buf(send)
            src = src[: cnt[0]].copy() if cnt else src.copy()
        rk, c = self._coll(kind, src, root, shape="all" if allg else "to_root")
        if here:
            a, counts, displs = buf(recv)
            counts, displs = self._layout(a, counts, displs)
            for r in range(n):
                part = c.data[r]
                if part.size != counts[r]:
                    raise MPIError(15, f"{kind}: rank {r} sends {part.size} items, {counts[r]} expected")
                self._fill(a[displs[r]: displs[r] + counts[r]], part)
        self._exit(rk, c, kind)

    def Gather(self, sendbuf, recvbuf, root=0):
        self._gatherv("Gather", sendbuf, recvbuf, root)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._gatherv("Gatherv", sendbuf, recvbuf, root)

    def Allgather(self, sendbuf, recvbuf):
        self._gatherv("Allgather", sendbuf, recvbuf, None)

    def Allgatherv(self, sendbuf, recvbuf):
        self._gatherv("Allgatherv", sendbuf, recvbuf, None)

    def _bufreduce(self, kind, send, recv, op, root):
        here = root is None or self._rank == root
        op = op or OPS["SUM"]
        src = buf(recv)[0].copy() if send is IN_PLACE else buf(send)[0].copy()
        rk, c = self._coll(kind, src, root, op.name, shape="all" if root is None else "to_root")
        if here:
            sizes = {v.size for v in c.data.values()}
            if len(sizes) != 1:
                raise MPIError(15, f"{kind}: sizes {sizes}")
            if c.result is None:
                c.result = self._w.reduce_list(op, [c.data[r] for r in range(self.Get_size())])
            dst = buf(recv)[0]
            self._fill(dst, np.asarray(c.result, dtype=src.dtype))
        self._exit(rk, c, kind)

    def Reduce(self, sendbuf, recvbuf, op=OPS["SUM"], root=0):
        self._bufreduce("Reduce", sendbuf, recvbuf, op, root)

    def Allreduce(self, sendbuf, recvbuf, op=OPS["SUM"]):
        self._bufreduce("Allreduce", sendbuf, recvbuf, op, None)

    def Alltoall(self, sendbuf, recvbuf):
        a, counts, displs = buf(sendbuf)
        counts, displs = self._layout(a, counts, displs)
        rk, c = self._coll("Alltoall", [a[d: d + k].copy() for k, d in zip(counts, displs)])
        b, rc, rd = buf(recvbuf)
        rc, rd = self._layout(b, rc, rd)
        for r in range(self.Get_size()):
            self._fill(b[rd[r]: rd[r] + rc[r]], c.data[r][self._rank])
        self._exit(rk, c, "Alltoall")

    Alltoallv = Alltoall

    # -- communicators --------------------------------------------------------
    def Split(self, color=0, key=0):
        rk, c = self._coll("Split", (color, key))
        mine = sorted((c.data[r][1], r) for r in range(self.Get_size()) if c.data[r][0] == color)
        self._exit(rk, c, "Split")
        if color is None or color < 0:
            return None
        members = [self._members[r] for _, r in mine]
        return type(self)(self._w, (self._cid, self._seq, color), members, rk.r)

    def Split_type(self, split_type=0, key=0, info=None):
        return self.Split(0, key)

    def Dup(self, info=None):
        return self.Split(0, self._rank)

    Clone = Dup

    # -- point to point -------------------------------------------------------
    def _post(self, payload, dest, tag, kind):
        w = self._w
        w.msg_seq += 1
        q = w.msgs.setdefault((self._cid, dest), [])
        m = {"src": self._rank, "tag": tag or 0, "data": payload, "n": w.msg_seq, "taken": False, "kind": kind}
        q.append(m)
        return m

    def _match(self, source, tag):
        q = self._w.msgs.get((self._cid, self._rank), [])
        for m in q:
            if m["taken"]:
                continue
            if source not in (None, ANY_SOURCE) and m["src"] != source:
                continue
            if tag not in (None, ANY_TAG) and m["tag"] != tag:
                continue
            return m
        return None

    def _send(self, kind, payload, dest, tag, block):
        w = self._w
        rk = w.enter(kind)
        m = self._post(payload, dest, tag, kind)
        if block and not w.sched.flip():
            w.block(rk, lambda: m["taken"], f"{kind} to {dest}")  # rendezvous
        return m

    def send(self, obj, dest, tag=0):
        self._send("send", snap(obj), dest, tag, True)

    def Send(self, b, dest, tag=0):
        self._send("Send", buf(b)[0].copy(), dest, tag, True)

    ssend, Ssend = send, Send

    def isend(self, obj, dest, tag=0):
        m = self._send("isend", snap(obj), dest, tag, False)
        eager = self._w.sched.flip()
        return Request(self._w, None if eager else (lambda: m["taken"]))

    def Isend(self, b, dest, tag=0):
        m = self._send("Isend", buf(b)[0].copy(), dest, tag, False)
        eager = self._w.sched.flip()
        return Request(self._w, None if eager else (lambda: m["taken"]))

    def _take(self, source, tag, status=None):
        m = self._match(source, tag)
        m["taken"] = True
        if status is not None:
            status.source, status.tag = m["src"], m["tag"]
        return m["data"]

    def recv(self, b=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self._w
        rk = w.enter("recv")
        w.block(rk, lambda: self._match(source, tag) is not None, f"recv from {source}")
        out = self._take(source, tag, status)
        w.leave(rk, "recv")
        return out

    def Recv(self, b, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self._w
        rk = w.enter("Recv")
        w.block(rk, lambda: self._match(source, tag) is not None, f"Recv from {source}")
        self._fill(buf(b)[0], self._take(source, tag, status))
        w.leave(rk, "Recv")

    def irecv(self, b=None, source=ANY_SOURCE, tag=ANY_TAG):
        self._w.enter("irecv")
        return Request(self._w, lambda: self._match(source, tag) is not None, lambda: self._take(source, tag))

    def Irecv(self, b, source=ANY_SOURCE, tag=ANY_TAG):
        self._w.enter("Irecv")
        return Request(self._w, lambda: self._match(source, tag) is not None,
                       lambda: self._fill(buf(b)[0], self._take(source, tag)))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._send("sendrecv", snap(sendobj), dest, sendtag, False)
        return self.recv(None, source, recvtag, status)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._send("Sendrecv", buf(sendbuf)[0].copy(), dest, sendtag, False)
        self.Recv(recvbuf, source, recvtag, status)

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self._w
        rk = w.enter("probe")
        w.block(rk, lambda: self._match(source, tag) is not None, f"probe {source}")
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._w.enter("iprobe")
        return self._match(source, tag) is not None

    Probe, Iprobe = probe, iprobe


def make_mpi4py(world, r):
    """The mpi4py package as rank r imports it."""
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.Comm = mpi.Intracomm = Comm
    mpi.COMM_WORLD = Comm(world, 0, range(world.size), r)
    mpi.COMM_SELF = Comm(world, ("self", r), [r], r)
    mpi.COMM_NULL = None
    for n, op in OPS.items():
        setattr(mpi, n, op)
    mpi.Op = Op
    mpi.Datatype = Datatype
    for n, dt in DATATYPES.items():
        setattr(mpi, n, Datatype(n, dt))
    mpi.IN_PLACE, mpi.ANY_SOURCE, mpi.ANY_TAG, mpi.PROC_NULL = IN_PLACE, ANY_SOURCE, ANY_TAG, PROC_NULL
    mpi.UNDEFINED = -32766
    mpi.COMM_TYPE_SHARED = 1
    mpi.Exception = MPIError
    mpi.SUCCESS = 0
    mpi.Request, mpi.Status = Request, Status
    mpi.Wtime = lambda: world.clocks[world.current].read()
    mpi.Is_initialized = lambda: True
    mpi.Is_finalized = lambda: False
    mpi.Init = mpi.Finalize = lambda: None
    mpi.Get_processor_name = lambda: f"{world.machine['name']}{r}"
    mpi.Win = None
    pkg.MPI = mpi
    return {"mpi4py": pkg, "mpi4py.MPI": mpi}
