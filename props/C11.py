"""Running without MPI is running with one rank."""

import numpy as np

from sim import afq
from . import common as C

ID = "C11"
RUNS = {"quick": 400, "thorough": 9000}
RULE = ("one run = one AFQMC job without mpi4py and with a one-rank communicator, compared bit by bit including the output, and a seeded history of "
        "communicator calls on both communicators; distinct = different configuration and call history")
LEVEL = "exploration"
COMPONENTS = {"real": C.COMPONENTS_AFQMC["real"] + ["the library's own serial communicator"], "stub": C.COMPONENTS_AFQMC["stub"]}
ASSUMPTIONS = ["communicator calls in the forms the library itself uses (numpy arrays and numpy scalars)"]
CALLS = ["allreduce", "allreduce_scalar", "Allreduce", "Reduce", "gather", "Gather", "Gatherv", "Allgather", "bcast", "Bcast", "scatter",
         "Scatter", "Scatterv", "Split", "barrier", "Isend", "ranks"]


def gen(rng, i, tier):
    cfg = C.gen_cfg(rng, 1, max_steps=8)
    calls = [[rng.choice(CALLS), rng.randint(1, 6), rng.randint(0, 10**6), rng.random() < 0.5] for _ in range(rng.randint(3, 12))]
    return {"cfg": cfg, "calls": calls, "execs": [{"size": 1}], "clock": C.gen_clock(rng, 1)}


def calls_main(calls):
    def main(rk):
        from openms.__mpi__ import MPI, MPIWrapper
        m = MPIWrapper()
        comm = m.comm
        out = [(m.size, m.rank, comm.Get_size(), comm.Get_rank())]
        for name, n, seed, cplx in calls:
            g = np.random.RandomState(seed)
            a = g.standard_normal(n) + (1j * g.standard_normal(n) if cplx else 0)
            keep = a.copy()
            r = np.full_like(a, 7.5)    # receive buffers hold other data before
            dt = MPI.COMPLEX16 if cplx else MPI.DOUBLE
            val = None
            if name == "allreduce":
                val = comm.allreduce(a, op=MPI.SUM)
                aliased = val is a
                val = (val, bool(aliased))
            elif name == "allreduce_scalar":
                val = comm.allreduce(np.sum(a), op=MPI.SUM)
            elif name == "Allreduce":
                comm.Allreduce(a, r)
            elif name == "Reduce":
                comm.Reduce(a, r, op=MPI.SUM, root=0)
            elif name == "gather":
                val = comm.gather(a, root=0)
            elif name == "Gather":
                comm.Gather(a, r, root=0)
            elif name == "Gatherv":
                comm.Gatherv(a, [r, [n], [0], dt], root=0)
            elif name == "Allgather":
                comm.Allgather(a, r)
            elif name == "bcast":
                val = comm.bcast(a, root=0)
            elif name == "Bcast":
                comm.Bcast(a, root=0)
            elif name == "scatter":
                val = comm.scatter(a.reshape(1, n), root=0)
            elif name == "Scatter":
                comm.Scatter(a, r, root=0)
            elif name == "Scatterv":
                comm.Scatterv([a, [n], [0], dt], r, root=0)
            elif name == "Split":
                s = comm.Split(color=0, key=0)
                val = (s.Get_size(), s.Get_rank())
            elif name == "barrier":
                val = (comm.Barrier(), comm.barrier())
            elif name == "Isend":
                q = comm.Isend(a, dest=0, tag=3)
                comm.Recv(r, source=0, tag=3)
                q.wait()
            elif name == "ranks":
                val = (comm.rank, comm.size)
            if not np.array_equal(a, keep):
                val = ("send buffer changed", a)
            out.append((name, show(val), show(r)))
        return out
    return main


def show(v):
    if isinstance(v, np.ndarray):
        return (str(v.dtype), v.shape, v.tobytes().hex())
    if isinstance(v, np.generic):
        return (str(v.dtype), v.tobytes().hex())
    if isinstance(v, (list, tuple)):
        return tuple(show(x) for x in v)
    return repr(v)


def run(plan):
    cfg, clock = plan["cfg"], plan.get("clock")
    bad = []
    ws = [afq.run_job(cfg, 1, mpi=m, clock=clock) for m in ("none", "sim")]
    fs = [afq.failure(w) for w in ws]
    if any(fs):
        bad.append({"class": "no-completion", "text": f"without MPI: {fs[0] or 'completes'}; one rank: {fs[1] or 'completes'}"})
    else:
        d = C.same_bits(afq.results(ws[0])[0], afq.results(ws[1])[0])
        if d:
            bad.append({"class": "result", "text": f"without MPI and with one rank the results differ: {d}"})
        else:
            t = [strip(w.ranks[0].stdout.text()) for w in ws]
            if t[0] != t[1]:
                x = [(p, q) for p, q in zip(t[0], t[1]) if p != q][:1] or [(len(t[0]), len(t[1]))]
                bad.append({"class": "output", "text": f"without MPI and with one rank the outputs differ: {x[0]}"})
    cs = []
    if not bad and plan.get("calls"):
        cs = [afq.run_job(cfg, 1, mpi=m, mains=[calls_main(plan["calls"])]) for m in ("none", "sim")]
        fs = [afq.failure(w) for w in cs]
        if fs[0] and not fs[1]:
            bad.append({"class": "call-fails", "text": f"the serial communicator fails where one rank succeeds: {fs[0]}"})
        elif fs[1]:
            raise RuntimeError(f"simulated communicator: {fs[1]}")
        else:
            for x, y in zip(cs[0].ranks[0].outcome[1], cs[1].ranks[0].outcome[1]):
                if x != y:
                    bad.append({"class": "call", "text": f"serial communicator: {str(x)[:200]}, one rank: {str(y)[:200]}"})
                    break
    res = {"violations": bad, "nontrivial": True}
    C.finish(res, ws, devs=False)
    res["key"] = C.h([cfg, plan.get("calls")])
    res["stats"] = {"communicator_calls": len(plan.get("calls") or [])}
    res["fired"]["mpi_unavailable"] = 1
    res["digest"] = C.h([[C.result_digest(r) for w in ws for r in afq.results(w)], bad])
    res["outcome"] = "serial equals one rank" if not bad else bad[0]["text"]
    return res


def strip(text):
    # wall times are not results
    import re
    return [re.sub(r"[-+]?\d+\.\d+(e[-+]?\d+)?\s*s?$", "", re.sub(r"0x[0-9a-f]+", "0x", ln)).rstrip() for ln in text.splitlines()]


def simplify(plan):
    import copy
    if plan.get("calls"):
        for k in range(len(plan["calls"])):
            q = copy.deepcopy(plan)
            del q["calls"][k]
            yield q
    yield from C.simpler_cfg(plan)
