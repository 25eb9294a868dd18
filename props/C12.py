"""Threads of the compiled kernels: results do not depend on how many there are or how they interleave."""

import copy
import sys

import numpy as np

from sim import afq, threads
from . import common as C

ID = "C12"
RUNS = {"quick": 900, "thorough": 20000}
RULE = ("one run = one AFQMC job (1-2 ranks) executed with the parallel loops of the kernels on one thread, again on 2-9 simulated threads interleaved "
        "between statements by a seeded scheduler, and sometimes without the kernel compiler; or the same for a kernel called directly; "
        "distinct = different (configuration, threads, interleaving)")
LEVEL = "exploration"
COMPONENTS = {"real": C.COMPONENTS_AFQMC["real"], "stub": C.COMPONENTS_AFQMC["stub"] + ["the threads of numba (generators that a seeded scheduler interleaves)"]}
ASSUMPTIONS = ["a thread is interrupted between statements and inside updates in place, not inside one array operation",
               "values agree to 1e-8, so that a reduction may add in any order"]
TOL = 1e-8


def gen(rng, i, tier):
    size = 2 if rng.random() < 0.2 else 1
    t = {"n": rng.choice([2, 3, 4, 8, 9]), "sched": {"seed": rng.getrandbits(32), "p": rng.choice([0.05, 0.3, 0.7])}}
    if rng.random() < 0.15:
        return {"kernel": rng.getrandbits(32), "threads": t, "nw": rng.randint(1, 12)}
    cfg = C.gen_cfg(rng, size, max_steps=3, min_steps=1)
    cfg["verbose"] = 0
    return {"cfg": cfg, "size": size, "threads": t, "plain": rng.random() < 0.3}


def job(plan, t):
    return afq.run_job(plan["cfg"], plan["size"], mpi="sim")


def compare(a, b, what):
    for r, (x, y) in enumerate(zip(a, b)):
        for k in ("energies", "eshift"):
            if not C.close(x[k], y[k], TOL):
                return f"rank {r}: {k} {what}: {str(x[k])[:120]} and {str(y[k])[:120]}"
        for k in x["final"]:
            if k in y["final"] and not C.close(x["final"][k], y["final"][k], TOL):
                return f"rank {r}: walker {k} {what}"
    return None


def kernels(plan, t):
    """Direct calls of the kernels that exist in this tree."""
    rs = np.random.RandomState(plan["kernel"])
    nw, nao, no, nchol = plan["nw"], 4, 2, 5

    def c(*s):
        return rs.standard_normal(s) + 1j * rs.standard_normal(s)
    r = rs.standard_normal((nchol, nao, no))
    args = {
        "propagate_onebody_numba": (c(nao, nao), c(nw, nao, no)),
        "propagate_exp_op_numba": (c(nw, nao, no), c(nw, nao, nao), 6),
        "compute_GF_base": (c(nw, nao, no), rs.standard_normal((nao, no))),
        "trial_walker_ovlp_base_numba": (c(nw, nao, no), rs.standard_normal((nao, no))),
        "trial_walker_ovlp_gf_base_numba": (c(nw, nao, no), rs.standard_normal((nao, no))),
        "exx_rltensor_Ghalf_numba": (r, c(nw, nao, no)),
        "ecoul_rltensor_Ghalf_numba": (r, c(nw, nao, no)),
    }
    out = {}

    def main(rk):
        import openms.qmc.propagators, openms.qmc.trial, openms.qmc.estimators  # noqa
        for n in sorted(t.kernels):
            if n in args:
                out[n] = t.kernels[n](*[x.copy() if isinstance(x, np.ndarray) else x for x in args[n]])
        return True
    from sim import scf
    return scf.process(main), out


def run(plan):
    bad, ws = [], []
    t1 = threads.install(1, {})
    devs = None
    if "kernel" in plan:
        w1, o1 = kernels(plan, t1)
        t2 = threads.install(plan["threads"]["n"], plan["threads"]["sched"])
        w2, o2 = kernels(plan, t2)
        ws = [w1, w2]
        for w in ws:
            if w.ranks[0].outcome[0] != "ok":
                bad.append({"class": "no-completion", "text": f"kernel: {w.ranks[0].outcome}"})
        if not bad:
            for n in o1:
                a, b = [x if isinstance(x, tuple) else (x,) for x in (o1[n], o2[n])]
                if not all(C.close(x, y, TOL) for x, y in zip(a, b)):
                    bad.append({"class": "interleaving", "text": f"{n}: result depends on the interleaving of {plan['threads']['n']} threads"})
                    break
        dg = [sorted(o2), [C.arr_digest(np.asarray(x[0] if isinstance(x, tuple) else x)) for _, x in sorted(o2.items())]]
    else:
        w1 = job(plan, t1)
        ws.append(w1)
        f = afq.failure(w1)
        dg = []
        if f:
            bad.append({"class": "no-completion", "text": f"one thread: {f}"})
        else:
            a = afq.results(w1)
            t2 = threads.install(plan["threads"]["n"], plan["threads"]["sched"])
            w2 = job(plan, t2)
            ws.append(w2)
            f = afq.failure(w2)
            if f:
                bad.append({"class": "no-completion", "text": f"{plan['threads']['n']} threads: {f}"})
            else:
                d = compare(a, afq.results(w2), f"with 1 and with {plan['threads']['n']} threads")
                if d:
                    bad.append({"class": "interleaving", "text": d})
                dg = [C.result_digest(r) for r in afq.results(w2)]
            if plan.get("plain") and not bad:
                saved = sys.modules.get("numba")
                sys.modules["numba"] = None
                try:
                    w3 = job(plan, None)
                finally:
                    sys.modules["numba"] = saved
                ws.append(w3)
                f = afq.failure(w3)
                if f:
                    bad.append({"class": "no-compiler", "text": f"without the kernel compiler: {f}"})
                else:
                    d = compare(a, afq.results(w3), "with and without compiled kernels")
                    if d:
                        bad.append({"class": "no-compiler", "text": d})
        if bad and bad[0]["class"] == "no-completion" and len(ws) == 1:
            t2 = t1
    res = {"violations": bad, "nontrivial": t2.stats["thread_switches"] > 0}
    C.finish(res, ws, devs=False)
    res["decisions"] += t2.sched.k
    res["stats"] = {k: v for k, v in t2.stats.items()}
    if plan.get("plain"):
        res["stats"]["without_compiler"] = 1
    if t2.stats["thread_switches"]:
        res["fired"]["thread_switch"] = t2.stats["thread_switches"]
    res["interleavings"] = [C.h(t2.sched.dev)]
    res["key"] = C.h([plan.get("cfg") or plan.get("kernel"), plan["threads"], plan.get("nw")])
    res["digest"] = C.h([dg, bad, t2.sched.dev[:200]])
    res["tdev"] = t2.sched.dev
    res["outcome"] = "independent of the threads" if not bad else bad[0]["text"]
    return res


def simplify(plan):
    if plan.get("plain"):
        q = copy.deepcopy(plan)
        q["plain"] = False
        yield q
    if plan["threads"]["n"] > 2:
        q = copy.deepcopy(plan)
        q["threads"]["n"] = 2
        yield q
    if "cfg" in plan:
        if plan["size"] > 1:
            q = copy.deepcopy(plan)
            q["size"] = 1
            yield q
        yield from C.simpler_cfg(plan)
    elif plan["nw"] > 2:
        q = copy.deepcopy(plan)
        q["nw"] = 2
        yield q
    s = plan["threads"]["sched"]
    if "dev" not in s:
        res = run(plan)
        q = copy.deepcopy(plan)
        q["threads"]["sched"] = {"dev": res["tdev"]}
        yield q
    else:
        d = s["dev"]
        n = 2
        while n <= min(16, len(d)):
            step = -(-len(d) // n)
            for k in range(0, len(d), step):
                q = copy.deepcopy(plan)
                q["threads"]["sched"]["dev"] = d[:k] + d[k + step:]
                yield q
            n *= 2
