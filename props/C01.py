"""Every schedule of a parallel run completes, with the same result."""

from sim import afq
from . import common as C

ID = "C01"
RUNS = {"quick": 260, "thorough": 5000}
RULE = ("one run = one AFQMC job (system, kind of walkers, frequencies, control method, rank count 1-8) executed under "
        "a reference schedule and under two seeded schedules with stalls, eager or synchronous collectives and skewed "
        "clocks; distinct = different hash of the event order of a seeded execution of a job of more than one rank "
        "that completed at least one measurement")
LEVEL = "exploration"
COMPONENTS = C.COMPONENTS_AFQMC
ASSUMPTIONS = ["num_walkers >= number of ranks", "the MPI library itself is correct: collectives match in call order per "
               "communicator, point-to-point messages do not overtake each other"]


def gen(rng, i, tier):
    size = C.gen_size(rng, 2, 8)
    cfg = C.gen_cfg(rng, size, max_steps=8)
    execs = [{"size": size, "sched": {"p": 0.0}}]
    for _ in range(2):
        execs.append({"size": size, "sched": C.gen_sched(rng), "faults": C.gen_stalls(rng, size),
                      "clock": C.gen_clock(rng, size)})
    return {"cfg": cfg, "execs": execs}


def run(plan):
    cfg = plan["cfg"]
    worlds, bad = [], []
    for e in plan["execs"]:
        w = afq.run_job(cfg, e["size"], sched=e.get("sched"), faults=e.get("faults") or (), clock=e.get("clock"))
        worlds.append(w)
        f = afq.failure(w)
        if f:
            bad.append({"class": "no-completion", "text": f"job of {e['size']} ranks did not complete: {f}"})
            break
        left = w.leftovers()
        if left:
            bad.append({"class": "leftover", "text": f"communication left over: {left[:3]}"})
        if any(ev.startswith("foreign-write") for _, ev in w.trace):
            raise RuntimeError("simulated processes are not isolated: a rank wrote to the stream of another one")
    if not bad:
        ref = afq.results(worlds[0])
        for n, w in enumerate(worlds[1:], 1):
            for r, (a, b) in enumerate(zip(ref, afq.results(w))):
                d = C.same_bits(a, b)
                if d:
                    bad.append({"class": "schedule-dependent", "text": f"rank {r} of schedule {n} differs from the reference schedule: {d}"})
                    break
    res = {"violations": bad}
    ok = afq.ok(worlds[-1]) and len(afq.results(worlds[0])[0]["energies"]) > 0 if not bad else True
    res["nontrivial"] = bool(ok)
    C.finish(res, worlds)
    res["keys"] = res["interleavings"][1:] if ok else []
    res["digest"] = C.h([[C.result_digest(r) for r in afq.results(w)] for w in worlds] + res["interleavings"] + bad)
    res["outcome"] = "completed under every schedule" if not bad else bad[0]["text"]
    return res


def simplify(plan):
    import copy
    if len(plan["execs"]) > 1:
        for i in range(len(plan["execs"])):
            q = copy.deepcopy(plan)
            del q["execs"][i]
            yield q
    yield from C.simpler_cfg(plan)
