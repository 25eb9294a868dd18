"""With shared noise the result does not depend on the number of ranks."""

import numpy as np

from sim import afq
from . import common as C

ID = "C03"
RUNS = {"quick": 240, "thorough": 5000}
RULE = ("one run = one AFQMC job in shared-noise mode on one rank and on two other rank counts, each under a seeded schedule and "
        "reduction order; distinct = different (configuration, rank counts, event order) of jobs with at least one measurement")
LEVEL = "exploration"
COMPONENTS = C.COMPONENTS_AFQMC
ASSUMPTIONS = ["num_walkers >= number of ranks", "population control by weight rescaling only: the resampling methods draw random numbers per rank",
               "agreement to 1e-7 relative, the sums are ordered differently"]
TOL = 1e-7


def gen(rng, i, tier):
    sizes = [1] + rng.sample([2, 2, 3, 3, 4, 4, 5, 6, 7, 8] if tier == "quick" else [2, 3, 4, 5, 6, 7, 8], 2)
    cfg = C.gen_cfg(rng, max(sizes), methods=[None], max_steps=8)
    cfg.pop("dead", None)
    cfg["shared_noise"] = True
    return {"cfg": cfg, "execs": [{"size": s, "sched": C.gen_sched(rng), "faults": C.gen_stalls(rng, s, 2),
                                   "reduce_order": rng.randint(1, 10**6)} for s in sizes]}


def run(plan):
    cfg = plan["cfg"]
    bad, worlds = [], []
    for e in plan["execs"]:
        w = afq.run_job(cfg, e["size"], sched=e.get("sched"), faults=e.get("faults") or (), reduce_order=e.get("reduce_order"))
        worlds.append(w)
        f = afq.failure(w)
        if f:
            bad.append({"class": "no-completion", "text": f"job of {e['size']} ranks did not complete: {f}"})
            break
    meas = 0
    if not bad:
        ref = afq.results(worlds[0])
        meas = len(ref[0]["energies"])
        cat0 = gather(ref)
        for e, w in zip(plan["execs"][1:], worlds[1:]):
            rs = afq.results(w)
            txt = f"{e['size']} ranks against {plan['execs'][0]['size']}"
            for r in rs:
                if not C.close(ref[0]["energies"], r["energies"], TOL):
                    bad.append({"class": "energies", "text": f"{txt}: energies {r['energies']} against {ref[0]['energies']}"})
                    break
            cat = gather(rs)
            for k in cat0:
                if k not in cat or not C.close(cat0[k], cat[k], TOL):
                    d = np.max(np.abs(cat0[k] - cat[k])) if k in cat and cat0[k].shape == cat[k].shape else "shape"
                    bad.append({"class": "walkers", "text": f"{txt}: walker field {k} differs by {d}"})
                    break
            if not bad and not C.close(ref[0]["eshift"], rs[0]["eshift"], TOL):
                bad.append({"class": "eshift", "text": f"{txt}: energy shift {rs[0]['eshift']} against {ref[0]['eshift']}"})
            if bad:
                break
    res = {"violations": bad, "nontrivial": meas > 0}
    C.finish(res, worlds)
    res["key"] = C.h([cfg, [e["size"] for e in plan["execs"]], res["interleavings"]]) if meas else None
    res["digest"] = C.h([[[C.result_digest(r) for r in afq.results(w)] for w in worlds], res["interleavings"], bad])
    res["outcome"] = "rank counts agree" if not bad else bad[0]["text"]
    return res


def gather(rs):
    out = {}
    for k in rs[0]["final"]:
        out[k] = np.concatenate([np.atleast_1d(r["final"][k]) for r in rs])
    return out


def simplify(plan):
    import copy
    if len(plan["execs"]) > 2:
        for i in range(len(plan["execs"])):
            q = copy.deepcopy(plan)
            del q["execs"][i]
            yield q
    yield from C.simpler_cfg(plan)
