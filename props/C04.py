"""The random seed, and nothing else, determines a stochastic run; ranks draw different numbers."""

import random as pyrandom

import numpy as np

from sim import afq
from . import common as C

ID = "C04"
RUNS = {"quick": 260, "thorough": 5000}
ELSEWHERE = {"quick": 24, "thorough": 300}
RULE = ("one run = one seeded AFQMC job executed twice, the second time with another schedule, other clocks, other OS entropy, other host names and process ids, another "
        "initial state of the global generators and a history (draws, an earlier job in the same processes), plus a third time with "
        "another seed; the first runs of a check once more in a process with other string hashes; distinct = different (configuration, event order of the second execution)")
LEVEL = "exploration"
COMPONENTS = C.COMPONENTS_AFQMC
ASSUMPTIONS = ["same machine and libraries", "reductions sum in rank order, as a deterministic MPI does"]
HIST = ["draws", "job", "construct", "reseed", "second"]


def gen(rng, i, tier):
    size = C.gen_size(rng, 1, 8)
    cfg = C.gen_cfg(rng, size, max_steps=5)
    cfg["rfreq"] = rng.choice([1, 2, 5])
    hist = rng.sample(HIST, rng.randint(0, 2))
    if tier == "quick" and (cfg.get("qed") or cfg.get("boson")):
        hist = [x for x in hist if x in ("draws", "reseed")]
    execs = [{"size": size, "sched": {"p": 0.0}, "np": [rng.randint(0, 2**31) for _ in range(size)]},
             {"size": size, "sched": C.gen_sched(rng), "faults": C.gen_stalls(rng, size), "clock": C.gen_clock(rng, size),
              "entropy": rng.randint(1, 10**9),
              "host": {"pid": rng.randint(2, 4 * 10**6), "name": rng.choice(["node", "login", "cn0042-"])}, "np": [rng.randint(0, 2**31) for _ in range(size)], "hist": hist},
             {"size": size, "sched": {"p": 0.0}, "other_seed": other_seed(rng, cfg["seed"])}]
    return {"cfg": cfg, "execs": execs, "aux": {"seed": rng.randint(0, 10**6), "n": rng.randint(1, 5)}}


def other_seed(rng, seed):
    """Another seed: any, one that differs in a single bit, or one that agrees in its last digits."""
    s = rng.choice([rng.randint(1, 10**6) + 10**6, seed ^ (1 << rng.randrange(32)), seed + rng.choice([1, 10**3, 10**5, 10**6, 10**9])])
    return s if s != seed and 0 < s < 2**32 else 12345 if seed != 12345 else 54321


def job(cfg, hist):
    def main(rk):
        aux = {}
        for hname in hist:
            if hname == "draws":
                np.random.standard_normal(7 + rk.r)
                pyrandom.random()
                np.random.default_rng().random()
            elif hname == "job":
                afq.make_afqmc(dict(cfg, seed=(cfg["seed"] + 17) % 2**32, nsteps=2, verbose=0)).kernel()
            elif hname == "construct":
                keep = afq.make_afqmc(dict(cfg, seed=(cfg["seed"] + 3) % 2**32, nsteps=1, verbose=0))  # noqa: F841
            elif hname == "reseed":
                np.random.seed(5 + rk.r)
                pyrandom.seed(9)
        mc = afq.make_afqmc(cfg)
        if "second" in hist:
            other = afq.make_afqmc(dict(cfg, seed=(cfg["seed"] + 5) % 2**32, nsteps=2, verbose=0))
            other.kernel()
        times, energies = mc.kernel()
        return {"times": [float(t) for t in times], "energies": [complex(x) for x in energies], "eshift": complex(mc.eshift),
                "nwalkers": int(mc.walkers.nwalkers), "final": afq.snapshot(mc.walkers)}
    return main


def seeded_tools(aux):
    """Seeded helpers outside of the driver."""
    def main(rk):
        from openms.qmc import tools
        import openms.qmd as qmd
        from openms.qmd.bomd import BOMD
        out = []
        L = np.arange(2 * 3 * 3, dtype=float).reshape(2, 3, 3)
        for m in ("gaussian", "rademacher"):
            a, b = tools.stochastic_thc(L, 4, method=m, seed=aux["seed"])
            out += [C.arr_digest(a), C.arr_digest(b)]
        md = BOMD([], seed=aux["seed"])
        out.append(C.arr_digest(md.prng.random_sample(aux["n"])))
        qmd.set_seed(aux["seed"])
        out.append(C.arr_digest(qmd.rng.random(aux["n"])))
        return out
    return main


def run(plan):
    cfg = plan["cfg"]
    bad, worlds = [], []
    for e in plan["execs"]:
        c = dict(cfg)
        if e.get("other_seed"):
            c["seed"] = e["other_seed"]
        w = afq.run_job(c, e["size"], sched=e.get("sched"), faults=e.get("faults") or (), clock=e.get("clock"),
                        entropy=e.get("entropy"), host=e.get("host"), np_seeds=e.get("np"), mains=[job(c, e.get("hist") or [])] * e["size"])
        worlds.append(w)
        f = afq.failure(w)
        if f:
            bad.append({"class": "no-completion", "text": f"the job did not complete: {f}"})
            break
    if not bad:
        a = afq.results(worlds[0])
        for n in range(1, len(worlds)):
            b = afq.results(worlds[n])
            if plan["execs"][n].get("other_seed"):
                if C.arr_digest(a[0]["final"]["phiwa"]) == C.arr_digest(b[0]["final"]["phiwa"]):
                    bad.append({"class": "seed-ignored", "text": f"seeds {cfg['seed']} and {plan['execs'][n]['other_seed']} give the same walkers"})
                continue
            for r in range(len(a)):
                d = C.same_bits(a[r], b[r])
                if d:
                    bad.append({"class": "not-reproducible", "text": f"rank {r}, same seed {cfg['seed']}, history {plan['execs'][n].get('hist')}: {d}"})
                    break
        # streams of the ranks
        for w in worlds:
            seen = {}
            for r, x in enumerate(afq.results(w)):
                for i, v in enumerate(x["final"]["phiwa"]):
                    k = v.tobytes()
                    if k in seen and seen[k] != r:
                        bad.append({"class": "same-stream", "text": f"walker {i} of rank {r} equals a walker of rank {seen[k]}: the ranks drew the same numbers"})
                        break
                    seen[k] = r
                if bad:
                    break
    aux = []
    if not bad and plan.get("aux"):
        for k in range(2):
            w = afq.run_job(cfg, 1, entropy=1000 + k, np_seeds=[k], mains=[seeded_tools(plan["aux"])])
            f = afq.failure(w)
            if f:
                bad.append({"class": "no-completion", "text": f"seeded helpers: {f}"})
                break
            aux.append(afq.results(w)[0])
        if len(aux) == 2 and aux[0] != aux[1]:
            bad.append({"class": "helper-seed", "text": "a seeded helper returns different numbers for the same seed"})
    res = {"violations": bad, "nontrivial": True}
    C.finish(res, worlds)
    if plan["execs"] and len(worlds) > 1 and worlds[1].size == 1:
        res["key"] = C.h([cfg])
    else:
        res["key"] = C.h([cfg, res["interleavings"]])
    ents = sum(1 for e in plan["execs"] if e.get("entropy"))
    if ents:
        res["fired"]["entropy_change"] = ents
        res["fired"]["other_host_and_pid"] = ents
    for hname in (x for e in plan["execs"] for x in e.get("hist") or []):
        res["fired"]["history:" + hname] = res["fired"].get("history:" + hname, 0) + 1
    res["digest"] = C.h([[[C.result_digest(r) for r in afq.results(w)] for w in worlds], res["interleavings"], bad, aux])
    res["outcome"] = "determined by the seed" if not bad else bad[0]["text"]
    return res


def simplify(plan):
    import copy
    for i in range(len(plan["execs"])):
        if len(plan["execs"]) > 1:
            q = copy.deepcopy(plan)
            del q["execs"][i]
            yield q
        if plan["execs"][i].get("hist"):
            for k in range(len(plan["execs"][i]["hist"])):
                q = copy.deepcopy(plan)
                del q["execs"][i]["hist"][k]
                yield q
    if plan.get("aux"):
        q = copy.deepcopy(plan)
        q.pop("aux")
        yield q
    yield from C.simpler_cfg(plan)
