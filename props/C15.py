"""Mean-field energies do not depend on how much memory is reported free, or when."""

from sim import scf
from . import common as C
from . import scf_common as S

ID = "C15"
RUNS = {"quick": 500, "thorough": 9000}
RULE = ("one run = one cavity mean-field calculation with ample memory and again with the memory probe answered by the simulator (always low, or low at a "
        "seeded subset of the probes, so that the algorithm changes in the middle of the iteration); distinct = different (configuration, set of low probes)")
LEVEL = "exploration"
COMPONENTS = S.COMPONENTS
ASSUMPTIONS = ["calculations that converge with ample memory", "energies agree to 1e-6 (1e-5 with several photon states in the scaled and variational methods), density matrices to 1e-3"]


def gen(rng, i, tier):
    cfg = scf.gen_cfg(rng)
    mem = {"mode": rng.choice(["low", "mix", "mix"]), "seed": rng.randint(0, 10**9)}
    if mem["mode"] == "mix" and rng.random() < 0.5:
        k = rng.randint(1, 8)
        mem["low"] = list(range(1, k + 1))          # pressure that goes away after k probes
    return {"cfg": cfg, "mem": mem, "incore": rng.random() < 0.2, "direct": rng.random() < 0.8}


def job(cfg, mem, plan):
    def fn(rk):
        with scf.Memory(mem) as m:
            mf = scf.make(cfg)
            if "direct_scf" not in (cfg.get("post") or {}):
                mf.direct_scf = plan.get("direct", True)
            mf.kernel()
            out = scf.result(mf)
            out["low"], out["n"] = list(m.low), m.n
        return out
    return fn


def run(plan):
    cfg = plan["cfg"]
    a = scf.process(job(cfg, {"mode": "high"}, plan))
    b = scf.process(job(cfg, plan["mem"], plan))
    bad = []
    low = []
    oa, ob = S.outcome(a), S.outcome(b)
    if oa[0] != "ok":
        bad.append({"class": "no-completion", "text": f"with ample memory: {oa}"})
    elif ob[0] != "ok":
        bad.append({"class": "low-memory-fails", "text": f"with little memory the calculation fails: {ob}"})
    else:
        x, y = oa[1], ob[1]
        low = y["low"]
        if x["converged"] and low:
            if not y["converged"]:
                bad.append({"class": "low-memory-unconverged", "text": f"converged to {x['e_tot']} with ample memory, not converged ({y['e_tot']}) with low probes {low[:5]}"})
            elif abs(x["e_tot"] - y["e_tot"]) > scf.tol(cfg):
                bad.append({"class": "energy", "text": f"energy {y['e_tot']} with low probes {low[:5]}, {x['e_tot']} with ample memory"})
            elif abs(x["dm"] - y["dm"]).max() > 1e-3:
                bad.append({"class": "density", "text": f"density differs by {abs(x['dm'] - y['dm']).max()} with low probes {low[:5]}"})
    res = {"violations": bad, "nontrivial": bool(low)}
    C.finish(res, [a, b], devs=False)
    res["fired"]["memory_low"] = len(low)
    res["key"] = C.h([cfg, low, plan.get("direct")]) if low else None
    res["digest"] = C.h([bad, low, [(o[1]["e_tot"] if o[0] == "ok" else o[1:2]) for o in (oa, ob)]])
    res["outcome"] = "energies agree" if not bad else bad[0]["text"]
    return res


def simplify(plan):
    import copy
    for c in scf.simpler(plan["cfg"]):
        yield dict(copy.deepcopy(plan), cfg=c)
    low = plan["mem"].get("low")
    if low is None:
        q = copy.deepcopy(plan)
        q["mem"]["low"] = [1]
        yield q
    elif len(low) > 1:
        q = copy.deepcopy(plan)
        q["mem"]["low"] = low[:-1]
        yield q
