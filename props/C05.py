"""Population control: every walker afterwards is a whole copy of a walker before, in the same number."""

import numpy as np

from sim import afq, pop
from . import common as C

ID = "C05"
RUNS = {"quick": 420, "thorough": 9000}
RULE = ("one run = either an AFQMC job with a resampling method, observed at every control step, or a history of up to 12 control "
        "steps on walkers with chosen weights and chosen legal random draws (including the end points of the draw interval), on "
        "1-5 ranks under a seeded schedule; distinct = different digest of the control history, counted when a resampling changed the population")
LEVEL = "exploration"
COMPONENTS = C.COMPONENTS_AFQMC
ASSUMPTIONS = ["weights are non-negative and their total over all ranks is positive",
               "a walker is its orbitals (both spins), boson amplitudes, overlap, orthogonalisation factors, local and hybrid energy"]
FIELDS = ("phiwa", "phiwb", "boson_phiw", "ovlp", "eloc", "ehybrid", "detR", "log_detR")


def gen(rng, i, tier):
    size = C.gen_size(rng, 1, 8)
    direct = rng.random() < 0.75
    if direct:
        cfg = C.gen_cfg(rng, size, max_steps=8, per_rank=8)
        if cfg.get("qed"):
            cfg.pop("qed")
        cfg["nwalkers"] = rng.randint(size, size * 12)
        cfg["verbose"] = 0
        plan = {"cfg": cfg, "hist": pop.gen_history(rng, rng.randint(2, 12), C.METHODS[1:], size), "wseed": rng.randint(1, 10**6),
                "draws": {"seed": rng.randint(1, 10**9), "p": rng.choice([0.0, 0.5, 1.0])}}
    else:
        cfg = C.gen_cfg(rng, size, methods=C.METHODS[1:], max_steps=8)
        plan = {"cfg": cfg}
    plan["execs"] = [{"size": size, "sched": C.gen_sched(rng), "faults": C.gen_stalls(rng, size)}]
    return plan


def execute(plan):
    e = plan["execs"][0]
    cfg = plan["cfg"]
    kw = dict(sched=e.get("sched"), faults=e.get("faults") or ())
    if "hist" in plan:
        box = {}
        mains = [pop.main(cfg, plan["hist"], plan["wseed"])] * e["size"]
        d = plan.get("draws")
        if d:
            with pop.Draws(d, lambda: afq.CURRENT):
                w = afq.run_job(cfg, e["size"], mains=mains, **kw)
        else:
            w = afq.run_job(cfg, e["size"], mains=mains, **kw)
    else:
        w = afq.run_job(cfg, e["size"], observe=pop.observe, **kw)
    return w


def row_keys(snap, n, fields):
    rows = []
    for i in range(n):
        rows.append(b"|".join(np.ascontiguousarray(snap[f][i]).astype(complex).tobytes() for f in fields))
    return rows


def run(plan):
    w = execute(plan)
    bad = []
    changed = 0
    nctl = 0
    f = afq.failure(w)
    if f:
        bad.append({"class": "no-completion", "text": f"control steps did not complete: {f}"})
    for rk in w.ranks:
        if bad:
            break
        for k, ev in enumerate(rk.notes):
            op, pre, post = ev["op"], ev["pre"], ev["post"]
            n = len(pre["weights"])
            fields = [x for x in FIELDS if x in pre]
            where = f"rank {rk.r}, control {k} ({op['method']}, step {op['step']})"
            sizes = {x: len(post[x]) for x in fields + ["weights"] if x in post}
            if set(sizes.values()) != {n} or ev["n"] != n:
                bad.append({"class": "count", "text": f"{where}: {n} walkers before, sizes after {sizes}, walker count {ev['n']}"})
                break
            a, b = row_keys(pre, n, fields), row_keys(post, n, fields)
            known = set(a)
            lost = [i for i in range(n) if b[i] not in known]
            if lost:
                i = lost[0]
                src = [j for j in range(n) if np.array_equal(pre["phiwa"][j], post["phiwa"][i])]
                diff = [x for x in fields if src and not np.array_equal(np.asarray(pre[x][src[0]], dtype=complex), np.asarray(post[x][i], dtype=complex), equal_nan=True)]
                bad.append({"class": "mixed", "text": f"{where}: walker {i} afterwards is no whole copy of a walker before"
                            + (f" (orbitals of walker {src[0]}, but other {diff})" if src else "")})
                break
            if not np.all(np.isfinite(post["weights"])) or np.any(post["weights"] < 0):
                if np.all(np.isfinite(pre["weights"])) and np.all(pre["weights"] >= 0):
                    bad.append({"class": "weights", "text": f"{where}: weights {post['weights']} after {pre['weights']}"})
                    break
            if op["method"] is not None and (op["step"] + 1) % op["freq"] == 0:
                nctl += 1
                changed += a != b
                # a walker of zero weight carries nothing and may not replace others
                wsum = np.sum(post["weights"])
                for i in range(n):
                    j = a.index(b[i])
                    if pre["weights"][j] == 0.0 and post["weights"][i] > 1e-9 * wsum and pre["weights"].max() > 0 and a.count(b[i]) == 1:
                        if op["step"] > 0:
                            bad.append({"class": "zero", "text": f"{where}: walker {j} of zero weight got weight {post['weights'][i]}"})
                            break
                if bad:
                    break
            elif a != b:
                bad.append({"class": "untimely", "text": f"{where}: walkers changed outside of a resampling control step"})
                break
    # aliasing: walkers that are copies must not share storage
    res = {"violations": bad, "nontrivial": changed > 0}
    C.finish(res, [w])
    dg = C.h([[(C.arr_digest(ev["post"]["phiwa"]), C.arr_digest(ev["post"]["weights"])) for ev in rk.notes] for rk in w.ranks])
    res["key"] = dg if changed else None
    res["stats"] = {"resampling_steps": nctl, "resamplings_that_changed_walkers": changed, "direct_histories": int("hist" in plan)}
    res["digest"] = C.h([dg, res["interleavings"], bad])
    res["outcome"] = "whole walkers kept" if not bad else bad[0]["text"]
    return res


def simplify(plan):
    import copy
    if "hist" in plan:
        for k in range(len(plan["hist"])):
            if len(plan["hist"]) > 1:
                q = copy.deepcopy(plan)
                del q["hist"][k]
                yield q
        if plan.get("draws"):
            q = copy.deepcopy(plan)
            q.pop("draws")
            yield q
    yield from C.simpler_cfg(plan)
