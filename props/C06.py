"""Weight control: one common rescaling to the total walker number, nothing lost or created."""

import numpy as np

from sim import afq, pop
from . import common as C
from . import C05

ID = "C06"
RUNS = {"quick": 420, "thorough": 9000}
RULE = ("one run = an AFQMC job or a directed history of weight controls on 1-5 ranks under a seeded schedule, compared call by call "
        "with a reference model of the weights of all ranks together; distinct = different digest of the weight history with unequal weights")
LEVEL = "exploration"
COMPONENTS = C.COMPONENTS_AFQMC
ASSUMPTIONS = ["weights are non-negative and their total over all ranks is positive", "agreement to 1e-9 relative"]
TOL = 1e-9


def gen(rng, i, tier):
    plan = C05.gen(rng, i, tier)
    if "hist" in plan:
        for op in plan["hist"]:
            op["method"] = rng.choice(C.METHODS)
    else:
        plan["cfg"]["method"] = rng.choice(C.METHODS)
    return plan


def run(plan):
    w = C05.execute(plan)
    cfg = plan["cfg"]
    bad = []
    uneq = 0
    N = cfg["nwalkers"]
    f = afq.failure(w)
    if f:
        bad.append({"class": "no-completion", "text": f"control steps did not complete: {f}"})
    calls = list(zip(*[rk.notes for rk in w.ranks]))
    total = float(N)
    for k, evs in enumerate(calls):
        if bad:
            break
        op = evs[0]["op"]
        where = f"control {k} ({op['method']}, step {op['step']}, every {op['freq']})"
        pre = [ev["pre"]["weights"] for ev in evs]
        post = [ev["post"]["weights"] for ev in evs]
        org = [ev["post"].get("weights_org") for ev in evs]
        bound = 0.1 * total
        clip = [np.clip(x, -bound, bound) if op["step"] > 0 else x for x in pre]
        ctl = (op["step"] + 1) % op["freq"] == 0
        if ctl:
            total = float(sum(np.sum(np.abs(x)) for x in clip))
            want = [x * (N / total) for x in clip]
        else:
            want = clip
        if max(np.ptp(np.concatenate(pre)), 0) > 1e-9:
            uneq += 1
        scale = max(1e-300, max(float(np.max(np.abs(x))) for x in want))
        if op["method"] is None or not ctl:
            for r, (x, y) in enumerate(zip(want, post)):
                if x.shape != y.shape or not np.all(np.abs(x - y) <= TOL * np.abs(x) + 1e-14 * scale):
                    bad.append({"class": "rescale", "text": f"{where}, rank {r}: weights {y[:4]}, expected {x[:4]} from {pre[r][:4]}"})
                    break
        else:
            got = float(sum(np.sum(x) for x in post))
            if not abs(got - N) <= 1e-8 * N:
                bad.append({"class": "total", "text": f"{where}: total weight over all ranks {got}, must be {N}"})
            for r, (x, y) in enumerate(zip(want, post)):
                if not abs(np.sum(x) - np.sum(y)) <= 1e-8 * max(1e-12, np.sum(x)):
                    bad.append({"class": "rank-total", "text": f"{where}: rank {r} holds weight {np.sum(y)} after resampling, {np.sum(x)} before"})
                    break
        if ctl and not bad:
            for r, (x, y) in enumerate(zip(clip, org)):
                if y is not None and (x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-300)):
                    bad.append({"class": "raw", "text": f"{where}, rank {r}: unscaled weights {y[:4]}, expected {x[:4]}"})
                    break
    res = {"violations": bad, "nontrivial": uneq > 0}
    C.finish(res, [w])
    dg = C.h([[C.arr_digest(ev["post"]["weights"]) for ev in rk.notes] for rk in w.ranks])
    res["key"] = dg if uneq else None
    res["stats"] = {"controls_compared": len(calls), "controls_of_unequal_weights": uneq}
    res["digest"] = C.h([dg, res["interleavings"], bad])
    res["outcome"] = "weights follow the model" if not bad else bad[0]["text"]
    return res


simplify = C05.simplify
