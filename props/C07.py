"""Population control is unbiased: the expected weight carried by the copies of a walker is its weight."""

import random

import numpy as np

from sim import afq, pop
from . import common as C

ID = "C07"
RUNS = {"quick": 240, "thorough": 3000}
RULE = ("one run = one weight pattern and one method. Statistical runs (1-3 ranks): the resampling step is repeated from the same "
        "state under 400-1600 seeded draws and the mean weight carried by every walker's copies is compared with its weight at six "
        "standard errors; the comb-like methods must also give floor or ceiling of the expected number of copies in every single draw. "
        "Exact runs (one rank): the simulator supplies the uniform draws, finds every draw value at which the outcome changes by "
        "bisection and compares the exact expectation with the weight; a difference counts only if random draws confirm the structure; "
        "distinct = different (method, pattern, size, weights)")
LEVEL = "exploration"
COMPONENTS = C.COMPONENTS_AFQMC
ASSUMPTIONS = ["draws are independent and uniform, as numpy's generator supplies", "weights are non-negative with positive total on every rank",
               "statistical statement: a bias below six standard errors of the sample is not seen"]


def gen(rng, i, tier):
    size = rng.choice([1, 1, 2, 3])
    return {"cfg": {"system": rng.choice(["h2", "h3", "h2b"]), "uhf": True, "nsteps": 1, "nwalkers": size * rng.randint(2, 12),
                    "seed": 1, "verbose": 0}, "method": rng.choice(C.METHODS[1:]), "pattern": rng.choice(pop.PATTERNS),
            "exact": size == 1 and rng.random() < 0.6, "wseed": rng.randint(1, 10**6), "dseed": rng.randint(1, 10**6), "n": 400 if tier == "quick" else 1600,
            "execs": [{"size": size, "sched": {"seed": rng.randint(0, 10**9), "p": 0.02}}]}


GRID = [1e-9] + [(k + 0.37) / 16 for k in range(16)] + [1 - 1e-9]
WIDTH = 1e-10


def exact(plan, mc, base, keys):
    """Expected weight of the copies of every walker, integrated over the draws the method makes."""
    w, method = mc.walkers, plan["method"]
    tot0, N = w.total_weight, w.nwalkers
    W = float(np.sum(base["weights"]))
    g = random.Random(plan["dseed"])
    info = {"evals": 0, "breaks": 0, "draws": 0}
    dr = pop.Script(plan["dseed"])

    def outcome(u):
        for f, v in base.items():
            setattr(w, f, v.copy())
        w.total_weight = tot0
        dr.start(u)
        w.weight_control(0, freq=1, method=method)
        car = np.zeros(N)
        for i in range(len(w.weights)):
            j = keys.get(np.ascontiguousarray(w.phiwa[i]).tobytes())
            if j is None:
                raise Alien(i)
            car[j] += w.weights[i]
        info["evals"] += 1
        return car

    def equal(a, b):
        return np.max(np.abs(a - b)) <= 1e-9 * W

    out = []
    np.random.seed(plan["dseed"] % (2 ** 32))
    before = np.random.get_state()[1].copy(), random.getstate()
    with dr:
        u0 = [g.random() for _ in range(4 * N + 8)]
        c0 = outcome(u0)
        nd = dr.k
        if not (np.array_equal(before[0], np.random.get_state()[1]) and before[1] == random.getstate()):
            return {"skipped": "draws that are not uniform numbers", "info": info}
        info["draws"] = nd
        dep = [set() for _ in range(N)]
        integral = [c0.copy()] * nd
        pieces = {}
        for d in range(min(nd, len(u0))):
            def at(x):
                u = list(u0)
                u[d] = x
                return outcome(u)
            pts = [(x, at(x)) for x in GRID]
            segs = []       # (from, to, carried)

            def walk(a, fa, b, fb):
                if equal(fa, fb):
                    segs.append((a, b, fa))
                elif b - a < WIDTH:
                    segs.append((a, (a + b) / 2, fa))
                    segs.append(((a + b) / 2, b, fb))
                    info["breaks"] += 1
                else:
                    m = (a + b) / 2
                    fm = at(m)
                    walk(a, fa, m, fm)
                    walk(m, fm, b, fb)
            segs.append((0.0, pts[0][0], pts[0][1]))
            for (a, fa), (b, fb) in zip(pts, pts[1:]):
                walk(a, fa, b, fb)
                if info["evals"] > 6000:
                    return {"skipped": "too many breakpoints", "info": info}
            segs.append((pts[-1][0], 1.0, pts[-1][1]))
            pieces[d] = segs
            integral[d] = sum((b - a) * f for a, b, f in segs)
            for i in range(N):
                if any(abs(f[i] - c0[i]) > 1e-9 * W for _, _, f in segs):
                    dep[i].add(d)
        for i in range(N):
            wi = base["weights"][i]
            if len(dep[i]) > 1:
                continue
            d = next(iter(dep[i]), None)
            got = c0[i] if d is None else integral[d][i]
            if abs(got - wi) <= 1e-6 * W + 1e-9:
                continue
            # does the weight of this walker really follow this one draw alone?
            n = 2000 if d is not None else min(60000, int(40 * W / max(abs(got - wi), 1e-300)))
            if d is None and n * abs(got - wi) / W < 25:
                continue
            for _ in range(n):
                u = [g.random() for _ in u0]
                c = outcome(u)[i]
                want = got if d is None else next(f[i] for a, b, f in pieces[d] if u[d] <= b)
                near = d is not None and any(abs(u[d] - b) < 1e-8 for _, b, _ in pieces[d])
                if not near and abs(c - want) > 1e-9 * W:
                    break
            else:
                return {"bias": (i, float(wi), float(got)), "info": info}
    return {"info": info}


class Alien(Exception):
    pass


def run_exact(plan):
    cfg, e = plan["cfg"], plan["execs"][0]

    def main(rk):
        mc = afq.make_afqmc(cfg)
        w = mc.walkers
        rng = np.random.RandomState((plan["wseed"] * 1009 + 7) % (2 ** 31))
        pop.fill(w, rng)
        w.weights = pop.pattern(plan["pattern"], w.nwalkers, rng)
        w.weight_control(0, freq=1, method=None)
        base = afq.snapshot(w)
        keys = {np.ascontiguousarray(base["phiwa"][i]).tobytes(): i for i in range(w.nwalkers)}
        try:
            return exact(plan, mc, base, keys)
        except Alien as x:
            return {"alien": x.args[0]}

    w = afq.run_job(cfg, 1, sched=e.get("sched"), mains=[main])
    bad = []
    f = afq.failure(w)
    o = afq.results(w)[0] or {}
    if f:
        bad.append({"class": "no-completion", "text": f"{plan['method']}: {f}"})
    elif "alien" in o:
        bad.append({"class": "alien", "text": f"{plan['method']}: a walker that did not exist before appears"})
    elif "bias" in o:
        i, wi, got = o["bias"]
        bad.append({"class": "bias", "text": f"{plan['method']}: walker {i} of weight {wi:.8g} carries {got:.8g} in expectation over the draws"})
    info = o.get("info", {})
    res = {"violations": bad, "nontrivial": info.get("breaks", 0) > 0}
    C.finish(res, [w])
    res["key"] = C.h(["exact", plan["method"], plan["pattern"], cfg["nwalkers"], plan["wseed"]]) if info.get("breaks") else None
    res["stats"] = {"exact_evaluations": info.get("evals", 0), "exact_breakpoints": info.get("breaks", 0)}
    if "skipped" in o:
        res["stats"]["exact_skipped"] = 1
    res["digest"] = C.h([sorted(o.items(), key=str), res["interleavings"], bad])
    res["outcome"] = "unbiased" if not bad else bad[0]["text"]
    return res


def run(plan):
    if plan.get("exact"):
        return run_exact(plan)
    cfg, method, n = plan["cfg"], plan["method"], plan["n"]
    e = plan["execs"][0]

    def main(rk):
        mc = afq.make_afqmc(cfg)
        w = mc.walkers
        rng = np.random.RandomState((plan["wseed"] * 1009 + rk.r * 31 + 7) % (2 ** 31))
        pop.fill(w, rng)
        w.weights = pop.pattern(plan["pattern"], w.nwalkers, rng)
        w.weight_control(0, freq=1, method=None)
        base = afq.snapshot(w)
        keys = {np.ascontiguousarray(base["phiwa"][i]).tobytes(): i for i in range(w.nwalkers)}
        tot0 = w.total_weight
        np.random.seed([plan["dseed"], rk.r])
        import random
        random.seed(f"{plan['dseed']}/{rk.r}")
        carried = np.zeros((n, w.nwalkers))
        copies = np.zeros((n, w.nwalkers), dtype=int)
        for s in range(n):
            for f, v in base.items():
                setattr(w, f, v.copy())
            w.total_weight = tot0
            w.weight_control(0, freq=1, method=method)
            for i in range(len(w.weights)):
                j = keys.get(np.ascontiguousarray(w.phiwa[i]).tobytes())
                if j is None:
                    return {"alien": i}
                carried[s, j] += w.weights[i]
                copies[s, j] += 1
        return {"w": base["weights"], "carried": carried, "copies": copies}

    w = afq.run_job(cfg, e["size"], sched=e.get("sched"), mains=[main] * e["size"])
    bad = []
    f = afq.failure(w)
    distinct = 0
    outs = afq.results(w)
    if f:
        bad.append({"class": "no-completion", "text": f"{method}: {f}"})
        outs = []
    for r, o in enumerate(outs):
        if "alien" in o:
            bad.append({"class": "alien", "text": f"{method}: a walker that did not exist before appears on rank {r}"})
            break
        ww, car, cop = o["w"], o["carried"], o["copies"]
        N, W = len(ww), float(np.sum(ww))
        mean = car.mean(axis=0)
        se = car.std(axis=0, ddof=1) / np.sqrt(n)
        distinct += int(np.any(car.std(axis=0) > 0))
        # a walker whose event probability is below 1/n may show no spread at all: bound its error by the largest event
        floor = 12.0 * W / n
        off = np.abs(mean - ww) > 6 * se + floor * (se < 1e-12) * (ww < W / n * 12) + 1e-9 * W + 6.0 * np.sqrt(np.maximum(ww, 0) * W) / n
        if np.any(off):
            i = int(np.argmax(off))
            bad.append({"class": "bias", "text": f"{method}, rank {r}: walker {i} of weight {ww[i]:.6g} carries {mean[i]:.6g} on average over {n} draws (standard error {se[i]:.2g})"})
            break
        if method in ("comb", "reconfiguration"):
            x = N * ww / W
            lo, hi = np.floor(x - 1e-9), np.ceil(x + 1e-9)
            viol = (cop < lo) | (cop > hi)
            if np.any(viol):
                s, i = [int(t[0]) for t in np.nonzero(viol)]
                bad.append({"class": "copies", "text": f"{method}, rank {r}: walker {i} expected {x[i]:.6g} copies, got {cop[s, i]} in draw {s}"})
                break
        sums = car.sum(axis=1)
        if np.any(np.abs(sums - W) > 1e-8 * W):
            bad.append({"class": "total", "text": f"{method}, rank {r}: total weight {sums[np.argmax(np.abs(sums - W))]} instead of {W}"})
            break
    res = {"violations": bad, "nontrivial": distinct > 0}
    C.finish(res, [w])
    res["key"] = C.h([method, plan["pattern"], cfg["nwalkers"], e["size"], plan["wseed"]]) if distinct else None
    res["stats"] = {"resampling_draws": n * len(outs)}
    res["digest"] = C.h([[o.get("carried", np.zeros(0)).tobytes() for o in outs], res["interleavings"], bad])
    res["outcome"] = "unbiased" if not bad else bad[0]["text"]
    return res


def simplify(plan):
    import copy
    c = plan["cfg"]
    size = plan["execs"][0]["size"]
    if size > 1:
        q = copy.deepcopy(plan)
        q["execs"][0]["size"] = 1
        q["cfg"]["nwalkers"] = c["nwalkers"] // size
        yield q
    for m in (2, 3, 4, 6):
        if m * size < c["nwalkers"]:
            q = copy.deepcopy(plan)
            q["cfg"]["nwalkers"] = m * size
            yield q
    if c["system"] != "h2":
        q = copy.deepcopy(plan)
        q["cfg"]["system"] = "h2"
        yield q
