"""Reported energies are weight averages over all walkers of all ranks, the same on every rank."""

import copy

import numpy as np

from sim import afq
from . import common as C

ID = "C02"
RUNS = {"quick": 300, "thorough": 6000}
RULE = ("one run = one AFQMC job of 1-6 ranks under a seeded schedule (stalls, eager collectives, permuted reduction order); "
        "every measurement is recomputed walker by walker from the state the ranks held when they measured; distinct = "
        "different (configuration, event order) with at least one measurement of walkers of unequal weight or energy")
LEVEL = "exploration"
COMPONENTS = C.COMPONENTS_AFQMC
ASSUMPTIONS = ["num_walkers >= number of ranks", "the local energy of a single walker computed serially by the library itself is the "
               "reference for that walker"]
TOL = 1e-8


def gen(rng, i, tier):
    size = C.gen_size(rng, 1, 8)
    cfg = C.gen_cfg(rng, size, max_steps=8)
    cfg["pfreq"] = min(cfg["pfreq"], cfg["nsteps"])
    return {"cfg": cfg, "execs": [{"size": size, "sched": C.gen_sched(rng), "faults": C.gen_stalls(rng, size),
                                   "clock": C.gen_clock(rng, size), "reduce_order": rng.randint(1, 10**6) if rng.random() < 0.5 else None}]}


def observer(rk, mc):
    w = mc.walkers
    rk.notes = {"meas": [], "win": [], "shift": []}
    box = {}

    def b(a, k):
        box["s"] = afq.snapshot(w, ("phiwa", "phiwb", "boson_phiw", "weights", "weights_org"))
        box["s"]["eshift"] = complex(getattr(mc, "eshift", np.nan))

    def f(a, k, out):
        try:
            vals = [complex(x) for x in out]
        except TypeError:
            vals = None
        rk.notes["meas"].append((box["s"], vals))
    afq.wrap(mc.propagator, "local_energy", b, f)

    def p(a, k):
        s = k.get("eshift", a[3] if len(a) > 3 else None)
        rk.notes["shift"].append(None if s is None else complex(s))
    afq.wrap(mc.propagator, "propagate_walkers", p, None)

    def wc(a, k, out):
        rk.notes["win"].append((complex(np.sum(w.weights)), complex(np.sum(w.ehybrid * w.weights))))
    afq.wrap(w, "weight_control", None, wc)


def oracle(cfg, states):
    """Serial local energies of single walkers; runs the library without MPI."""
    c = dict(cfg, nwalkers=1, verbose=0)

    def main(rk):
        mc = afq.make_afqmc(c)
        mc.propagator.build(mc.h1e, mc.ltensor, mc.trial, mc.geb)
        w = mc.walkers
        out = []
        for st in states:
            rows = []
            for i in range(len(st["weights"])):
                for f in ("phiwa", "phiwb", "boson_phiw"):
                    if f in st:
                        setattr(w, f, st[f][i:i + 1].copy())
                w.weights = np.ones(1)
                rows.append([complex(x) for x in mc.propagator.local_energy(mc.h1e, mc.ltensor, w, mc.trial, enuc=mc.nuc_energy)])
            out.append(np.array(rows))
        return {"times": [], "energies": [], "eshift": 0j, "nwalkers": 1, "final": {}, "rows": out}
    return afq.run_job(c, 1, mpi="none", mains=[main])


def run(plan):
    cfg, e = plan["cfg"], plan["execs"][0]
    bad = []
    w = afq.run_job(cfg, e["size"], sched=e.get("sched"), faults=e.get("faults") or (), clock=e.get("clock"),
                    reduce_order=e.get("reduce_order"), observe=observer)
    res = {"violations": bad, "nontrivial": False}
    worlds = [w]
    f = afq.failure(w)
    nmeas = cfg["nsteps"] // cfg["pfreq"]
    unequal = 0
    if f:
        bad.append({"class": "no-completion", "text": f"the job did not complete: {f}"})
    else:
        rs = afq.results(w)
        for r, x in enumerate(rs[1:], 1):
            if not C.same(x["energies"], rs[0]["energies"]) or x["times"] != rs[0]["times"]:
                bad.append({"class": "ranks-differ", "text": f"rank {r} returns {x['energies']}, rank 0 returns {rs[0]['energies']}"})
            if not C.same(x["eshift"], rs[0]["eshift"]):
                bad.append({"class": "ranks-differ", "text": f"rank {r} ends with energy shift {x['eshift']}, rank 0 with {rs[0]['eshift']}"})
        if len(rs[0]["energies"]) != nmeas or len(rs[0]["times"]) != nmeas:
            bad.append({"class": "count", "text": f"{cfg['nsteps']} steps measured every {cfg['pfreq']}: {len(rs[0]['energies'])} energies and {len(rs[0]['times'])} times returned"})
        else:
            want = [((k + 1) * cfg["pfreq"] - 1) * cfg["dt"] for k in range(nmeas)]
            if not C.close(rs[0]["times"], want, 1e-9):
                bad.append({"class": "times", "text": f"measurement times {rs[0]['times']}, expected {want}"})
        total = sum(x["nwalkers"] for x in rs)
        if total != cfg["nwalkers"]:
            bad.append({"class": "walkers", "text": f"{cfg['nwalkers']} walkers requested, {total} exist"})
    if not bad:
        notes = [rk.notes for rk in w.ranks]
        if all(len(n["meas"]) == nmeas for n in notes) and nmeas:
            picks = list(range(nmeas))
            states = [[n["meas"][k][0] for n in notes] for k in picks]
            vals = [notes[0]["meas"][k][1] for k in picks]
        elif nmeas and cfg["nsteps"] % cfg["pfreq"] == 0:
            picks = [nmeas - 1]
            states = [[x["final"] for x in rs]]
            vals = [None]
        else:
            picks, states, vals = [], [], []
        if len(picks) > 3:
            sel = [0, len(picks) // 2, len(picks) - 1]
            picks, states, vals = [picks[s] for s in sel], [states[s] for s in sel], [vals[s] for s in sel]
        if picks:
            flat = [s for st in states for s in st]
            o = oracle(cfg, flat)
            worlds.append(o)
            fo = afq.failure(o)
            if fo:
                raise RuntimeError(f"reference measurement failed: {fo}")
            rows = afq.results(o)[0]["rows"]
            for j, k in enumerate(picks):
                rr = np.concatenate(rows[j * len(notes):(j + 1) * len(notes)])
                ww = np.concatenate([s["weights"] for s in states[j]])
                if np.ptp(rr[:, 0].real) > 1e-9 or np.ptp(ww) > 1e-9:
                    unequal += 1
                comp = [np.dot(ww, rr[:, c]) for c in range(rr.shape[1])]
                want = comp[0] / np.sum(ww)
                got = rs[0]["energies"][k]
                if np.isfinite(want) and not C.close(want, got, TOL):
                    bad.append({"class": "average", "text": f"measurement {k}: reported {got}, weight average over all walkers {want}"})
                v = vals[j]
                if v is not None and len(v) == len(comp) and not bad:
                    wantv = [comp[0], np.sum(ww)] + comp[2:]
                    for c, (x, y) in enumerate(zip(wantv, v)):
                        if np.isfinite(x) and not C.close(x, y, TOL * max(1.0, float(np.sum(np.abs(ww))))):
                            bad.append({"class": "component", "text": f"measurement {k}: component {c} is {y}, sum over all walkers {x}"})
                            break
        # the energy shift of a window is the average over the previous window
        pf, ns = cfg["pfreq"], cfg["nsteps"]
        if all(len(n["win"]) == ns for n in notes):
            for k in range(nmeas):
                win = [n["win"][s] for n in notes for s in range(k * pf, (k + 1) * pf)]
                want = sum(x[1] for x in win) / sum(x[0] for x in win)
                if not np.isfinite(want):
                    continue
                used = []
                if all(len(n["shift"]) == ns for n in notes):
                    used = [n["shift"][s] for n in notes for s in range((k + 1) * pf, min((k + 2) * pf, ns))]
                if k == nmeas - 1:
                    used += [x["eshift"] for x in rs]
                for u in used:
                    if u is not None and not C.close(want, u, TOL):
                        bad.append({"class": "shift", "text": f"energy shift after window {k} is {u}, average hybrid energy of the window over all ranks is {want}"})
                        break
    res["nontrivial"] = unequal > 0
    C.finish(res, worlds)
    res["devs"] = [w.sched.dev]
    res["key"] = C.h([cfg, w.summary()["interleaving"]]) if unequal else None
    res["stats"] = {"measurements_recomputed": unequal}
    res["digest"] = C.h([[C.result_digest(r) for r in afq.results(w)], res["interleavings"], bad])
    res["outcome"] = "energies are weight averages" if not bad else bad[0]["text"]
    return res


simplify = C.simpler_cfg
