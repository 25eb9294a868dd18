"""Results never depend on the clock."""

from sim import afq, scf
from . import common as C
from . import scf_common as S

ID = "C13"
RUNS = {"quick": 360, "thorough": 8000}
RULE = ("one run = one AFQMC job (1-4 ranks) or one cavity mean-field calculation, executed with a regular clock and again with skewed, frozen, slow, "
        "backward-jumping and forward-jumping clocks per rank; distinct = different (configuration, clocks)")
LEVEL = "exploration"
COMPONENTS = {"real": C.COMPONENTS_AFQMC["real"] + S.COMPONENTS["real"], "stub": C.COMPONENTS_AFQMC["stub"]}
ASSUMPTIONS = ["same machine and libraries"]


def gen(rng, i, tier):
    size = C.gen_size(rng, 1, 4)
    clock = C.gen_clock(rng, size)
    for r in range(size):
        if str(r) not in clock or r == 0:
            clock[str(r)] = {"start": rng.uniform(-1e5, 2e9), "tick": rng.choice([0.0, -0.01, 1e-6, 5.0, 1e5]),
                             "jumps": [[rng.randint(1, 120), rng.choice([-1e7, -3600.0, -1e-3, 7200.0, 1e8])] for _ in range(rng.randint(1, 6))]}
    if rng.random() < 0.4:
        return {"scf": scf.gen_cfg(rng), "clock": clock, "execs": []}
    cfg = C.gen_cfg(rng, size, max_steps=6)
    return {"cfg": cfg, "clock": clock, "execs": [{"size": size, "sched": {"p": 0.0}}, {"size": size, "sched": {"p": 0.0}, "clock": clock}]}


def scf_run(cfg, clock):
    def fn(rk):
        mf = scf.make(dict(cfg, verbose=4))
        mf.stdout = rk.stdout
        mf.kernel()
        out = scf.result(mf)
        out["cycles"] = mf.cycles
        return out
    return scf.process(fn, clock=clock)


def run(plan):
    bad = []
    if "scf" in plan:
        ws = [scf_run(plan["scf"], None), scf_run(plan["scf"], plan["clock"].get("0"))]
        o = [S.outcome(w) for w in ws]
        if o[0][0] != "ok" or o[1][0] != "ok":
            bad.append({"class": "no-completion", "text": f"regular clock: {o[0][:3] if o[0][0] != 'ok' else 'completes'}; other clock: {o[1][:3] if o[1][0] != 'ok' else 'completes'}"})
        else:
            for k in o[0][1]:
                if not C.same(o[0][1][k], o[1][1][k]):
                    bad.append({"class": "scf", "text": f"{plan['scf']}: {k} depends on the clock: {str(o[0][1][k])[:80]} and {str(o[1][1][k])[:80]}"})
                    break
        dg = [bad, str(o[0][1:2])[:40]]
    else:
        ws = []
        for e in plan["execs"]:
            ws.append(afq.run_job(plan["cfg"], e["size"], sched=e.get("sched"), clock=e.get("clock")))
            f = afq.failure(ws[-1])
            if f:
                bad.append({"class": "no-completion", "text": f"clock {e.get('clock')}: {f}"})
                break
        if not bad:
            for r, (a, b) in enumerate(zip(afq.results(ws[0]), afq.results(ws[1]))):
                d = C.same_bits(a, b)
                if d:
                    bad.append({"class": "afqmc", "text": f"rank {r}: the result depends on the clock: {d}"})
                    break
        if not bad:
            x, y = [[ln.split()[:8] for ln in w.ranks[0].stdout.text().splitlines() if ln.startswith("Step")] for w in ws]
            if x != y:
                bad.append({"class": "report", "text": "the reported measurements depend on the clock"})
        dg = [bad, [[C.result_digest(r) for r in afq.results(w)] for w in ws]]
    res = {"violations": bad, "nontrivial": True}
    C.finish(res, ws, devs="scf" not in plan)
    res["fired"]["clock_skew"] = 1
    reads = ws[-1].clocks[0].n
    res["stats"] = {"clock_readings": reads}
    res["key"] = C.h([plan.get("scf") or plan.get("cfg"), plan["clock"]]) if reads else None
    res["digest"] = C.h(dg)
    res["outcome"] = "independent of the clock" if not bad else bad[0]["text"]
    return res


def simplify(plan):
    if "scf" in plan:
        for c in scf.simpler(plan["scf"]):
            yield dict(plan, scf=c)
        return
    yield from C.simpler_cfg(plan)
