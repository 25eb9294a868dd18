"""Reporting: only rank 0 reports, one correct line per measurement, at the documented verbosity."""

import re

import numpy as np

from sim import afq
from . import common as C
from . import C02

ID = "C09"
RUNS = {"quick": 280, "thorough": 6000}
RULE = ("one run = one AFQMC job of 1-5 ranks at a seeded verbosity under a seeded schedule with skewed clocks, or a seeded history of logger calls "
        "of every level on every rank; the recorded output of all ranks is checked against the measurements the ranks made and a model of the levels; "
        "distinct = different (configuration, event order) or logger history")
LEVEL = "exploration"
COMPONENTS = C.COMPONENTS_AFQMC
ASSUMPTIONS = ["the line a rank prints about its own share of walkers at start-up is not a report of results"]
LEVELS = {"log": 1, "error": 1, "warn": 2, "note": 3, "info": 4, "debug": 5, "debug1": 6, "debug2": 7, "debug3": 8, "debug4": 9}
STEP = re.compile(r"^\s*Step:?\s+(\d+)\s+(.*)$")


def gen(rng, i, tier):
    size = C.gen_size(rng, 1, 8)
    if rng.random() < 0.25:
        calls = [[rng.choice(list(LEVELS)), rng.randint(0, 10), rng.random() < 0.4, rng.random() < 0.5] for _ in range(rng.randint(3, 25))]
        return {"cfg": {"system": "h2", "nsteps": 1, "nwalkers": size}, "calls": calls,
                "execs": [{"size": size, "sched": C.gen_sched(rng)}]}
    cfg = C.gen_cfg(rng, size, max_steps=7)
    cfg["verbose"] = rng.choice([0, 1, 2, 3, 4, 4, 5, 7])
    return {"cfg": cfg, "execs": [{"size": size, "sched": C.gen_sched(rng), "faults": C.gen_stalls(rng, size),
                                   "clock": C.gen_clock(rng, size)}]}


class Sink:
    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s

    def flush(self):
        pass


def log_main(calls):
    def main(rk):
        from openms.lib import logger
        import sys

        class Rec:
            pass
        out = []
        for k, (fn, v, own, args) in enumerate(calls):
            rec = Rec()
            rec.verbose = v
            rec.stdout = Sink() if own else sys.stdout
            n0, e0 = len(rk.stdout.text()), len(rk.stderr.text())
            if args:
                getattr(logger, fn)(rec, "message %d of %s", k, fn)
            else:
                getattr(logger, fn)(rec, f"message {k} of {fn}")
            got = rec.stdout.text if own else rk.stdout.text()[n0:]
            out.append((got, rk.stderr.text()[e0:]))
        return {"out": out}
    return main


def run(plan):
    e, cfg = plan["execs"][0], plan["cfg"]
    bad = []
    kw = dict(sched=e.get("sched"), faults=e.get("faults") or (), clock=e.get("clock"))
    if "calls" in plan:
        w = afq.run_job(cfg, e["size"], mains=[log_main(plan["calls"])] * e["size"], **kw)
        f = afq.failure(w)
        if f:
            bad.append({"class": "logger-fails", "text": f"a log call fails: {f}"})
        else:
            for rk in w.ranks:
                for k, ((fn, v, own, args), (got, err)) in enumerate(zip(plan["calls"], rk.outcome[1]["out"])):
                    text = f"message {k} of {fn}"
                    show = rk.r == 0 and v >= LEVELS[fn]
                    if (text in got) != show or (got.strip() != "") != show or got.count(text) > 1:
                        bad.append({"class": "level", "text": f"rank {rk.r}, {fn} at verbosity {v}: {'not ' if text not in got else ''}shown ({got!r})"})
                        break
                    if fn == "error" and text not in err:
                        bad.append({"class": "level", "text": f"rank {rk.r}: an error at verbosity {v} does not reach stderr"})
                        break
        res = {"violations": bad, "nontrivial": True}
        C.finish(res, [w])
        res["key"] = C.h([plan["calls"], e["size"]])
        res["stats"] = {"log_calls": len(plan["calls"]) * e["size"]}
        res["digest"] = C.h([bad, [rk.stdout.text() for rk in w.ranks]])
        return res

    w = afq.run_job(cfg, e["size"], observe=C02.observer, **kw)
    f = afq.failure(w)
    nlines = 0
    if f:
        bad.append({"class": "no-completion", "text": f"the job did not complete: {f}"})
    else:
        rs = afq.results(w)
        nm = cfg["nsteps"] // cfg["pfreq"]
        for rk in w.ranks[1:]:
            own = [ln for ln in rk.stdout.text().splitlines() if ln.strip() and f"rank {rk.r}" not in ln]
            if own:
                bad.append({"class": "other-rank", "text": f"rank {rk.r} writes to standard output: {own[0][:100]!r} ({len(own)} lines)"})
                break
        lines = [m for m in map(STEP.match, w.ranks[0].stdout.text().splitlines()) if m]
        nlines = len(lines)
        want = nm if cfg["verbose"] >= 4 else 0
        if not bad and nlines != want:
            bad.append({"class": "lines", "text": f"{nm} measurements at verbosity {cfg['verbose']}: {nlines} measurement lines, expected {want}"})
        notes = [rk.notes for rk in w.ranks]
        seen = all(len(n["meas"]) == nm for n in notes)
        for k, m in enumerate(lines):
            if bad:
                break
            tok = m.group(2).split()
            try:
                val = [float(t.rstrip("s")) for t in tok]
            except ValueError:
                val = []
            if int(m.group(1)) != (k + 1) * cfg["pfreq"] - 1:
                bad.append({"class": "step", "text": f"measurement {k} is reported as step {m.group(1)}"})
            elif not val or not ok(val[0], rs[0]["energies"][k], 2e-7):
                bad.append({"class": "energy", "text": f"measurement {k}: line {m.group(0)!r}, energy returned {rs[0]['energies'][k]}"})
            elif seen and notes[0]["meas"][k][1] is not None:
                v = notes[0]["meas"][k][1]
                ww = sum(float(np.sum(n["meas"][k][0]["weights"])) for n in notes)
                col = [(1, v[0], 2e-7, "total energy"), (3, ww, 2e-4, "norm")]
                first = [n["meas"][k][0] for n in notes]
                col.append((2, first[0]["eshift"], 2e-7, "energy shift"))
                if all("weights_org" in x for x in first):
                    col.append((4, sum(float(np.sum(x["weights_org"])) for x in first), 2e-4, "unscaled norm of all ranks"))
                col += [(5 + j, v[2 + j], 2e-7, "energy component") for j in range(len(v) - 2)]
                for idx, x, tol, name in col:
                    if idx >= len(val) or not ok(val[idx], x, tol):
                        bad.append({"class": "column", "text": f"measurement {k}: {name} in line {m.group(0)!r}, measured {x}"})
                        break
    res = {"violations": bad, "nontrivial": nlines > 0}
    C.finish(res, [w])
    res["key"] = C.h([cfg, w.summary()["interleaving"]]) if nlines else None
    res["stats"] = {"measurement_lines": nlines}
    res["digest"] = C.h([bad, [re.sub(r"0x[0-9a-f]+", "0x", rk.stdout.text()) for rk in w.ranks], res["interleavings"]])
    res["outcome"] = "reports are right" if not bad else bad[0]["text"]
    return res


def ok(shown, x, tol):
    x = complex(x).real
    if not np.isfinite(x):
        return True
    return abs(shown - x) <= tol * abs(x) + 1e-12


def simplify(plan):
    import copy
    if "calls" in plan:
        for k in range(len(plan["calls"])):
            if len(plan["calls"]) > 1:
                q = copy.deepcopy(plan)
                del q["calls"][k]
                yield q
        if plan["execs"][0]["size"] > 1:
            q = copy.deepcopy(plan)
            q["execs"][0]["size"] = 1
            yield q
        return
    for q in C.simpler_cfg(plan):
        if q["cfg"].get("verbose") == plan["cfg"].get("verbose"):
            yield q
