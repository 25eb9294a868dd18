"""A failure of communication, output, memory or a process never becomes a wrong answer."""

import random
import sys

from sim import afq, env
from . import common as C

ID = "C10"
RUNS = {"quick": 800, "thorough": 9000}
RULE = ("one run = one AFQMC job of 1-5 ranks executed without faults and again with one or two injected faults (failing collective on entry or "
        "exit, crash of a rank inside a collective or a write, full output device, failing allocation inside the library) under a seeded "
        "schedule; distinct = different (configuration, fault kind, fault point, rank) of faults that fired")
LEVEL = "exploration"
COMPONENTS = C.COMPONENTS_AFQMC
ASSUMPTIONS = ["MPI reports a failing operation by an exception in the rank that called it, and ends the job when a process dies"]
KINDS = [("comm_error", "comm"), ("comm_error", "commx"), ("crash", "comm"), ("crash", "commx"), ("crash", "write"), ("write_error", "flush"),
         ("write_error", "write"), ("write_error", "write"), ("alloc", "call"), ("alloc", "call"), ("alloc", "call"), ("alloc", "call")]


def gen(rng, i, tier):
    size = C.gen_size(rng, 1, 5 if tier == "quick" else 8)
    cfg = C.gen_cfg(rng, size, max_steps=6)
    faults = []
    for _ in range(1 if rng.random() < 0.8 else 2):
        kind, point = rng.choice(KINDS)
        if point in ("write", "flush"):
            cfg["verbose"] = max(cfg["verbose"], 3)
        # where it strikes is drawn from what the undisturbed job does, see resolve()
        f = {"kind": kind, "point": point, "rank": 0 if point in ("write", "flush") and rng.random() < 0.85 else rng.randrange(size), "pick": rng.getrandbits(32)}
        if kind == "write_error" and rng.random() < 0.3:
            f["sticky"] = True
        faults.append(f)
    return {"cfg": cfg, "execs": [{"size": size, "sched": {"p": 0.0}},
                                  {"size": size, "sched": C.gen_sched(rng), "faults": faults}]}


class Calls:
    """Failing allocations: every call that the library's code makes in a rank is a possible fault point."""

    def __init__(self, rank, target=None, fired=None):
        self.rank, self.target, self.fired = rank, target, fired
        self.root = env.REPO.rstrip("/") + "/openms/"
        self.seen = {}          # place -> [number of calls, part of the time stepping]
        self.running = False

    def prelude(self, rk, cfg):
        if rk.r == self.rank:
            sys.setprofile(self.event)

    def event(self, frame, event, arg):
        if event == "c_call":
            name = getattr(arg, "__name__", "?")
        elif event == "call":
            if frame.f_code.co_name == "kernel" and frame.f_code.co_filename.startswith(self.root):
                self.running = True
            name = frame.f_code.co_name
            frame = frame.f_back
            if frame is None:
                return
        else:
            return
        code = frame.f_code
        if not code.co_filename.startswith(self.root) or name.startswith("<") or code.co_name.startswith("<"):
            return
        place = (code.co_filename[len(self.root):], code.co_qualname, frame.f_lineno, name)
        got = self.seen.setdefault(place, [0, False])
        got[0] += 1
        got[1] = got[1] or self.running
        if self.target is not None and place == self.target[0] and got[0] == self.target[1]:
            self.fired["alloc"] = self.fired.get("alloc", 0) + 1
            sys.setprofile(None)
            raise MemoryError("injected")

    def draw(self, rng):
        places = sorted(self.seen)
        hot = [p for p in places if self.seen[p][1]]
        if hot and rng.random() < 0.8:
            places = hot
        if not places:
            return None
        fn = rng.choice(sorted({p[:2] for p in places}))
        p = rng.choice([p for p in places if p[:2] == fn])
        return p, rng.randint(1, self.seen[p][0])


def resolve(f, world, calls):
    """Turn the drawn number of a fault into a point of the job: first what is hit, then which of them."""
    rng = random.Random(f["pick"])
    rk = world.ranks[f["rank"]]
    g = {k: v for k, v in f.items() if k != "pick"}
    if f["point"] == "call":
        g["at"] = calls.draw(rng)
    elif f["point"] == "flush":
        g["at"] = rng.randint(1, max(1, rk.nflushes))
    else:
        log = rk.wlog if f["point"] == "write" else rk.oplog
        kind = rng.choice(sorted(set(log))) if log else None
        g["at"] = rng.choice([n + 1 for n, x in enumerate(log) if x == kind]) if log else 1
    return g


def run(plan):
    cfg = plan["cfg"]
    bad = []
    a, e = plan["execs"]
    want = [x for x in e.get("faults") or [] if x["kind"] == "alloc"][:1]
    calls = Calls(want[0]["rank"]) if want else None
    ref = afq.run_job(cfg, a["size"], sched=a.get("sched"), prelude=calls.prelude if calls else None)
    f = afq.failure(ref)
    fired = {}
    worlds = [ref]
    outcome = []
    if f:
        bad.append({"class": "no-completion", "text": f"the job did not complete without faults: {f}"})
    else:
        faults = [resolve(x, ref, calls) for x in e.get("faults") or [] if x["kind"] != "alloc" or x is want[0]]
        fl = [x for x in faults if x["kind"] != "alloc"]
        prelude = None
        for x in faults:
            if x["kind"] == "alloc" and x["at"] is not None:
                prelude = Calls(x["rank"], x["at"], fired).prelude
        w = afq.run_job(cfg, e["size"], sched=e.get("sched"), faults=fl, prelude=prelude)
        worlds.append(w)
        fired.update({k: v for k, v in w.fired.items() if k != "stall"})
        outcome = [rk.outcome[0] for rk in w.ranks]
        good = afq.results(ref)
        for rk in w.ranks:
            if rk.outcome[0] == "ok":
                d = C.same_bits(good[rk.r], rk.outcome[1])
                if d:
                    bad.append({"class": "wrong-answer", "text": f"after {faults} rank {rk.r} returns normally with another result: {d}"})
                    break
        if not bad and w.verdict is not None and w.verdict[0] == "mismatch":
            bad.append({"class": "mismatch", "text": f"after {faults} the ranks are out of step: {w.verdict[1]}"})
        if not bad and w.verdict is not None and w.verdict[0] in ("deadlock", "livelock"):
            bad.append({"class": "hang", "text": f"after {faults} the surviving ranks wait for ever: {w.verdict[1]}"})
        if not bad and not fired and afq.failure(w):
            bad.append({"class": "no-completion", "text": f"no fault fired, still: {afq.failure(w)}"})
        if not bad and set(outcome) == {"ok"} and fired:
            # the fault was survived: the reports must be right as well
            if steps(w) != steps(ref) and not any(x["point"] in ("write", "flush") for x in faults):
                bad.append({"class": "wrong-report", "text": f"after {faults} the job ends normally and reports other measurements"})
    res = {"violations": bad, "nontrivial": bool(fired)}
    C.finish(res, worlds)
    res["fired"] = fired
    res["devs"] = [x.sched.dev for x in worlds] if len(worlds) == 2 else None
    res["key"] = C.h([cfg, e.get("faults")]) if fired else None
    res["stats"] = {"jobs_ended_by_the_fault": int(bool(fired) and "ok" not in outcome), "jobs_that_survived": int(bool(fired) and set(outcome) == {"ok"}),
                    "faults_that_fired": sum(fired.values())}
    res["digest"] = C.h([outcome, fired, bad, res["interleavings"]])
    res["outcome"] = f"{outcome}" if not bad else bad[0]["text"]
    return res


def steps(w):
    return [ln.split()[:9] for ln in w.ranks[0].stdout.text().splitlines() if ln.startswith("Step")]


simplify = C.simpler_cfg
