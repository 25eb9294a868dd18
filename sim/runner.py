"""Seeded search: forked runs, minimisation, replay files, evidence."""

import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import selectors
import signal
import subprocess
import sys
import traceback

from . import cover, env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 90.0     # CPU seconds after which a run counts as hanging (typical: < 3)
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or max(1, min(8, os.cpu_count() or 1))


def real(name):
    return env._real[name]


def now():
    return real("perf_counter")()


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


# ----------------------------------------------------------------------------
# one run in a forked child
# ----------------------------------------------------------------------------
def _child(prop, plan, fd):
    try:
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_PROF, getattr(prop, "CPU_LIMIT", CPU_LIMIT))
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        import warnings
        warnings.simplefilter("ignore")
        import numpy as np
        np.seterr(all="ignore")
        t = real("process_time")()
        cover.start()
        try:
            res = prop.run(copy.deepcopy(plan))
        except Exception as e:
            res = _raised(e)
        res["cpu_s"] = real("process_time")() - t
        data = pickle.dumps(res)
        cover.stop(f"{prop.ID}-{os.getpid()}")
    except BaseException as e:  # noqa
        data = pickle.dumps({"harness_error": f"{type(e).__name__}: {e}"})
    try:
        view = memoryview(data)
        while view:
            n = os.write(fd, view)
            view = view[n:]
    finally:
        os._exit(0)


def _raised(e):
    """An exception that left the run: the library's own if its innermost frame of ours or theirs lies in the library."""
    mine = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith((env.REPO + "/", VERIF + "/"))]
    if mine and mine[-1].filename.startswith(env.REPO + "/") and not isinstance(e, (MemoryError, ImportError)):
        text = f"{type(e).__name__}: {str(e)[:300]} at {mine[-1].filename[len(env.REPO) + 1:]}:{mine[-1].name}"
        return {"violations": [{"class": "raises", "text": f"the library raises without any fault: {text}"}], "digest": digest(text)}
    return {"harness_error": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"}


class Pool:
    def __init__(self, prop, nproc=NPROC):
        self.prop, self.nproc = prop, nproc
        self.sel = selectors.DefaultSelector()
        self.live = {}

    def submit(self, key, plan):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _child(self.prop, plan, w)
        os.close(w)
        self.live[r] = {"pid": pid, "key": key, "plan": plan, "buf": [], "t": now()}
        self.sel.register(r, selectors.EVENT_READ)

    def poll(self, timeout=5.0):
        out = []
        for k, _ in self.sel.select(timeout):
            fd = k.fd
            j = self.live[fd]
            chunk = os.read(fd, 1 << 16)
            if chunk:
                j["buf"].append(chunk)
                continue
            self.sel.unregister(fd)
            os.close(fd)
            del self.live[fd]
            _, status = os.waitpid(j["pid"], 0)
            if os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                if sig == signal.SIGPROF:
                    res = {"violations": [{"class": "hang", "text": "the run used its whole CPU budget without ending"}]}
                else:
                    res = {"harness_error": f"child died by signal {sig}", "signal": sig}
            else:
                try:
                    res = pickle.loads(b"".join(j["buf"]))
                except Exception:
                    res = {"harness_error": f"child ended with status {status} and no result"}
            out.append((j["key"], j["plan"], res))
        return out

    def kill(self):
        for fd, j in list(self.live.items()):
            try:
                os.kill(j["pid"], signal.SIGKILL)
                os.waitpid(j["pid"], 0)
            except OSError:
                pass
            self.sel.unregister(fd)
            os.close(fd)
        self.live.clear()


def run_one(prop, plan):
    p = Pool(prop, 1)
    p.submit(0, plan)
    while True:
        out = p.poll()
        if out:
            return out[0][2]


def classes(res):
    return {v["class"] for v in res.get("violations", [])}


# ----------------------------------------------------------------------------
# minimisation
# ----------------------------------------------------------------------------
def freeze(plan, res):
    """Replace drawn schedules by the recorded deviations."""
    devs = res.get("devs")
    if not devs:
        return None
    p = copy.deepcopy(plan)
    ex = p.get("execs", [])
    if len(ex) != len(devs):
        return None
    for e, d in zip(ex, devs):
        if d is not None:
            e["sched"] = {"dev": d}
    return p


def generic_candidates(plan):
    """Smaller plans: fewer faults, fewer schedule deviations."""
    for i, e in enumerate(plan.get("execs", [])):
        f = e.get("faults") or []
        if len(f) > 1:
            for part in (f[: len(f) // 2], f[len(f) // 2:]):
                q = copy.deepcopy(plan)
                q["execs"][i]["faults"] = part
                yield q
        for k in range(len(f)):
            q = copy.deepcopy(plan)
            del q["execs"][i]["faults"][k]
            yield q
        for key in ("clock", "entropy", "reduce_order"):
            if e.get(key) not in (None, {}):
                q = copy.deepcopy(plan)
                q["execs"][i].pop(key)
                yield q
        d = (e.get("sched") or {}).get("dev")
        if d:
            q = copy.deepcopy(plan)
            q["execs"][i]["sched"]["dev"] = []
            yield q
            n = 2
            while n <= min(8, len(d)):
                step = -(-len(d) // n)
                for s in range(0, len(d), step):
                    q = copy.deepcopy(plan)
                    q["execs"][i]["sched"]["dev"] = d[:s] + d[s + step:]
                    yield q
                n *= 2
            if len(d) <= 12:
                for s in range(len(d)):
                    q = copy.deepcopy(plan)
                    q["execs"][i]["sched"]["dev"] = d[:s] + d[s + 1:]
                    yield q


def candidates(prop, plan):
    if hasattr(prop, "simplify"):
        yield from prop.simplify(plan)
    yield from generic_candidates(plan)


def minimise(prop, plan, res, budget=60.0, max_runs=250):
    want = classes(res)
    t0 = now()
    runs = 0
    cur, cres = plan, res
    if "hang" in want:
        return cur, cres, 0
    fz = freeze(plan, res)
    if fz is not None:
        r = run_one(prop, fz)
        runs += 1
        if classes(r) & want:
            cur, cres = fz, r
    improved = True
    while improved and now() - t0 < budget and runs < max_runs:
        improved = False
        pool = Pool(prop)
        gen = candidates(prop, cur)
        exhausted = False
        found = None
        while found is None and not (exhausted and not pool.live):
            while not exhausted and len(pool.live) < pool.nproc and now() - t0 < budget and runs < max_runs:
                c = next(gen, None)
                if c is None:
                    exhausted = True
                    break
                if c == cur:
                    continue
                pool.submit(runs, c)
                runs += 1
            if not pool.live:
                break
            for key, pl, r in pool.poll():
                if classes(r) & want and (found is None or key < found[0]):
                    found = (key, pl, r)
        pool.kill()
        if found is not None:
            cur, cres = found[1], found[2]
            fz = freeze(cur, cres)
            if fz is not None and not any("seed" in (e.get("sched") or {}) for e in cur["execs"]):
                pass
            improved = True
    return cur, cres, runs


# ----------------------------------------------------------------------------
# the check
# ----------------------------------------------------------------------------
def load_prop(pid):
    return importlib.import_module(f"props.{pid}")


def plan_for(prop, seed, i, tier):
    rng = random.Random(f"{prop.ID}/{seed}/{i}")
    plan = prop.gen(rng, i, tier)
    plan["run"] = i
    return json.loads(json.dumps(plan))  # what a replay file can hold


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and f"property={pid} " in line + " ":
                cls = [w[6:] for w in line.split() if w.startswith("class=")]
                out.append((cls[0] if cls else None, line))
    return out


def prepare(prop):
    env.scratch()
    env.warm()
    if hasattr(prop, "prepare"):
        prop.prepare()


def save_replay(prop, plan, res, seed, extra=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop.ID, "seed": seed, "plan": plan, "violations": res.get("violations", [])[:5],
            "trace": res.get("trace", [])[-200:]}
    body.update(extra or {})
    name = f"{prop.ID}-{digest(plan)}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return path


def other_process(prop, args, hashseed, jobs=None):
    """Command and environment of another process of this program, with its own hash seed, addresses and process id."""
    e = dict(os.environ)
    for k in list(env.ENV) + ["TMPDIR", "PYSCF_TMPDIR"]:
        e.pop(k, None)
    e["VERIF_HASHSEED"] = str(hashseed)
    if jobs:
        e["VERIF_JOBS"] = str(jobs)
    return {"args": [sys.executable, os.path.join(VERIF, "check.py"), prop.ID] + args, "env": e, "text": True}


def replay_in_fresh_process(prop, path):
    r = subprocess.run(**other_process(prop, ["--replay", path], 7), capture_output=True, timeout=400)
    return r.returncode == 1 and "VIOLATION" in r.stdout, r


class Elsewhere:
    """The first runs of a check once more, in a process with another hash seed: the same plan must give the same digest."""

    def __init__(self, prop, tier, seed, n):
        self.n, self.hashseed = n, random.Random(f"hash/{seed}").randrange(1, 2**32)
        self.p = subprocess.Popen(**other_process(prop, ["--tier", tier, "--seed", str(seed), "--determinism", str(n)], self.hashseed, 2),
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def digests(self):
        out, _ = self.p.communicate(timeout=600)
        got = {}
        for line in out.splitlines():
            k, _, d = line.partition(" ")
            if k.isdigit() and len(d) == 16:
                got[int(k)] = d
        return got

    def kill(self):
        if self.p.poll() is None:
            self.p.terminate()   # its runs end with it: they are its children
            self.p.wait()


def digest_elsewhere(prop, path, hashseed):
    r = subprocess.run(**other_process(prop, ["--digest", path], hashseed), capture_output=True, timeout=400)
    d = r.stdout.strip().split("\n")[-1]
    return d[7:] if d.startswith("digest ") else None


def print_digest(pid, path):
    prop = load_prop(pid)
    prepare(prop)
    res = run_one(prop, json.load(open(path))["plan"])
    print("digest", res.get("digest"))
    return 0


def check(pid, tier, seed):
    prop = load_prop(pid)
    t0 = now()
    prepare(prop)
    total = prop.RUNS[tier]
    soft = prop.SOFT[tier] if hasattr(prop, "SOFT") else (240 if tier == "quick" else 3000)
    minimum = min(total, 40)
    recheck = min(total, 6)
    elsewhere = Elsewhere(prop, tier, seed, min(total, prop.ELSEWHERE[tier])) if hasattr(prop, "ELSEWHERE") else None
    pool = Pool(prop)
    agg = {"runs": 0, "keys": set(), "nontrivial": 0, "fired": {}, "stats": {}, "sim_time": 0.0,
           "decisions": 0, "cpu": 0.0, "inter": set()}
    firsts = {}
    samples = []
    errors, bad = [], []
    again = {"n": 0, "mismatch": 0}
    kf = known_findings(pid)
    known_hit = {}
    i = 0
    order = list(range(total)) + [("again", k) for k in range(recheck)]
    queue = iter(order)
    stop = False
    retried = set()
    print(f"check {pid} tier={tier} seed={seed} planned_runs={total} workers={pool.nproc}", flush=True)
    while True:
        while not stop and len(pool.live) < pool.nproc:
            nxt = next(queue, None)
            if nxt is None:
                stop = True
                break
            if now() - t0 > soft and agg["runs"] >= minimum and not isinstance(nxt, tuple):
                continue
            idx = nxt[1] if isinstance(nxt, tuple) else nxt
            pool.submit(nxt, plan_for(prop, seed, idx, tier))
        if not pool.live:
            break
        for key, plan, res in pool.poll():
            if "harness_error" in res:
                if res.get("signal") and key not in retried:
                    retried.add(key)
                    pool.submit(key, plan)
                    continue
                errors.append((plan, res["harness_error"]))
                if len(errors) >= 3:
                    stop = True
                continue
            if isinstance(key, tuple):
                again["n"] += 1
                if firsts.get(key[1]) is not None and firsts[key[1]] != res.get("digest"):
                    again["mismatch"] += 1
                continue
            agg["runs"] += 1
            agg["cpu"] += res.get("cpu_s", 0.0)
            if key < max(recheck, elsewhere.n if elsewhere else 0):
                firsts[key] = res.get("digest")
            if res.get("nontrivial"):
                agg["nontrivial"] += 1
                for k in res.get("keys", []) or ([res["key"]] if res.get("key") else []):
                    agg["keys"].add(k)
            for k, v in (res.get("fired") or {}).items():
                agg["fired"][k] = agg["fired"].get(k, 0) + v
            for k, v in (res.get("stats") or {}).items():
                agg["stats"][k] = agg["stats"].get(k, 0) + v
            agg["sim_time"] += res.get("sim_time", 0.0)
            agg["decisions"] += res.get("decisions", 0)
            for k in res.get("interleavings", []):
                agg["inter"].add(k)
            if len(samples) < 3 and res.get("nontrivial"):
                samples.append({"plan": plan, "outcome": res.get("outcome", "held")})
            if res.get("violations"):
                fresh = []
                for v in res["violations"]:
                    hit = [line for c, line in kf if c == v["class"]]
                    if hit:
                        known_hit[hit[0]] = known_hit.get(hit[0], 0) + 1
                    else:
                        fresh.append(v)
                if fresh:
                    res["violations"] = fresh
                    bad.append((key, plan, res))
                    stop = True
        if bad and stop:
            # finish what is already running only if it is quick; the earliest run decides
            t1 = now()
            while pool.live and now() - t1 < 5:
                for key, plan, res in pool.poll(0.5):
                    if res.get("violations") and not isinstance(key, tuple):
                        if not [1 for v in res["violations"] if [c for c, _ in kf if c == v["class"]]]:
                            bad.append((key, plan, res))
            pool.kill()
            break
    pool.kill()
    if elsewhere:
        if not bad and not errors and not again["mismatch"]:
            there = elsewhere.digests()
            same = [k for k in there if firsts.get(k) is not None]
            agg["fired"]["other_process"] = len(same)
            for k in sorted(same):
                if there[k] != firsts[k]:
                    bad.append((k, plan_for(prop, seed, k, tier), {"violations": [{"class": "process", "text": "the same run gives another result in another "
                                f"process (string hashes {elsewhere.hashseed} instead of {env.ENV['PYTHONHASHSEED']}, other addresses and process id)"}],
                                "elsewhere": elsewhere.hashseed}))
                    break
        elsewhere.kill()
    wall = now() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["keys"]) if agg["keys"] else agg["nontrivial"],
            "rule": prop.RULE,
            "samples": samples,
            "runs_per_hour": round(agg["runs"] / max(wall, 1e-9) * 3600),
            "simulated_seconds": round(agg["sim_time"], 3),
            "scheduling_decisions": agg["decisions"],
            "distinct_interleavings": len(agg["inter"]),
            "interleaving_measure": "hash of the global order of (rank or task, operation) events of an execution",
            "faults_fired": dict(sorted(agg["fired"].items())),
            "probes": dict(sorted(agg["stats"].items())),
            "components": prop.COMPONENTS,
            "determinism_recheck": {"reruns": again["n"], "differing_digests": again["mismatch"]},
            "cpu_s": round(agg["cpu"], 2),
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def write_evidence():
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    for line, n in known_hit.items():
        print("KNOWN-FINDING:", line[len("finding:"):].strip())
    if bad:
        bad.sort(key=lambda b: b[0])
        key, plan, res = bad[0]
        print(f"run {key} violates: {res['violations'][0]['class']}: {res['violations'][0]['text'][:400]}", flush=True)
        orig = save_replay(prop, plan, res, seed, {"elsewhere": res["elsewhere"]} if "elsewhere" in res else None)
        if "elsewhere" in res:
            good, r = replay_in_fresh_process(prop, orig)
            write_evidence()
            if not good:
                print(f"ERROR {pid}: a difference between processes did not replay: {r.stdout[-500:]} {r.stderr[-500:]}")
                return 2
            print(f"violation: {res['violations'][0]['text']}")
            print(f"VIOLATION property={pid} replay={orig}", flush=True)
            return 1
        mplan, mres, nrun = minimise(prop, plan, res, budget=60.0 if tier == "quick" else 240.0)
        path = save_replay(prop, mplan, mres, seed, {"minimised_from_run": key, "minimiser_runs": nrun})
        good, r = replay_in_fresh_process(prop, path)
        if not good:
            good, r = replay_in_fresh_process(prop, orig)
            if good:
                path = orig
        if not good:
            hits = sum(bool(run_one(prop, plan).get("violations")) for _ in range(3))
            if not hits:
                ev["coverage"]["unreproduced"] = 1
                write_evidence()
                print(f"ERROR {pid}: a violation did not replay: {r.stdout[-500:]} {r.stderr[-500:]}")
                return 2
            path = orig
        write_evidence()
        print(f"violation: {mres['violations'][0]['text'][:600]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    write_evidence()
    if errors:
        print(f"ERROR {pid}: {len(errors)} run(s) failed in the harness: {errors[0][1][-1500:]}\nplan: {json.dumps(errors[0][0])[:800]}")
        return 2
    if again["mismatch"]:
        print(f"ERROR {pid}: {again['mismatch']} rerun(s) differ from the first run of the same plan")
        return 2
    print(f"{pid}: held in {agg['runs']} simulated runs ({ev['coverage']['distinct_nontrivial']} distinct non-trivial), "
          f"{wall:.1f} s, faults {agg['fired']}")
    return 0


def replay(pid, path):
    prop = load_prop(pid)
    prepare(prop)
    body = json.load(open(path))
    res = run_one(prop, body["plan"])
    if "harness_error" in res:
        print("ERROR", res["harness_error"])
        return 2
    if res.get("violations"):
        for v in res["violations"][:5]:
            print(f"{v['class']}: {v['text'][:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if body.get("elsewhere"):
        there = digest_elsewhere(prop, path, body["elsewhere"])
        if there is not None and there != res.get("digest"):
            print(f"process: the run gives digest {res.get('digest')} here and {there} with string hashes {body['elsewhere']}")
            print(f"VIOLATION property={pid} replay={path}")
            return 1
    print(f"{pid}: the replayed plan holds")
    return 0


def determinism(pid, tier, seed, n):
    """Digest of the first n runs; the caller compares across processes."""
    prop = load_prop(pid)
    prepare(prop)
    pool = Pool(prop)
    todo = iter(range(n))
    out = {}
    done = False
    while True:
        while not done and len(pool.live) < pool.nproc:
            i = next(todo, None)
            if i is None:
                done = True
                break
            pool.submit(i, plan_for(prop, seed, i, tier))
        if not pool.live:
            break
        for key, plan, res in pool.poll():
            out[key] = res.get("digest") or res.get("harness_error")
    for k in sorted(out):
        print(k, out[k])
    return 0
