"""Molecular dynamics runs never destroy the output of earlier runs, whatever history of runs, crashes and disk faults."""

import copy
import os

from sim import env
from sim.files import Machine
from . import common as C

ID = "C17"
RUNS = {"quick": 1200, "thorough": 30000}
RULE = ("one run = a seeded history of 2-7 dynamics runs (fresh, rewriting or appending, one or several trajectories, with or without electronic-structure "
        "logs, one after another or two at a time, process ids that repeat) in one scratch directory tree with crashes and disk errors at seeded file "
        "operations; after every stage all output written so far must still be there; distinct = different history and faults")
LEVEL = "exploration"
COMPONENTS = {"real": ["openms.qmd.bomd output handling", "openms.lib.misc.typewriter", "shutil and the kernel's file system in a scratch directory"],
              "stub": ["process ids", "process scheduling", "failures of file operations", "rename across devices", "electronic structure (not called)"]}
ASSUMPTIONS = ["a run that continues an earlier one may replace that run's final-geometry file",
               "two runs started in one directory at the same time may end with an error, output that was written must survive; renaming a directory is then atomic"]
RESTARTS = [None, None, "write", "Write", "append", "append", "APPEND"]


def gen(rng, i, tier):
    outs = ["./", "run", "run/deep"] + rng.sample(["./", "run/", "two words", "@/abs/md_old_100", "~/dyn", "~", "../beside"], 2)
    stages = []
    main = rng.choice(outs)
    pids = [100] if rng.random() < 0.5 else [100, 101, 102]
    ct = rng.random() < 0.25
    nct = rng.choice([3, 3, 3, 11]) if ct else 0
    digit = rng.choice([1, 2, 2, 3])
    start = "work" if "../beside" in outs or rng.random() < 0.2 else "."
    for s in range(rng.randint(2, 6)):
        k = 2 if rng.random() < 0.25 else 1
        jobs = []
        for _ in range(k):
            jobs.append({"out": main if rng.random() < 0.85 else rng.choice(outs), "restart": rng.choice(RESTARTS + (["bogus"] if rng.random() < 0.3 else [])),
                         "qm_log": rng.random() < 0.5, "ct": rng.randint(1, nct) if ct else 0, "digit": digit, "cwd": start, "pid": rng.choice(pids),
                         "lines": rng.randint(0, 3), "final": k == 1 and rng.random() < 0.5})
        if stages and rng.random() < 0.12:    # the user moves the output to a big disk and leaves a link
            jobs[0]["link"] = True
        if k == 1 and stages and rng.random() < 0.2:    # one more run of the same process, from where it is now
            jobs[0]["same"] = True
        st = {"jobs": jobs, "faults": [], "sched": {"seed": rng.getrandbits(32), "p": rng.choice([0.2, 0.5])} if k > 1 else {}}
        if rng.random() < 0.45:
            kind = rng.choice(["crash", "crash", "crash_after", "disk_full", "no_permission", "io_error", "other_device"] if k == 1 else ["crash", "crash_after"])
            st["faults"].append({"point": "file", "rank": rng.randrange(k), "at": rng.randint(1, 9), "kind": kind})
            if kind == "other_device" and rng.random() < 0.7:
                st["faults"].append({"point": "file", "rank": st["faults"][0]["rank"], "at": st["faults"][0]["at"] + rng.randint(1, 8),
                                     "kind": rng.choice(["crash", "crash_after", "disk_full"])})
        if k > 1 and rng.random() < 0.3:
            st["faults"].append({"point": "file", "rank": rng.randrange(k), "at": rng.randint(1, 9), "kind": "stall", "n": rng.randint(2, 15)})
        stages.append(st)
    return {"stages": stages}


def bomd(job):
    from openms.qmd.bomd import BOMD
    from openms.lib.misc import Molecule
    mol = Molecule(atom="H 0 0 0; F 0 0 0.9", basis="sto-3g", verbose=0)
    md = BOMD(mol, nsteps=3, dt=0.5)
    if job["ct"]:
        md.md_type = "CT"
        md.ntrajs, md.digit = job["ct"], job.get("digit", 2)
    return md


def out_of(job, m):
    return m.dir + job["out"][1:] if job["out"].startswith("@/") else job["out"]


def dirs_of(job, m, cwd):
    """Output directories of a run that starts in `cwd`, relative to the scratch directory."""
    out = os.path.join(cwd, out_of(job, m).replace("~", os.path.join(m.dir, "home")))
    base = [os.path.relpath(out, m.dir)]
    if job["ct"]:
        base = [os.path.normpath(os.path.join(base[0], f"TRAJ_{t + 1:0{job.get('digit', 2)}d}")) for t in range(job["ct"])]
    return [os.path.normpath(b) for b in base]


def under(tree, d):
    d = os.path.normpath(d)
    return {k: v for k, v in tree.items() if k != d and os.path.normpath(k).startswith(d + os.sep)}


def run(plan):
    bad, worlds = [], []
    lines = {}      # token -> where it was written
    stats = {"started": 0, "refused": 0, "failed": 0, "kept_lines": 0, "linked": 0}
    key = []
    with Machine() as m, env.environ(HOME=os.path.join(m.dir, "home")):
        os.mkdir(os.path.join(m.dir, "work"))
        os.mkdir(os.path.join(m.dir, "home"))
        left = {}      # process id -> dynamics object and working directory of its last run
        with open(os.path.join(m.dir, "input.txt"), "w") as f:
            f.write("the user's own file\n")
        finals = {}
        for si, st in enumerate(plan["stages"]):
            if st["jobs"][0].get("link"):
                for b in dirs_of(st["jobs"][0], m, os.path.normpath(os.path.join(m.dir, st["jobs"][0].get("cwd", ".")))):
                    d = os.path.normpath(os.path.join(m.dir, b, "md"))
                    if os.path.isdir(d) and not os.path.islink(d):
                        os.makedirs(os.path.join(m.dir, "store"), exist_ok=True)
                        new = os.path.join(m.dir, "store", f"{si}{b.replace(os.sep, '_')}")
                        if d in finals:
                            finals[new] = finals.pop(d)
                        os.rename(d, new)
                        os.symlink(new, d)
                        stats["linked"] += 1
            before = m.tree()
            single = len(st["jobs"]) == 1
            done = []
            cwds = [os.path.normpath(os.path.join(m.dir, j.get("cwd", "."))) for j in st["jobs"]]
            mds_of = [None] * len(cwds)
            pids = [j["pid"] for j in st["jobs"]]
            if st["jobs"][0].get("same") and left:
                pids[0], (mds_of[0], cwds[0]) = sorted(left.items())[-1]
                if bool(st["jobs"][0]["ct"]) != (mds_of[0].md_type == "CT"):
                    mds_of[0] = None
                elif st["jobs"][0]["ct"]:
                    st = dict(st, jobs=[dict(st["jobs"][0], ct=mds_of[0].ntrajs)])
            left = {}

            def main_of(ji, job):
                def main(rk):
                    from openms.lib.misc import typewriter
                    md = mds_of[ji] or bomd(job)
                    got = md.initialize(None, out_of(job, m), job["qm_log"], False, job["restart"])
                    if not job["ct"]:
                        got = tuple([x] for x in got)
                    done.append((ji, "init", got, m.tree() if single else None, os.getcwd()))
                    for n in range(job["lines"]):
                        for t, d in enumerate(got[1]):
                            tok = f"<{si}.{ji}.{n}.{t}>"
                            typewriter(f"step {n} {tok}", d, "MDENERGY", "a")
                            lines[tok] = d
                        if job["qm_log"]:
                            for t, d in enumerate(got[2]):
                                tok = f"<log {si}.{ji}.{n}.{t}>"
                                typewriter(f"log {n} {tok}", d, f"log{n}.txt", "a")
                                lines[tok] = d
                    if job["final"]:
                        for t, d in enumerate(got[1]):
                            tok = f"Step:{1000 * si + 10 * ji + t:6d}"
                            finals.pop(os.path.realpath(d), None)
                            md.write_final_xyz(d, 1000 * si + 10 * ji + t - 1)
                            finals[os.path.realpath(d)] = tok
                    done.append((ji, "end", None, None, None))
                    if single:
                        left[pids[ji]] = (md, os.getcwd())
                    return True
                return main
            w = m.run([main_of(ji, j) for ji, j in enumerate(st["jobs"])], cwds, pids, st["faults"], st["sched"])
            worlds.append(w)
            after = m.tree()
            key.append([w.ranks[k].outcome[0] for k in range(len(st["jobs"]))])
            # 1. nothing that was written is gone
            text = [v for v in after.values() if v]
            for tok, d in lines.items():
                if not any(tok in v for v in text):
                    bad.append({"class": "output-lost", "text": f"stage {si}: line {tok} written by an earlier run in {os.path.relpath(d, m.dir)} no longer exists"})
                    break
            for d, tok in finals.items():
                if not any(tok in v for v in text):
                    bad.append({"class": "output-lost", "text": f"stage {si}: final geometry '{tok}' no longer exists"})
                    break
            if after.get("input.txt") != "the user's own file\n":
                bad.append({"class": "user-file", "text": f"stage {si}: another file in the output directory was changed"})
            if m.refused:
                bad.append({"class": "outside", "text": f"stage {si}: a run modified files outside the output directory: {m.refused[0]}"})
            # a directory that was moved takes its final geometry along
            for d in list(finals):
                rel = os.path.relpath(d, m.dir)
                if finals[d] not in (after.get(os.path.join(rel, "FINAL.xyz")) or ""):
                    for k, v in after.items():
                        if k.endswith("FINAL.xyz") and v and finals[d] in v:
                            finals[os.path.realpath(os.path.join(m.dir, os.path.dirname(k)))] = finals.pop(d)
                            break
            # 2. what a run promises when it starts
            for ji, job in enumerate(st["jobs"]):
                o = w.ranks[ji].outcome
                mode = (job["restart"] or "").lower() or None
                init = [x for x in done if x[0] == ji and x[1] == "init"]
                base = dirs_of(job, m, cwds[ji])
                faulted = any(f.get("used") and f["rank"] == ji for f in w.faults)
                if init:
                    stats["started"] += 1
                else:
                    stats["failed"] += 1
                if single:
                    mds = [os.path.normpath(os.path.join(b, "md")) for b in base]
                    legal = mode in (None, "write") or (mode == "append" and all(x in before for x in mds))
                    if not legal:
                        stats["refused"] += 1
                        if o[:2] != ("exc", "ValueError") and not faulted:
                            bad.append({"class": "bad-request", "text": f"stage {si}: restart={job['restart']} without earlier output ends with {o}, not with an error about the request"})
                        if before != after:
                            bad.append({"class": "refused-but-changed", "text": f"stage {si}: a refused run changed {sorted(set(before.items()) ^ set(after.items()), key=str)[:2]}"})
                        continue
                    if not init and not faulted:
                        bad.append({"class": "cannot-start", "text": f"stage {si}: restart={job['restart']} does not start although no fault is left: {o}"})
                    if init and o[0] != "ok" and not faulted:
                        bad.append({"class": "cannot-write", "text": f"stage {si}: {o}"})
                    if init:
                        _, _, got, t, cwd = init[0]
                        want = [[os.path.normpath(os.path.join(m.dir, b)) for b in base], [os.path.join(m.dir, x) for x in mds],
                                [os.path.normpath(os.path.join(m.dir, b, "qm_log")) for b in base]]
                        if [[os.path.normpath(x) for x in g] for g in got] != want:
                            bad.append({"class": "directories", "text": f"stage {si}: directories {got} returned, {want} expected"})
                            continue
                        if os.path.realpath(cwd) != want[0][0]:
                            bad.append({"class": "directories", "text": f"stage {si}: works in {cwd}, not in {want[0][0]}"})
                        for b, x in zip(base, mds):
                            q = os.path.normpath(os.path.join(b, "qm_log"))
                            if mode == "append":
                                if under(t, x) != under(before, x):
                                    bad.append({"class": "append-changed", "text": f"stage {si}: continuing a run changed its earlier output in {x}"})
                                if q in before and under(t, q) != under(before, q):
                                    bad.append({"class": "append-changed", "text": f"stage {si}: continuing a run changed its earlier logs in {q}"})
                            else:
                                if x not in t or under(t, x):
                                    bad.append({"class": "not-fresh", "text": f"stage {si}: a new run starts with {sorted(under(t, x)) if x in t else 'no directory'} in {x}"})
                                if q in t and under(t, q):
                                    bad.append({"class": "not-fresh", "text": f"stage {si}: a new run starts with old logs {sorted(under(t, q))[:2]} in {q}"})
                            if job["qm_log"] and q not in t:
                                bad.append({"class": "directories", "text": f"stage {si}: no log directory {q}"})
                elif mode not in (None, "write", "append") and o[:2] != ("exc", "ValueError") and not faulted:
                    bad.append({"class": "bad-request", "text": f"stage {si}: restart={job['restart']} is accepted: {o}"})
            if bad:
                break
        stats["kept_lines"] = len(lines)
        fired = dict(m.fired)
    res = {"violations": bad, "nontrivial": len(lines) > 0 and len(plan["stages"]) > 1}
    C.finish(res, worlds)
    res["fired"] = fired
    res["key"] = C.h([plan["stages"], key])
    res["stats"] = stats
    res["digest"] = C.h([key, sorted(lines), bad, [w.summary()["interleaving"] for w in worlds]])
    res["outcome"] = f"{stats['started']} runs started, {stats['kept_lines']} lines kept" if not bad else bad[0]["text"]
    return res


def simplify(plan):
    n = len(plan["stages"])
    for k in range(n):
        if n > 1:
            q = copy.deepcopy(plan)
            del q["stages"][k]
            yield q
    for k in range(n):
        st = plan["stages"][k]
        if st["faults"]:
            q = copy.deepcopy(plan)
            q["stages"][k]["faults"] = []
            yield q
        if len(st["jobs"]) > 1:
            for j in range(len(st["jobs"])):
                q = copy.deepcopy(plan)
                q["stages"][k]["jobs"] = [st["jobs"][j]]
                q["stages"][k]["faults"] = [dict(f, rank=0) for f in st["faults"] if f["rank"] == j]
                q["stages"][k]["sched"] = {}
                yield q
        for j, job in enumerate(st["jobs"]):
            for f, v in (("ct", 0), ("qm_log", False), ("lines", 1), ("final", False), ("out", "./"), ("restart", None), ("same", False), ("link", False), ("cwd", ".")):
                if job.get(f, v) != v:
                    q = copy.deepcopy(plan)
                    q["stages"][k]["jobs"][j][f] = v
                    yield q
