"""Checkpoints of mean-field calculations: consistent at every crash point, and restart reaches the same energy."""

import numpy as np

from sim import scf
from sim.world import SimCrash
from . import common as C
from . import scf_common as S

ID = "C14"
RUNS = {"quick": 600, "thorough": 12000}
RULE = ("one run = one cavity mean-field calculation with a checkpoint file that is crashed (or meets a full disk) at a seeded modification of the file, "
        "keeping what was flushed, what the operating system had, or a torn prefix; what survives is checked and the calculation is restarted from it; "
        "distinct = different (configuration, fault point, kind of survival, cycle reached)")
LEVEL = "exploration"
COMPONENTS = S.COMPONENTS
ASSUMPTIONS = ["calculations that converge without faults", "energies of restarted calculations agree to 1e-6 (1e-5 with several photon states in the scaled and variational methods)",
               "a checkpoint that is incomplete or that HDF5 refuses to open counts as no checkpoint: a restart from it may fail with an error"]
GROUP = ("e_tot", "mo_energy", "mo_occ", "mo_coeff")


def gen(rng, i, tier):
    cfg = scf.gen_cfg(rng)
    kind = rng.choice(["crash", "crash", "crash", "disk_full", "none"])
    f = [] if kind == "none" else [{"kind": kind, "at": rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 200)]),
                                    "keep": rng.choice(["flushed", "flushed", "os", "torn"]), "frac": rng.random()}]
    if rng.random() < 0.5:
        f = [{"kind": "crash", "cycle": rng.randint(0, 8), "at": 0, "keep": "flushed"}]
    return {"cfg": cfg, "faults": f, "how": rng.choice(["chkfile", "dm0"]), "again": rng.random() < 0.3}


def read(path):
    """The restart data of a checkpoint file, or None."""
    import h5py
    try:
        with h5py.File(path, "r") as f:
            if "scf" not in f:
                return None
            return {k: np.array(f["scf"][k]) for k in GROUP if k in f["scf"]}
    except OSError:
        return None


def keys(path):
    import h5py
    try:
        with h5py.File(path, "r") as f:
            return list(f.keys())
    except OSError:
        return []


def run(plan):
    cfg = plan["cfg"]
    bad = []
    stats = {}
    ref = scf.process(lambda rk: ref_job(cfg))
    o = S.outcome(ref)
    res = {"violations": bad, "nontrivial": False}
    worlds = [ref]
    dig = []
    fired = {}
    if o[0] != "ok":
        bad.append({"class": "no-completion", "text": f"without faults: {o}"})
    elif o[1]["converged"]:
        e0 = o[1]["e_tot"]
        with scf.Disk(plan["faults"]) as disk:
            last = []

            def first(rk):
                mf = scf.make(cfg, chkfile=disk.path())

                def at_cycle(envs):
                    if plan["faults"] and envs["cycle"] == plan["faults"][0].get("cycle"):
                        last.append((float(envs["e_tot"]), np.array(envs["dm"])))
                        disk.fired["crash"] = 1
                        raise SimCrash()
                mf.callback = at_cycle
                mf.kernel()
                r = scf.result(mf)
                r["mo_coeff"] = np.array(mf.mo_coeff)
                return r
            w = scf.process(first)
            worlds.append(w)
            fired = dict(disk.fired)
            out = S.outcome(w)
            disk.after_crash()
            disk.faults = []
            faulted = bool(fired)
            if out[0] == "ok":
                if abs(out[1]["e_tot"] - e0) > scf.tol(cfg):
                    bad.append({"class": "wrong-answer", "text": f"with checkpoint faults {plan['faults']} the calculation returns {out[1]['e_tot']}, {e0} without"})
                if not faulted:
                    chk = read(disk.path())
                    if chk is None or set(chk) != set(GROUP):
                        bad.append({"class": "final-missing", "text": f"after a completed calculation the checkpoint holds {None if chk is None else sorted(chk)}"})
                    elif abs(float(chk["e_tot"]) - out[1]["e_tot"]) > 1e-10 or not np.allclose(chk["mo_coeff"], out[1]["mo_coeff"], atol=1e-12) \
                            or not np.array_equal(chk["mo_occ"], out[1]["mo_occ"]) or not np.allclose(chk["mo_energy"], out[1]["mo_energy"], atol=1e-12):
                        bad.append({"class": "final-stale", "text": f"the checkpoint of a completed calculation holds energy {float(chk['e_tot'])} and other orbitals than returned ({out[1]['e_tot']})"})
            elif not faulted:
                bad.append({"class": "no-completion", "text": f"with a checkpoint file: {out}"})
            chk = read(disk.path())
            if chk is not None and set(chk) == set(GROUP) and out[0] != "ok":
                stats["checkpoints_found"] = 1
            if not bad and last:
                e, dm = last[0]
                stats["cycle_crashes"] = 1
                if chk is None or set(chk) != set(GROUP):
                    bad.append({"class": "not-saved", "text": f"crash after cycle {plan['faults'][0]['cycle'] + 1}: no complete checkpoint"})
                else:
                    d = (chk["mo_coeff"] * chk["mo_occ"]) @ chk["mo_coeff"].T
                    if abs(float(chk["e_tot"]) - e) > 1e-10 or d.shape != dm.shape or not np.allclose(d, dm, atol=1e-10):
                        bad.append({"class": "stale", "text": f"crash after cycle {plan['faults'][0]['cycle'] + 1} (energy {e}): the checkpoint holds energy "
                                    f"{float(chk['e_tot'])} and a density off by {abs(d - dm).max() if d.shape == dm.shape else 'shape'}"})
            if not bad and (out[0] != "ok" or plan.get("again")):
                stats["restarts"] = 1
                dm = None
                if plan["how"] == "dm0" and chk is not None and set(chk) >= {"mo_coeff", "mo_occ"}:
                    dm = (chk["mo_coeff"] * chk["mo_occ"]) @ chk["mo_coeff"].T

                def second(rk):
                    mf = scf.make(cfg, chkfile=disk.path())
                    if dm is not None:
                        mf.kernel(dm0=dm)
                    else:
                        mf.init_guess = "chkfile"
                        mf.kernel()
                    return scf.result(mf)
                w2 = scf.process(second)
                worlds.append(w2)
                o2 = S.outcome(w2)
                whole = chk is not None and set(chk) == set(GROUP) and "mol" in keys(disk.path())
                if o2[0] == "ok":
                    if o2[1]["converged"] and abs(o2[1]["e_tot"] - e0) > scf.tol(cfg):
                        bad.append({"class": "restart-energy", "text": f"restart after {plan['faults']} gives {o2[1]['e_tot']}, uninterrupted {e0}"})
                    elif not o2[1]["converged"] and dm is not None:
                        bad.append({"class": "restart-unconverged", "text": f"restart after {plan['faults']} does not converge"})
                elif whole:
                    bad.append({"class": "restart-fails", "text": f"restart after {plan['faults']}: {o2}"})
                dig.append(round(o2[1]["e_tot"], 9) if o2[0] == "ok" else o2[0])
            # a complete checkpoint is one iteration: its energy is the energy of its density
            if not bad and chk is not None and set(chk) == set(GROUP) and cfg["method"] == "qedhf" and "z_alpha" not in cfg.get("opt", {}) and out[0] != "ok" \
                    and fired.get("crash") and plan["faults"][0].get("keep") == "flushed":
                dm = (chk["mo_coeff"] * chk["mo_occ"]) @ chk["mo_coeff"].T

                def probe(rk):
                    mf = scf.make(dict(cfg, max_cycle=0))
                    mf.kernel(dm0=dm)
                    return float(mf.e_tot)
                w3 = scf.process(probe)
                if S.outcome(w3)[0] == "ok":
                    stats["energy_of_saved_density_checked"] = 1
                    e = S.outcome(w3)[1]
                    if abs(e - float(chk["e_tot"])) > 1e-7:
                        bad.append({"class": "inconsistent", "text": f"checkpoint left by {plan['faults']}: energy {float(chk['e_tot'])}, its orbitals give {e}"})
            dig += [out[0], disk.n, fired, chk is not None]
    res["nontrivial"] = bool(fired)
    C.finish(res, worlds, devs=False)
    for k, v in fired.items():
        kk = k if k != "crash" else "crash_" + plan["faults"][0].get("keep", "flushed")
        res["fired"][kk] = res["fired"].get(kk, 0) + v
    res["key"] = C.h([cfg, plan["faults"], plan["how"]]) if fired else None
    res["stats"] = stats
    res["digest"] = C.h([bad, dig])
    res["outcome"] = "consistent" if not bad else bad[0]["text"]
    return res


def ref_job(cfg):
    mf = scf.make(cfg)
    mf.kernel()
    return scf.result(mf)


def simplify(plan):
    import copy
    for c in scf.simpler(plan["cfg"]):
        yield dict(copy.deepcopy(plan), cfg=c)
    for f in range(len(plan["faults"])):
        q = copy.deepcopy(plan)
        del q["faults"][f]
        yield q
        for n in (plan["faults"][f]["at"] // 2, plan["faults"][f]["at"] - 1):
            if n > 0 and "cycle" not in plan["faults"][f]:
                q = copy.deepcopy(plan)
                q["faults"][f]["at"] = n
                yield q
