"""Shared generators and comparisons."""

import hashlib

import numpy as np

COMPONENTS_AFQMC = {
    "real": ["openms.qmc (AFQMC driver, walkers, propagators, trial, estimators, population control)",
             "openms.__mpi__", "openms.lib.logger", "openms.lib.boson", "pyscf integrals and mean field",
             "numpy/scipy numerics"],
    "stub": ["mpi4py and the network below it (simulated communicator, one thread per rank, one runs at a time)",
             "wall clock, OS entropy, stdout/stderr of every rank",
             "numba compiled code (the kernels run as Python)"],
}

ELEC = [("h2", False), ("h2", True), ("h2b", False), ("h2b", True), ("heh", False), ("heh", True),
        ("h4", False), ("h4", True), ("lih", False), ("h3", True)]

METHODS = [None, "branching", "reconfiguration", "comb"]


def gen_cfg(rng, size, kinds=("elec", "boson", "qed"), methods=METHODS, max_steps=10, per_rank=4, min_steps=3, options=True):
    """A valid AFQMC configuration."""
    kind = rng.choice([k for k in kinds for _ in range({"elec": 6, "boson": 3, "qed": 1}[k])])
    # below ten walkers the weight cap (a tenth of the total) makes all weights equal: keep those jobs in the minority
    nw = rng.randint(size, size * per_rank) if rng.random() < 0.3 else max(size, rng.randint(11, 17))
    cfg = {
        "dt": rng.choice([0.005, 0.01, 0.02]), "nsteps": rng.randint(min_steps, max_steps),
        "nwalkers": nw, "scheme": rng.choice(["hybrid", "hybrid", "local"]),
        "pfreq": rng.choice([1, 2, 2, 3, 5]), "rfreq": rng.choice([1, 2, 3, 5]),
        "cfreq": rng.choice([1, 2, 2, 3, 5]), "method": rng.choice(methods),
        "seed": rng.randint(1, 10**6), "verbose": rng.choice([0, 1, 3, 4, 5, 6]),
    }
    if kind == "elec":
        cfg["system"], cfg["uhf"] = rng.choice(ELEC)
        cfg["block"] = rng.random() < 0.5
    elif kind == "boson":
        cfg["system"] = rng.choice(["h2", "h2", "heh", "h2b"])
        cfg["uhf"] = rng.random() < 0.3
        dec = rng.random() < 0.4
        cfg["boson"] = {"nmodes": 1 if dec else rng.choice([1, 1, 2]), "scale": rng.choice([0.5, 1.0, 2.0]),
                        "nphoton": rng.choice([2, 3]), "decouple": dec}
        cfg["nsteps"] = min(cfg["nsteps"], 6)
        cfg["nwalkers"] = max(size, min(cfg["nwalkers"], 13))
    else:
        cfg["system"] = rng.choice(["h2", "heh"])
        dec = rng.random() < 0.5
        cfg["qed"] = {"nmodes": 1, "nphoton": rng.choice([2, 3]), "decouple": dec}
        cfg["nsteps"] = min(cfg["nsteps"], 5)
        cfg["nwalkers"] = max(size, min(cfg["nwalkers"], 12))
    if options:
        rare_options(rng, cfg, kind, size)
    return cfg


def rare_options(rng, cfg, kind, size):
    """Less usual settings of a job; the usual ones stay in the majority."""
    if kind == "elec" and rng.random() < 0.08:   # a long run of a small system
        cfg.update(system=rng.choice(["h2", "heh", "h2b"]), nsteps=rng.randint(12, 32), pfreq=rng.choice([4, 7, 10, 11]),
                   cfreq=rng.choice([2, 6, 10, 15]), rfreq=rng.choice([4, 7, 10]))
    elif kind == "elec" and rng.random() < 0.06:   # many walkers
        cfg.update(system=rng.choice(["h2", "heh"]), nwalkers=rng.randint(18, 70))
    if kind == "elec" and rng.random() < 0.08:   # strongly varying weights
        cfg["dt"] = rng.choice([0.05, 0.1])
    if rng.random() < 0.08:   # walkers of zero weight; on all but one of the ranks possibly nothing else
        live = rng.randrange(size)
        cfg["dead"] = {str(r): 100 if r != live and rng.random() < 0.7 else rng.randint(0, max(0, cfg["nwalkers"] // size - 1))
                       for r in range(size) if rng.random() < 0.6 or r == (live + 1) % size}
    if rng.random() < 0.1:
        cfg["seed"] = rng.choice([0, 0, 0, 2**32 - 1])
    if rng.random() < 0.15:
        cfg["chol"] = rng.choice([1e-3, 1e-4])
    if kind == "elec":
        u = rng.random()
        if u < 0.15:
            cfg["popts"] = {"num_fake_fields": rng.choice([1, 2, 3])}
        elif u < 0.25:
            cfg["popts"] = {"taylor_order": rng.choice([2, 4, 8])}
        elif u < 0.35:   # the force bias of most walkers is rescaled
            cfg["popts"] = {"bias_bound": rng.choice([0.1, 0.5])}
        u = rng.random()
        if u < 0.05 and not cfg["uhf"]:
            cfg["own_mf"] = True
        elif u < 0.15:
            cfg["use_so"] = True
        elif u < 0.25:   # user-defined Hamiltonian
            cfg["system"], cfg["own_trial"] = rng.choice(["hub4", "hub6"]), rng.random() < 0.5
    elif kind == "boson":
        u = rng.random()
        if cfg["boson"]["decouple"]:
            if u < 0.5:
                cfg["popts"] = {"decouple_scheme": rng.choice([2, 3])}
        elif u < 0.2:
            cfg["popts"] = {"num_fake_fields": rng.choice([1, 2])}


def gen_size(rng, lo=1, hi=5):
    return rng.choice([s for s in (1, 2, 2, 3, 3, 4, 4, 5, 6, 8) if lo <= s <= hi])


def gen_sched(rng):
    return {"seed": rng.randint(0, 10**9), "p": rng.choice([0.05, 0.2, 0.5, 1.0]),
            "eager": rng.choice([0.0, 0.3, 1.0])}


def gen_clock(rng, size, wild=True):
    out = {"all": {"start": rng.choice([0.0, 1e6, 1.7e9]), "tick": rng.choice([1e-6, 1e-3, 0.5])}}
    if wild:
        for r in range(size):
            if rng.random() < 0.5:
                out[str(r)] = {"start": rng.uniform(-1e5, 2e9), "tick": rng.choice([0.0, 1e-6, 1e-2, 30.0]),
                               "jumps": [[rng.randint(1, 40), rng.choice([-3600.0, -0.5, 7200.0, 1e8])]
                                         for _ in range(rng.randint(0, 3))]}
    return out


def gen_stalls(rng, size, n=3):
    return [{"kind": "stall", "point": "comm", "rank": rng.randrange(size), "at": rng.randint(1, 25),
             "n": rng.choice([3, 10, 40, 200])} for _ in range(rng.randint(0, n))]


def merge_fired(*worlds):
    out = {}
    for w in worlds:
        for k, v in w.fired.items():
            out[k] = out.get(k, 0) + v
        j = sum(c.fired for c in w.clocks)
        if j:
            out["clock_jump"] = out.get("clock_jump", 0) + j
    return out


def h(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


def arr_digest(a):
    a = np.ascontiguousarray(a)
    return hashlib.sha256(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes()).hexdigest()[:16]


def result_digest(res):
    """Bitwise digest of what a rank returned."""
    if res is None:
        return None
    d = {k: (arr_digest(v) if isinstance(v, np.ndarray) else repr(v)) for k, v in res.items() if k != "final"}
    d["final"] = {k: arr_digest(v) for k, v in res.get("final", {}).items()}
    return h(sorted(d.items()))


def same_bits(a, b):
    """First difference between two results, or None."""
    if a is None or b is None:
        return None if a is b else "missing result"
    if a["nwalkers"] != b["nwalkers"]:
        return f"walker counts {a['nwalkers']} and {b['nwalkers']}"
    for k in ("times", "energies", "eshift"):
        if not same(a[k], b[k]):
            return f"{k}: {a[k]} and {b[k]}"
    for k in a["final"]:
        x, y = a["final"][k], b["final"].get(k)
        if y is None or x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
            n = float(np.max(np.abs(x - y))) if y is not None and x.shape == y.shape else "shape"
            return f"final {k} differs by {n}"
    return None


def same(x, y):
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and bool(np.array_equal(x, y, equal_nan=True))


def close(x, y, tol):
    """|x-y| <= tol * (1 + |x|), elementwise; nan only matches nan."""
    x, y = np.asarray(x, dtype=complex), np.asarray(y, dtype=complex)
    if x.shape != y.shape:
        return False
    with np.errstate(all="ignore"):
        ok = np.abs(x - y) <= tol * (1 + np.abs(x))
    ok |= ~np.isfinite(x) & ~np.isfinite(y)
    return bool(np.all(ok))


def finish(res, worlds, devs=True):
    """Bookkeeping every AFQMC property reports."""
    res["fired"] = merge_fired(*worlds)
    res["sim_time"] = sum(max(0.0, max(c.t - c.t0 for c in w.clocks)) if w.clocks else 0.0 for w in worlds)
    res["decisions"] = sum(w.sched.k for w in worlds)
    res["interleavings"] = [w.summary()["interleaving"] for w in worlds if w.size > 1]
    if devs:
        res["devs"] = [w.sched.dev for w in worlds]
    if res.get("violations"):
        res["trace"] = [f"{r}:{e}" for r, e in worlds[-1].trace][-200:]
    return res


# -- minimisation helpers -----------------------------------------------------
def simpler_cfg(plan):
    """Smaller job configurations, most drastic first."""
    import copy
    c = plan["cfg"]
    minsize = max([e.get("size", 1) for e in plan.get("execs", [{}])] or [1])

    def var(**kw):
        q = copy.deepcopy(plan)
        for k, v in kw.items():
            if v is None:
                q["cfg"].pop(k, None)
            else:
                q["cfg"][k] = v
        if "dead" in q["cfg"] and ("nwalkers" in kw or "size" in kw):
            q["cfg"].pop("dead")
        return q

    for n in (1, 2, c["nsteps"] // 2, c["nsteps"] - 1):
        if 0 < n < c["nsteps"]:
            yield var(nsteps=n)
    for n in (minsize, c["nwalkers"] // 2, c["nwalkers"] - 1):
        if minsize <= n < c["nwalkers"]:
            yield var(nwalkers=n)
    if c.get("boson") or c.get("qed"):
        yield var(boson=None, qed=None, popts=None)
    for k in ("popts", "chol", "own_mf", "use_so", "own_trial", "dead"):
        if c.get(k) is not None:
            yield var(**{k: None})
    if c["system"] != "h2":
        yield var(system="h2", uhf=False)
    if c.get("method") is not None:
        yield var(method=None)
    if c.get("scheme") != "hybrid":
        yield var(scheme="hybrid")
    for k, v in (("verbose", 1), ("pfreq", 1), ("rfreq", 1000), ("cfreq", 1000), ("cfreq", 1), ("dt", 0.01), ("seed", 1)):
        if c.get(k) != v:
            yield var(**{k: v})
    s = max([e.get("size", 1) for e in plan.get("execs", [])] or [1])
    if s > 2:
        q = copy.deepcopy(plan)
        for e in q["execs"]:
            if e.get("size", 1) == s:
                e["size"] = s - 1
                e["faults"] = [f for f in e.get("faults") or [] if f["rank"] < s - 1]
        q["cfg"].pop("dead", None)
        yield q
