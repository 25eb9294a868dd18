"""Cavity mean-field calculations inside a simulated process: clock, memory readings, checkpoint disk."""

import os
import random
import shutil
import tempfile

import numpy as np

from . import env
from .world import World, Clock, SimCrash

SYSTEMS = {
    "h2": ("H 0 0 0; H 0 0 0.9", "sto-3g", 0),
    "h2b": ("H 0 0 0; H 0 0 1.0", "6-31g", 0),
    "heh": ("He 0 0 0; H 0 0 0.9", "sto-3g", 1),
    "hf": ("H 0 0 0; F 0 0 0.95", "sto-3g", 0),
    "lih": ("Li 0 0 0; H 0 0 1.6", "sto-3g", 0),
    "h2o": ("O 0 0 0; H 0 0.757 0.587; H 0 -0.757 0.587", "sto-3g", 0),
}
MODES = np.array([[0.1, 0.02, 0.05], [0.0, 0.03, 0.08]])
FREQS = np.array([0.5, 0.35])


def gen_cfg(rng, methods=("qedhf", "qedhf", "scqedhf", "vtqedhf"), systems=None):
    m = rng.choice(methods)
    pool = systems or (["h2", "h2b", "heh", "hf", "lih", "h2o"] if m != "vtqedhf" else ["h2", "heh", "hf", "lih"])
    c = {"method": m, "system": rng.choice(pool), "nmodes": 1 if m != "qedhf" else rng.choice([1, 1, 2]),
         "scale": rng.choice([0.3, 1.0, 1.5]), "freq": rng.choice([0.2, 0.5, 1.0]), "cs": m == "qedhf" and rng.random() < 0.5}
    opt, post = {}, {}
    if rng.random() < 0.5:
        n = c["nmodes"]
        for _ in range(rng.randint(1, 2)):
            k = rng.choice(["nboson", "nboson", "dse", "nuc", "basis", "shift", "gfac", "guess", "space"] + {
                "qedhf": ["zalpha", "direct"], "scqedhf": ["cd", "precond"], "vtqedhf": ["fixf", "fixf", "startf", "vsq", "fixsq", "cd"]}[m])
            if k == "nboson":
                opt["nboson_states"] = rng.choice([2, 3] if n == 1 else [2, [1, 3], [3, 2]])
            elif k == "dse" and m == "qedhf":
                opt["add_dse"] = False
            elif k == "nuc":
                opt["add_nuc_dipole"] = True
            elif k == "basis":
                opt["complete_basis"] = False
            elif k == "shift":
                opt["origin_shift"] = [0.0, rng.choice([0.0, 0.3]), 1.0]
            elif k == "gfac":
                opt["gfac"] = [0.1, 0.05][:n]
            elif k == "zalpha":
                opt["z_alpha"] = [0.0] * n
                c["cs"] = False
            elif k == "cd":
                opt["CD_anyway"] = True
                opt["CD_thresh"] = rng.choice([1e-8, 1e-10])
            elif k == "fixf":
                opt["couplings_var"] = [rng.choice([0.3, 0.7, 1.0])]
            elif k == "startf":            # start from a given value, then optimise
                opt["couplings_var"] = [rng.choice([0.4, 0.8])]
                post["optimize_varf"] = True
            elif k == "vsq":
                post["squeezed_var"] = [0.0]
                post["optimize_vsq"] = True
            elif k == "fixsq":
                opt["squeezed_var"] = [rng.choice([-0.01, 0.03])]
            elif k == "guess":
                post["init_guess"] = rng.choice(["hcore", "1e", "atom"])
            elif k == "space":
                post["diis_space"] = rng.choice([5, 10])
            elif k == "direct":
                post["direct_scf"] = False
            elif k == "precond":
                post["precond"] = 0.05
    if opt:
        c["opt"] = opt
    if post:
        c["post"] = post
    return c


def tol(cfg):
    """Accuracy of converged energies; with several photon states the iteration stops with the photon state one step behind."""
    return 1e-5 if cfg["method"] != "qedhf" and (cfg.get("opt") or {}).get("nboson_states") else 1e-6


def arrays(cfg):
    """Array-valued options as the caller's arrays."""
    out = {}
    for d in ("opt", "post"):
        for k, v in (cfg.get(d) or {}).items():
            if isinstance(v, list) and k != "nboson_states":
                out[k] = np.array(v, dtype=float)
    return out


def molecule(name):
    from pyscf import gto
    from .afq import stretched
    name, _, factor = name.partition("@")
    atom, basis, charge = SYSTEMS[name]
    return stretched(gto.M(atom=atom, basis=basis, charge=charge, verbose=0, unit="Angstrom"), factor)


def make(cfg, mol=None, mode=None, freq=None, chkfile=None, own=None):
    """Build the mean-field object of a configuration. own: the caller's arrays for array-valued options."""
    from openms.mqed import qedhf, scqedhf, vtqedhf
    mol = mol if mol is not None else molecule(cfg["system"])
    n = cfg.get("nmodes", 1)
    mode = mode if mode is not None else MODES[:n] * cfg.get("scale", 1.0)
    freq = freq if freq is not None else FREQS[:n] * cfg.get("freq", 0.5) / 0.5
    own = own if own is not None else arrays(cfg)
    kw = dict(cavity_mode=mode, cavity_freq=freq)
    if cfg.get("cs"):
        kw["use_cs"] = True
    if cfg["method"] == "vtqedhf":
        kw["falpha"] = [0.5] * n
    for k, v in (cfg.get("opt") or {}).items():
        kw[k] = own.get(k, v)
    cls = {"qedhf": qedhf, "scqedhf": scqedhf, "vtqedhf": vtqedhf}[cfg["method"]].RHF
    mf = cls(mol, **kw)
    mf.verbose = cfg.get("verbose", 0)
    mf.max_cycle = cfg.get("max_cycle", 300)
    mf.conv_tol = cfg.get("conv_tol", 1e-10)
    mf.chkfile = chkfile
    for k, v in (cfg.get("post") or {}).items():
        if k in ("squeezed_var", "optimize_vsq", "optimize_varf"):
            setattr(mf.qed, k, own.get(k, v))
        else:
            setattr(mf, k, v)
    return mf


def simpler(cfg):
    """Simpler variants of a configuration, for minimisation."""
    import copy
    for d in ("opt", "post"):
        for k in cfg.get(d) or {}:
            c = copy.deepcopy(cfg)
            del c[d][k]
            if d == "opt" and k == "couplings_var":
                c.get("post", {}).pop("optimize_varf", None)
            yield c
    for k, v in (("system", "h2"), ("cs", False), ("scale", 1.0), ("freq", 0.5)):
        if cfg.get(k) != v:
            yield dict(copy.deepcopy(cfg), **{k: v})
    if cfg.get("nmodes", 1) != 1 and not any(isinstance(v, list) for d in ("opt", "post") for v in (cfg.get(d) or {}).values()):
        yield dict(copy.deepcopy(cfg), nmodes=1)


def process(fn, clock=None, entropy=None, faults=(), mpi="none"):
    """Run fn(rank) as the only process of a simulated machine."""
    from . import afq
    w = World(1, faults=faults, clocks=[Clock(**(clock or {}))], mpi=mpi)
    afq.CURRENT = w

    def now():
        return w.clocks[0].read()
    env.CLOCK = now
    env.ENTROPY = random.Random(entropy if entropy is not None else 99)
    try:
        w.run([fn])
    finally:
        env.CLOCK = None
        env.ENTROPY = None
    return w


# -- memory -------------------------------------------------------------------
class Memory:
    """Answers of the memory probe, decided by the simulator."""

    def __init__(self, spec):
        self.mode = spec.get("mode", "real")
        self.rng = random.Random(spec.get("seed", 0))
        self.dev = spec.get("low")      # explicit list of probe numbers that report pressure
        self.n = 0
        self.low = []

    def enough(self):
        self.n += 1
        if self.dev is not None:
            v = self.n not in self.dev
        elif self.mode == "low":
            v = False
        elif self.mode == "high":
            v = True
        else:
            v = self.rng.random() < 0.5
        if not v:
            self.low.append(self.n)
        return v

    def __enter__(self):
        from pyscf.lib import misc
        from pyscf import lib
        from pyscf.scf import hf
        self.saved = [(misc, "current_memory", misc.current_memory), (lib, "current_memory", lib.current_memory),
                      (hf.SCF, "_is_mem_enough", hf.SCF._is_mem_enough)]

        def current():
            v = self.enough()
            return (10.0, 20.0) if v else (1e9, 1e9)
        misc.current_memory = lib.current_memory = current
        hf.SCF._is_mem_enough = lambda this: self.enough()
        return self

    def __exit__(self, *a):
        for o, n, f in self.saved:
            setattr(o, n, f)


# -- checkpoint disk ----------------------------------------------------------
class Disk:
    """Scratch directory holding checkpoint files, with faults at every modification of an HDF5 file."""

    def __init__(self, faults=()):
        self.dir = tempfile.mkdtemp(prefix="scf-", dir=env.scratch())
        self.faults = [dict(f) for f in faults]
        self.n = 0
        self.fired = {}
        self.log = []
        self.durable = None     # bytes that survive the crash, or None for the file as it is
        self.patched = []

    def path(self, name="chk.h5"):
        return os.path.join(self.dir, name)

    def hit(self, what, group):
        self.n += 1
        self.log.append(what)
        for f in self.faults:
            if f["at"] == self.n and not f.get("used"):
                f["used"] = True
                self.fired[f["kind"]] = self.fired.get(f["kind"], 0) + 1
                if f["kind"] == "disk_full":
                    raise OSError(28, "No space left on device")
                if f["kind"] == "crash":
                    keep = f.get("keep", "flushed")
                    p = self.path()
                    if keep == "flushed":
                        try:
                            group.file.flush()
                        except Exception:
                            pass
                    data = open(p, "rb").read() if os.path.exists(p) else None
                    if data is not None and keep == "torn":
                        data = data[: int(len(data) * f.get("frac", 0.5))]
                    self.durable = (data,)
                    raise SimCrash()

    def after_crash(self):
        """What the restarted process finds."""
        if self.durable is not None:
            data = self.durable[0]
            p = self.path()
            if data is None:
                if os.path.exists(p):
                    os.remove(p)
            else:
                with open(p, "wb") as f:
                    f.write(data)
            self.durable = None

    def __enter__(self):
        import h5py
        self.h5 = h5py
        disk = self
        for name in ("__setitem__", "create_dataset", "create_group", "__delitem__"):
            orig = getattr(h5py.Group, name)
            self.patched.append((name, orig, name in h5py.Group.__dict__))

            def inner(self, *a, _o=orig, _n=name, **k):
                if not disk.busy:
                    disk.busy = True
                    try:
                        disk.hit(_n, self)
                        return _o(self, *a, **k)
                    finally:
                        disk.busy = False
                return _o(self, *a, **k)
            setattr(h5py.Group, name, inner)
        self.busy = False
        return self

    def __exit__(self, *a):
        for name, orig, own in self.patched:
            setattr(self.h5.Group, name, orig)
        shutil.rmtree(self.dir, ignore_errors=True)


def result(mf):
    return {"e_tot": float(mf.e_tot), "converged": bool(mf.converged), "mo_energy": np.array(mf.mo_energy), "mo_occ": np.array(mf.mo_occ),
            "dm": np.array(mf.make_rdm1()), "f": np.array(mf.qed.couplings_var, dtype=float), "F": np.array(mf.qed.squeezed_var, dtype=float)}
