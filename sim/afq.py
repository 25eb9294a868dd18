"""AFQMC jobs inside the simulated MPI world."""

import copy
import functools
import random
import sys

import numpy as np

from . import env
from .world import World, Clock

CURRENT = None  # the world that is running

# name -> (atom, basis, charge, spin)
SYSTEMS = {
    "h2": ("H 0 0 0; H 0 0 0.9", "sto-3g", 0, 0),
    "h2b": ("H 0 0 0; H 0 0 1.6", "6-31g", 0, 0),
    "heh": ("He 0 0 0; H 0 0 0.9", "sto-3g", 1, 0),
    "h4": ("H 0 0 0; H 0 0 1.0; H 0 0 2.0; H 0 0 3.0", "sto-3g", 0, 0),
    "lih": ("Li 0 0 0; H 0 0 1.6", "sto-3g", 0, 0),
    "h3": ("H 0 0 0; H 0 0 1.0; H 0 1.0 0.3", "sto-3g", 0, 1),
}
HUBBARD = {"hub4": (4, 4, 2.0), "hub6": (6, 4, 1.0)}   # sites, electrons, on-site repulsion


@functools.lru_cache(None)
def base_system(name, method):
    """Converged mean field, shared and never handed out itself."""
    from pyscf import gto, scf
    if name in HUBBARD:
        return hubbard(name)
    name, _, factor = name.partition("@")
    atom, basis, charge, spin = SYSTEMS[name]
    mol = stretched(gto.M(atom=atom, basis=basis, charge=charge, spin=spin, verbose=0, unit="Angstrom"), factor)
    mf = {"rhf": scf.RHF, "uhf": scf.UHF}[method](mol)
    mf.chkfile = None
    mf.conv_tol = 1e-11
    mf.kernel()
    return mol, mf


def stretched(mol, factor):
    """The same molecule with all distances from the centre of nuclear charge scaled."""
    if not factor:
        return mol
    x, z = mol.atom_coords(), mol.atom_charges()
    c = z @ x / z.sum()
    return mol.set_geom_(c + (x - c) * float(factor), unit="Bohr", inplace=False)


def hubbard(name):
    """A user-defined Hamiltonian: an open Hubbard chain."""
    from pyscf import ao2mo, gto, scf
    n, nel, u = HUBBARD[name]
    mol = gto.M(verbose=0)
    mol.nelectron = nel
    mol.incore_anyway = True
    mol.nao_nr = lambda *a: n
    mol.tot_electrons = lambda *a: nel
    h1 = np.zeros((n, n))
    for i in range(n - 1):
        h1[i, i + 1] = h1[i + 1, i] = -1.0
    eri = np.zeros((n,) * 4)
    eri[range(n), range(n), range(n), range(n)] = u
    mf = scf.RHF(mol)
    mf.chkfile = None
    mf.max_cycle = 200
    mf.get_hcore = lambda *a: h1
    mf.get_ovlp = lambda *a: np.eye(n)
    mf._eri = ao2mo.restore(8, eri, n)
    mf.kernel()
    return mol, mf


def hubbard_integrals(name, ncomp):
    n, _, u = HUBBARD[name]
    h1 = base_system(name, "rhf")[1].get_hcore()
    chol = np.zeros((n, n, n))
    chol[range(n), range(n), range(n)] = np.sqrt(u)
    return np.array([h1.copy() for _ in range(ncomp)]), chol


def fresh_system(name, method):
    """A private copy of the mean field, as a process of its own would have."""
    mol0, mf0 = base_system(name, method)
    mol = mol0.copy()
    mf = copy.copy(mf0)
    mf.mol = mol
    for k, v in list(mf.__dict__.items()):
        if isinstance(v, np.ndarray):
            setattr(mf, k, np.array(v, copy=True))
    return mol, mf


MODES = np.array([[0.1, 0.02, 0.05], [0.0, 0.03, 0.08]])
FREQS = np.array([0.5, 0.35])


def make_inputs(cfg, mol=None, mf=None):
    """Everything the caller of AFQMC owns: molecule, mean field, arrays, dictionaries. Runs inside a rank."""
    if mol is None:
        mol, mf = fresh_system(cfg["system"], "rhf")
    inp = {"mol": mol, "bare": mol, "mf": mf, "po": dict(cfg.get("popts") or {})}
    boson, q = cfg.get("boson"), cfg.get("qed")
    if boson:
        from openms.lib import boson as bosonlib
        n = boson.get("nmodes", 1)
        inp["freq"] = FREQS[:n].copy()
        inp["mode"] = MODES[:n].copy() * boson.get("scale", 1.0)
        inp["gmat"] = np.einsum("nx,xuv->nuv", inp["mode"], bosonlib.get_dipole_ao(mol))
        inp["po"]["decouple_bilinear"] = bool(boson.get("decouple"))
        if boson.get("off"):
            inp["po"]["turnoff_bosons"] = True
    if cfg["system"] in HUBBARD:
        ncomp = 2 if cfg.get("uhf") or cfg.get("use_so") else 1
        inp["h1e"], inp["chol"] = hubbard_integrals(cfg["system"], ncomp)
        if cfg.get("own_trial"):
            from openms.qmc.trial import TrialHF
            inp["trial"] = TrialHF(mol, mf=mf, ncomponents=ncomp, verbose=0)
            inp["trial"].build()
    if cfg.get("walker_options") is not None:
        inp["wo"] = dict(cfg["walker_options"])
    if q:
        from openms.mqed import qedhf
        n = q.get("nmodes", 1)
        inp["freq"], inp["mode"] = FREQS[:n].copy(), MODES[:n].copy()
        qmf = qedhf.RHF(mol, cavity_mode=inp["mode"], cavity_freq=inp["freq"], nboson_states=[q.get("nphoton", 3)] * n, verbose=0)
        qmf.chkfile = None
        qmf.max_cycle = 100
        qmf.kernel()
        inp["mf"] = qmf
        inp["po"]["decouple_bilinear"] = bool(q.get("decouple"))
        inp["mol"] = qmf.qed
    return inp


def make_afqmc(cfg, inp=None):
    """Build the real AFQMC object of a configuration; runs inside a rank."""
    from openms.qmc.afqmc import AFQMC
    if inp is None:
        inp = make_inputs(cfg)
    dt = cfg.get("dt", 0.01)
    kw = dict(
        mf=inp["mf"], dt=dt, total_time=(cfg["nsteps"] + 0.5) * dt, num_walkers=cfg["nwalkers"],
        energy_scheme=cfg.get("scheme", "hybrid"), uhf=bool(cfg.get("uhf")), chol_thresh=cfg.get("chol", 1e-6),
        property_calc_freq=cfg.get("pfreq", 5), renorm_freq=cfg.get("rfreq", 5),
        pop_control_freq=cfg.get("cfreq", 5), pop_control_method=cfg.get("method"),
        random_seed=cfg.get("seed", 1), verbose=cfg.get("verbose", 1),
        block_decompose_eri=cfg.get("block", True), OAO=cfg.get("oao", True),
    )
    if cfg.get("boson"):
        kw.update(boson_freq=inp["freq"], gmat=inp["gmat"], nphoton=cfg["boson"].get("nphoton", 3))
    if inp["po"]:
        kw["propagator_options"] = inp["po"]
    if "wo" in inp:
        kw["walker_options"] = inp["wo"]
    if "h1e" in inp:
        kw["integrals_func"] = lambda: (inp["h1e"], inp["chol"])
    if "trial" in inp:
        kw["trial"] = inp["trial"]
    if cfg.get("use_so"):
        kw["use_so"] = True
    if cfg.get("own_mf"):
        kw.pop("mf")
        inp["mol"].verbose = 0
    mc = AFQMC(inp["mol"], **kw)
    if cfg["system"] in HUBBARD:
        mc.nuc_energy = 0.0
    for r, n in (cfg.get("dead") or {}).items():   # walkers that earlier steps have left with zero weight
        if int(r) == mc._mpi.rank:
            mc.walkers.weights[:n] = 0.0
    if cfg.get("shared_noise"):
        mc.propagator.debug_mpi = True
    return mc


WALKER_FIELDS = ("phiwa", "phiwb", "boson_phiw", "weights", "weights_org", "ovlp", "eloc", "ehybrid",
                 "detR", "log_detR")


def snapshot(walkers, fields=WALKER_FIELDS):
    out = {}
    for f in fields:
        v = getattr(walkers, f, None)
        if v is not None:
            out[f] = np.array(v, copy=True)
    return out


def wrap(obj, name, before=None, after=None):
    """Observe calls of a bound method of one object; never changes what it does."""
    fn = getattr(obj, name)

    @functools.wraps(fn)
    def inner(*a, **k):
        if before is not None:
            before(a, k)
        out = fn(*a, **k)
        if after is not None:
            after(a, k, out)
        return out
    setattr(obj, name, inner)


def clean_energies(es):
    return [complex(e) for e in es]


def job_main(cfg, observe=None, prelude=None, postlude=None):
    """What every rank executes."""
    def main(rk):
        if prelude is not None:
            prelude(rk, cfg)
        mc = make_afqmc(cfg)
        if observe is not None:
            observe(rk, mc)
        times, energies = mc.kernel()
        out = {"times": [float(t) for t in times], "energies": clean_energies(energies),
               "eshift": complex(mc.eshift), "nwalkers": int(mc.walkers.nwalkers),
               "final": snapshot(mc.walkers)}
        if postlude is not None:
            postlude(rk, mc, out)
        return out
    return main


def run_job(cfg, size, sched=None, faults=(), clock=None, entropy=None, mpi="sim", np_seeds=None,
            reduce_order=None, observe=None, prelude=None, postlude=None, mains=None, host=None):
    """One simulated execution of one AFQMC job on `size` ranks."""
    clock = clock or {}
    clocks = []
    for r in range(size):
        c = dict(clock.get("all", {}))
        c.update(clock.get(str(r), {}))
        clocks.append(Clock(**c))
    w = World(size, sched=sched, faults=faults, clocks=clocks, mpi=mpi, np_seeds=np_seeds,
              reduce_order=reduce_order)
    # systems are converged outside of the simulated time
    base_system(cfg["system"], "rhf")

    def now():
        c = w.current
        return w.clocks[c if c is not None else 0].read()
    global CURRENT
    CURRENT = w
    env.CLOCK = now
    env.ENTROPY = random.Random(entropy if entropy is not None else 99)
    w.machine = host or {"pid": 4000, "name": "node"}
    env.HOST = lambda: (w.machine["pid"] + (w.current or 0), f"{w.machine['name']}{w.current or 0}")
    try:
        if mains is None:
            mains = [job_main(cfg, observe, prelude, postlude)] * size
        w.run(mains)
    finally:
        env.CLOCK = env.ENTROPY = env.HOST = None
    w.now = now
    return w


def ok(world):
    return all(rk.outcome[0] == "ok" for rk in world.ranks)


def results(world):
    return [rk.outcome[1] if rk.outcome[0] == "ok" else None for rk in world.ranks]


def failure(world):
    """Text describing why a fault-free job did not end normally, or None."""
    if world.verdict is not None:
        return f"{world.verdict[0]}: {world.verdict[1]}"
    for rk in world.ranks:
        if rk.outcome[0] != "ok" and not (rk.outcome[0] == "killed"):
            return f"rank {rk.r}: {rk.outcome}"
    if not ok(world):
        return "killed"
    return None
