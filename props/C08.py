"""Walkers split over processes: propagating and evaluating in pieces and gathering gives every walker its own energy."""

import copy
import types

import numpy as np

from sim import afq, env
from sim.world import World
from . import common as C

ID = "C08"
RUNS = {"quick": 900, "thorough": 20000}
RULE = ("one run = noise scattered from one process to 1-6 processes in uneven (also empty) pieces, local propagation, overlaps, Green's functions and "
        "energies, gathered again, under a seeded schedule, stalls and scheduling of message completion; compared with the definition evaluated for "
        "the whole batch; distinct = different (sizes, pieces, functions used, interleaving)")
LEVEL = "exploration"
COMPONENTS = {"real": ["openms.qmc.propagators / trial / estimators (batch functions)", "openms.__mpi__ (wrapper and serial fallback)", "numpy"],
              "stub": C.COMPONENTS_AFQMC["stub"]}
ASSUMPTIONS = ["overlap matrices that are far from singular", "values agree to 1e-9"]


def gen(rng, i, tier):
    size = rng.choice([1, 1, 2, 3, 4, 5, 6])
    nw = rng.randint(1, 14)
    if rng.random() < 0.5:
        counts = [nw // size + (1 if k < nw % size else 0) for k in range(size)]
    else:
        cut = sorted(rng.randint(0, nw) for _ in range(size - 1))
        counts = [b - a for a, b in zip([0] + cut, cut + [nw])]
    return {"nw": nw, "counts": counts, "nao": rng.randint(2, 5), "no": rng.randint(1, 2), "nchol": rng.randint(1, 6), "order": rng.choice([2, 4, 6]),
            "seed": rng.getrandbits(31), "complex": rng.random() < 0.3, "chunked": rng.random() < 0.6, "fast": rng.random() < 0.5, "uhf": rng.random() < 0.5,
            "nmodes": rng.randint(1, 2), "nph": rng.randint(2, 3),
            "mpi": "none" if size == 1 and rng.random() < 0.5 else "sim",
            "execs": [{"size": size, "sched": C.gen_sched(rng), "faults": C.gen_stalls(rng, size, 2) if size > 1 else []}]}


def data(p):
    rs = np.random.RandomState(p["seed"])
    no = min(p["no"], p["nao"])

    def c(*s):
        return rs.standard_normal(s) + 1j * rs.standard_normal(s)
    psi = np.linalg.qr(rs.standard_normal((p["nao"], no)))[0]
    d = {"psi": psi, "L": rs.standard_normal((p["nchol"], p["nao"], p["nao"])), "xi": rs.standard_normal((p["nw"], p["nchol"])),
         "phi": psi[None] + 0.15 * c(p["nw"], p["nao"], no), "h": rs.standard_normal((p["nao"], p["nao"])), "phib": psi[None] + 0.15 * c(p["nw"], p["nao"], no)}
    d["L"] = 0.5 * (d["L"] + d["L"].transpose(0, 2, 1))
    if p["complex"]:
        d["L"] = d["L"] + 0.2j * c(*d["L"].shape).real
    d["boson"] = c(p["nw"], p["nph"] * p["nmodes"])
    d["bpsi"] = rs.standard_normal(p["nph"] * p["nmodes"])
    d["geb"] = rs.standard_normal((p["nmodes"], p["nao"], p["nao"]))
    d["omega"] = rs.uniform(0.1, 1.0, p["nmodes"])
    d["rl"] = np.einsum("pi,npq->nqi", psi.conj(), d["L"])
    d["rh"] = np.einsum("pi,pq->qi", psi.conj(), d["h"])
    return d


def reference(p, d):
    op = 1j * np.sqrt(0.005) * np.einsum("zn,npq->zpq", d["xi"], d["L"])

    def prop(phi):
        t, out = phi.copy(), phi.copy()
        for k in range(p["order"]):
            t = np.einsum("zpq,zqi->zpi", op, t) / (k + 1)
            out = out + t
        return out

    def green(phi):
        o = np.einsum("zpi,pj->zij", phi, d["psi"].conj())
        return o, np.einsum("zij,zpj->zpi", np.linalg.inv(o), phi)
    phi = prop(d["phi"])
    o, g = green(phi)
    f = np.einsum("nqi,zqj->znij", d["rl"], g)
    lg = np.einsum("nqi,zqi->zn", d["rl"], g)
    exx, e1 = 0.5 * np.einsum("znij,znji->z", f, f), np.einsum("qi,zqi->z", d["rh"], g)
    out = {"phi": phi, "ovlp": o, "ghalf": g, "exx": exx, "e1": e1}
    _, gb = green(prop(d["phib"]))
    detb = np.linalg.det(np.einsum("zpi,pj->zij", prop(d["phib"]), d["psi"].conj()))
    fb = np.einsum("nqi,zqj->znij", d["rl"], gb)
    lgb = np.einsum("nqi,zqi->zn", d["rl"], gb)
    # G_pq = sum_i psi_pi Ghalf_qi, the matrix that numerics of the mixed estimator use
    gf, gfb = np.einsum("pi,zqi->zpq", d["psi"], g), np.einsum("pi,zqi->zpq", d["psi"], gb)
    if p["uhf"]:
        lg = lg + lgb
        out.update(sd_e1=e1 + np.einsum("qi,zqi->z", d["rh"], gb) + 0.7,
                   sd_e2=0.5 * np.einsum("zn,zn->z", lg, lg) - exx - 0.5 * np.einsum("znij,znji->z", fb, fb), sd_ovlp=np.linalg.det(o) * detb)
    else:
        out.update(sd_e1=2 * e1 + 0.7, sd_e2=2 * np.einsum("zn,zn->z", lg, lg) - 2 * exx, sd_ovlp=np.linalg.det(o) ** 2)
    out["ecoul"] = 0.5 * np.einsum("zn,zn->z", lg, lg)
    out["onebody"] = np.einsum("pq,zqi->zpi", d["h"], d["phi"])
    out["gfull"] = gf
    q, r = np.linalg.qr(phi)
    out["qr_log"] = np.log(np.abs(np.einsum("zii->zi", r))).sum(axis=1)
    out["qr_proj"] = np.einsum("zpi,zqi->zpq", q, q.conj())
    n = np.tile(np.arange(p["nph"]), p["nmodes"])
    bo = d["boson"] @ d["bpsi"].conj()
    gbos = np.einsum("zM,N->zMN", d["boson"] / bo[:, None], d["bpsi"].conj())
    w = np.repeat(d["omega"], p["nph"])
    out["e_boson"] = np.einsum("F,F,zFF->z", w, n, gbos)
    x = np.zeros((p["nw"], len(n), len(n)), dtype=complex)
    gx = gf + (gfb if p["uhf"] else 0)
    for m in range(p["nmodes"]):
        s = slice(m * p["nph"], (m + 1) * p["nph"])
        a = np.diag(np.sqrt(np.arange(1, p["nph"])), 1)
        x[:, s, s] = (a + a.T)[None] * np.einsum("pq,zpq->z", d["geb"][m], gx)[:, None, None]
    out["e_eb"] = np.einsum("zMN,zMN->z", x, gbos)
    return out


class Unavailable(Exception):
    pass


class N:
    """Stand-in for a trial or a set of walkers: just the arrays."""

    def __init__(self, **k):
        self.__dict__.update(k)


def not_there(e):
    """Does this error say that the code has no function of that name, or wants more of an object than the stand-in has?"""
    if isinstance(e, AttributeError) and isinstance(e.obj, N):
        return True
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return (isinstance(e, ImportError) or isinstance(e.obj, types.ModuleType)) and tb.tb_frame.f_code.co_filename == __file__


def main_of(p):
    d = data(p)

    def main(rk):
        try:
            return work(rk)
        except (AttributeError, ImportError) as e:
            if not not_there(e):
                raise
            raise Unavailable(str(e)) from None

    def work(rk):
        from openms.__mpi__ import MPI, MPIWrapper
        from openms.qmc import estimators, propagators, trial
        mpi = MPIWrapper()
        comm, rank, size = mpi.comm, mpi.rank, mpi.size
        counts = p["counts"]
        displs = [sum(counts[:k]) for k in range(size)]
        n, nchol, nao = counts[rank], p["nchol"], p["nao"]
        xi = np.empty((n, nchol))
        send = [d["xi"].flatten(), (np.array(counts) * nchol, np.array(displs) * nchol), MPI.DOUBLE] if rank == 0 else None
        if p["mpi"] == "none":
            flat = np.empty(n * nchol)
            comm.Scatterv(send, [flat, MPI.DOUBLE], root=0)
            xi = flat.reshape(n, nchol)
        else:
            comm.Scatterv(send, [xi, MPI.DOUBLE], root=0)
        mine = slice(displs[rank], displs[rank] + n)
        op = propagators.build_HS(xi, d["L"], 1j * np.sqrt(0.005)) if n else np.zeros((0, nao, nao), dtype=complex)
        step = propagators.propagate_HS_kernel if p["fast"] else propagators.propagate_exp_op
        green = trial.trial_walker_ovlp_gf_base_kernel if p["fast"] else trial.trial_walker_ovlp_gf_base
        phi = step(d["phi"][mine].copy(), op, p["order"])
        o, g = green(phi, d["psi"])
        gb = None
        if p["uhf"]:
            _, gb = green(step(d["phib"][mine].copy(), op, p["order"]), d["psi"])
        more, missing = {}, []
        if n:
            missing = extra(p, d, mine, phi, o, g, gb, step, more)
        e1 = estimators.e_rh1e_Ghalf(d["rh"], g) if n else np.zeros(0, dtype=complex)
        ec = (estimators.ecoul_rltensor_uhf(d["rl"], g, d["rl"] if p["uhf"] else None, gb) if n else np.zeros(0, dtype=complex))

        def collect(local, width=1):
            local = np.ascontiguousarray(local, dtype=complex).reshape(-1)
            full = np.zeros(p["nw"] * width, dtype=complex) if rank == 0 else None
            comm.Gatherv(local, [full, np.array(counts) * width, np.array(displs) * width, MPI.COMPLEX16], root=0)
            return full
        no = d["psi"].shape[1]
        if p["chunked"]:
            exx = estimators.exx_rltensor_Ghalf_chunked(d["rl"], g, comm, MPI, p["nw"], counts, displs)
        else:
            f = estimators.exx_rltensor_Ghalf_kernel if p["fast"] and not p["complex"] else estimators.exx_rltensor_Ghalf
            exx = collect(f(d["rl"], g))
        out = {"exx": exx, "e1": collect(e1), "ecoul": collect(ec), "ghalf": collect(g, nao * no), "phi": collect(phi, nao * no), "ovlp": collect(o, no * no)}
        width = {"onebody": nao * no, "gfull": nao * nao, "qr_proj": nao * nao}
        for k in EXTRA:
            out[k] = collect(more.get(k, np.zeros(n * width.get(k, 1))), width.get(k, 1))
        out = out if rank == 0 else {"exx": exx}
        out["missing"] = missing
        return out
    return main, d


EXTRA = ("onebody", "gfull", "qr_log", "qr_proj", "sd_e1", "sd_e2", "sd_ovlp", "e_boson", "e_eb")


def extra(p, d, mine, phi, o, g, gb, op, out):
    """What the driver computes for the walkers of one process, function by function."""
    from openms.qmc import estimators, propagators, qmc, trial
    fast = p["fast"]
    hs = propagators.build_HS
    t = N(rh1a=d["rh"], rh1b=d["rh"], rltensora=d["rl"].real.copy() if fast and not p["complex"] else d["rl"], rltensorb=None,
          psia=d["psi"], psib=d["psi"], ncomponents=2 if p["uhf"] else 1, nalpha=d["psi"].shape[1], nbeta=d["psi"].shape[1])
    t.rltensorb = t.rltensora
    w = N(Ghalfa=g, Ghalfb=gb, phiwa=phi, phiwb=None, logshift=np.zeros(len(phi)), nwalkers=len(phi), ncomponents=t.ncomponents)
    b = d["boson"][mine]
    bo = b @ d["bpsi"].conj()
    gbos = np.einsum("zM,N->zMN", b / bo[:, None], d["bpsi"].conj())
    ns = [p["nph"]] * p["nmodes"]
    gfull = np.einsum("pi,zqi->zpq", d["psi"], g)
    gfb = np.einsum("pi,zqi->zpq", d["psi"], gb) if p["uhf"] else None

    def onebody():
        f = propagators.propagate_onebody_kernel if fast else propagators.propagate_onebody
        out["onebody"] = f(d["h"].astype(complex), d["phi"][mine].copy())

    def full():
        out["gfull"] = propagators.compute_GF_base(g, d["psi"])

    def ortho():
        q, out["qr_log"] = qmc.qr_ortho_batch(phi.copy())
        out["qr_proj"] = np.einsum("zpi,zqi->zpq", q, q.conj())

    def single():
        out["sd_e1"], out["sd_e2"] = (estimators.local_energy_SD_UHF if p["uhf"] else estimators.local_energy_SD_RHF)(t, w, enuc=0.7)

    def overlap():
        if p["uhf"]:
            w.phiwb = op(d["phib"][mine].copy(), hs(d["xi"][mine], d["L"], 1j * np.sqrt(0.005)), p["order"])
        out["sd_ovlp"] = trial.calc_trial_walker_ovlp(w, t)

    def boson():
        out["e_boson"] = estimators.local_eng_boson(d["omega"], ns, gbos)

    def eboson():
        out["e_eb"] = estimators.local_eng_eboson(d["omega"], ns, d["geb"], [gfull, gfb], gbos)
    missing = []
    for f, ks in ((onebody, ["onebody"]), (full, ["gfull"]), (ortho, ["qr_log", "qr_proj"]), (single, ["sd_e1", "sd_e2"]), (overlap, ["sd_ovlp"]),
                  (boson, ["e_boson"]), (eboson, ["e_eb"])):
        try:
            f()
        except (AttributeError, ImportError) as e:
            if not not_there(e):
                raise
            missing += ks
    return missing


def run(plan):
    e = plan["execs"][0]
    size = e["size"]
    main, d = main_of(plan)
    bad = []
    from sim.world import Clock
    w = World(size, sched=e.get("sched"), faults=e.get("faults") or (), clocks=[Clock() for _ in range(size)], mpi=plan["mpi"])
    afq.CURRENT = w
    env.CLOCK = lambda: w.clocks[w.current or 0].read()
    try:
        w.run([main] * size)
    finally:
        env.CLOCK = None
    f = afq.failure(w)
    if any(rk.outcome[:2] == ("exc", "Unavailable") for rk in w.ranks):
        f = "the functions of the distributed energy evaluation are not available by these names; not decided"
    elif f:
        bad.append({"class": "no-completion", "text": f})
    else:
        ref = reference(plan, d)
        got = w.ranks[0].outcome[1]
        missing = sorted({k for rk in w.ranks for k in rk.outcome[1]["missing"]})
        for k, v in ref.items():
            if k in missing:
                continue
            if not C.close(v.reshape(-1), got[k], 1e-9):
                x, y = np.asarray(v).reshape(plan["nw"], -1), np.asarray(got[k]).reshape(plan["nw"], -1)
                who = [z for z in range(plan["nw"]) if not C.close(x[z], y[z], 1e-9)]
                bad.append({"class": "value", "text": f"{k} of walkers {who[:6]} of {plan['nw']} (pieces {plan['counts']}) differs from its definition"})
                break
        if w.leftovers():
            bad.append({"class": "leftover", "text": str(w.leftovers()[:2])})
    res = {"violations": bad, "nontrivial": bool(not f) and (size > 1 or plan["mpi"] == "none")}
    C.finish(res, [w])
    res["stats"] = {"walkers": plan["nw"], "empty_pieces": sum(c == 0 for c in plan["counts"]), "unavailable": bool(f) and not bad}
    res["key"] = C.h([plan["counts"], plan["nao"], plan["nchol"], plan["chunked"], plan["fast"], plan["uhf"], plan["complex"], plan["order"], w.summary()["interleaving"]])
    res["digest"] = C.h([bad, w.summary()["interleaving"], C.arr_digest(w.ranks[0].outcome[1]["exx"]) if not f else f])
    res["outcome"] = f if f and not bad else "every walker has its own energy" if not bad else bad[0]["text"]
    return res


def simplify(plan):
    for k, v in (("nmodes", 1), ("nph", 2), ("complex", False), ("chunked", False), ("fast", False), ("uhf", False), ("nchol", 1), ("order", 2), ("nao", 2), ("no", 1)):
        if plan[k] != v:
            q = copy.deepcopy(plan)
            q[k] = v
            yield q
    c = plan["counts"]
    for k in range(len(c)):
        if len(c) > 1:
            q = copy.deepcopy(plan)
            q["counts"] = c[:k] + c[k + 1:]
            q["nw"] = sum(q["counts"])
            q["execs"][0].update(size=len(c) - 1, faults=[], sched={})
            if q["nw"]:
                yield q
        if c[k] > 1:
            q = copy.deepcopy(plan)
            q["counts"][k] = 1
            q["nw"] = sum(q["counts"])
            yield q
