"""Calculations in one process do not influence each other and leave their inputs alone."""

import numpy as np

from sim import afq, scf
from . import common as C
from . import scf_common as S

ID = "C16"
RUNS = {"quick": 300, "thorough": 6000}
RULE = ("one run = a seeded history of 2-5 constructions and executions of AFQMC and cavity mean-field calculations in one process (some ended by an "
        "injected error), each compared with the same calculation alone in a fresh process, and the inputs compared with copies taken before; "
        "distinct = different history")
LEVEL = "exploration"
COMPONENTS = {"real": C.COMPONENTS_AFQMC["real"] + S.COMPONENTS["real"], "stub": C.COMPONENTS_AFQMC["stub"]}
ASSUMPTIONS = ["calculations use separate molecule objects unless the history says shared; a shared molecule is only read"]


def gen(rng, i, tier):
    jobs = []
    for _ in range(rng.randint(2, 3)):
        u = rng.random()
        if u < 0.08:
            jobs.append({"kind": "fci", "cfg": {"system": rng.choice(["h2", "heh", "h2b"]), "freq": rng.choice([0.3, 0.5]), "scale": rng.choice([0.5, 1.0, 2.0]),
                                                "nboson": rng.choice([2, 3, 4]), "guess": rng.random() < 0.4}})
        elif u < 0.65:
            c = C.gen_cfg(rng, 1, max_steps=4, kinds=("elec", "elec", "boson", "qed"))
            c["nwalkers"] = rng.randint(2, 12)
            if "dead" in c:
                c["dead"] = {"0": rng.randint(1, c["nwalkers"] - 1)}
            c["verbose"] = 0
            if rng.random() < 0.3:
                c["walker_options"] = {}
            jobs.append({"kind": "afqmc", "cfg": c})
        else:
            jobs.append({"kind": "scf", "cfg": scf.gen_cfg(rng, systems=["h2", "heh", "h2b", "hf"])})
    if rng.random() < 0.4:   # twice the same calculation, the second must not see the first
        jobs.append({"kind": jobs[0]["kind"], "cfg": dict(jobs[0]["cfg"])})
    if rng.random() < 0.5:   # same system, other number of walkers / other cavity
        j = {"kind": jobs[0]["kind"], "cfg": dict(jobs[0]["cfg"])}
        if j["kind"] == "afqmc":
            j["cfg"]["nwalkers"] = j["cfg"]["nwalkers"] + rng.randint(1, 4)
            j["cfg"]["seed"] = (j["cfg"]["seed"] + 1) % 2**32
        else:
            j["cfg"]["scale"] = 0.7
        jobs.append(j)
    if rng.random() < 0.5:   # the same molecule in another geometry
        j = rng.choice(jobs)
        if not j["cfg"]["system"].startswith("hub"):
            j = {"kind": j["kind"], "cfg": dict(j["cfg"])}
            j["cfg"]["system"] += rng.choice(["@0.93", "@1.08"])
            jobs.append(j)
    n = len(jobs)
    ops = [["make", k] for k in range(n)] + [["run", k] for k in range(n)]
    rng.shuffle(ops)
    for k in range(n):     # make before run
        a, b = ops.index(["make", k]), ops.index(["run", k])
        if a > b:
            ops[a], ops[b] = ops[b], ops[a]
    if rng.random() < 0.3:
        ops.insert(rng.randint(0, len(ops)), ["fail", rng.randrange(n)])
    for k in range(n):
        if jobs[k]["kind"] != "afqmc" and rng.random() < 0.4:
            ops.insert(rng.randint(ops.index(["run", k]) + 1, len(ops)), ["again", k])
    for _ in range(rng.randint(0, 2)):
        ops.insert(rng.randint(0, len(ops)), ["draw", rng.randrange(n)])
    return {"jobs": jobs, "ops": ops, "share": rng.random() < 0.4}


class Job:
    def __init__(self, spec, inputs):
        self.spec, self.obj, self.res = spec, None, None
        self.inputs = inputs

    def make(self):
        c = self.spec["cfg"]
        if self.spec["kind"] == "afqmc":
            self.obj = afq.make_afqmc(c, self.inputs)
        elif self.spec["kind"] == "fci":
            from openms.lib.boson import get_integrals4fci
            i = self.inputs
            i["ints"] = list(get_integrals4fci(i["mol"], i["freq"], i["mode"]))
            i["hbb"] = np.diag(i["freq"])
            i["states"] = np.array([c["nboson"]])
            na, nb = i["mol"].nelec
            i["kw"] = {}
            if c["guess"]:
                from openms.mqed import qedfci
                shape = qedfci.fboson_ci_shape(i["mol"].nao_nr(), (na, nb), 1, i["states"])
                v = np.random.RandomState(7).uniform(-0.1, 0.1, shape)
                v.flat[0] = 1.0
                i["guess"] = v
                i["kw"]["init_ci"] = v
        else:
            self.obj = scf.make(c, mol=self.inputs["mol"], mode=self.inputs["mode"], freq=self.inputs["freq"], own=self.inputs["own"])

    def run(self):
        if self.spec["kind"] == "fci":
            from openms.mqed import qedfci
            i = self.inputs
            enuc, _, h1, h2, heb, _ = i["ints"]
            e0, e, c = qedfci.kernel(h1, h2, h1.shape[-1], i["mol"].nelec, 1, i["states"], heb, i["hbb"], verbose=0, ecore=enuc, **i["kw"])
            self.obj = {"e0": complex(e0), "e": complex(e), "c": c}
            self.res = {"times": [], "energies": [complex(e)], "eshift": complex(e0), "nwalkers": 0, "final": {"c": np.array(c, copy=True)}}
        elif self.spec["kind"] == "afqmc":
            t, e = self.obj.kernel()
            self.res = {"times": [float(x) for x in t], "energies": [complex(x) for x in e], "eshift": complex(self.obj.eshift),
                        "nwalkers": int(self.obj.walkers.nwalkers), "final": afq.snapshot(self.obj.walkers)}
        else:
            self.obj.kernel()
            r = scf.result(self.obj)
            self.res = {"times": [], "energies": [r["e_tot"]], "eshift": 0j, "nwalkers": 0,
                        "final": {k: r[k] for k in ("mo_energy", "mo_occ", "dm")}}
        return self.res

    def live(self):
        """The result as the object holds it now."""
        if self.spec["kind"] == "fci":
            return {"final": {"c": np.array(self.obj["c"], copy=True)}, "e": self.obj["e"]}
        if self.spec["kind"] == "afqmc":
            return {"final": afq.snapshot(self.obj.walkers), "eshift": complex(self.obj.eshift), "nwalkers": int(self.obj.walkers.nwalkers)}
        r = scf.result(self.obj)
        return {"final": {k: r[k] for k in ("mo_energy", "mo_occ", "dm")}, "e": r["e_tot"]}


def inputs_for(spec, pool=None):
    c = spec["cfg"]
    key = (spec["kind"], c["system"])
    if pool is not None and key in pool:
        mol, mf = pool[key]
    elif spec["kind"] == "afqmc":
        mol, mf = afq.fresh_system(c["system"], "rhf")
    else:
        mol, mf = scf.molecule(c["system"]), None
    if pool is not None:
        pool[key] = (mol, mf)
    if spec["kind"] == "afqmc":
        return afq.make_inputs(c, mol, mf)
    n = c.get("nmodes", 1)
    if spec["kind"] == "fci":
        return {"mol": mol, "mode": scf.MODES[:1] * c["scale"], "freq": np.array([c["freq"]])}
    return {"mol": mol, "mf": mf, "mode": (scf.MODES[:n] * c.get("scale", 1.0)).copy(), "freq": (scf.FREQS[:n] * c.get("freq", 0.5) / 0.5).copy(),
            "own": scf.arrays(c)}


def frozen(inp):
    """Values of the inputs that the caller owns."""
    out = {}
    for k in ("mode", "freq", "gmat", "h1e", "chol"):
        if k in inp:
            out[k] = np.array(inp[k], copy=True)
    for k in ("po", "wo"):
        if k in inp:
            out[k] = repr(sorted(inp[k].items(), key=str))
    for k, v in (inp.get("own") or {}).items():
        out["option " + k] = v.copy()
    m = inp.get("bare", inp["mol"])
    if m is not inp["mol"]:   # a photon object around the molecule
        for k, v in vars(inp["mol"]).items():
            if isinstance(v, np.ndarray):
                out["photon." + k] = v.copy()
    out["geometry"] = np.array(m.atom_coords())
    out["env"] = np.array(m._env)
    out["bas"] = np.array(m._bas)
    out["nelec"] = tuple(m.nelec)
    out["basis"] = repr(m.basis)
    out["spin"] = (m.spin, m.charge, m.nao_nr())
    if "ints" in inp:
        for k, x in enumerate(inp["ints"] + [inp["hbb"], inp["states"]] + ([inp["guess"]] if "guess" in inp else [])):
            out[f"integrals {k}"] = np.array(x, copy=True)
    if inp.get("trial") is not None:
        out["trial"] = np.array(inp["trial"].psi)
    if inp.get("mf") is not None:
        f = inp["mf"]
        out.update(mf_c=np.array(f.mo_coeff), mf_e=np.array(f.mo_energy), mf_o=np.array(f.mo_occ), mf_t=float(f.e_tot))
    return out


def diff(a, b):
    for k in a:
        if k not in b:
            continue
        if isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape or not np.array_equal(a[k], b[k]):
                return k
        elif a[k] != b[k]:
            return k
    return None


def alone(spec):
    def fn(rk):
        j = Job(spec, inputs_for(spec))
        j.make()
        return j.run()
    return scf.process(fn)


def run(plan):
    bad, worlds = [], []
    for s in plan["jobs"]:
        if s["kind"] == "afqmc":
            afq.base_system(s["cfg"]["system"], "rhf")
    refs = []
    for s in plan["jobs"]:
        w = alone(s)
        worlds.append(w)
        o = S.outcome(w)
        if o[0] != "ok":
            bad.append({"class": "no-completion", "text": f"{s}: alone: {o}"})
        refs.append(o[1] if o[0] == "ok" else None)

    def history(rk):
        pool = {} if plan.get("share") else None
        jobs = [Job(s, inputs_for(s, pool)) for s in plan["jobs"]]
        found = []
        before = {}
        outs = {}
        for op, k in plan["ops"]:
            if op == "make":
                before[k] = frozen(jobs[k].inputs)
                jobs[k].make()
                if plan["jobs"][k]["kind"] == "fci":   # the integrals are inputs of the solver
                    b = frozen(jobs[k].inputs)
                    before[k].update({q: b[q] for q in b if q.startswith("integrals")})
            elif op == "run":
                jobs[k].run()
                outs[k] = jobs[k].live()
            elif op == "again":   # solving once more changes nothing
                e = complex(jobs[k].res["energies"][0])
                first = jobs[k].res
                jobs[k].run()
                d = abs(complex(jobs[k].res["energies"][0]) - e)
                if not d <= (scf.tol(plan["jobs"][k]["cfg"]) if plan["jobs"][k]["kind"] == "scf" else 1e-8):
                    return {"bad": ("again", f"calculation {k} solved again gives {jobs[k].res['energies'][0]} instead of {e}"), "found": found}
                jobs[k].res = first
                outs[k] = jobs[k].live()
            elif op == "draw":   # the user's own random numbers
                np.random.random(k + 1)
            elif op == "fail":
                # a calculation that ends with an error half way
                s = plan["jobs"][k]
                j = Job(s, inputs_for(s))
                j.make()
                try:
                    if s["kind"] == "afqmc":
                        n = [0]

                        def boom(*a, **kw):
                            raise RuntimeError("injected")
                        j.obj.property_stack = boom
                        j.run()
                    elif s["kind"] == "fci":
                        j.inputs["states"] = np.array([0])
                        j.inputs["ints"][2] = None
                        j.run()
                    else:
                        def stop(envs):
                            raise RuntimeError("injected")
                        j.obj.callback = stop
                        j.run()
                except (RuntimeError, AttributeError):
                    found.append(("failed", k))
            for q in before:
                d = diff(before[q], frozen(jobs[q].inputs))
                if d:
                    return {"bad": ("input", f"after {op} of calculation {k} the input '{d}' of calculation {q} has changed"), "found": found}
            for q in outs:
                now = jobs[q].live()
                for f in outs[q]["final"]:
                    if not np.array_equal(outs[q]["final"][f], now["final"][f], equal_nan=True):
                        return {"bad": ("result", f"after {op} of calculation {k} the finished result '{f}' of calculation {q} has changed"), "found": found}
        return {"bad": None, "found": found, "res": [j.res for j in jobs]}

    found = []
    if not bad:
        w = scf.process(history)
        worlds.append(w)
        o = S.outcome(w)
        if o[0] != "ok":
            bad.append({"class": "history-fails", "text": f"history {plan['ops']} fails: {o}"})
        else:
            found = o[1]["found"]
            if o[1]["bad"]:
                bad.append({"class": o[1]["bad"][0], "text": o[1]["bad"][1] + f" (history {plan['ops']})"})
            else:
                for k, (a, b) in enumerate(zip(refs, o[1]["res"])):
                    if b is None:
                        continue
                    d = C.same_bits(a, b)
                    if d:
                        bad.append({"class": "influence", "text": f"calculation {k} ({plan['jobs'][k]['kind']}) in history {plan['ops']} differs from the same calculation alone: {d}"})
                        break
    res = {"violations": bad, "nontrivial": True}
    C.finish(res, worlds, devs=False)
    if found:
        res["fired"]["error_in_earlier_calculation"] = len(found)
    res["key"] = C.h([plan["jobs"], plan["ops"], plan.get("share")])
    res["stats"] = {"calculations": len(plan["jobs"])}
    res["digest"] = C.h([[C.result_digest(r) for r in refs], bad])
    res["outcome"] = "independent" if not bad else bad[0]["text"]
    return res


def simplify(plan):
    import copy
    if len(plan["jobs"]) > 1:
        for k in range(len(plan["jobs"])):
            q = copy.deepcopy(plan)
            q["ops"] = [o for o in q["ops"] if o[1] != k]
            if q["ops"]:
                yield q
    for n in range(len(plan["ops"])):
        op, k = plan["ops"][n]
        if op in ("fail", "again", "draw") or (op == "run" and ["again", k] not in plan["ops"]):
            q = copy.deepcopy(plan)
            del q["ops"][n]
            yield q
    if plan.get("share"):
        q = copy.deepcopy(plan)
        q["share"] = False
        yield q
