"""Integral files: a complete file is read exactly; one whose writing or reading was interrupted is never taken for a Hamiltonian."""

import copy
import os
import tempfile

import numpy as np

from sim import env, scf
from . import common as C
from . import scf_common as S

ID = "C18"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("one run = one seeded Hamiltonian (2-12 orbitals, sparse and tiny integrals, three storage symmetries) written by PySCF to a scratch disk that keeps all of it, "
        "a torn prefix, a prefix followed by zeros, or loses a block in the middle, or that fails while it is read; then read by OpenMS; "
        "distinct = different (Hamiltonian, damage)")
LEVEL = "exploration"
COMPONENTS = {"real": ["openms.qmc.tools integral file reader", "pyscf.tools.fcidump writer", "kernel file system in a scratch directory"],
              "stub": ["what survives of the file after a crash", "failing reads"]}
ASSUMPTIONS = ["a lost block replaces bytes by zero bytes, as file systems do after a crash; lines that vanish without trace from the middle are not considered"]


def gen(rng, i, tier):
    kind = rng.choice(["none", "none", "torn", "torn", "torn_tail", "torn_line", "zero_tail", "zero_block", "read_error"])
    big = rng.random() < 0.06   # two-digit orbital numbers
    return {"n": rng.randint(10, 12) if big else rng.randint(2, 6), "sym": rng.choice([4, 8] if big else [1, 4, 8]), "seed": rng.getrandbits(31), "fmt": rng.choice(["% .16g", "%20.14E"]), "sparse": rng.choice([0.0, 0.5, 0.9]),
            "nuc": rng.choice(["real", "zero", "negative"]), "fault": kind, "frac": rng.random() * rng.choice([0.02, 1.0, 1.0, 1.0]), "width": rng.randint(1, 600), "tiny": rng.random() < 0.3}


def build(p):
    from pyscf import ao2mo
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    h = rs.standard_normal((n, n))
    h = h + h.T
    npair = n * (n + 1) // 2
    v = rs.standard_normal((npair, npair))
    v = v + v.T
    m = rs.random_sample(v.shape) < p["sparse"]
    v[m | m.T] = 0.0
    if p["tiny"]:
        v *= 1e-6
    eri = ao2mo.restore(1, ao2mo.restore(4, v, n), n)
    return h, eri, {"real": 1.2345678901234567, "zero": 0.0, "negative": -87.5}[p["nuc"]]


def run(plan):
    from pyscf import ao2mo
    from pyscf.tools import fcidump
    h, eri, nuc = build(plan)
    n = plan["n"]
    bad = []
    d = tempfile.mkdtemp(prefix="fci-", dir=env.scratch())
    path = os.path.join(d, "FCIDUMP")
    fcidump.from_integrals(path, h, ao2mo.restore(plan["sym"], eri, n), n, n, nuc, float_format=plan["fmt"])
    full = open(path, "rb").read()
    f = plan["fault"]
    kept = full
    start = full.index(b"&END")
    if f == "torn":
        kept = full[: int(plan["frac"] * len(full))]
    elif f == "torn_tail":
        kept = full[: len(full) - 1 - int(plan["frac"] * 60)]
    elif f == "torn_line":
        lines = full.splitlines(keepends=True)
        kept = b"".join(lines[: 4 + int(plan["frac"] * (len(lines) - 4))])
    elif f == "zero_tail":
        k = int(plan["frac"] * (len(full) - 2))
        kept = full[:k] + b"\0" * (len(full) - k)
    elif f == "zero_block":
        k = start + 4 + int(plan["frac"] * (len(full) - start - 5))
        kept = full[:k] + b"\0" * min(plan["width"], len(full) - k) + full[k + plan["width"]:]
    with open(path, "wb") as fo:
        fo.write(kept)
    intact = kept.rstrip() == full.rstrip() and f != "read_error"

    def job(rk):
        from openms.qmc import tools
        import builtins
        if f == "read_error":
            real = builtins.open

            class Bad:
                def __init__(self, *a, **k):
                    self.h = real(*a, **k)
                    self.n = 0

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    self.h.close()

                def __getattr__(self, k):
                    return getattr(self.h, k)

                def fail(self):
                    raise OSError(5, "Input/output error")

                def read(self, *a):
                    self.fail()

                def readlines(self, *a):
                    self.fail()

                def readline(self, *a):
                    self.n += 1
                    if self.n > 1 + plan["frac"] * 20:
                        self.fail()
                    return self.h.readline()

                def __iter__(self):
                    return self

                def __next__(self):
                    ln = self.readline()
                    if not ln:
                        self.fail()
                    return ln
            builtins.open = Bad
            try:
                return tools.read_fcidump(path, n)
            finally:
                builtins.open = real
        return tools.read_fcidump(path, n)
    w = scf.process(job)
    o = S.outcome(w)
    tol = 1e-12 if "16" in plan["fmt"] else 1e-11
    if o[0] == "ok":
        hh, ee, nn = o[1]
        right = (np.shape(hh) == h.shape and np.shape(ee) == eri.shape and np.allclose(hh, h, atol=tol, rtol=1e-12) and np.allclose(ee, eri, atol=1e-15 + tol, rtol=1e-12)
                 and abs(nn - nuc) < 1e-10)
        if not right:
            where = [k for k, a, b in (("one-electron integrals", hh, h), ("two-electron integrals", ee, eri), ("constant energy", nn, nuc)) if not np.allclose(a, b, atol=1e-11)]
            bad.append({"class": "silent-loss" if not intact else "wrong-integrals",
                        "text": f"{'file damaged by ' + f if not intact else 'complete file'}: read without an error, wrong {where} ({n} orbitals, {len(kept)} of {len(full)} bytes kept)"})
    elif intact:
        bad.append({"class": "rejected", "text": f"a complete file is not read: {o[:3]}"})
    elif o[0] != "exc":
        bad.append({"class": "no-error", "text": str(o)})
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    res = {"violations": bad, "nontrivial": True}
    C.finish(res, [w], devs=False)
    if f != "none":
        res["fired"][f] = 1
    res["stats"] = {"read": int(o[0] == "ok"), "refused": int(o[0] != "ok")}
    res["key"] = C.h(plan)
    res["digest"] = C.h([str(o[:2])[:60] if o[0] != "ok" else "ok", bad])
    res["outcome"] = ("read exactly" if o[0] == "ok" else f"refused: {o[1]}") if not bad else bad[0]["text"]
    return res


def simplify(plan):
    for k, v in (("n", 2), ("sym", 4), ("sparse", 0.0), ("tiny", False), ("fmt", "% .16g"), ("nuc", "real")):
        if plan[k] != v:
            q = copy.deepcopy(plan)
            q[k] = v
            yield q
