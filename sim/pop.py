"""Population control driven directly: walkers with chosen weights, many control steps, chosen draws."""

import random

import numpy as np

from . import afq

EDGE = [0.0, 1.0 - 2.0 ** -53, 2.0 ** -53, 0.5, 1.0 - 2.0 ** -30, 1e-12]


class Draws:
    """Legal uniform draws in [0, 1) chosen by the simulator; installed over numpy's and random's global generators."""

    NAMES = ("random", "rand", "random_sample", "ranf", "sample", "uniform")

    def __init__(self, spec, world_of):
        self.p = spec.get("p", 0.5)
        self.seed = spec.get("seed", 0)
        self.rngs = {}
        self.world_of = world_of
        self.n = 0
        self.saved = {}

    def rng(self):
        w = self.world_of()
        r = w.current if w is not None else 0
        if r not in self.rngs:
            self.rngs[r] = random.Random(f"{self.seed}/{r}")
        return self.rngs[r]

    def one(self):
        g = self.rng()
        self.n += 1
        return g.choice(EDGE) if g.random() < self.p else g.random()

    def arr(self, size):
        if size is None or size == ():
            return self.one()
        n = int(np.prod(size))
        return np.array([self.one() for _ in range(n)]).reshape(size)

    def __enter__(self):
        npr = np.random
        for n in self.NAMES:
            if hasattr(npr, n):
                self.saved[n] = getattr(npr, n)
        for n in ("random", "random_sample", "ranf", "sample"):
            if n in self.saved:
                setattr(npr, n, lambda size=None: self.arr(size))
        npr.rand = lambda *s: self.arr(s)
        npr.uniform = lambda low=0.0, high=1.0, size=None: low + (np.asarray(high) - low) * self.arr(size) \
            if size is not None else low + (high - low) * self.one()
        self.saved_py = random.random
        random.random = self.one
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)
        random.random = self.saved_py


class Script(Draws):
    """Every uniform draw of a call given in advance: draw k is u[k]; further ones come from a seeded stream."""

    def __init__(self, seed):
        super().__init__({"p": 0.0, "seed": seed}, lambda: None)
        self.u = []
        self.extra = random.Random(f"extra/{seed}")

    def start(self, u):
        self.u, self.k = list(u), 0

    def one(self):
        v = self.u[self.k] if self.k < len(self.u) else self.extra.random()
        self.k += 1
        return v


def pattern(name, n, rng):
    """Non-negative weights with a positive sum."""
    if name == "equal":
        return np.ones(n)
    if name == "near":
        return 1.0 + 0.05 * rng.standard_normal(n).clip(-5, 5)
    if name == "lognormal":
        return np.exp(1.2 * rng.standard_normal(n))
    if name == "spike":
        w = 0.01 * rng.random_sample(n) + 1e-6
        w[rng.randint(n)] = 3.0 * n
        return w
    if name == "zeros":
        w = rng.random_sample(n) + 0.1
        w[rng.random_sample(n) < 0.5] = 0.0
        w[rng.randint(n)] = 1.0
        return w
    if name == "tiny":
        return 1e-8 * (rng.random_sample(n) + 0.01)
    if name == "wide":
        return 10.0 ** rng.uniform(-12, 1, n)
    if name == "thirds":
        return rng.choice([1.0 / 3, 2.0 / 3, 1.0, 4.0 / 3], n)
    raise ValueError(name)


PATTERNS = ["equal", "near", "lognormal", "spike", "zeros", "tiny", "wide", "thirds"]


def gen_history(rng, n, methods, size=1):
    out = []
    step = 0
    for _ in range(n):
        step += rng.randint(1, 3)
        out.append({"w": rng.choice(PATTERNS), "mul": rng.random() < 0.5, "step": step if rng.random() < 0.95 else 0,
                    "freq": rng.choice([1, 1, 1, 2, 3]), "method": rng.choice(methods)})
        if size > 1 and rng.random() < 0.12:   # ranks on which every walker is dead
            live = rng.randrange(size)
            out[-1]["dead"] = [r for r in range(size) if r != live and rng.random() < 0.6]
    return out


def fill(walkers, rng):
    """Give every walker its own values of everything a walker carries."""
    n = walkers.nwalkers

    def c(shape):
        return rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    for f in ("phiwa", "phiwb", "boson_phiw"):
        v = getattr(walkers, f, None)
        if v is not None:
            setattr(walkers, f, c(v.shape))
    walkers.ovlp = c(n)
    walkers.eloc = c(n)
    walkers.ehybrid = c(n)
    walkers.detR = c(n)
    walkers.log_detR = c(n)


def main(cfg, hist, seed, draws_cm=None):
    def fn(rk):
        mc = afq.make_afqmc(cfg)
        w = mc.walkers
        rng = np.random.RandomState((seed * 1009 + rk.r * 31 + 7) % (2 ** 31))
        fill(w, rng)
        log = []
        for op in hist:
            pat = pattern(op["w"], w.nwalkers, rng)
            w.weights = w.weights * pat if op["mul"] else pat
            if not np.sum(np.abs(w.weights)) > 1e-10 * w.nwalkers:
                w.weights = pat
            dead = op.get("dead") or []
            if rk.r in dead and any(r not in dead for r in range(mc._mpi.size)):
                w.weights = 0.0 * w.weights
            pre = afq.snapshot(w)
            w.weight_control(op["step"], freq=op["freq"], method=op["method"])
            log.append({"op": op, "pre": pre, "post": afq.snapshot(w), "n": w.nwalkers})
        rk.notes = log
        return {"times": [], "energies": [], "eshift": 0j, "nwalkers": int(w.nwalkers), "final": afq.snapshot(w)}
    return fn


def observe(rk, mc):
    """Record every weight control of a running job."""
    w = mc.walkers
    box = {}

    def before(a, k):
        box["pre"] = afq.snapshot(w)

    def after(a, k, out):
        a = list(a)
        step = k.get("step", a[0] if a else None)
        freq = k.get("freq", a[1] if len(a) > 1 else 5)
        method = k.get("method", a[2] if len(a) > 2 else "reconfiguration")
        rk.notes.append({"op": {"step": int(step), "freq": int(freq), "method": method},
                         "pre": box["pre"], "post": afq.snapshot(w), "n": w.nwalkers})
    afq.wrap(w, "weight_control", before, after)
