"""Process-wide seams: interpreter settings, code cache, clocks and OS entropy."""

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": os.environ.get("VERIF_HASHSEED", "0"),
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    # the numba kernels run as the Python code they are written in, prange included
    "NUMBA_DISABLE_JIT": "1",
    "MPLBACKEND": "Agg",
}


def reexec():
    """Restart the interpreter with the environment the simulation needs."""
    if all(os.environ.get(k) == v for k, v in ENV.items()):
        return
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)


_installed = False
CLOCK = None          # callable returning the simulated time, or None for the real clock
ENTROPY = None        # random.Random serving OS entropy, or None
HOST = None           # callable returning (process id, host name) of the simulated process, or None
_real = {}


def _wrap_clock(real):
    def f():
        return real() if CLOCK is None else CLOCK()
    return f


def _wrap_clock_ns(real):
    def f():
        return real() if CLOCK is None else int(CLOCK() * 1e9)
    return f


def install():
    """Patch clocks and entropy once; with CLOCK / ENTROPY unset they stay real."""
    global _installed
    if _installed:
        return
    _installed = True
    import time
    import types

    for n in ("time", "perf_counter", "process_time", "monotonic"):
        _real[n] = getattr(time, n)
        setattr(time, n, _wrap_clock(_real[n]))
    for n in ("time_ns", "perf_counter_ns", "process_time_ns", "monotonic_ns"):
        _real[n] = getattr(time, n)
        setattr(time, n, _wrap_clock_ns(_real[n]))
    real_sleep = time.sleep
    _real["sleep"] = real_sleep

    def sleep(s):
        if CLOCK is None:
            real_sleep(s)
    time.sleep = sleep

    import importlib.machinery as mach
    cache = {}
    orig = mach.SourceFileLoader.get_code

    def get_code(self, fullname):
        if self.path not in cache:
            cache[self.path] = orig(self, fullname)
        return cache[self.path]
    mach.SourceFileLoader.get_code = get_code

    import random
    import numpy.random.bit_generator as bg
    real_randbits = bg.randbits

    def randbits(k):
        return real_randbits(k) if ENTROPY is None else ENTROPY.getrandbits(k)
    bg.randbits = randbits
    real_urandom = os.urandom

    def urandom(n):
        return real_urandom(n) if ENTROPY is None else ENTROPY.getrandbits(8 * n).to_bytes(n, "little") if n else b""
    os.urandom = urandom
    random._urandom = urandom

    import platform
    import socket
    real_pid, real_uname = os.getpid, os.uname
    real_names = {m: getattr(m, n) for m, n in ((socket, "gethostname"), (platform, "node"))}
    _real["getpid"] = real_pid

    def getpid():
        # PySCF reads its memory use from /proc/<pid>
        if HOST is None or "/pyscf/" in sys._getframe(1).f_code.co_filename:
            return real_pid()
        return HOST()[0]
    os.getpid = getpid
    socket.gethostname = lambda: real_names[socket]() if HOST is None else HOST()[1]
    platform.node = lambda: real_names[platform]() if HOST is None else HOST()[1]

    def uname():
        u = real_uname()
        return u if HOST is None else os.uname_result((u[0], HOST()[1]) + tuple(u[2:]))
    os.uname = uname


SCRATCH = None


def scratch():
    """Directory below which every simulated disk of this check lives; removed when the check ends."""
    global SCRATCH
    if SCRATCH is None:
        import atexit
        import shutil
        import tempfile
        SCRATCH = tempfile.mkdtemp(prefix="verif-")
        # temporary files of the libraries (PySCF's checkpoints) go there as well: killed children leave them behind
        os.environ["TMPDIR"] = os.environ["PYSCF_TMPDIR"] = os.path.join(SCRATCH, "tmp")
        os.mkdir(os.environ["TMPDIR"])
        tempfile.tempdir = None
        me = os.getpid()
        atexit.register(lambda d=SCRATCH: shutil.rmtree(d, ignore_errors=True) if os.getpid() == me else None)
    return SCRATCH


class NumbaGate:
    """Stands in for a fresh import of numba, which takes too long to repeat in every simulated process.

    The module comes from the one real import; what the real import demands of the process is demanded again: numba
    registers the current `print` and refuses one that cannot be reached under its own name (typing.templates).
    """
    module = None

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name != "numba" or cls.module is None:
            return None
        import importlib.machinery as mach
        return mach.ModuleSpec("numba", cls)

    @classmethod
    def create_module(cls, spec):
        import builtins
        p = builtins.print
        if getattr(sys.modules[p.__module__], p.__name__) is not p:
            raise ValueError(f"{p!r} is not globally reachable as '{p.__module__}.{p.__name__}'")
        cls.keep = {k: getattr(cls.module, k, None) for k in ("__spec__", "__loader__")}
        return cls.module

    @classmethod
    def exec_module(cls, module):
        for k, v in cls.keep.items():
            setattr(module, k, v)


def preload():
    """Import everything that is shared by all simulated processes."""
    install()
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy, scipy, scipy.linalg, h5py  # noqa
    import pyscf  # noqa
    from pyscf import gto, scf, lo, ao2mo, fci, mcscf, lib, dft  # noqa
    import pyscf.lib.logger as plog
    import time
    # pyscf binds the clocks at import
    for n in dir(plog):
        if getattr(plog, n) in (_real["perf_counter"],):
            setattr(plog, n, time.perf_counter)
        elif getattr(plog, n) in (_real["process_time"],):
            setattr(plog, n, time.process_time)
    try:
        import numba
        NumbaGate.module = numba
        sys.meta_path.insert(0, NumbaGate)
    except Exception:
        pass


def openms_names():
    return [n for n in sys.modules if n == "openms" or n.startswith("openms.")]


def warm():
    """Fill the code cache: import the modules once, then forget them."""
    preload()
    import builtins
    keep = builtins.print
    had = sys.modules.get("mpi4py", "absent")
    sys.modules["mpi4py"] = None
    import openms.qmc.afqmc, openms.qmc.population_control, openms.mqed.qedhf  # noqa
    import openms.mqed.scqedhf, openms.mqed.vtqedhf, openms.lib.boson  # noqa
    builtins.print = keep
    if had == "absent":
        del sys.modules["mpi4py"]
    else:
        sys.modules["mpi4py"] = had
    saved = {n: sys.modules.pop(n) for n in openms_names()}
    return saved


class environ:
    """Environment variables for the duration of a block."""

    def __init__(self, **kv):
        self.kv = kv

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in self.kv}
        os.environ.update(self.kv)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
