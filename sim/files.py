"""Simulated processes on one scratch file system: every modification is a scheduling and fault point, process ids are chosen by the plan."""

import builtins
import errno
import os
import random
import shutil
import subprocess
import tempfile

from . import env
from .world import World, Clock, SimCrash

REAL = {n: getattr(os, n) for n in ("mkdir", "rename", "replace", "unlink", "remove", "rmdir", "getpid", "system", "truncate", "link", "symlink")}
REAL_RMTREE = shutil.rmtree
REAL_OPEN = builtins.open
ERR = {"disk_full": errno.ENOSPC, "no_permission": errno.EACCES, "io_error": errno.EIO}


class Machine:
    """Scratch directory tree; processes run in it under the plan's faults."""

    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="md-", dir=env.scratch()))
        self.world = None
        self.home = os.getcwd()
        self.fired = {}
        self.log = []
        self.pids = {}
        self.refused = []

    # -- one file operation of the running process ---------------------------
    def inside(self, p):
        p = os.path.realpath(os.path.join(os.getcwd(), os.fspath(p)))
        return p == self.dir or p.startswith(self.dir + os.sep)

    def point(self, what, *paths):
        """Returns the fault that hits this operation after it is done, or None."""
        w = self.world
        if w is None or w.current is None:
            return None
        for p in paths:
            if not self.inside(p):
                self.refused.append((what, str(p)))
                raise PermissionError(errno.EACCES, f"simulated machine: {what} outside the scratch directory", str(p))
        rk = w.me()
        rk.nops += 1
        self.log.append((rk.r, what))
        w.trace.append((rk.r, what))
        f = w.fault(rk.r, "file", rk.nops)
        if f is not None:
            if f["kind"] == "crash":
                raise SimCrash()
            if f["kind"] == "stall":
                rk.stalled = int(f.get("n", 10))
            elif f["kind"] == "other_device":
                if what == "rename":
                    raise OSError(errno.EXDEV, "Invalid cross-device link")
            elif f["kind"] in ERR:
                raise OSError(ERR[f["kind"]], os.strerror(ERR[f["kind"]]))
        w.switch(rk)
        return f

    def after(self, f):
        if f is not None and f["kind"] == "crash_after":
            raise SimCrash()

    def wrap(self, name, npaths):
        real = REAL[name]

        def inner(*a, **k):
            if "dir_fd" in k or "src_dir_fd" in k or not a:
                return real(*a, **k)
            f = self.point(name if name != "replace" else "rename", *a[:npaths])
            r = real(*a, **k)
            self.after(f)
            return r
        return inner

    def rmtree(self, path, ignore_errors=False, onerror=None, **k):
        if self.world is None or self.world.current is None:
            return REAL_RMTREE(path, ignore_errors=ignore_errors)
        if os.path.isdir(path) and not os.path.islink(path):
            for n in sorted(os.listdir(path)):
                self.rmtree(os.path.join(path, n), ignore_errors)
            os.rmdir(path)
        elif os.path.lexists(path):
            os.unlink(path)
        elif not ignore_errors:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))

    def open(self, file, mode="r", *a, **k):
        if self.world is None or self.world.current is None or isinstance(file, int) or not any(c in mode for c in "wax+"):
            return REAL_OPEN(file, mode, *a, **k)
        if str(file) == os.devnull:
            return REAL_OPEN(file, mode, *a, **k)
        f = self.point("open-" + mode, file)
        h = REAL_OPEN(file, mode, *a, **k)
        try:
            self.after(f)
        except SimCrash:
            h.close()
            raise
        if "b" in mode:
            return h
        return File(self, h)

    def __enter__(self):
        for n, k in (("mkdir", 1), ("rename", 2), ("replace", 2), ("unlink", 1), ("remove", 1), ("rmdir", 1), ("truncate", 1), ("link", 2), ("symlink", 2)):
            setattr(os, n, self.wrap(n, k))

        def refuse(*a, **k):
            self.refused.append(("system", repr(a)[:80]))
            raise PermissionError(errno.EACCES, "simulated machine: no other programs")
        os.system = refuse
        self.popen = subprocess.Popen
        subprocess.Popen = refuse
        os.getpid = lambda: self.pids.get(self.world.current, REAL["getpid"]()) if self.world is not None else REAL["getpid"]()
        shutil.rmtree = self.rmtree
        builtins.open = self.open
        return self

    def __exit__(self, *a):
        for n, f in REAL.items():
            setattr(os, n, f)
        subprocess.Popen = self.popen
        shutil.rmtree = REAL_RMTREE
        builtins.open = REAL_OPEN
        os.chdir(self.home)
        REAL_RMTREE(self.dir, ignore_errors=True)

    def run(self, mains, cwds, pids, faults=(), sched=None):
        """Run processes side by side; each starts in its own directory."""
        w = World(len(mains), sched=sched, faults=faults, clocks=[Clock() for _ in mains], mpi="none", independent=True)
        for rk, d in zip(w.ranks, cwds):
            rk.ctx.cwd = d
        w.host.cwd = self.dir
        self.world = w
        self.pids = dict(enumerate(pids))
        env.CLOCK = lambda: w.clocks[w.current or 0].read()
        env.ENTROPY = random.Random(5)
        os.chdir(self.dir)
        try:
            w.run(mains)
        finally:
            self.world = None
            env.CLOCK = env.ENTROPY = None
        for k, v in w.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        return w

    def tree(self):
        """relative path -> text of every file, None for directories."""
        out = {}
        for d, ds, fs in os.walk(self.dir, followlinks=True):
            rel = os.path.relpath(d, self.dir)
            out[rel] = None
            for f in fs:
                with REAL_OPEN(os.path.join(d, f)) as h:
                    out[os.path.join(rel, f) if rel != "." else f] = h.read()
        return out


class File:
    """Text file whose writes may stop half way."""

    def __init__(self, m, h):
        self._m, self._h = m, h

    def write(self, s):
        try:
            f = self._m.point("write")
        except OSError:
            self._h.write(s[: len(s) // 2])
            raise
        except SimCrash:
            self._h.write(s[: len(s) // 2])
            self._h.flush()
            raise
        n = self._h.write(s)
        self._h.flush()
        self._m.after(f)
        return n

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def __getattr__(self, n):
        return getattr(self._h, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._h.close()

    def __iter__(self):
        return iter(self._h)
