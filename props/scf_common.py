COMPONENTS = {
    "real": ["openms.mqed (QED-HF, SC-QED-HF, VT-QED-HF kernels)", "openms.lib.boson", "pyscf integrals, DIIS and checkpoint format", "h5py/HDF5"],
    "stub": ["wall clock and CPU clock", "memory probe", "durability of the checkpoint file (what a crash leaves is decided by the simulator)",
             "numba compiled code (the kernels run as Python)"],
}


def outcome(w):
    return w.ranks[0].outcome


def fail(w):
    o = outcome(w)
    return None if o[0] == "ok" else str(o)
