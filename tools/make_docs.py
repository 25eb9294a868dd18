#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QMC = "openms/qmc/"
TESTS_SERIAL = "The tests run one process on one machine with a few fixed inputs; none runs the code on more than one MPI rank."


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": None}}


PROPS = [
 P("C01", "Every schedule of a parallel AFQMC run completes with the same result",
   "A parallel AFQMC run completes on every rank whatever the relative speed of the ranks and whatever buffering the MPI library does: no deadlock, no collective on which ranks disagree, no message left unreceived. "
   "For a fixed number of ranks and a fixed seed the walkers, energies and times every rank ends with are the same for every schedule.",
   ["schedules", "configurations"], "all interleavings of 2-8 ranks, stalls of any rank at any communication, eager or synchronous completion of collectives and sends; all kinds of walkers, frequencies and control methods",
   TESTS_SERIAL, [QMC + "qmc.py", QMC + "generic_walkers.py", QMC + "propagators.py", "openms/__mpi__.py"],
   [("collectives are called by all ranks in the same order", QMC + "qmc.py kernel, property_stack, generic_walkers.py weight_control, propagators.py local_energy")],
   [("walkers", "the rank's share of the walkers", QMC + "generic_walkers.py")], ["return value of kernel()", "walkers of every rank", "pending communication at the end"]),
 P("C02", "Reported energies are weight averages over all walkers of all ranks",
   "Every measurement of an AFQMC run is, on every rank, the same number: the weight average of the local energies of all walkers of all ranks at that step, and the energy components are the corresponding sums over all walkers. "
   "The energy shift used to control the weights is the weight average of the walkers' energies over the preceding measurement window and over all ranks, identical on all ranks; the requested number of walkers exists and the number and times of the measurements are those requested.",
   ["schedules", "configurations", "inputs"], "1-8 ranks, any split of the walkers, any order in which a reduction adds, electronic and electron-boson walkers, restricted and unrestricted",
   TESTS_SERIAL + " With one rank a missing or doubled reduction is invisible.", [QMC + "qmc.py", QMC + "propagators.py", QMC + "estimators.py", QMC + "generic_walkers.py"],
   [("reductions over ranks", QMC + "propagators.py local_energy, qmc.py property_stack, generic_walkers.py global_sum"), ("division of the walkers over ranks", QMC + "generic_walkers.py __init__")],
   [("eshift", "energy shift of the next window", QMC + "qmc.py")], ["energies and times returned by kernel()", "energy shift"]),
 P("C03", "With shared noise the result does not depend on the number of ranks",
   "When all ranks are given the same auxiliary-field noise (the MPI debugging mode of the propagator) and walkers are not resampled, a run gives the same energies, the same energy shift and the same walkers, in the same global order, for every number of ranks.",
   ["configurations", "schedules"], "rank counts 1-8, even and uneven splits, all kinds of walkers, all schedules and reduction orders",
   TESTS_SERIAL, [QMC + "propagators.py", QMC + "qmc.py", QMC + "generic_walkers.py", QMC + "estimators.py"],
   [("noise drawn for all walkers and scattered", QMC + "propagators.py propagate_walkers_twobody"), ("averages over ranks inside the propagation", QMC + "propagators.py propagate_decoupled_bilinear")],
   [], ["energies, energy shift and walkers of all ranks"]),
 P("C04", "The seed alone determines a stochastic run, and ranks draw different numbers",
   "Two AFQMC runs with the same seed and configuration give bitwise the same results, independent of clocks, host names and process ids, operating-system entropy, hash randomisation, the state of the global random generators before the run and earlier work in the process. "
   "Another seed gives another run, and no two ranks of a run propagate with the same noise; the seed of the molecular-dynamics module determines its random numbers in the same way.",
   ["histories", "configurations", "schedules"], "all seeds, rank counts 1-8, histories of the process before the run, clocks, hosts, process ids, hash seeds and entropy",
   "The tests fix one seed on one rank in a fresh process; identical noise on two ranks or a dependence on process history cannot show there.",
   [QMC + "qmc.py", QMC + "propagators.py", QMC + "population_control.py", "openms/qmd/__init__.py", "openms/qmd/bomd.py"],
   [("seeding of the rank's stream", QMC + "qmc.py kernel"), ("seed of the dynamics module", "openms/qmd/__init__.py set_seed")],
   [("global numpy generator", "the noise of the rank", "numpy.random")], ["results of repeated runs", "noise of every rank"]),
 P("C05", "Population control keeps whole walkers and their number",
   "After a population-control step every walker is a complete copy of one walker of before: orbitals of both spins, boson amplitudes, overlap, orthogonalisation factors and energies belong together, and the number of walkers of every rank is unchanged. "
   "Walkers are only resampled at the requested steps, weights stay finite and non-negative, and a walker of zero weight does not take over weight. This holds for every selectable control method.",
   ["histories", "inputs", "schedules"], "all sequences of control steps, all non-negative weights with a positive sum over all ranks, all random draws in [0,1), rank counts 1-8",
   "No test resamples walkers; a mixed-up walker changes results only statistically.", [QMC + "population_control.py", QMC + "generic_walkers.py"],
   [("packing and unpacking of walkers", QMC + "generic_walkers.py _pack_walkers, _unpack_walkers"), ("selection of copies", QMC + "population_control.py")],
   [("walker", "row i of orbitals, boson amplitudes, overlaps, factors and energies", QMC + "generic_walkers.py")], ["walkers before and after weight control"]),
 P("C06", "Weight control conserves weight: one common rescaling over all ranks",
   "Weight control multiplies all weights of all ranks by one common factor such that they add up to the total number of walkers, after cutting single weights at a tenth of the previous total weight; between control steps nothing but this cut changes a weight. "
   "Resampling moves weight between the walkers of a rank but changes the total of no rank.",
   ["histories", "inputs", "schedules"], "all sequences of weight controls, all non-negative weights, all frequencies, rank counts 1-8",
   TESTS_SERIAL + " A factor that differs between ranks or a lost share of weight biases energies slightly.", [QMC + "generic_walkers.py", QMC + "population_control.py", QMC + "qmc.py"],
   [("total weight over ranks", QMC + "generic_walkers.py weight_control, global_sum")], [("weights", "weight of every walker", QMC + "generic_walkers.py"), ("total_weight", "total of the last control", QMC + "generic_walkers.py")],
   ["weights of all ranks before and after weight control"]),
 P("C07", "Population control is unbiased",
   "Every selectable resampling method is unbiased: averaged over the random draws, the weight carried by the copies of a walker is the weight the walker had, on every rank. "
   "The comb and reconfiguration methods moreover make, in every single draw, either the floor or the ceiling of the expected number of copies of each walker.",
   ["inputs", "histories"], "all weight patterns, walker numbers and methods, over the distribution of the random draws",
   "No test resamples walkers, and a bias shows only over many draws.", [QMC + "population_control.py", QMC + "generic_walkers.py"],
   [("comb", QMC + "population_control.py comb_resampling, stochastic_reconfiguration"), ("pair branching", QMC + "population_control.py branching_dp0")], [], ["walkers and weights after resampling from the same state under many draws"]),
 P("C08", "Splitting walkers over processes changes no walker's energy",
   "Distributing noise over processes, propagating, evaluating overlaps, Green's functions, one-body, Coulomb, exchange and boson energies of each piece locally and gathering the pieces gives every walker exactly its own value, equal to the definition evaluated for the whole batch at once. "
   "This holds for every division of the walkers including uneven and empty pieces, for the chunked exchange evaluation and for the serial communicator.",
   ["configurations", "schedules", "inputs"], "1-6 processes, all partitions of up to 14 walkers, all schedules, restricted and unrestricted, compiled-kernel and plain versions",
   TESTS_SERIAL + " An offset error appears only for uneven pieces.", [QMC + "estimators.py", QMC + "propagators.py", QMC + "trial.py", "openms/__mpi__.py"],
   [("ring of pieces", QMC + "estimators.py exx_rltensor_Ghalf_chunked"), ("scatter and gather with counts and displacements", "openms/__mpi__.py")], [], ["gathered per-walker values on rank 0"]),
 P("C09", "Only rank 0 reports, one correct line per measurement",
   "Standard output of a parallel run shows each measurement once, from rank 0 only, with the step, energies, norm and energy components that were measured, and only at info verbosity or above. "
   "A log message appears exactly when the verbosity of its object reaches the level of the message, and errors always reach standard error.",
   ["schedules", "configurations", "histories"], "rank counts 1-8, all schedules and clocks, all verbosities, all sequences of log calls",
   "No test reads the output, and none has a second rank that could print.", ["openms/__mpi__.py", "openms/lib/logger.py", QMC + "qmc.py"],
   [("printing silenced on other ranks", "openms/__mpi__.py configure_print_for_mpi"), ("levels", "openms/lib/logger.py")], [], ["standard output and error of every rank"]),
 P("C10", "A fault never becomes a wrong answer",
   "When a communication call fails, a rank dies, output cannot be written or memory cannot be allocated during an AFQMC run, the run either ends with an error on the rank concerned or returns the result of the undisturbed run; it never returns other energies. "
   "The remaining ranks never report a different result as if nothing had happened.",
   ["fault_sequences", "crash_points", "schedules"], "failure before or after any communication call, crash of any rank at any communication or write, failed allocations and full output device at any point",
   "The tests inject no fault.", [QMC + "qmc.py", QMC + "generic_walkers.py", QMC + "propagators.py", "openms/__mpi__.py", "openms/lib/logger.py"],
   [("errors propagate, nothing is swallowed", QMC + "qmc.py kernel, openms/__mpi__.py load_mpi")], [], ["outcome and results of every rank"]),
 P("C11", "Running without MPI equals running on one rank",
   "Without mpi4py an AFQMC run gives bit for bit the results and the output of the same run on an MPI communicator of one rank. "
   "Every operation of the serial stand-in for the communicator used by the library has the effect a one-rank communicator would have: it delivers the data, leaves send buffers unchanged and returns what MPI returns.",
   ["configurations", "histories", "inputs"], "all configurations; all sequences of communicator operations in the forms the library uses",
   "The tests run only the serial stand-in and never compare it with MPI.", ["openms/__mpi__.py", QMC + "qmc.py"],
   [("serial communicator", "openms/__mpi__.py FakeComm"), ("fallback when mpi4py is missing", "openms/__mpi__.py load_mpi")], [], ["results and output of both runs", "results of communicator calls"]),
 P("C12", "Threads of the compiled kernels never change a result",
   "The parallel loops of the compiled AFQMC kernels give the same results for every number of threads and every interleaving of the threads, up to the rounding of sums. "
   "Without the kernel compiler the library gives the same results as with it.",
   ["schedules", "configurations", "inputs"], "2-9 threads preempted between statements and inside in-place updates of shared data; all configurations and kernels",
   "Tests see whatever interleaving the machine happens to produce; a race needs a particular one.", [QMC + "propagators.py", QMC + "trial.py", QMC + "estimators.py"],
   [("iterations write only their own slice", "prange loops of " + QMC + "propagators.py, trial.py, estimators.py")], [], ["energies and walkers", "return values of the kernels"]),
 P("C13", "Results never depend on the clock",
   "Clocks that are skewed between ranks, stand still, run backwards or jump change nothing but reported timings: AFQMC runs and cavity mean-field calculations give bitwise the same results, number of iterations and measurement lines.",
   ["schedules", "fault_sequences"], "all clock readings at all points of a run, per rank",
   "Tests run with one well-behaved clock.", [QMC + "qmc.py", "openms/mqed/qedhf.py", "openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py", "openms/lib/logger.py", "openms/lib/misc.py"],
   [("timings are only printed", QMC + "qmc.py kernel, openms/mqed/scqedhf.py kernel")], [], ["results and measurement lines"]),
 P("C14", "Mean-field checkpoints survive crashes and restart to the same energy",
   "When a cavity mean-field calculation with a checkpoint file is interrupted, the checkpoint holds one iteration: energy, orbitals, orbital energies and occupations that belong together, of the last completed iteration if the interruption fell between iterations. "
   "Restarting from it converges to the energy of the uninterrupted calculation, and after normal completion it holds exactly the returned solution; a failing disk never changes the returned energy.",
   ["crash_points", "fault_sequences", "histories"], "crash or full disk at every modification of the checkpoint and after every iteration, with flushed, operating-system-held or torn contents; all mean-field methods",
   "The tests never interrupt a calculation and never read a checkpoint.", ["openms/mqed/qedhf.py", "openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py"],
   [("checkpoint every cycle after the energy of the cycle is known", "openms/mqed/qedhf.py kernel, openms/mqed/scqedhf.py kernel")], [("chkfile", "scf group with e_tot, mo_energy, mo_occ, mo_coeff", "HDF5 file")], ["contents of the checkpoint", "energy after restart"]),
 P("C15", "Mean-field energies do not depend on available memory",
   "A cavity mean-field calculation that converges with ample memory converges to the same energy and density when the machine reports too little memory for the in-core integrals, at all or only some of the times it is asked.",
   ["fault_sequences", "configurations"], "every pattern of memory readings over the iterations; all mean-field methods, incremental and full Fock builds",
   "The tests run with ample memory, so the integral-direct path never executes.", ["openms/mqed/qedhf.py", "openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py"],
   [("direct and in-core Coulomb and exchange builds", "openms/mqed/qedhf.py get_jk, get_veff")], [], ["energy, convergence and density"]),
 P("C16", "Calculations in one process are independent and leave their inputs alone",
   "A calculation (AFQMC, cavity mean field, QED-FCI) gives the same result whether it is alone in a process or built and run between other calculations, including ones that failed. "
   "Arrays, option dictionaries, molecules and mean-field solutions passed to an AFQMC or cavity mean-field calculation are not modified by it.",
   ["histories", "programs"], "all interleavings of constructing, running and failing AFQMC, cavity mean-field and QED-FCI calculations with separate or shared inputs",
   "Each test looks at one calculation; shared defaults, caches and arrays changed in place show only in the next one.",
   [QMC + "qmc.py", QMC + "afqmc.py", QMC + "trial.py", QMC + "generic_walkers.py", "openms/lib/boson.py", "openms/mqed/qedhf.py"],
   [("defaults are copied", QMC + "qmc.py QMCbase.__init__"), ("inputs are copied before normalisation", "openms/lib/boson.py Boson.__init__")], [], ["results of every calculation in the history", "inputs before and after"]),
 P("C17", "Molecular-dynamics runs never destroy output of earlier runs",
   "Whatever sequence of dynamics runs is started in a directory tree, fresh or appending, one after another or at the same time, with crashes and disk errors at any point, everything earlier runs had written is still there afterwards, under its own or a backup name, and appending runs extend the files in place. "
   "A request that cannot be carried out (an unknown restart mode, appending without earlier output) ends with an error and changes nothing; exempt is only the final-geometry file of the run being continued.",
   ["histories", "crash_points", "fault_sequences", "schedules"], "histories of 2-7 runs, crash or disk error at any file operation, two runs interleaved at file operations, several runs of one process, repeated process ids, relative, absolute and home-relative output directories, linked output",
   "The tests start no dynamics run on existing output.", ["openms/qmd/bomd.py", "openms/qmd/mqc.py", "openms/lib/misc.py"],
   [("old output is moved to an unused name", "openms/qmd/bomd.py run_init, old_dir_name"), ("files are opened for appending", "openms/lib/misc.py typewriter")], [], ["all files below the directory after every run"]),
 P("C18", "A damaged integral file is never read as a Hamiltonian",
   "Reading a complete integral file gives exactly the one- and two-electron integrals and the constant energy that were written, for every storage symmetry. "
   "Reading a file whose writing was cut short, whose blocks were lost in a crash, or that fails while being read ends with an error, never with a Hamiltonian that differs from the one written.",
   ["crash_points", "fault_sequences", "inputs"], "all Hamiltonians up to 12 orbitals, files cut at any byte, zero-filled tails and blocks, read errors at any line",
   "No test reads an integral file.", [QMC + "tools.py"], [("the constant energy is the last line and must have been read", QMC + "tools.py read_fcidump")], [], ["returned integrals or error"]),
]

LEVEL = {}
NOTE = {
 "C01": "Seeded search over schedules of the real AFQMC code on a simulated communicator; samples schedules, trusts the communicator model (MPI semantics) and runs kernels as Python.",
 "C02": "Every sampled measurement is recomputed walker by walker; trusts the library's local energy of a single walker computed serially.",
 "C03": "Rank counts compared with each other to 1e-7; weight rescaling only.",
 "C04": "Bitwise comparison of repeated runs under different schedule, clock, entropy and history; trusts numpy.",
 "C05": "Every control step of sampled histories is checked exactly; draws include the end points of the unit interval.",
 "C06": "Call-by-call comparison with a reference model of all weights to 1e-9.",
 "C07": "Statistical at six standard errors plus an exact bound on the number of copies for the comb-like methods.",
 "C08": "Comparison with the defining formulas to 1e-9 for sampled partitions and schedules.",
 "C09": "Output of all ranks checked against the measurements and a model of the log levels.",
 "C10": "Faults placed at sampled points of the runs; one or two faults per run.",
 "C11": "Bitwise comparison of runs and communicator calls; trusts the simulated one-rank communicator.",
 "C12": "Threads are simulated by interleaving the loop bodies between statements; the compiled machine code itself is not run.",
 "C13": "Bitwise comparison under sampled clock behaviour.",
 "C14": "Crashes at sampled file modifications and iterations; what survives is decided by the simulator; energies to 1e-6.",
 "C15": "Memory probes answered by the simulator; energies to 1e-6.",
 "C16": "Sampled histories, results compared with fresh processes to 1e-9, inputs compared exactly.",
 "C17": "Sampled histories with faults at every modifying file operation, on a scratch directory.",
 "C18": "Sampled Hamiltonians and damages; lines vanishing without trace are out of scope.",
}

NA = [
 P("N01", "Cholesky vectors reproduce the two-electron integrals",
   "The decomposition of the two-electron integrals reproduces them to the requested threshold for every molecule and basis, blocked or not.", ["inputs"], "all molecules, bases, thresholds",
   "Tests check a few molecules.", [QMC + "tools.py"], [("decomposition", QMC + "tools.py chols_blocked, chols_full")]),
 P("N02", "Cavity mean-field energies obey their limits and symmetries",
   "Cavity mean-field energies tend to the bare energy for vanishing coupling, do not depend on the origin of coordinates for neutral molecules and decrease with a larger variational space.", ["inputs"], "all molecules and cavities",
   "Tests check a few molecules.", ["openms/mqed/qedhf.py", "openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py", "openms/lib/boson.py"], [("energy expressions", "openms/mqed/qedhf.py energy_tot")]),
 P("N03", "QED coupled cluster and QED-FCI solve their equations",
   "The correlated solvers return solutions of their defining equations; the full configuration interaction energy is the lowest eigenvalue.", ["inputs"], "all molecules and cavities",
   "Tests need packages that are missing here.", ["openms/mqed/ccsd.py", "openms/mqed/qedfci.py", "openms/mqed/qedcc_equations.py"], [("residual equations", "openms/mqed/qedcc_equations.py")]),
 P("N04", "Matrix routines and steppers are accurate",
   "Matrix functions, linear algebra helpers, time steppers, unit conversions and lineshapes have their mathematical values.", ["inputs"], "all arguments",
   "Tests sample few arguments.", ["openms/lib/mathlib.py", "openms/lib/constants.py", "openms/solvers/linalg.py", "openms/qmd/propagator.py", "openms/lib/scipy_helper.py"], [("formulas", "openms/lib/mathlib.py")]),
 P("N05", "Model Hamiltonians are Hermitian and have the documented spectra",
   "The model builders return Hermitian Hamiltonians with the documented couplings and symmetries.", ["inputs"], "all parameters",
   "Not tested.", ["openms/models/hubbard.py", "openms/models/hh_model.py", "openms/models/aggregates.py", "openms/models/ssh.py", "openms/models/shin_metiu.py"], [("matrix elements", "openms/models/hubbard.py")]),
 P("N06", "Surface hopping conserves energy and probability",
   "Mixed quantum-classical dynamics conserves total energy at hops and the norm of the electronic state.", ["inputs", "histories"], "all trajectories",
   "Not tested.", ["openms/qmd/sh.py", "openms/qmd/aimc.py", "openms/qmd/mqc.py"], [("hops", "openms/qmd/sh.py")]),
 P("N07", "Electromagnetic, spin, transport and Gutzwiller solvers are correct",
   "The field solvers, spin dynamics, Green's-function transport and Gutzwiller modules satisfy their governing equations.", ["inputs"], "all inputs",
   "Tests need libraries that are not built here.", ["openms/maxwell/maxwell.py", "openms/lib/fdtd/fdtdc.py", "openms/spindy/spin.py", "openms/oqs/tdnegf.py", "openms/gwf/ga_local.py"], [("solvers", "openms/maxwell/maxwell.py")]),
 P("N08", "Statistical analysis of Monte Carlo series is consistent",
   "Autocorrelation times, blocking errors and averages of a series are consistent estimators.", ["inputs"], "all series",
   "Not tested.", [QMC + "tools.py"], [("estimators", QMC + "tools.py autocorrelation functions")]),
]
NA_REASON = {
 "N01": "A pure function of its input: no schedule, clock, fault or interleaving enters; simulation would only dress up input generation.",
 "N02": "Pure numerics of one calculation; what depends on faults, memory, clocks and history of these calculations is C13-C16.",
 "N03": "Pure numerics, and the coupled-cluster module does not import here (cqcpy is missing).",
 "N04": "Pure functions of their arguments.",
 "N05": "Pure functions of their arguments; one of the modules does not compile.",
 "N06": "The surface-hopping code is incomplete (it does not run a trajectory), so there is no execution to simulate; the file handling of dynamics runs is C17.",
 "N07": "The compiled libraries and third-party packages these modules need are not built or installed, and the equations are pure numerics.",
 "N08": "Pure functions of a series of numbers.",
}


def main():
    import importlib
    import sys
    sys.path.insert(0, ROOT)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        i = p["id"]
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick", "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection (seeded search, minimised replay)",
                       "level": LEVEL.get(i, "exploration"), "level_note": NOTE[i]})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); import sim.runner, sim.world, sim.afq, sim.pop, sim.scf, sim.files, sim.threads; print('ready')\"",
         "checks": checks, "not_applicable": [{"property": p["id"], "reason": NA_REASON[p["id"]]} for p in NA],
         "notes": "No hooks in /repo: every seam is a Python module, builtin or library function that the simulator replaces from outside. known_findings.txt lists the defects repaired by fix: commits."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
