#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
V = "src/vmecpp/cpp/vmecpp/"
PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, observe, hook=None):
    PROPS.append({"id": pid, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                              "observe_at": observe, "hook_needed": hook}})


prop("C01", "Solver threads never touch shared data without ordering",
     "Whenever the library computes with several threads - a solve, a coil response table, the outputs of a run, with hot restart, interruption, retries or failure, and with several callers at once - two threads never access the same memory location, one of them writing, without synchronisation that orders the accesses. This holds for every thread count and every thread schedule.",
     ["schedules", "configurations", "inputs"],
     "all interleavings of the team threads, nested vacuum teams and concurrent callers; all thread counts; all problem classes (symmetric/asymmetric, axisymmetric/3D, fixed/free boundary, single/multi grid, failing inputs)",
     "The existing tests run whatever schedule the machine happens to produce, mostly with one thread count, and cannot observe an unordered access that did not change the answer that time.",
     ["src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc", "src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc", "src/vmecpp/cpp/vmecpp/free_boundary/nestor/nestor.cc", "src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc"],
     [["omp barrier/single/critical around shared handover data and flow-control state", "vmec.cc SolveEquilibriumLoop/Evolve, ideal_mhd_model.cc update and its callees"], ["per-thread radial partitions", "common/../radial_partitioning"]],
     ["every instrumented memory access"])

prop("C02", "A result does not depend on thread count or thread schedule",
     "For one input, the outcome of a solve - success or kind of error, number of iterations, and every number of the output - and of a coil response table is the same for every number of threads and every schedule of those threads, up to floating-point rounding of reordered sums. (Numbers of a run that gave up with an error flag and were only returned because the caller asked for best-effort output are excluded.)",
     ["schedules", "configurations", "inputs"],
     "thread counts 1..16, all interleavings, all radial grid sequences and problem classes",
     "Tests compare against stored references at a few thread counts and one uncontrolled schedule each; a wrong partition boundary for one (surfaces, threads) pair or a stale value under one interleaving is out of their reach.",
     ["src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc", "src/vmecpp/cpp/vmecpp/vmec/radial_partitioning/radial_partitioning.cc", "src/vmecpp/cpp/vmecpp/vmec/handover_storage/handover_storage.cc", "src/vmecpp/cpp/vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.cc", "src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc"],
     [["radial and tangential partitioning with halo exchange", "radial_partitioning, tangential_partitioning, handover_storage"], ["reductions over threads", "ideal_mhd_model.cc, output_quantities.cc"]],
     ["OutputQuantities of run()"])

prop("C03", "Every run ends: no deadlock, livelock, runaway or crash",
     "Every solve and every response-table computation returns to its caller - with a result or an error - within a bounded amount of work, for every thread schedule, thread count and input, including ill-posed equilibria, exhausted iteration budgets, inconsistent vacuum fields and interruption. It never deadlocks, spins, exceeds the iteration budget of its input or takes down the process.",
     ["schedules", "inputs", "fault_sequences"],
     "all interleavings, stalls of single threads at any point, interrupts at any iteration, well-posed and ill-posed inputs that reach each error exit",
     "A barrier reached by only part of a team hangs only when an error exit is taken with several threads; tests hardly take those exits and a hang has no assertion.",
     ["src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc", "src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc", "src/vmecpp/cpp/vmecpp/free_boundary/nestor/nestor.cc"],
     [["team-uniform control flow from shared status, barriers on every exit path", "vmec.cc SolveEquilibrium, SolveEquilibriumLoop, Evolve"], ["iteration budget niter_array", "vmec.cc SolveEquilibriumLoop"]],
     ["return of run()"])

prop("C04", "Success means a force-balance solution at the requested tolerance",
     "A run that reports success ended on the last grid of its input with every force residual at or below the tolerance requested for that grid, and its state is a solution: continuing from it converges at once. When the iteration budget runs out, the solver gives up or the run is cancelled, the caller gets an error (or, only if asked for, best-effort output); a well-posed problem with a sufficient budget is not reported as failed.",
     ["inputs", "configurations", "schedules"],
     "all tolerances, budgets, grid sequences, step sizes, thread counts and schedules, with interrupts",
     "Tests run a few problems at their bundled tolerance and budget; which grid the budget runs out on, and which thread sees it, is never varied.",
     [V + "vmec/vmec/vmec.cc", V + "common/flow_control/flow_control.cc", V + "vmec/output_quantities/output_quantities.cc"],
     [["convergence test per grid and final status", "vmec.cc SolveEquilibriumLoop, run"], ["multi-grid sequence", "vmec.cc run"]],
     ["return value and output of run()"])

prop("C05", "An interrupt stops the run promptly and is never lost",
     "When the caller's interrupt callback raises, the run stops within the work of about one iteration, on every thread, and reports cancellation, never a result or another error; the callback only runs on the calling thread and is polled at least every nstep iterations. Without an interrupt, having a callback changes nothing, and a run after a cancelled one is unaffected.",
     ["schedules", "fault_sequences", "configurations"],
     "interrupt at every poll of every stage; all thread counts and schedules",
     "Tests raise an interrupt at one point of one schedule, if at all; a thread that misses the flag hangs or swallows it only under some schedules.",
     [V + "vmec/vmec/vmec.cc", V + "vmec/pybind11/pybind_vmec.cc"],
     [["poll in the master thread, shared status, barrier", "vmec.cc SolveEquilibriumLoop"]],
     ["interrupt callback", "return value of run()"])

prop("C06", "Calls do not influence one another",
     "A solver or response-table call gives the same outcome and output whatever the process did before or does at the same time: earlier successful, failed or cancelled calls, other problem sizes, concurrent calls from other threads, and the previous contents of memory. With one thread the result is identical bit for bit, with several up to rounding.",
     ["histories", "schedules", "inputs"],
     "all histories of sequential and concurrent calls, and all initial heap contents",
     "Each test runs one call in one order and cannot see a value that survives in a static, a reused buffer or uninitialised memory.",
     [V + "vmec/vmec/vmec.cc", V + "free_boundary", V + "common/makegrid_lib/makegrid_lib.cc", V + "vmec/output_quantities/output_quantities.cc"],
     [["all state lives in the object of one call", "vmec.h Vmec members"]],
     ["output of each call of a history"])

prop("C08", "Hot restart reaches the cold-start solution, or is refused",
     "Restarting from a previous result with the same or a slightly changed input converges to the same equilibrium as a cold start of that input, for every problem class including non-stellarator-symmetric and free-boundary ones; restarting with an unchanged input needs essentially no iterations. A state that does not fit the input is refused with an invalid-argument error, and the state handed in is not modified.",
     ["histories", "inputs", "schedules"],
     "solve/restart histories over problem classes, kinds of change, thread counts and schedules",
     "Tests restart a few symmetric cases with one thread count; they never restart an asymmetric state nor compare all classes with the cold solution.",
     [V + "vmec/vmec/vmec.cc", V + "vmec/output_quantities/output_quantities.cc", "src/vmecpp/__init__.py"],
     [["initial state from a previous output", "vmec.cc InitializeRadial / HotRestartState"]],
     ["output of the restarted run"])

prop("C10", "Text inputs load completely or fail; text writes report failure",
     "Reading an input file - VMEC JSON input, makegrid parameters, coils file, any text file - returns its complete content and its values, or an error; it never returns part of a file, never succeeds after a failed read, and no file content, however damaged, crashes the process or makes it hang. Loading what was written returns the same values: JSON input written by the library reads back equal. Writing a text file reports success only if the whole text is in the file.",
     ["fault_sequences", "inputs", "histories"],
     "error, short transfer or end of file at every read and write; truncated, spliced and mutated files; unusual but valid values",
     "Tests read a handful of intact files from a healthy disk.",
     ["src/vmecpp/cpp/util/file_io/file_io.cc", "src/vmecpp/cpp/util/json_io/json_io.cc", V + "common/vmec_indata/vmec_indata.cc", V + "common/makegrid_lib/makegrid_lib.cc", V + "common/magnetic_configuration_lib/magnetic_configuration_lib.cc"],
     [["status propagation from read to loader", "file_io.cc ReadFile/WriteFile and their callers"], ["typed JSON accessors", "json_io.cc, VmecINDATA::FromJson"]],
     ["status and value of each loader"])

prop("C11", "Complete results survive a save to and load from HDF5",
     "After OutputQuantities::Save returned success, Load of that file - in the same or another process - gives an equal result: every member of every part, bit for bit, for symmetric and non-symmetric results, any array sizes and any values. A file that lacks a required dataset, is cut short or does not exist is reported as an error. A save that could not write everything reports failure and leaves the previous file (or none) and no temporary file; after a crash the path holds the previous or the new complete result.",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     "histories of saves, loads, damaged files, I/O errors at any write and crashes at any file operation",
     "Tests save and load two results on a healthy disk and compare a subset of the members.",
     [V + "vmec/output_quantities/output_quantities.cc", V + "common/vmec_indata/vmec_indata.cc", "src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc", "src/vmecpp/cpp/util/hdf5_io/hdf5_io.h"],
     [["one WriteTo/LoadInto pair per part", "output_quantities.cc"], ["typed dataset readers and writers", "hdf5_io"]],
     ["HDF5 file", "status of Save and Load"])

prop("C12", "Saving a wout file is atomic and faithful",
     "After a save that returns, the file holds exactly the saved object: every field, bit for bit, through the package's reader and through netCDF. A save that fails - because of an I/O error, a full disk or an interrupt - raises and leaves the previous file (or none) and no temporary file; after a crash at any point, and with several processes saving to one path, the file is one complete saved object, never a mixture or a fragment.",
     ["crash_points", "fault_sequences", "histories", "inputs"],
     "every file operation of a save as a crash or error point, all interleavings of concurrent savers, arbitrary field values",
     "Tests save a handful of results on a healthy disk; one test provokes one failure before the file is moved into place.",
     ["src/vmecpp/__init__.py"],
     [["temporary file in the target directory, then rename", "VmecWOut.save"], ["field-by-field NetCDF3 writer and reader", "VmecWOut._to_netcdf3, from_wout_file"]],
     ["files on disk", "return or exception of save"])

prop("C13", "NetCDF variables are read with their stored value, or refused",
     "Each typed NetCDF reader - bool, int, double, char, string, and arrays of rank 1 to 3 - returns exactly the value stored in the variable, converted to the requested type, whatever numeric type, format and size the file uses; a variable that is missing, has another rank, is text where a number is wanted (or the reverse), does not fit or cannot be read gives an error. No file makes a reader write outside its buffer.",
     ["inputs", "fault_sequences"],
     "all file formats, external types, ranks and sizes, with read errors at any point",
     "Tests read one example file whose types match.",
     ["src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc"],
     [["rank check, dimension query, typed read", "netcdf_io.cc NetcdfRead*"]],
     ["status and value of each reader"])

prop("C14", "Vacuum field tables are loaded and interpolated as written",
     "A vacuum field table that WriteMakegridNetCDFFile wrote holds the given fields, currents and grid; loading it from the file, or the same table from memory, gives the same grid and the sum over circuits of field times current, and interpolation at any point is the bilinear interpolation of that sum (points outside are moved to the edge). Loading again replaces the former table completely. A table with a missing or misshapen field, a wrong number of currents or an unreadable file is refused and leaves the provider with its former table or none, and a write that fails is not reported as success.",
     ["histories", "inputs", "fault_sequences"],
     "histories of writes and loads over random tables, grids, circuits and currents, unusable files, I/O errors at any point",
     "Tests load one mgrid file once; no test loads twice, damages a file or fails a write.",
     [V + "free_boundary/mgrid_provider/mgrid_provider.cc", V + "common/makegrid_lib/makegrid_lib.cc"],
     [["per-circuit accumulation and shape validation", "mgrid_provider.cc LoadFile, LoadFields"], ["NetCDF writer", "makegrid_lib.cc WriteMakegridNetCDFFile"]],
     ["provider state", "interpolated field", "file"])

prop("C15", "An input file holds the input that was saved",
     "After VmecInput.save returned, VmecInput.from_file and VmecInput.model_validate_json give an input equal in every field (resolution schedules and boundary coefficients included), whatever the values. A save that cannot write raises. After a failed save or a crash during it, the file is absent, refused as unreadable, or holds exactly the old or the new input, never a mixture that loads; saving again repairs it. Loading returns exactly what the file holds or raises; it changes no file, and leaves the working directory and the temporary directory as they were. Saving does not modify the input.",
     ["inputs", "histories", "fault_sequences", "crash_points"],
     "all values of all fields, sequences of saves and loads, an I/O error, short or torn write, interrupt or crash at any file operation",
     "Tests round-trip a few shipped files without faults.",
     ["src/vmecpp/__init__.py", "src/vmecpp/_util.py", V + "common/vmec_indata/vmec_indata.cc"],
     [["save, from_file, sparse coefficient serialisation", "__init__.py VmecInput"], ["dense/sparse conversion, working-directory guard", "_util.py"]],
     ["loaded input", "file system"])

prop("C16", "Input conversion is faithful and leaves nothing behind",
     "indata_to_json writes exactly what the converter produced to the documented place and returns that path; ensure_vmecpp_input, ensure_vmec2000_input and VmecInput.from_file hand out a file (or input) with the contents of the given one - an INDATA namelist carries every value of the JSON input that INDATA has a name for, axis and boundary included - and pass files that need no conversion through unchanged. Afterwards, also when the converter fails, is killed or writes nothing, when the user's block raises, or when an I/O operation fails, the working directory is restored, temporary directories and converted files are gone and no other file has changed; a failed conversion raises and the user's error is passed on. Several processes converting the same file at once each get the right contents.",
     ["inputs", "schedules", "fault_sequences"],
     "all inputs and file names, converter outcomes, I/O errors at any operation, interleavings of processes on one directory",
     "Tests convert a few files, one process at a time, without failures.",
     ["src/vmecpp/_util.py", "src/vmecpp/__init__.py"],
     [["temporary directory, working-directory guard, output copy", "_util.py indata_to_json"], ["per-process name and removal", "__init__.py ensure_vmecpp_input, ensure_vmec2000_input"]],
     ["file system after each call", "contents handed out", "exceptions"])

prop("C18", "The Python-driven solve follows the C++ solver and its documented control",
     "solve_equilibrium, iterate and solve_multigrid with the vmec_8_52 and parvmec styles go through the same residuals, restarts, time steps and multi-grid stages as the C++ solver and end with the same outcome and state. For any sequence of forward-model outcomes - bad Jacobian, huge initial forces, non-finite or exploding residuals, an exception at any evaluation - every style (robust included) takes the documented decision: revert and reduce the time step, re-guess the axis, give up with the documented error, stop on convergence only when all three residuals are below tolerance, pass exceptions on. The callback is told the true values once per iteration, can stop the run, and does not alter the results; several solves interleaved in threads each get what they get alone; unusable ns_array values are refused.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "problems, time steps, tolerances, styles, injected evaluation outcomes at any iteration, interleavings of drivers at their model calls",
     "Tests compare a few converged runs of the two drivers; none makes an evaluation fail in mid-run.",
     ["src/vmecpp/_iteration.py", V + "vmec/vmec/vmec.cc", V + "common/flow_control/flow_control.cc"],
     [["time-step control and restart decisions", "_iteration.py solve_equilibrium; vmec.cc Evolve, RestartIteration, SolveEquilibriumLoop"]],
     ["residual history, restart reasons, returned result, callback arguments"])

prop("C19", "The forward model has no memory beyond its state",
     "After any history of calls on a forward model (evaluations at good or overlapping states, native evaluations, time steps, solves, Hessian products, backups, refused calls), setting a state and evaluating gives the same residuals, energy, forces and restart reason as on a fresh model, and so do a time step from rest, a Hessian product, the preconditioner and refine_to. get_state returns exactly what set_state was given; restore_backup returns exactly to the saved backup; evaluations, Hessian products and refused calls leave the state unchanged; states of the wrong length and refinements to a grid that is not finer are refused.",
     ["histories", "inputs"],
     "all sequences of model calls over all problem classes and grids",
     "Tests call each model function once on a fresh model.",
     [V + "vmec/pybind11/pybind_vmec.cc", V + "vmec/vmec/vmec.cc", V + "vmec/ideal_mhd_model/ideal_mhd_model.cc"],
     [["state vector access, evaluation, backup", "pybind_vmec.cc VmecModel"], ["force evaluation and preconditioner refresh", "ideal_mhd_model.cc update"]],
     ["residuals, forces, state vector, restart reason"])

prop("C07", "The equilibrium does not depend on the guess of the magnetic axis",
     "A solve of a well-posed input converges to the same equilibrium - boundary, energy, rotational transform and axis, up to the convergence tolerance - from any guess of the magnetic axis inside the plasma: none at all, a displaced one (by up to 0.4 minor radii per coefficient) or the converged one, for stellarator-symmetric and non-symmetric, axisymmetric and three-dimensional inputs, on one grid or a sequence of grids. The solve does not modify its input.",
     ["inputs", "histories"],
     "axis guesses, problem classes and grid sequences",
     "Tests start from the shipped, good axis guesses; the retry with a re-guessed axis is hardly ever taken.",
     [V + "vmec/vmec/vmec.cc", V + "vmec/boundaries/guess_magnetic_axis.cc", V + "vmec/boundaries/boundaries.cc"],
     [["axis re-guess after a bad initial Jacobian", "boundaries.cc RecomputeMagneticAxisToFixJacobianSign, guess_magnetic_axis.cc"], ["retry of the first iteration", "vmec.cc SolveEquilibrium"]],
     ["converged output of run()"])

prop("C17", "Resolution continuation runs its steps in order, each from the last",
     "run() on an input with mpol or ntor schedules solves once per ns_array step, at that step's resolution, tolerance and iteration limit, with the boundary of the input truncated or zero-padded and every other field unchanged; each step starts from the previous step's solution carried to its grid and modes, the first from restart_from if given and cold otherwise. Thread count and output mode are passed on. The result is that of the last step, converged, the same equilibrium as a direct solve, and carries the original input. Input and restart state are not modified. When a solve fails, its exception reaches the caller, no further step is solved, and running again works. A schedule of another length than ns_array is refused with ValueError before any solve.",
     ["histories", "fault_sequences", "inputs"],
     "schedules of one to three steps over all problem classes, a failure (error, interrupt, allocation failure) at any solve, repeated runs",
     "Tests run one or two schedules that succeed.",
     ["src/vmecpp/_continuation.py", "src/vmecpp/__init__.py"],
     [["continuation loop and interpolation of the state", "_continuation.py _run_fourier_continuation, interpolate_solution; __init__.py run"]],
     ["calls into the C++ core", "returned VmecOutput", "input and restart objects"])

prop("C21", "The SIMSOPT wrapper solves when needed and returns the current solution",
     "For any history of calls on simsopt_compat.Vmec - reading quantities, run(), changing boundary coefficients, degrees of freedom, the surface or the resolution, writing the input - the code solves exactly when something changed since the last successful solve (or none succeeded), with the current boundary, degrees of freedom and resolution, an empty axis guess and the requested thread count (one by default); every quantity returned is that of the current solution, which equals a fresh solve of the current input. A solve that does not converge raises ObjectiveFailure, any failure leaves the object in need of a solve, nothing stale is returned, and the next call solves again. iter counts the solves. run(restart_from=...) solves only on the last grid and leaves the input's grids as they were. With keep_all_files the wout file holds the result. get_input and write_input give the current input and do not solve. An object made from a wout file returns that file and refuses to run.",
     ["histories", "fault_sequences"],
     "histories of up to 12 calls over all problem classes, failing solves at any call, failing files",
     "Tests call a few methods on one or two objects and never let a solve fail between them.",
     ["src/vmecpp/simsopt_compat.py"],
     [["need_to_run_code, recompute_bell, boundary setter", "simsopt_compat.py Vmec"], ["set_indata, set_mpol_ntor", "simsopt_compat.py Vmec"]],
     ["values and exceptions of each call", "calls into the C++ core"])

prop("C22", "The command line reports success exactly when the result is on disk",
     "vmecpp INPUT ends successfully only with a complete wout_NAME.nc in the working directory that holds the solution of INPUT - the same for every output mode - and says so; when the input is missing or unreadable, the thread count is not positive, the solve fails or a file operation fails, it ends with an error and leaves that file as it was. Either way no other file changes. -t, -q and --legacy reach the solver. vmecpp convert ends successfully only with a JSON file equal to the input.",
     ["inputs", "histories", "fault_sequences"],
     "sequences of commands, inputs, options, failing solves and an I/O error or short write at any file operation",
     "The command line is exercised by tests only on healthy inputs and disks, if at all.",
     ["src/vmecpp/__main__.py", "src/vmecpp/__init__.py"],
     [["argument handling, run and save", "__main__.py main"]],
     ["exit status, standard output, file system"])

prop("C09", "A signal during a Python run stops it or leaves it alone",
     "When a signal arrives at any point of vmecpp.run - plain, multi-grid, hot-restarted, continuation, with a field table, in any output mode - its Python handler runs within about nstep iterations. If the handler raises (Ctrl-C), the run stops and exactly that exception reaches the caller, never a result or another error; if it returns - even after solving another equilibrium itself - the run ends as if there had been no signal, bit for bit. Input and restart state are not modified, and the same call afterwards gives the same result.",
     ["histories", "fault_sequences", "inputs"],
     "all points of a solve at which one or several signals arrive, all handlers (raising, returning, solving), all ways of calling run",
     "No test delivers a signal during a solve, let alone at a chosen iteration, in the last iteration, during the output computation or twice.",
     ["src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc", "src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc", "src/vmecpp/__init__.py", "src/vmecpp/_continuation.py"],
     [["interrupt_check with GIL handling and re-raise, in both overloads of run", "pybind_vmec.cc"], ["polling in Evolve every nstep iterations", "vmec.cc"]],
     ["return or exception of vmecpp.run"])

prop("C20", "Inputs, results and field tables are values",
     "A VmecInput, VmecOutput or MagneticFieldResponseTable carried to another process or copied - JSON text, pickle, deep copy, dump and validate, a result through its wout file - is equal in every field. Solving, hot-restarting, editing or deleting other objects never changes one, and arrays taken from an object stay valid after it is gone; a result holds the numbers the solver computed, under their names. vmecpp.run uses exactly what the objects hold at the time of the call (edited, sliced, reordered or rescaled tables and restart states included): it gives the same result, bit for bit with one thread, as the call in another process on new objects with those values.",
     ["histories", "inputs"],
     "all histories of solves, transports, edits and deletions over any number of objects",
     "Tests look at one object at a time right after it was made; sharing of memory between Python arrays and C++ objects, shortcuts that return a cached C++ object, and lifetimes only show in histories.",
     ["src/vmecpp/__init__.py", "src/vmecpp/_free_boundary.py", "src/vmecpp/_pydantic_numpy.py", "src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc"],
     [["conversion between Pydantic models and C++ objects", "_to_cpp_*/_from_cpp_* methods"], ["views of C++ memory", "DefEigenProperty"], ["JSON form of arrays", "_pydantic_numpy.py"]],
     ["objects returned by the package", "results of vmecpp.run"])

for pid, title, text, files in [
        ("N01", "Discretised geometry, force and vacuum formulas are the right ones",
         "For every input the discrete residuals, Jacobian, metric, currents and vacuum potential are those of the VMEC formulation, so that a converged run is an ideal-MHD equilibrium and agrees with VMEC 8.52.",
         [V + "vmec/ideal_mhd_model/ideal_mhd_model.cc", V + "free_boundary/nestor/nestor.cc"]),
        ("N02", "Profiles, Fourier bases and coil fields evaluate their definitions",
         "Profile functions, mode-index and basis conversions, and the field of each coil primitive evaluate their mathematical definitions for every argument.",
         [V + "vmec/radial_profiles/radial_profiles.cc", V + "common/fourier_basis/fourier_basis.cc", V + "common/magnetic_field_provider/magnetic_field_provider_lib.cc"])]:
    prop(pid, title, text, ["inputs"], "all inputs and arguments", "Tests compare sampled values with references.", files,
         [["numerical formulas", files[0]]], ["computed values"])

prop("C23", "The stand-alone programs report success exactly when their result is on disk",
     "vmec_standalone INPUT [threads] ends with exit status 0 only with a complete result file - INPUT without .json, plus .out.h5 - that holds the solution of INPUT as the library computes it (every dataset); when the input is missing, damaged or unsolvable, the thread count is not positive, the arguments are wrong or a file operation fails, it ends with an error and leaves a previous result file as it was. makegrid PARAMETERS.json coils.NAME ends with exit status 0 only with mgrid_NAME.nc in the working directory that holds grid, currents, fields and vector potential of those coils as the library computes them; otherwise it ends with an error. Neither changes any other file.",
     ["inputs", "histories", "fault_sequences"],
     "sequences of program runs, good, damaged and missing inputs, wrong arguments, and an I/O error, short write or crash at any file operation",
     "No test runs the programs at all, let alone on damaged inputs or failing disks.",
     ["src/vmecpp/cpp/vmecpp/vmec/vmec_standalone/vmec_standalone.cc", "src/vmecpp/cpp/makegrid/makegrid/makegrid.cc"],
     [["status checks and output path", "main of vmec_standalone.cc"], ["status checks and output path", "main of makegrid.cc"]],
     ["exit status, file system"])

SIM = ("deterministic simulation: real solver on a seeded OpenMP simulator (every thread switch decided by the seed, "
       "preemption at every memory access, stalls, interrupts)")
IO = ("deterministic simulation: real code on a seeded storage/process simulator (I/O errors, short and torn writes, full "
      "disk, crash and restart at any file operation, interleaved processes)")
DRV = ("deterministic simulation: real forward model behind a seeded driver (evaluation outcomes injected at any iteration, model "
       "calls and driver threads ordered by the seed)")
CORE = ("deterministic simulation: real package and C++ core behind a seeded seam at the core's entry (solves fail, are interrupted or run "
        "out of memory at any call)")
NOTE = ("Seeded search over schedules, problems and faults; a clean run is evidence on the explored histories, not a proof. "
        "Trusts the simulator (sim/simomp.cc), the compiler's access instrumentation, and the stand-ins for abscab and absl logging.")
NOTE_IO = ("Seeded search over fault points, histories and interleavings; a clean run is evidence on the explored histories, "
           "not a proof. Trusts the simulator (sim/simio.c, sim/pyzygote.py); process-crash model: completed system calls survive.")
CHECKS = {
    "C01": (SIM + ", happens-before oracle on every access", NOTE),
    "C02": (SIM + ", refinement against the single-threaded run", NOTE),
    "C03": (SIM + ", deadlock detection and step-bounded progress", NOTE),
    "C04": (SIM + ", residual and continuation oracle", NOTE),
    "C05": (SIM + ", interrupts at seeded polls, bounded stop", NOTE),
    "C06": (SIM + ", histories of calls compared with each call alone", NOTE),
    "C08": (SIM + ", solve/restart histories compared with the cold solution", NOTE),
    "C10": (IO + ", damaged inputs, refinement against the written content", NOTE_IO),
    "C11": (IO + ", refinement against the saved result", NOTE_IO),
    "C12": (IO + ", refinement against old-or-new file contents", NOTE_IO),
    "C13": (IO + ", refinement against the stored values", NOTE_IO),
    "C14": (IO + ", refinement against a reference table and interpolation model", NOTE_IO),
    "C15": (IO + ", refinement against old-or-new input", NOTE_IO),
    "C16": (IO + ", stand-in converter with injected failures, reference namelist reader", NOTE_IO),
    "C18": (DRV + ", refinement against the C++ solver and a reference driver", NOTE_IO),
    "C19": (DRV + ", histories of calls compared with a fresh model", NOTE_IO),
}
CHECKS.update({
    "C07": ("deterministic simulation: real solver behind a seam that injects the axis guess, seeded search, refinement against the undisturbed solve", NOTE_IO),
    "C17": (CORE + ", reference model of the continuation and of the interpolated start", NOTE_IO),
    "C09": ("deterministic simulation: real package and C++ core with a barrier clock, signals raised at seeded points of the solve, refinement against the undisturbed run", NOTE_IO),
    "C20": ("deterministic simulation: seeded histories of solves, transports, edits and deletions, each solve refined against the same call in another simulated process", NOTE_IO),
    "C21": (CORE + ", reference model of the wrapper's cache", NOTE_IO),
    "C23": (IO + ", refinement against the library call on the same files", NOTE_IO),
    "C22": (IO + ", failing solves at the entry of the C++ core, refinement against the direct solve", NOTE_IO),
})
PURE = ("pure function of its arguments: no schedule, time, I/O, crash or multi-party behaviour for a simulator to decide; "
        "what depends on threads, histories and faults around it is C01-C08, C18 and C19")
NA = [("N01", PURE), ("N02", PURE)]


def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in PROPS]
    assert sorted(ids) == sorted(list(CHECKS) + [p for p, _ in NA]), ids
    doc = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{"property": p, "quick_cmd": "./check.sh " + p,
                    "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
                    "technique": t, "level": "exploration", "level_note": n}
                   for p, (t, n) in CHECKS.items()],
        "not_applicable": [{"property": p, "reason": r} for p, r in NA],
    }
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
