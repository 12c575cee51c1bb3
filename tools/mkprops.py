"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

Q = "dynaphopy/__init__.py"
prop("C01", "A changed calculation setting never leaves a stale result behind",
 """After any public setter of a Quasiparticle calculation (wave vector, spectrum algorithm, MEM coefficients,
 frequency limits or resolution, fitting function, atom projection, band ranges, NAC, QHA force constants, trajectory
 crop) every result requested afterwards is the one a fresh calculation with those settings would give.
 No result computed under the old value of a setting it depends on is ever returned again, and no setter discards a
 result in the middle of the request that is producing it.""",
 ["histories"], "for every sequence of setter calls and result requests on one calculation object",
 "Tests build one calculation per case and set everything before the first request; stale results need a request, a setter and another request, for each (setter, result) pair.",
 [Q, "dynaphopy/parameters.py", "dynaphopy/power_spectrum/__init__.py"],
 [("full_clear / power_spectra_clear / force_constants_clear / bands_clear", Q), ("public setters", Q)],
 [("memoised results", "projected velocities, spectra, bands, commensurate data, force constants", Q)],
 ["get_* results of Quasiparticle"])

prop("C02", "Structure and trajectory queries follow the data that was last set",
 """After any public setter of the crystal structure or of the trajectory object (cell, positions, primitive matrix,
 masses, time, velocity, crop, structure) every derived quantity that same object reports afterwards (Cartesian and scaled positions, primitive
 cell, atom types, atom counts, relative trajectory, mass-weighted velocity, mean displacement matrix, time step) is the
 one a fresh object built with the new data would report. (A structure changed behind the back of a trajectory object is
 brought in with its structure setter.)""",
 ["histories"], "for every sequence of setters and queries on one Structure or Dynamics object",
 "The tests construct objects once and never re-set data after a query.",
 ["dynaphopy/atoms.py", "dynaphopy/dynamics.py"],
 [("None-guarded derived attributes and the setters that reset them", "dynaphopy/atoms.py, dynaphopy/dynamics.py")],
 [], ["get_* results of Structure and Dynamics"])

prop("C03", "A result requested with different arguments is not the previous answer",
 """Where a result accepts arguments that change its value (coordinate of projection, use of average positions, ...), two
 requests with different arguments are each answered for their own arguments: an answer remembered for one argument
 value is never returned for another.""",
 ["histories", "inputs"], "for every pair of requests to one object with different argument values",
 "Each test calls a given accessor with one argument value only.",
 [Q, "dynaphopy/dynamics.py", "dynaphopy/atoms.py", "dynaphopy/interface/phonopy_link.py"],
 [("memoising accessors that take arguments", Q)], [], ["get_power_spectrum_full", "get_mean_displacement_matrix"])

prop("C04", "Preferences changed from the interactive menu apply to the next result",
 """Every preference the interactive menu or the command-line driver changes on a calculation is changed through an
 operation that also discards the results depending on it, unless nothing has been computed yet.
 So the next plot, file or table requested from the menu always reflects the preferences shown on screen.""",
 ["histories", "configurations"], "for every sequence of menu selections / command-line options in one session",
 "The curses interface and the command-line driver have no tests.",
 ["dynaphopy/interface/interactive_ui.py", "scripts/dynaphopy", Q],
 [("menu handlers and command-line option handlers", "dynaphopy/interface/interactive_ui.py, scripts/dynaphopy")],
 [], ["interactive menu, option 9 (Preferences)", "command line"])

prop("C05", "Asking for a result does not change the wave vector or verbosity setting",
 """Every request for a result (get, plot, write, save, show, display, print) that temporarily moves the calculation to
 other wave vectors, or silences it, puts the wave vector and the silent setting back to the caller's values before it
 returns. No request permanently alters a user setting, except for the frequency window, which the commensurate-point
 analysis re-ranges to the harmonic spectrum, and the automatic band path.""",
 ["histories", "configurations"], "for every request, every return path and every settings combination",
 "Tests do not read the settings back after a request.",
 [Q, "dynaphopy/parameters.py", "dynaphopy/analysis/energy.py", "dynaphopy/power_spectrum/__init__.py"],
 [("save/restore of reduced_q_vector and silent", Q)], [], ["parameters.reduced_q_vector", "parameters.silent"])

prop("C06", "Every command-line option and input-file keyword takes effect",
 """Each option the command-line tools accept, and each keyword recognised in the input file, reaches the setting or
 the operation it documents: none is parsed and then ignored, stored under a name nothing reads, or stored on a setting
 other than its own. Each setting, when read back, is the value last assigned to it.""",
 ["configurations", "inputs"], "for every option of the installed scripts and every input-file keyword",
 "No test runs the scripts; tests of the library set attributes directly.",
 ["scripts/dynaphopy", "scripts/rfc_calc", "scripts/qha_extract", "scripts/fitdata", "scripts/concath5", "dynaphopy/parameters.py", "dynaphopy/interface/iofile/__init__.py"],
 [("argparse destinations and their uses", "scripts/*"), ("property getter/setter pairs", "dynaphopy/parameters.py"), ("input keyword table", "dynaphopy/interface/iofile/__init__.py")],
 [], ["command line", "input file"])

prop("C07", "Every trajectory reader returns exactly one time per stored frame",
 """Whatever reader produced it, and whatever first/last step, memory mapping, atom template or truncated file it was
 given, a trajectory has as many time values as position (or velocity) frames, frame i and time i describe the same
 step (times up to a common origin), and a step that is skipped contributes to neither. Cropping a trajectory shortens every per-step quantity by the same steps.""",
 ["inputs", "configurations"], "for every supported trajectory file (complete or truncated) and every reading option",
 "One short file per format is read, with few option combinations and none truncated.",
 ["dynaphopy/interface/iofile/trajectory_parsers.py", "dynaphopy/interface/iofile/__init__.py", "dynaphopy/dynamics.py"],
 [("time and frame accumulation in the reading loops", "dynaphopy/interface/iofile/trajectory_parsers.py"), ("crop_trajectory", "dynaphopy/dynamics.py")],
 [], ["Dynamics.get_time, Dynamics.trajectory, Dynamics.velocity"])

prop("C08", "Step-range, time-step, template and memory-map options act alike in all readers",
 """All trajectory readers (VASP OUTCAR, XDATCAR, LAMMPS dump) and the HDF5 loader give the same meaning to the options
 they share: first and last step select the same steps, the time step supplied by the user is the one used (OUTCAR, which records its own, says so), the atom template
 is applied to every frame, and memory mapping changes where data is stored but not which data is stored.""",
 ["inputs", "configurations"], "for every reader and every combination of the shared options",
 "Each reader is exercised with one or two option combinations.",
 ["dynaphopy/interface/iofile/trajectory_parsers.py", "dynaphopy/interface/iofile/__init__.py"],
 [("initial_cut/end_cut, time_step, template and memmap handling", "dynaphopy/interface/iofile")],
 [], ["trajectory read"])

prop("C09", "Memory-mapped storage is private to one array and is never clobbered",
 """With memory mapping on, every large array has a backing file of its own: no two arrays alive at the same time,
 in one trajectory object or in several, share a backing file, an array that is being filled is never re-created, and
 the backing file is removed only together with its array.""",
 ["configurations", "histories"], "for every trajectory object and array when memory mapping is enabled, any number of objects per process",
 "Tests use memory mapping with one object at a time and never keep two alive.",
 ["dynaphopy/dynamics.py", "dynaphopy/interface/iofile/trajectory_parsers.py", "dynaphopy/interface/iofile/__init__.py", "dynaphopy/interface/lammps_link.py"],
 [("numpy.memmap creation and removal", "dynaphopy/dynamics.py")], [], ["files in DYNAPHOPY_TEMPDIR or the working directory"])

prop("C10", "Data files written by the program are read back by it under the same names",
 """Every dataset in an HDF5 file, and every key in a quasiparticle YAML file, that a loader or companion script of the package requires is one the
 corresponding writer stores, with the same name and nesting, and every optional dataset is tested for before use. Saving and
 loading preserves time, supercell matrix, velocity, trajectory, projected velocity and wave vector; joining files joins every per-step
 dataset over the same steps, and data of files read side by side are combined in the same order.""",
 ["inputs"], "for every combination of quantities saved",
 "One HDF5 file kept in the test data is loaded; nothing is written and read back, and the companion scripts are not run.",
 ["dynaphopy/interface/iofile/__init__.py", "scripts/concath5", "scripts/rfc_calc", "scripts/qha_extract"],
 [("save_data_hdf5 / initialize_from_hdf5_file", "dynaphopy/interface/iofile/__init__.py"), ("YAML writers and their readers", "dynaphopy/interface/iofile/__init__.py, scripts")],
 [], ["HDF5 and YAML files"])

prop("C11", "The C kernels never read or write outside their buffers",
 """For every array shape, length and option value that Python can pass, the compiled correlation, maximum-entropy and
 displacement kernels access only elements inside the arrays they were given and the buffers they allocated, do not divide by a zero
 step or count, and terminate.""",
 ["inputs"], "for all array sizes (including empty and shorter than the number of coefficients) and option values",
 "The tests call the kernels with a few sizes; an out-of-bounds read of one element rarely changes the result.",
 ["c/correlation.c", "c/mem.c", "c/displacements.c"],
 [("loop bounds, allocation sizes and argument checks", "c/*.c")], [], ["extension module calls"])

prop("C12", "The C kernels release what they acquire and report every failure",
 """On every way out of a compiled kernel, each buffer and array reference it acquired has been released exactly once (or
 handed to the caller); every allocation or conversion is checked before use, and every error return leaves a Python
 exception set.""",
 ["inputs", "fault_sequences"], "for every path through each kernel, including conversion, argument and allocation failures",
 "Tests take only the success path, and leaks do not change results.",
 ["c/correlation.c", "c/mem.c", "c/displacements.c"],
 [("free / Py_DECREF / Py_XDECREF on exits", "c/*.c")], [], ["extension module calls"])

prop("C13", "Parallel kernels give the same answer for every thread schedule",
 """Inside the parallel regions of the compiled kernels, no two threads write the same memory location and no thread
 reads what another writes: results do not depend on the number of threads or their schedule.""",
 ["schedules"], "for all thread counts and schedules",
 "A race shows only under particular interleavings; the baseline tests do not use the parallel kernels at all.",
 ["c/correlation.c", "c/mem.c"],
 [("OpenMP pragmas and the writes inside them", "c/correlation.c, c/mem.c")], [], ["extension module calls"])

prop("C14", "All power-spectrum algorithms obey one interface",
 """Whichever spectrum algorithm is selected, it takes the projected velocities, trajectory and settings, analyses every
 mode (column) at every requested frequency, returns one real column per mode and one row per frequency, converts to eV*ps
 exactly once, and does not modify its inputs. An unknown algorithm or fitting-function number is rejected before any state changes.""",
 ["inputs", "configurations"], "for every registered algorithm, number of modes and frequency range",
 "Only two of the algorithms are exercised.",
 ["dynaphopy/power_spectrum/__init__.py", Q],
 [("power_spectrum_functions registry", "dynaphopy/power_spectrum/__init__.py")], [], ["get_power_spectrum_*"])

prop("C15", "All peak-fitting functions obey one interface",
 """Whichever fitting function is selected, a successful fit reports the same quantities under the same names
 (position, width, maximum, area, error), its curve is evaluated with the parameters in the order in which they were
 fitted, and a failed fit is reported as such and never read as if it had succeeded.""",
 ["inputs", "configurations"], "for every registered fitting function, both for converged and for failed fits",
 "The tests use two of the functions on data that converges.",
 ["dynaphopy/analysis/fitting/fitting_functions.py", "dynaphopy/analysis/fitting/__init__.py", Q],
 [("fitting_functions registry and its base class", "dynaphopy/analysis/fitting/fitting_functions.py")], [], ["phonon_fitting_analysis results"])

prop("C16", "Per-mode and per-wave-vector results stay aligned",
 """Peak positions, widths, shifts and the other per-mode quantities hold exactly one entry per phonon mode, and
 frequencies, linewidths, shifts and eigenvectors exactly one entry per commensurate wave vector, in the same order, whatever was
 skipped by symmetry or failed to fit.""",
 ["inputs"], "for every set of modes and wave vectors, any subset of which is skipped by symmetry or fails to fit",
 "In the tests no fit fails and only a few symmetry patterns appear.",
 ["dynaphopy/analysis/fitting/__init__.py", Q, "dynaphopy/analysis/fitting/fitting_functions.py"],
 [("lists accumulated in the analysis loops", "dynaphopy/analysis/fitting/__init__.py, dynaphopy/__init__.py")], [], ["get_commensurate_points_data"])

prop("C17", "Quantities are combined only in consistent physical units",
 """Every formula for energies, temperatures, spectra, populations and thermal properties combines quantities in
 consistent units (THz, eV, K, ps, Angstrom, amu, J/mol): terms that are added or compared have the same unit, arguments of exponentials
 and hyperbolic functions are pure numbers, and every occurrence of a physical constant has its accepted value in the unit it is used in.""",
 ["inputs"], "for all input values",
 "A missing or doubled conversion factor is a wrong number for every input; only a few end results are compared, with references produced by the code itself.",
 ["dynaphopy/analysis/thermal_properties.py", "dynaphopy/analysis/energy.py", "dynaphopy/analysis/fitting/fitting_functions.py", "dynaphopy/power_spectrum/__init__.py", "dynaphopy/interface/iofile/__init__.py"],
 [("constants and conversions", "dynaphopy/analysis/thermal_properties.py and others")], [], ["thermal properties, spectra, temperatures"])

prop("C18", "The element tables are complete, consistent and unambiguous",
 """The atomic number, symbol and mass tables agree with each other for every element: position in the table is the atomic number,
 symbol and atomic number determine each other one to one, masses are those of the element, and identifying an element from
 its mass yields exactly one element.""",
 ["inputs"], "for every chemical element",
 "The tests use seven elements.",
 ["dynaphopy/atoms.py", "dynaphopy/analysis/modes.py"],
 [("atom_data, symbol_map", "dynaphopy/atoms.py")], [], ["Structure"])

prop("C19", "Every per-atom supercell quantity uses the same atom order",
 """Positions, masses, elements, atomic numbers, charges and atom types expanded to a supercell list the atoms in one common order (all
 images of the first atom, then of the second, ..., first lattice direction fastest), and everything that generates,
 maps or reorders supercell atoms (force-constant reordering, generated cells and trajectories, LAMMPS links) uses that same order.""",
 ["inputs"], "for every unit cell, number of atoms and supercell size",
 "Most test supercells are symmetric under the exchange of directions, or too small to reveal a permuted order.",
 ["dynaphopy/atoms.py", "dynaphopy/interface/phonopy_link.py", "dynaphopy/generate_cell.py", "dynaphopy/interface/iofile/__init__.py", "dynaphopy/interface/lammps_link.py"],
 [("supercell expansion in Structure; get_correct_arrangement / dynaphopy_order", "dynaphopy/atoms.py, dynaphopy/interface")], [], ["Structure.get_*(supercell)"])

prop("C20", "Coordinates are never mixed between lattice, Cartesian and reciprocal frames",
 """Every conversion between fractional and Cartesian coordinates, unit cell, primitive cell and supercell, and direct and
 reciprocal space uses the matrix for that conversion in the right orientation, so results are right for non-orthogonal (triclinic, hexagonal) cells
 and anisotropic supercells as well as for cubic ones.""",
 ["inputs"], "for every cell shape, primitive matrix and supercell",
 "With cubic or orthogonal cells a missing transpose, or a row/column mix-up, gives the same numbers; the regression references are produced by the code itself.",
 ["dynaphopy/atoms.py", "dynaphopy/dynamics.py", "dynaphopy/analysis/coordinates.py", Q, "dynaphopy/interface/iofile/__init__.py", "dynaphopy/interface/iofile/trajectory_parsers.py", "dynaphopy/generate_cell.py", "dynaphopy/analysis/modes.py", "dynaphopy/interface/phonopy_link.py"],
 [("matrix products with cell, supercell and primitive matrices and their inverses", "see files")], [], ["positions, displacements, wave vectors"])

prop("C21", "Thermodynamic functions are mutually consistent",
 """For every temperature, frequency grid and density of states, free energy, entropy, heat capacity and total energy
 satisfy U = F + T*S, S = -dF/dT and Cv = dU/dT in the units in which they are reported, with the same treatment of the
 frequency range in all of them.""",
 ["inputs"], "for all temperatures, frequencies and densities of states",
 "One temperature and one material is compared with stored numbers.",
 ["dynaphopy/analysis/thermal_properties.py"],
 [("integrands of the thermodynamic functions", "dynaphopy/analysis/thermal_properties.py")], [], ["get_free_energy, get_entropy, get_cv, get_total_energy"])

prop("C22", "Input files are only read; analysis never alters the data it analyses",
 """No input file (structure, trajectory, force sets/constants, HDF5, input parameters) is ever opened with write access: reading works on read-only files and leaves them
 byte-identical. Analysis functions leave the arrays passed to them unmodified, so one trajectory or set of bands can be analysed any number of times with the same result.""",
 ["inputs", "histories"], "for every input file, every analysis function and any order of analyses",
 "Tests run as the owner of writable files and analyse each array once.",
 ["dynaphopy/interface/iofile/__init__.py", "dynaphopy/interface/iofile/trajectory_parsers.py", "dynaphopy/projection.py", "dynaphopy/power_spectrum/__init__.py", "dynaphopy/analysis/coordinates.py", "dynaphopy/analysis/energy.py", "dynaphopy/analysis/thermal_properties.py", "dynaphopy/analysis/fitting/__init__.py", "dynaphopy/interface/phonopy_link.py", "scripts"],
 [("open modes and mmap access; in-place array operations", "see files")], [], ["files on disk", "arrays passed by the caller"])

prop("C23", "Atoms taken from a live LAMMPS run are matched to the structure by atom id",
 """In a trajectory generated through the LAMMPS library, the rows of every stored velocity and position array are taken in the order of the
 LAMMPS atom ids and then arranged like the structure, so that a row belongs to the same atom in every frame and every array, whatever order
 LAMMPS holds its atoms in and however often it re-sorts them; velocities, positions and energy stored together come from the same step, and
 the times are as far apart as the sampled steps.""",
 ["inputs", "schedules"], "for every internal atom ordering and re-sorting interval of LAMMPS",
 "LAMMPS is not installed; nothing tests this link.",
 ["dynaphopy/interface/lammps_link.py"],
 [("reordering of gathered atoms by id", "dynaphopy/interface/lammps_link.py")], [], ["generate_lammps_trajectory"])

prop("C24", "No supported operation dies on an undefined name, attribute or argument",
 """Every code path of the package and its command-line tools refers only to names, attributes, methods, keyword
 arguments and format fields that exist, in the package itself and in the installed numpy, scipy, phonopy and h5py it
 supports, and both arms of a version fallback provide the same names.""",
 ["inputs", "configurations"], "for every reachable statement, whatever options select it",
 "Python resolves names when a statement runs; the tests execute a fraction of the statements.",
 ["dynaphopy", "scripts"],
 [("imports, definitions and calls", "whole package")], [], ["NameError, AttributeError, TypeError at run time"])

prop("C25", "A fatal error is reported to the shell as a failure",
 """Whenever the library or a command-line tool stops because of an error (missing or inconsistent input, unknown
 option value, unsupported format), the process ends with a non-zero exit status; only a requested, successfully completed action ends with status 0.""",
 ["inputs", "configurations"], "for every error exit",
 "No test runs the tools with wrong input.",
 ["dynaphopy", "scripts"],
 [("exit()/sys.exit() calls", "whole package")], [], ["process exit status"])

prop("C26", "Complex phases have unit modulus",
 """Every phase factor used to project onto, or to synthesise from, wave vectors, phonon modes and frequencies (and the
 discrete Fourier sums of the compiled kernels) is the exponential of a purely imaginary number, so that it changes phase and never
 amplitude, and a projection uses the complex-conjugate phase and eigenvector of the corresponding synthesis.""",
 ["inputs"], "for all wave vectors, positions, frequencies and phase offsets",
 "Amplitude errors scale with random phases and are invisible at the tested q-points.",
 ["dynaphopy/projection.py", "dynaphopy/interface/iofile/__init__.py", "dynaphopy/analysis/modes.py", "c/correlation.c", "c/mem.c"],
 [("exp/cexp of complex arguments", "see files")], [], ["projected velocities, generated trajectories, spectra"])

# ---- not claimed: numerical / statistical
prop("C30", "Different spectrum algorithms agree on the same trajectory",
 """Correlation, maximum-entropy and FFT spectra of the same trajectory agree within their statistical and resolution
 limits in peak position, width and integrated power.""",
 ["inputs"], "for all trajectories", "Only agreement with stored references is tested.",
 ["dynaphopy/power_spectrum/__init__.py", "c/correlation.c", "c/mem.c"], [("algorithms", "dynaphopy/power_spectrum")])
prop("C31", "Peak fits recover the true position and width of the peak",
 """For a spectrum made of a peak of the fitted shape plus noise, the fitted position and width converge to the true ones.""",
 ["inputs"], "for all spectra", "Only agreement with stored references is tested.",
 ["dynaphopy/analysis/fitting/fitting_functions.py"], [("curve_fit calls", "dynaphopy/analysis/fitting")])
prop("C32", "Renormalised force constants reproduce the frequencies they are built from",
 """Force constants rebuilt from frequencies and eigenvectors at the commensurate points give back those frequencies at those points.""",
 ["inputs"], "for all crystals and commensurate supercells", "Five crystals are tested.",
 ["dynaphopy/interface/phonopy_link.py"], [("get_renormalized_force_constants", "dynaphopy/interface/phonopy_link.py")])
prop("C33", "The full power spectrum integrates to the kinetic energy of the trajectory",
 """The integral of the full power spectrum equals the mean kinetic energy, and hence the temperature, of the trajectory.""",
 ["inputs"], "for all trajectories", "Not tested.",
 ["dynaphopy/power_spectrum/__init__.py"], [("normalisation", "dynaphopy/power_spectrum/__init__.py")])
prop("C34", "Analysing a synthetic harmonic trajectory returns the harmonic frequencies",
 """A trajectory generated from harmonic force constants yields, when analysed, zero shifts and resolution-limited widths.""",
 ["inputs"], "for all crystals", "Tested for few crystals.",
 [Q, "dynaphopy/interface/iofile/__init__.py"], [("whole chain", Q)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
