#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate that file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

MUSCL_H = ["src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h", "src/muscl/HydroBaseFunctor2D.h",
           "src/muscl/HydroBaseFunctor3D.h", "src/muscl/SolverHydroMuscl.h", "src/muscl/SolverHydroMuscl.cpp"]
MUSCL_M = ["src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h", "src/muscl/MHDBaseFunctor2D.h",
           "src/muscl/MHDBaseFunctor3D.h", "src/muscl/SolverMHDMuscl.h", "src/muscl/SolverMHDMuscl.cpp", "src/shared/mhd_utils.h"]
SDM = ["src/sdm/SolverHydroSDM.h", "src/sdm/SDM_Run_Functors.h", "src/sdm/SDM_Flux_Functors.h",
       "src/sdm/SDM_Interpolate_Functors.h", "src/sdm/SDM_Geometry.h"]
BC = ["src/shared/SolverBase.cpp", "src/shared/BoundariesFunctors.h", "src/shared/mpiBorderUtils.h"]
IO = ["src/utils/io/IO_HDF5.h", "src/utils/io/IO_HDF5.cpp", "src/utils/io/IO_ReadWrite.cpp", "src/utils/io/IO_VTK.cpp"]

prop("P01", "Finite-volume and spectral-difference updates are conservative",
 "In a fully periodic box without gravity, every time step of every solver (MUSCL hydro and MHD in 2D and 3D with every implementation variant and Riemann solver, and spectral-difference of every degree with every time integrator, with or without limiter and positivity correction) leaves the volume-integrated mass, each momentum component, total energy and, for MHD, each mean magnetic field component unchanged up to floating-point rounding. "
 "In a box closed by reflecting walls the MUSCL hydro solvers leave total mass and total energy unchanged up to rounding.",
 ["inputs", "configurations", "histories"],
 "all admissible initial states (smooth, shocked, random), grid shapes and aspect ratios, schemes, parameters and numbers of steps",
 "No existing test runs a MUSCL time step at all, and the SDM tests only look at the error of one smooth vortex; conservation is a statement about every state and every step.",
 MUSCL_H + MUSCL_M + SDM, [("flux computation and conservative update", "src/muscl/*RunFunctors*.h UpdateFunctor / UpdateDirFunctor / ComputeAndUpdate functors"),
  ("EMF update of B", "src/muscl/MHDRunFunctors*.h UpdateEmfFunctor"), ("flux divergence and RK update", "src/sdm/SolverHydroSDM.h compute_fluxes_divergence, time_int_*")],
 ["state array after every next_iteration()"])

prop("P02", "Magnetic field stays divergence-free",
 "The discrete divergence of the staggered magnetic field, computed from the left and right face values of each interior cell, is unchanged by every MHD time step up to rounding, in every interior cell whose faces are all advanced by the scheme (all cells for periodic directions, all but the outermost layer otherwise), for 2D and 3D, each implementation variant, each Riemann solver and each boundary type. "
 "Every built-in MHD problem starts with zero discrete divergence in the interior (implode: when inner and outer fields are equal), and restarting with doubled resolution from a divergence-free file that includes ghost cells yields a divergence-free field.",
 ["inputs", "configurations", "histories"],
 "all initial states and field strengths, grid shapes, boundary types, MPI layouts and numbers of steps",
 "No test runs the MHD solvers; the property must hold for every flow, not for one sampled configuration.",
 MUSCL_M + ["src/muscl/MHDInitFunctors2D.h", "src/muscl/MHDInitFunctors3D.h", "src/utils/io/IO_HDF5.h"],
 [("constrained transport", "src/muscl/MHDRunFunctors2D.h / 3D.h: EMF computation and update"), ("div-free prolongation on upscaling restart", "src/utils/io/IO_HDF5.h upscale")],
 ["state array after construction and after every next_iteration()"])

prop("P03", "Results do not depend on the MPI domain decomposition",
 "Running the same global problem on any number of MPI processes and any process grid (including 1 process, and the serial build) yields, after any number of steps, the same sequence of time steps and the same global solution up to rounding, for MUSCL hydro, MUSCL MHD and spectral-difference solvers, in 2D and 3D, for each boundary type and built-in problem (except that the random-noise perturbation of the Kelvin-Helmholtz problem draws from one generator per process).",
 ["configurations", "schedules", "inputs"],
 "all process grids mx,my,mz, message schedules, boundary types, solvers, problems and numbers of steps",
 "The test-suite runs only a communicator smoke test and an output test under MPI; nothing compares a decomposed run to an undecomposed one.",
 BC + ["src/shared/HydroParams.cpp", "src/utils/mpiUtils/MpiComm.cpp", "src/utils/mpiUtils/MpiCommCart.cpp", "src/sdm/SolverHydroSDM.h"],
 [("ghost exchange", "src/shared/SolverBase.cpp make_boundaries_mpi, transfert_boundaries_*"), ("topology and neighbours", "src/shared/HydroParams.cpp setup_mpi"), ("global dt", "src/shared/SolverBase.cpp compute_dt")],
 ["per-rank state arrays, t and dt after every step"])

prop("P04", "All implementation variants compute the same solution",
 "For given initial state and parameters, all implementation variants of the MUSCL hydro scheme (2 variants, with or without gravity) and of the MUSCL MHD scheme (3 variants) in 2D and 3D produce the same solution after every step, up to rounding, for every Riemann solver, slope-limiter setting, boundary type and grid shape.",
 ["configurations", "inputs", "histories"],
 "all pairs of variants, states, parameters, boundary types, grid shapes",
 "The variant is a performance choice; no test runs any of them, let alone two against each other.",
 MUSCL_H + MUSCL_M, [("implementationVersion switch", "src/muscl/Solver*Muscl.cpp computeFluxesAndUpdate / godunov_unsplit_impl")],
 ["state array after every next_iteration()"])

prop("P05", "Results do not depend on thread count or thread schedule",
 "For a fixed configuration the solution and the time steps are identical whatever the number of threads and however loop iterations are assigned to and interleaved between threads, for all solvers and initial conditions (except the random-noise perturbation of the Kelvin-Helmholtz problem, drawn from one generator per thread): bitwise, except that the implementation variants which accumulate fluxes with atomic additions may differ by rounding through the order of summation; no parallel loop has a data race.",
 ["schedules", "configurations"],
 "all numbers of threads, all iteration-to-thread assignments and interleavings, all solvers",
 "A test observes the few schedules the machine happens to produce, and the existing ones run one vortex with default threads.",
 MUSCL_H + MUSCL_M + SDM + BC, [("Kokkos parallel_for / parallel_reduce kernels", "all functors under src/muscl, src/sdm, src/shared")],
 ["state arrays, t and dt; thread-sanitizer reports"])

prop("P06", "No memory error, undefined behaviour or use of uninitialised data",
 "No run with valid input reads or writes outside an array, an array dimension or an object, uses freed or uninitialised memory for a decision or a stored result, or executes undefined arithmetic, whatever the solver, problem, grid shape, boundary types, output format, restart or MPI layout.",
 ["inputs", "configurations"],
 "all valid parameter files, including smallest and non-cubic grids",
 "The existing tests are compiled without instrumentation and never execute the MUSCL solvers, restart or output of MHD data.",
 MUSCL_H + MUSCL_M + SDM + BC + IO, [("array indexing in all functors", "src/muscl, src/sdm, src/shared"), ("buffers in I/O", "src/utils/io")],
 ["sanitizer, bounds-check and memcheck reports"])

prop("P07", "A restarted run continues the original run",
 "Stopping a run at any output step and restarting from the saved file (serial or MPI, with or without ghost cells in the file, any compression level, any process grid that matches the file) resumes with the same output number, time and state (exactly), and continues to the same solution as the uninterrupted run up to rounding, for the MUSCL hydro and MHD solvers. "
 "Restarting with doubled resolution from a ghost-inclusive file reproduces, in every coarse cell, the saved cell averages of the hydrodynamic variables, and on every coarse face the saved mean normal field.",
 ["crash_points", "configurations", "inputs"],
 "all output steps as stopping points, all solvers and output options",
 "No test restarts a run.",
 IO + ["src/shared/SolverBase.cpp", "src/muscl/SolverHydroMuscl.h", "src/muscl/SolverMHDMuscl.h", "src/sdm/SolverHydroSDM.h"],
 [("file loaders", "src/utils/io/IO_HDF5.h Load_HDF5, Load_HDF5_mpi"), ("restart initialisation", "init_restart")],
 ["state, iteration and time of restarted and uninterrupted runs"])

prop("P08", "Output files contain exactly the solution",
 "Every written HDF5 or VTK file contains, under the documented variable names, each interior value of the solution at the written time exactly (to the printed precision for text output) and at its right place, together with the right time, step number and grid description; ghost-inclusive files additionally contain the ghost values. "
 "This holds for every solver, dimension, ghost and compression option and process grid, and the XML wrapper files (pvti, pvtu, XDMF) reference exactly the files that were written, in order, with the sizes they have.",
 ["inputs", "configurations"],
 "all states, grid shapes, output options, process grids and numbers of outputs",
 "The I/O tests write one fixed array in one configuration and nothing reads the file back to compare values.",
 IO + ["src/utils/io/IO_VTK_SDM.h", "src/utils/io/IO_VTK_shared.cpp"],
 [("HDF5 writers", "src/utils/io/IO_HDF5.h Save_HDF5 / Save_HDF5_mpi"), ("VTK writers", "src/utils/io/IO_VTK.cpp"), ("xdmf writer", "src/utils/io/IO_HDF5.cpp writeXdmfForHdf5Wrapper")],
 ["files written vs. in-memory state"])

prop("P09", "Uniform states are preserved",
 "A spatially uniform state (any density, pressure, velocity and magnetic field) with periodic or zero-gradient boundaries and no gravity is a fixed point of every solver: after any number of steps each variable equals its initial value up to rounding, and the solvers keep velocity and pressure uniform when only density varies along one axis and everything moves at constant speed along that axis with the contact-resolving Riemann solvers of MUSCL hydro.",
 ["inputs", "configurations", "histories"],
 "all uniform states, solvers, variants, Riemann solvers, limiters, integrators, grid shapes",
 "Tests sample no uniform flow; a wrong metric, flux weight or sign shows only for states with specific components non-zero.",
 MUSCL_H + MUSCL_M + SDM, [("flux differences", "src/muscl/*RunFunctors*.h, src/sdm/SDM_Flux_Functors.h")],
 ["state array after every next_iteration()"])

prop("P10", "The schemes have no preferred direction",
 "Permuting the coordinate axes, mirroring an axis, or (with periodic boundaries) shifting the data cyclically by whole cells, applied to the initial state and grid parameters, changes the result of every step only by the same transformation, up to rounding, for all solvers, implementation variants and Riemann solvers.",
 ["inputs", "configurations", "histories"],
 "all states, all axis permutations, reflections and shifts, grid shapes and boundary types",
 "Equivariance relates pairs of runs; no test compares two runs, and no MUSCL run exists in the suite.",
 MUSCL_H + MUSCL_M + SDM + BC, [("per-direction code in every kernel", "src/muscl, src/sdm")],
 ["state array after every next_iteration()"])

prop("P11", "Positivity correction yields admissible states without changing averages",
 "With the positivity correction of the spectral-difference solver enabled, as long as every cell average has positive density and pressure, the correction produces positive density and pressure at every flux point, in every direction, where the fluxes are evaluated, leaves each cell average of every conservative variable unchanged up to rounding, and leaves cells that are already admissible untouched.",
 ["inputs", "configurations"],
 "all nodal states with admissible averages, degrees and dimensions",
 "No test enables the correction.",
 ["src/sdm/SDM_Positivity_preserving.h", "src/sdm/SolverHydroSDM.h"], [("theta rescaling", "src/sdm/SDM_Positivity_preserving.h")],
 ["state array before and after the correction"])

prop("P12", "Time step respects the stability limit and run control is exact",
 "Each time step equals the Courant number divided by the largest, over all interior cells (solution points for spectral difference, where the cell size is divided by the number of points per direction), of the summed per-direction ratio of signal speed (flow speed plus sound or fast magnetosonic speed) to cell size, reduced by the documented gravity factor when gravity is on and by the documented rescaling option of the spectral-difference solver, taken over all processes, shortened only so that the run lands on the end time. "
 "Time increases strictly by the time step, the step counter by one, and the run stops exactly when the end time or the maximum number of steps is reached, never later.",
 ["inputs", "configurations", "histories"],
 "all states (any cell may hold the fastest signal), grid shapes, Courant numbers, end times and step limits",
 "The only test prints one SDM time step; the maximum can sit in any cell and direction.",
 ["src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h", "src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h", "src/sdm/SDM_Dt_Functor.h", "src/shared/SolverBase.cpp"],
 [("compute_dt", "src/shared/SolverBase.cpp compute_dt and the ComputeDt functors"), ("loop control", "src/shared/SolverBase.cpp finished")],
 ["t, dt, iteration and state around every next_iteration()"])

prop("P13", "Riemann solvers are consistent, symmetric and upwind",
 "For all admissible left and right states, every hydro and MHD Riemann solver returns the physical flux when both states are equal, the mirrored flux when the states are mirrored, and (except Rusanov/LLF, which is central by design) the flux of the upwind state when all waves run to one side; a weak simple wave is transported to the side it runs to by every solver that resolves that wave (for HLL and LLF the fastest waves only); the contact-resolving solvers (approx, hllc, hlld) keep an isolated contact exactly, a wall (mirrored states, no normal field) gives zero mass and energy flux, and no solver returns a non-finite value.",
 ["inputs"],
 "all pairs of admissible states over many orders of magnitude, gammas, 2D and 3D interfaces",
 "No test calls a Riemann solver except through one vortex run.",
 ["src/shared/RiemannSolvers.h", "src/shared/RiemannSolvers_MHD.h", "src/shared/mhd_utils.h"],
 [("flux functions", "src/shared/RiemannSolvers.h, src/shared/RiemannSolvers_MHD.h")], ["fluxes returned by the Riemann solver entry points"])

prop("P14", "Parameter files mean what they say",
 "For every parameter file the value returned for a section and key is the one written in the file (names compared case-insensitively, comments and blanks ignored, a repeated key or an indented continuation line replaces the earlier value, the documented conversion for integers, reals and booleans), defaults are returned exactly for absent keys, and reading the file directly or from a memory buffer (as the MPI build does) gives the same result on every process.",
 ["inputs"],
 "all parameter files within the documented line-length limit",
 "The single test parses one fixed file.",
 ["src/utils/config/ConfigMap.cpp", "src/utils/config/inih/ini.cpp", "src/utils/config/inih/INIReader.cpp"],
 [("ini parser", "src/utils/config/inih/ini.cpp"), ("typed getters", "src/utils/config/ConfigMap.cpp, src/utils/config/inih/INIReader.cpp")],
 ["values returned by the getters vs. a reference parser"])

prop("P15", "Boundary conditions fill ghost cells as specified",
 "After the boundary update every ghost cell, edges and corners included, holds what its condition prescribes from interior data: the image cell with the normal momentum (and, for MHD, the normal field) reversed for reflecting walls, the nearest interior cell for zero-gradient, the periodic image for periodic; interior cells are untouched. "
 "Each face uses its own configured condition, in 2D and 3D, serial and MPI, and problem-specific boundaries (wedge, jet) impose their prescribed inflow, wall and outflow states.",
 ["inputs", "configurations"],
 "all combinations of conditions on the faces, grid shapes, states, process grids",
 "No test looks at a ghost cell.",
 BC + ["src/shared/BoundariesFunctorsWedge.h", "src/sdm/SDM_Boundaries_Functors.h", "src/sdm/SDM_Boundaries_Functors_Wedge.h", "src/sdm/SDM_Boundaries_Functors_Jet.h"],
 [("ghost fill functors", "src/shared/BoundariesFunctors.h, src/sdm/SDM_Boundaries_Functors*.h"), ("border buffers", "src/shared/mpiBorderUtils.h")],
 ["full arrays before and after the boundary update"])

prop("P16", "Process topology and communication wrappers follow MPI semantics",
 "The Cartesian topology gives every process distinct coordinates covering the process grid, each neighbour relation is mutual, and periodic directions wrap around; the point-to-point and collective wrappers deliver exactly the data, size and source that the corresponding MPI operation would, for every element type, size, root and reduction operator.",
 ["configurations", "inputs", "schedules"],
 "all process grids up to 8 processes, message sizes, roots, types and operators",
 "The single MPI smoke test prints from two wrappers on one layout.",
 ["src/utils/mpiUtils/MpiComm.cpp", "src/utils/mpiUtils/MpiComm.h", "src/utils/mpiUtils/MpiCommCart.cpp", "src/utils/mpiUtils/MpiCommCart.h", "src/shared/HydroParams.cpp"],
 [("wrappers", "src/utils/mpiUtils/MpiComm.cpp"), ("topology", "src/utils/mpiUtils/MpiCommCart.cpp")],
 ["data received and topology reported per process"])

prop("P17", "Spectral-difference operators are exact for polynomials",
 "For every degree and dimension the solution-to-flux-point interpolation, the flux-point derivative and the cell average and gradient operators reproduce every polynomial of the degree they are built for exactly up to rounding at any element position, and each time integrator reproduces its textbook stability polynomial on the resulting semi-discrete system.",
 ["inputs", "configurations"],
 "all polynomials up to the design degree, all supported degrees, dimensions, integrators",
 "The unit tests print or sample a few fixed functions.",
 SDM + ["src/sdm/SDM_Interpolate_viscous_Functors.h", "src/sdm/SDM_Limiter_Functors.h"],
 [("Lagrange matrices", "src/sdm/SDM_Geometry.h"), ("interpolation functors", "src/sdm/SDM_Interpolate_Functors.h"), ("time integrators", "src/sdm/SolverHydroSDM.h time_int_*")],
 ["arrays before and after each operator"])

prop("P18", "Euler-system primitives agree with the governing equations",
 "Conservative-primitive conversions are mutual inverses, fluxes and viscous fluxes equal their defining formulas, the characteristic transformation matrices are mutual inverses and diagonalise the flux Jacobian with the physical wave speeds, in each direction, for every admissible state.",
 ["inputs"],
 "all admissible states, gammas, directions, dimensions",
 "The existing eigen-decomposition test uses a single fixed state.",
 ["src/shared/EulerEquations.h", "src/shared/mhd_utils.h", "src/muscl/HydroBaseFunctor2D.h", "src/muscl/HydroBaseFunctor3D.h", "src/muscl/MHDBaseFunctor2D.h", "src/muscl/MHDBaseFunctor3D.h"],
 [("system definition", "src/shared/EulerEquations.h")], ["values returned"])

prop("P19", "Solutions converge to the exact solution at the design order",
 "On smooth problems the error against the exact solution shrinks with the design order as the grid is refined (second order for MUSCL hydro and MHD, N-th order for spectral difference with N points per direction), and on Riemann problems the solution converges to the exact entropy solution, along every axis and for every Riemann solver, variant and integrator.",
 ["inputs", "configurations"],
 "all wave types, propagation directions, solvers, variants, Riemann solvers, degrees",
 "The SDM tests sample one vortex without checking the order; MUSCL is not run at all.",
 MUSCL_H + MUSCL_M + SDM, [("reconstruction, trace, flux, update", "src/muscl"), ("SDM operators", "src/sdm")],
 ["final state vs. exact solution over a grid hierarchy"])

prop("P20", "Built-in problems start from their documented initial state",
 "Each built-in problem, for all values of its parameters, fills every interior cell (every solution point for spectral difference) with the documented function of position evaluated at the cell's true coordinates, with energy consistent with the stated pressure, and the same global field for every process grid; random perturbations (Kelvin-Helmholtz noise, field loop noise) stay within their stated amplitude.",
 ["inputs", "configurations"],
 "all problems, parameter values, grid shapes, domain extents, dimensions, process grids",
 "Only the isentropic vortex is exercised by a test.",
 ["src/muscl/HydroInitFunctors2D.h", "src/muscl/HydroInitFunctors3D.h", "src/muscl/MHDInitFunctors2D.h", "src/muscl/MHDInitFunctors3D.h", "src/sdm/init", "src/shared/problems"],
 [("init functors", "src/muscl/*InitFunctors*.h, src/sdm/init/*.h"), ("problem parameters", "src/shared/problems/*.h")],
 ["state array right after construction"])

prop("P21", "Gravity acts as the exact body force",
 "With gravity enabled, the MUSCL hydro solver changes total momentum per step by the time step times the mean of old and new density-weighted acceleration, changes energy by exactly the corresponding change of kinetic energy, leaves mass conserved, and a uniform gas in a periodic box falls with the prescribed acceleration, for every direction of gravity and both implementation variants.",
 ["inputs", "configurations", "histories"],
 "all states, gravity vectors and fields, dimensions, variants",
 "No test enables gravity.",
 MUSCL_H, [("gravity source", "src/muscl/HydroRunFunctors2D.h, src/muscl/HydroRunFunctors3D.h")],
 ["state array after every next_iteration()"])

prop("P22", "Lower-dimensional flows give lower-dimensional results",
 "A 3D run whose initial state does not vary along one axis stays invariant along that axis and reproduces the 2D run with the same data, time step and parameters up to rounding, for hydro, spectral-difference and MHD solvers (MHD: with no velocity or field along the invariant axis, which the 3D scheme evolves on edges; invariance itself holds with them too), for each choice of invariant axis.",
 ["inputs", "configurations", "histories"],
 "all invariant states and choices of axis, variants, Riemann solvers",
 "2D and 3D kernels are separate code that no test compares.",
 MUSCL_H + MUSCL_M + SDM, [("separate 2D and 3D kernels", "src/muscl/*2D.h vs *3D.h; dim specialisations in src/sdm")],
 ["state arrays of paired 2D and 3D runs"])

prop("P23", "Slope limiting keeps averages and removes new extrema",
 "The spectral-difference limiter never changes a cell average of any conservative variable, leaves linear data (and cells that satisfy its smoothness criterion) untouched, and replaces a flagged cell by a linear function with limited gradient; in MUSCL, advecting a density profile along an axis at constant velocity and pressure creates no density outside the initial range.",
 ["inputs", "configurations"],
 "all nodal data, degrees, dimensions, limiter constants, slope types",
 "No test enables a limiter.",
 ["src/sdm/SDM_Limiter_Functors.h", "src/sdm/SolverHydroSDM.h", "src/muscl/HydroBaseFunctor2D.h", "src/muscl/HydroBaseFunctor3D.h"],
 [("limiter functors", "src/sdm/SDM_Limiter_Functors.h"), ("slopes", "src/muscl/*BaseFunctor*.h")],
 ["state array before and after limiting"])

prop("P24", "Outputs are written at the requested times with consecutive numbers",
 "A run writes the initial state, one output at the first step that reaches each requested output time, and the final state, numbered consecutively from zero without gaps or overwriting, with strictly increasing times, and none when output is disabled; the wrapper file lists each exactly once.",
 ["configurations", "histories"],
 "all output counts, end times, step limits and formats",
 "No test runs the main program.",
 ["src/shared/SolverBase.cpp", "src/main.cpp", "src/utils/io/IO_ReadWrite.cpp"],
 [("save decision", "src/shared/SolverBase.cpp should_save_solution, save_solution"), ("main loop", "src/main.cpp")],
 ["files written by the real program"])

prop("P25", "Results do not depend on the system of units",
 "Writing the same problem in other units of length, density and velocity (time, pressure, magnetic field, gravity and the density and sound speed cut-offs following) multiplies every variable of the solution and every time step by exactly the corresponding unit factors and changes nothing else, for every MUSCL and spectral-difference solver, implementation variant, Riemann solver, slope type, limiter, integrator, boundary type and gravity.",
 ["inputs", "configurations", "histories"],
 "all states away from the absolute cut-offs (pressure 1e-7 of the spectral-difference equations), unit factors, configurations",
 "Every test uses one system of units (values of order one), where a missing factor or an absolute constant cannot show.",
 MUSCL_H + MUSCL_M + SDM, [("kernels", "src/muscl/*.h, src/sdm/*.h"), ("time step", "compute_dt functors"), ("cut-offs", "src/shared/HydroParams.cpp")],
 ["state and time step after every step of paired runs"])

prop("P26", "A step changes the solution only within the reach of the scheme",
 "For a step of given length the new state of a cell depends only on the old state of the cells within a fixed distance, two cells for MUSCL hydro, three for MUSCL MHD and one per Runge-Kutta stage (two with the limiter) for the spectral-difference solvers, counted through periodic boundaries: whatever happens farther away, the cell's new state is the same bit by bit.",
 ["inputs", "configurations"],
 "all pairs of states that differ in a region, solvers, variants, Riemann solvers, integrators, boundaries",
 "A test sees one state at a time; dependence on remote cells (stale scratch data, wrong strides, reductions leaking into the update) needs a pair.",
 MUSCL_H + MUSCL_M + SDM, [("stencils", "src/muscl/*RunFunctors*.h, src/sdm/*Functors*.h"), ("scratch arrays", "src/muscl/SolverHydroMuscl.h, src/muscl/SolverMHDMuscl.h, src/sdm/SolverHydroSDM.h")],
 ["states after one step of paired runs"])

prop("P27", "A parameter file's scheme options select the scheme they name",
 "One step of every solver is the update its options name, up to rounding: MUSCL of any variant adds the differences of the named Riemann solver's fluxes between states reconstructed with the named slopes (slope_type 0 none, 1 minmod, 2 monotonised central) and advanced by half a step with all directional derivatives, on cells of any aspect ratio; MHD advances the face field by the differences of the named solver's electromotive forces of the four states around each cell edge, built from the face field, its limited transverse slopes and its own half step; the spectral-difference solver takes the derivative of the flux polynomial through the physical fluxes inside and the named Riemann flux at the element ends. llf is the mean flux minus half the largest signal speed times the jump, hll the two-wave flux with bounding speeds; gamma0 and niter_riemann are those of the file, a missing option takes its default and an unknown Riemann solver name means approx.",
 ["inputs", "configurations"],
 "all states away from cut-offs, solvers, variants, dimensions, Riemann solvers, slope types, aspect ratios, boundary types, degrees",
 "Tests run single configurations and look at no fluxes; a wrong option, limiter or predictor still gives plausible pictures.",
 MUSCL_H + MUSCL_M + SDM + ["src/shared/HydroParams.cpp", "src/shared/RiemannSolvers.h", "src/shared/RiemannSolvers_MHD.h"],
 [("options", "src/shared/HydroParams.cpp"), ("slopes and traces", "src/muscl/*BaseFunctor*.h"), ("fluxes and update", "src/muscl/*RunFunctors*.h, src/sdm/SDM_Flux_Functors.h, src/sdm/SDM_Run_Functors.h"), ("dispatch", "src/shared/RiemannSolvers.h riemann_hydro, src/shared/RiemannSolvers_MHD.h riemann_mhd")],
 ["state before and after one step, fluxes returned by the Riemann-solver entry points"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
