"""Source of properties.jsonl and MANIFEST.json: run it after editing (python3 tools/props.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}


def prop(pid, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None, level="model_checking"):
    assert len(title) <= 80, title
    P[pid] = {
        "line": {
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                "observe_at": observe, "hook_needed": None,
            },
        },
        "technique": technique, "note": note, "level": level,
    }


W = "wx_factory/"

prop("P01", "Each tile's edge gets its true neighbour's values, in its own frame and order",
     "After an exchange of edge values between the tiles of the cubed sphere, every process holds at each of its four edges "
     "the values of the tile that lies across that edge on the sphere, in the order of its own grid points, and vectors "
     "(covariant or contravariant) are expressed in its own coordinates. This holds for every number of processes (6 times a "
     "square), edge, array layout and size, number of exchanges in flight and order in which they are completed, however "
     "late messages are sent and delivered. The exchange never waits forever and leaves the values sent unchanged.",
     ["schedules", "configurations", "inputs"],
     "all process counts 6*k^2 within bounds, all edges of all tiles, layouts, sizes, orders of completion, message timings and interleavings of the processes",
     "The tests compare a few scalar and vector exchanges with one MPI library's timing; they cannot force late delivery, other "
     "completion orders, or compare each edge and both kinds of vectors with the geometry of the sphere.",
     [W + "process_topology.py"],
     [("neighbour tables, flips and conversion of vectors at panel edges", W + "process_topology.py ProcessTopology.__init__"),
      ("non-blocking exchange", W + "process_topology.py start_exchange_scalars / start_exchange_vectors")],
     ["values returned by the exchange requests of the topology on each process"],
     "explicit-state exploration of message timings and schedules of the real exchange code on a model MPI; 3-D geometry oracle",
     "Real topology code runs on a model of MPI with controlled scheduling; model MPI bound to the real library by replaying the same programs under mpiexec. Bounds on process counts and sizes.")

prop("P02", "Gathering and distributing global fields places every value and inverts exactly",
     "Gathering the tiles of all processes builds, on the process that asked, the array of the six panels where each value "
     "is at the row and column of its own grid point, and distributing such an array gives each process its own tile; each "
     "operation undoes the other exactly, for every number of processes, number of dimensions, size and type. "
     "A global array that cannot be divided among the processes is refused by every process, which then can go on together.",
     ["configurations", "inputs", "schedules"],
     "all process counts within bounds, all shapes and types within bounds, sequences of operations, schedules",
     "Tests use 6 and 24 processes with one or two shapes and MPI's own schedule.",
     [W + "process_topology.py"],
     [("gather and distribute", W + "process_topology.py gather_cube / distribute_cube")],
     ["arrays returned by gather and distribute"],
     "exhaustive enumeration of shapes, types and histories under controlled schedules of the real code on a model MPI",
     "Exhaustive within the listed shapes and process counts; model MPI bound to the real library by replay.")

prop("P03", "Single-process sections run once, and all processes agree on the outcome",
     "A section of work delegated to one process runs on that process only, and exactly once. All processes of the group then "
     "get the same result, or all of them see the same failure whatever its kind; nobody continues before the section has ended, "
     "and nobody waits forever. This holds for every interleaving, every place where the work can fail, nested and repeated "
     "sections, groups smaller than all processes, results that cannot be sent, and also when opening an output file or building compiled kernels.",
     ["schedules", "fault_sequences", "programs"],
     "all interleavings of the processes, all single failures, all programs of one and two sections over the alphabet",
     "Tests run one or two sections with one schedule and one kind of exception.",
     [W + "wx_mpi.py", W + "output/output_manager.py", W + "compiler/compile_kernels.py", W + "device/device.py"],
     [("single-process context and its exchange of results and failures", W + "wx_mpi.py SingleProcess, Conditional, do_once")],
     ["returned values, exceptions, and order of the file-system effects on each process"],
     "explicit-state exploration of all interleavings of the real code on a model MPI, with fault injection",
     "All interleavings for the listed numbers of processes and program lengths; replayed on the real MPI for conformance.")

prop("P04", "The result of a simulation does not depend on the number of processes",
     "For a given configuration, grid point positions, topography, initial state, tendencies, states after any number of time steps "
     "and global diagnostics printed or computed are, to rounding error, the same for every number of processes that may run it, "
     "for every equation set, test case, grid orientation, time integrator and solver, and for every schedule of the processes.",
     ["configurations", "schedules", "inputs"],
     "all admissible process counts within bounds, equation sets, cases, integrators, exponential solvers, linear-solver options; message timings",
     "Each test runs with one number of processes and never compares two decompositions.",
     [W + "simulation/simulation.py", W + "process_topology.py", W + "geometry/cubed_sphere_2d.py", W + "geometry/cubed_sphere_3d.py",
      W + "solvers/global_operations.py", W + "solvers/kiops.py", W + "solvers/fgmres.py", W + "output/diagnostic.py"],
     [("global reductions", W + "solvers/global_operations.py"), ("tile extents", W + "geometry/cubed_sphere_2d.py"),
      ("edge exchange", W + "process_topology.py")],
     ["states, tendencies and diagnostics assembled from all processes"],
     "exhaustive enumeration of decompositions x configurations of real simulations under controlled schedules on a model MPI (self-composition)",
     "Runs the real simulations with 6, 24, 54 (96) model processes and compares assembled fields; rounding tolerance scaled to the solver's own tolerance.")

prop("P05", "Stopping and restarting gives the run that was never stopped",
     "A run stopped after any number of steps and restarted from the state that was saved there goes through the same states "
     "as the uninterrupted run and ends with the same state at the same time, for every set of stopping points, step "
     "of a saved state, equation set, and time integrator that keeps no history. The saved state may be read back by another number "
     "of processes. With an integrator that keeps history, the restarted run remains within its order of accuracy.",
     ["histories", "configurations"],
     "all subsets of stopping points of a 4-step run, all saved steps, process counts before and after, integrators, problems",
     "One test restarts once, from one step, with one integrator and the same processes.",
     [W + "simulation/simulation.py", W + "output/state.py", W + "output/output_manager.py"],
     [("state files", W + "output/state.py"), ("starting step", W + "simulation/simulation.py")],
     ["states after each step of each leg, state files"],
     "exhaustive enumeration of stop/restart histories of the real simulation, compared with the uninterrupted run",
     "All histories within 4 steps; comparison is exact for one-step methods on the same number of processes.")

prop("P06", "A damaged or foreign saved state is never taken for a good one",
     "If the saved state to start from is missing, cut anywhere by a crash while it was being written, or holds something other "
     "than a state of the shape this run needs, then every process ignores it, says so, and the run starts from the initial state "
     "at step 0. All processes take the same decision, nobody waits forever, and an intact state is always used.",
     ["crash_points", "inputs", "schedules"],
     "every prefix of the file, every shape deviation, every schedule, on several process counts and equation sets",
     "Tests only read intact files.",
     [W + "output/state.py", W + "simulation/simulation.py"],
     [("loading of a state and fallback", W + "simulation/simulation.py _determine_starting_state"), ("state format", W + "output/state.py")],
     ["starting step and state of each process"],
     "exhaustive enumeration of crash points (all prefixes) and file contents, under controlled schedules of the real code",
     "Every truncation length for the smallest problem; strided for larger ones in quick.", level="fault_enumeration")

prop("P09", "Steps, final time and output times follow from end time and time step exactly",
     "A run takes exactly as many steps as needed to reach the end time, all of the configured length except that the last one may be "
     "shorter so that the run ends at the end time; a run restarted at a step takes the remaining ones. Stepping by hand or with a complete run, "
     "in any mixture, is the same and going beyond the end is refused or does nothing. Each output, "
     "state file and statistics line comes exactly at the multiples of its frequency and at the end where promised, with the time of that step.",
     ["configurations", "histories"],
     "end times and time steps on a grid including decimal fractions, starting steps, frequencies, ways of driving",
     "Tests run a few steps with an end time that is a multiple of the step.",
     [W + "simulation/simulation.py", W + "output/output_manager.py"],
     [("time loop", W + "simulation/simulation.py run / step"), ("output schedule", W + "output/output_manager.py step")],
     ["sequence of (step, time, length of step) given to integrator and outputs; files written"],
     "exhaustive enumeration of (end time, step, start, frequencies, driving) with the real loop, against exact rational arithmetic",
     "Grid of time steps and end times including non-representable decimals; the loop is driven with a probe integrator.")

prop("P10", "Output, diagnostics, saving and statistics never change the computed states",
     "For every combination of output frequency, output format, state saving, statistics, block diagnostics and verbosity options, the states of "
     "the run after each step are bit for bit those of the run without any of them, for every equation set, test case and integrator.",
     ["configurations"],
     "all pairs (thorough: all combinations) of observation options, problems, integrators, process counts",
     "Tests never compare a run with output on and the same run with output off.",
     [W + "output/output_manager.py", W + "output/output_cubesphere.py", W + "output/output_cubesphere_netcdf.py", W + "output/diagnostic.py", W + "output/solver_stats.py"],
     [("output steps between time steps", W + "output/output_manager.py step")],
     ["state after each step"],
     "exhaustive enumeration of option combinations of real runs (self-composition)",
     "Pairwise combinations in quick, full product in thorough, on several problems.")

prop("P11", "A not-a-number anywhere stops all processes at that step, writing nothing",
     "If the state of any process holds a not-a-number after a step, then all processes stop with an error at that very step, whatever subset of them is affected, and "
     "wherever in the state it is, and no output or state file is written for that step or later. A finite state never stops a run.",
     ["fault_sequences", "schedules", "inputs"],
     "all subsets of affected processes, positions, steps, schedules",
     "Tests have no failing state.",
     [W + "simulation/simulation.py"],
     [("check of the state after each step", W + "simulation/simulation.py")],
     ["exceptions raised on each process, files written, steps taken"],
     "exhaustive enumeration of fault subsets, positions and schedules with the real time loop on a model MPI",
     "All subsets of 6 processes; positions exhaustive on small states.", level="fault_enumeration")

prop("P19", "Positions, winds, metric, rotation terms and integrals are those of the sphere",
     "On every process, every grid point is where the rotated cubed sphere puts it; conversion of winds to and from grid components, over "
     "flat ground and topography, are those of the geometry and undo each other. The metric terms, area and volume elements, curvature and rotation (Coriolis) terms equal those of "
     "the sphere at every point, for every orientation, tile, resolution, and depth approximation; global integrals, energy, vorticity and potential vorticity "
     "diagnostics equal the analytic values up to the accuracy of the discretisation.",
     ["configurations", "inputs"],
     "orientations, process counts, resolutions, orders, flat and mountain problems, shallow and deep atmosphere, all tiles and points",
     "Tests check a few symmetries for one orientation and no curvature or rotation terms.",
     [W + "geometry/cubed_sphere_2d.py", W + "geometry/cubed_sphere_3d.py", W + "geometry/metric2d.py", W + "geometry/metric3d.py", W + "output/diagnostic.py"],
     [("coordinates and wind conversions", W + "geometry/cubed_sphere_2d.py, cubed_sphere_3d.py"), ("metric terms", W + "geometry/metric2d.py, metric3d.py"),
      ("diagnostics", W + "output/diagnostic.py")],
     ["arrays of geometry and metric, values returned by diagnostics"],
     "exhaustive enumeration of configurations, tiles and points of the real geometry on a model MPI against a 3-D vector-geometry model",
     "Exhaustive over the listed configurations; the oracle is independent vector calculus in 3-D.")

prop("P21", "The solution file holds the state of each record's step at the right place",
     "Each record of the solution file is written for the step whose time it carries, and each variable in it (fluid height above sea level, eastward, northward and upward "
     "wind, vorticity and potential vorticity, density, potential temperature, pressure) is, at the panel, level, row and column of each grid point, the "
     "value that follows from the state of that step at that point. Coordinates (longitude, latitude, panel coordinates, elevation, topography, time and its unit) are those of the grid. "
     "This holds for every number of processes, orientation, resolution, test case and output frequency.",
     ["configurations", "schedules"],
     "process counts, problems, orientations, resolutions, frequencies, schedules; every variable, record and point",
     "Tests only check that output does not crash.",
     [W + "output/output_cubesphere_netcdf.py", W + "output/output_cubesphere.py", W + "output/diagnostic.py", W + "process_topology.py"],
     [("writing of a record", W + "output/output_cubesphere_netcdf.py __write_result__"), ("gathering", W + "process_topology.py gather_cube")],
     ["the netCDF file"],
     "exhaustive enumeration of configurations and decompositions of real runs on a model MPI; file read back and compared with states and vector geometry",
     "Every point of every variable of every record in the listed configurations.")

prop("P22", "A run starts iff its processes can share the grid: on all of them or none",
     "A configuration is admitted if and only if the number of processes is one that divides the grid into equal tiles of a permitted size "
     "(and then it runs with exactly the configured grid); otherwise all processes refuse it with the same explanation, without waiting for one another forever. "
     "The lists of process counts announced to the user are exactly those that are admitted, and starting from the command line ends with "
     "an error on every process when the configuration is wrong or missing.",
     ["configurations"],
     "all elements-per-side and process counts within bounds; valid, wrong and missing configurations",
     "Tests try a handful of pairs.",
     [W + "simulation/simulation.py", W + "process_topology.py", W + "geometry/cubed_sphere_2d.py", "WxFactory"],
     [("admission", W + "simulation/simulation.py, process_topology.py")],
     ["outcome on each process"],
     "exhaustive enumeration of (grid, process count) pairs with the real start-up on a model MPI",
     "All pairs within bounds.")

prop("P20", "Solver statistics: each solve recorded once, whole, whatever became of the file",
     "With solver statistics on, each step of each run adds exactly one record with its own run, step number, time, iterations and flag, and its residuals and right-hand-side timings "
     "exactly once, and leaves the records of other runs alone, in a file that is new, holds earlier runs or comes from an older format. "
     "This also holds when an earlier run was killed at any statement and when two runs share the file at the same time. A file that cannot be used stops all processes, with an error.",
     ["histories", "crash_points", "schedules", "fault_sequences"],
     "histories of runs on one file, older formats, kills before every statement, two runs at all pairs of statements, unusable files",
     "The tests write one run in a new file; kills, sharing and older files are never tried.",
     [W + "output/solver_stats.py", W + "output/output_manager.py", W + "integrators/integrator.py"],
     [("tables", W + "output/solver_stats.py create_results_table"), ("records", W + "output/solver_stats.py write_output"), ("timings", W + "integrators/integrator.py step")],
     ["all rows of the database after each history", "status of each process"],
     "exhaustive enumeration of run histories, kill points and interleavings (at SQL statements) of real runs against a model of the file",
     "All histories within bounds, all kill points, all pairs of preemption points; SQLite itself is trusted.")

prop("P23", "Each test case starts from the fields its publication gives, at every point",
     "The initial state of each supported test case (shallow water 2, 5, 6, 8, 9, 10; Euler on the sphere 21, 22, 31, 77; Cartesian 1, 2, 3) has at every grid point the mass, "
     "winds, temperature and surface that its publication prescribes at that point's true position. "
     "This holds for every orientation of the grid, resolution, number of processes and option of the case.",
     ["configurations"],
     "all listed cases x orientations x resolutions x process counts x case options",
     "The tests start a few cases at one orientation and do not compare with the formulas.",
     [W + "init/shallow_water_test.py", W + "init/dcmip.py", W + "init/initialize.py", W + "init/matsuno.py", W + "init/init_state_vars.py"],
     [("shallow water", W + "init/shallow_water_test.py"), ("Euler on the sphere", W + "init/dcmip.py"), ("Cartesian", W + "init/initialize.py initialize_cartesian2d"), ("waves", W + "init/matsuno.py")],
     ["initial state and topography on every process"],
     "exhaustive enumeration of configurations within bounds with the real start-up on a model MPI, against the published formulas at independently computed positions",
     "All points of all tiles in the listed configurations.")

prop("P24", "A run always uses kernels built from the sources as they are now",
     "Whatever was edited (any source or header), built, interrupted, broken or deleted before, and from whichever directory, compiling and loading the kernels gives on all processes a module that behaves as the current sources say, "
     "built by one process only; if the sources do not compile then no process loads anything.",
     ["histories", "crash_points"],
     "all sequences of edits, builds, forced builds, kills between compiler calls, broken sources and removals up to a length",
     "The test compiles once, from scratch.",
     [W + "compiler/compile_kernels.py", W + "wx_mpi.py", W + "device/device.py"],
     [("what is rebuilt", W + "compiler/compile_kernels.py WxExtension"), ("one process builds", W + "compiler/compile_kernels.py compile")],
     ["values returned by the loaded module", "files compiled"],
     "exhaustive enumeration of operation sequences (edits, builds, kills, removals) up to a depth on the real builder with small stand-in sources",
     "All sequences up to the depth; every real source and header edited once.")

prop("P25", "The program ends on all processes, with success exactly when the run succeeded",
     "Started from the command line, the program ends on every process; its status is zero when the run reached its end or only information was asked for, and the first process ends with a non-zero status when the "
     "configuration is wrong, the state became not-a-number, the solver of the time integrator failed or the run was interrupted at any moment. "
     "The solution written before a failure or an interruption is kept in a readable file.",
     ["configurations", "crash_points"],
     "kinds of failure x command-line flags x process counts; an interrupt or an MPI error before every MPI operation",
     "No test runs the program itself, and a failure can happen at any point.",
     ["WxFactory", W + "simulation/simulation.py", W + "output/output_manager.py", W + "wx_mpi.py"],
     [("end of the program", "WxFactory main"), ("steps", W + "simulation/simulation.py run")],
     ["status of each process", "records in the solution file"],
     "exhaustive enumeration of failures and of interruption points of the real program on a model MPI",
     "All listed failures; all MPI operations of a run of two steps.")

prop("P26", "Stiff test problems: grid operators and solutions do not depend on the processes",
     "On a square grid shared by a square of processes, the Laplacian and advection operators with each boundary condition, the tendencies of the four stiff problems and their Jacobian products have at each point the value of the finite-difference stencil on the whole grid, "
     "and the Jacobian products are the derivatives of the tendencies. "
     "Their exponential integrators have the order they are named for and give the same solution on any number of processes; grids that cannot be shared evenly are refused.",
     ["inputs", "schedules", "configurations"],
     "all unit fields and pairs of them on small grids, on 1, 4, 9 and 16 processes; schedules; equations x integrators",
     "No stable test touches this part; errors at the joints between processes only show at some points.",
     [W + "stiff_pdes/JTV.py", W + "stiff_pdes/initWorld.py", W + "stiff_pdes/rhs_jac_pdefuncs.py", W + "stiff_pdes/print_stuff.py", W + "integrators/epi_for_others.py", W + "integrators/srerk_for_others.py"],
     [("operators", W + "stiff_pdes/JTV.py"), ("sharing of the grid", W + "stiff_pdes/initWorld.py"), ("equations", W + "stiff_pdes/rhs_jac_pdefuncs.py"), ("integrators", W + "integrators/epi_for_others.py, srerk_for_others.py")],
     ["values at every point"],
     "exhaustive enumeration of unit fields (which determine the operators), grids, process counts and scheduling policies of the real code on a model MPI",
     "All unit fields and pairs within bounds; schedules by all one-process-first and one-process-last policies, with and without waiting sends.")

prop("P27", "Printed diagnostics are the true global sums, extremes and errors of their step",
     "With block statistics on, one block is printed, by the first process only, for each step due: on the sphere (shallow water) the global integrals of mass, total energy and potential enstrophy of the first block, "
     "their relative changes since then, and for the steady cases (2, 10) the relative errors l1, l2 and linf in the height; in the vertical plane the minimum, maximum and mean over the grid points of density, winds and potential temperature. "
     "Every number is that of the global state at that step, for every number of processes, orientation, topography, first step and history of states.",
     ["histories", "configurations", "inputs"],
     "all sequences of states up to a length after the first one, runs, restarts, frequencies, cases, orientations, grids, process counts",
     "No test reads these numbers, which users judge results by; a wrong sum over processes or metric factor still looks plausible.",
     [W + "output/diagnostic.py", W + "output/output_cubesphere.py", W + "output/output_cartesian.py", W + "output/output_manager.py"],
     [("integrals", W + "output/diagnostic.py"), ("blocks on the sphere", W + "output/output_cubesphere.py __blockstats__"), ("blocks in the plane", W + "output/output_cartesian.py __blockstats__")],
     ["text printed by each process"],
     "exhaustive enumeration of histories of states and of configurations on the real code (model MPI), against integrals computed from independent geometry",
     "All histories, frequencies, cases and grids listed; numbers to the printed digits.")

prop("P07", "A configuration is read exactly as the schema says, or refused",
     "Reading a configuration text gives every option the value written in its own section, converted to its declared type, or else its default, "
     "only if the condition it depends on holds; it is refused if an option needed has neither, a value cannot be converted or is outside its range or choices, or a joint rule is broken. "
     "Order, unknown options and other sections have no influence. Loading, changing or copying one configuration never changes another.",
     ["inputs", "configurations", "histories"],
     "all options x values (valid, boundary, wrong, missing) alone and in pairs, layouts, schemas, sequences of loads and copies",
     "The tests read a few files; interactions of options, boundary values and conditions are combinatorial.",
     [W + "common/configuration.py", W + "common/configuration_schema.py", "config/config-format.json"],
     [("reading an option", W + "common/configuration_schema.py ConfigurationField.read"), ("conditions and joint rules", W + "common/configuration.py"),
      ("schema", W + "common/configuration_schema.py ConfigurationSchema")],
     ["attributes of the configuration object, or the exception"],
     "exhaustive enumeration of configuration texts, generated schemas and load/copy histories on the real reader against an independent interpreter of the schema",
     "All options, pairs of options, generated schemas and histories within the stated value lists.")

prop("P08", "Grid angles fit 24 bits without drift; expressions are exact or refused",
     "Every 24-bit code denotes its own angle in [-pi, pi) and gives that code again; every angle gets the nearest code, whatever full turns it contains. "
     "An arithmetic expression (numbers, pi, + - * /, unary minus, parentheses) has the value arithmetic gives it, and any other text is refused without being executed.",
     ["inputs"], "all 2^24 codes, points between them, all token strings up to a length",
     "The tests encode a few angles and evaluate a few expressions.",
     [W + "common/angle24.py", W + "common/eval_expr.py"],
     [("code", W + "common/angle24.py encode / decode"), ("expressions", W + "common/eval_expr.py eval_expr")],
     ["values returned"],
     "exhaustive enumeration of all codes and of all token strings up to a length on the real code",
     "All codes; all strings within the length bound.")

prop("P12", "A tendency depends on its state alone, and evaluating it changes nothing else",
     "The tendency of a state is the same whatever was evaluated before it (other states, real or complex numbers, Jacobian products), in whatever order and however often. "
     "Evaluating it leaves the state, the grid, the metric and the topography unchanged, and the result returned earlier is never altered by a later evaluation. "
     "This holds for the three sets of equations, and for every grid and number of processes.",
     ["histories", "configurations", "inputs"],
     "all sequences of calls up to a length over real and complex states and Jacobian products, grids, process counts",
     "Tests evaluate a tendency once or through a whole run, so workspace kept between calls never shows.",
     [W + "rhs/rhs_dfr.py", W + "rhs/rhs_sw.py", W + "rhs/rhs_selector.py", W + "pde/pde.py"],
     [("tendencies and their work arrays", W + "rhs/rhs_dfr.py RHSDirecFluxReconstruction"), ("shallow water", W + "rhs/rhs_sw.py RhsShallowWater")],
     ["arrays returned by the tendency functions of a simulation; arrays of geometry, metric and topography before and after"],
     "exhaustive enumeration of all call sequences up to a length on the real code (model MPI), against a freshly built model",
     "All sequences of the stated length over the stated letters and grids; C-contiguous states, as the integrators pass.")

prop("P13", "Tendencies conserve mass exactly and converge to the equations of motion",
     "The tendency of the global content of mass (and of density times potential temperature) vanishes to rounding for every state, on every grid, orientation and number of processes. "
     "For smooth flows the tendencies approach those of the continuous equations as the resolution grows: shallow water with topography, rotating Euler equations on the sphere over flat and "
     "mountainous terrain in a shallow or deep atmosphere, Euler equations in a vertical plane with walls; the mountain-wave cases (21, 22) add exactly the damping of their upper layer. A steady state of the equations stays steady within that error.",
     ["inputs", "configurations"],
     "rough and smooth states, flows, terrain, shallow/deep, orientations, orders, resolutions, process counts",
     "Tests run a few standard cases for a few steps and look at norms; a lost or doubled term of a flux, metric or force term hardly changes them.",
     [W + "rhs/rhs_dfr.py", W + "rhs/rhs_sw.py", W + "pde/fluxes.py", W + "pde/kernels/riemann_flux.hpp", W + "pde/pde_euler_cubesphere.py", W + "geometry/metric3d.py", W + "geometry/operators.py"],
     [("shallow water tendency", W + "rhs/rhs_sw.py RhsShallowWater"), ("Euler tendency", W + "rhs/rhs_dfr.py and pde/"), ("metric terms", W + "geometry/metric3d.py build_metric")],
     ["array returned by the tendency function of a simulation, converted to winds"],
     "exhaustive enumeration of states, flows, orientations and grids on the real code (model MPI); oracle: equations differentiated symbolically",
     "All listed flows, orientations and grids; polynomial flows; convergence judged on two resolutions.")

prop("P14", "Jacobian-vector products are the derivative of the tendency, in every direction",
     "The product of the Jacobian with a vector, by complex step, by finite differences or in the rational form of the implicit schemes, is the derivative of the tendency in that direction, "
     "to the accuracy of the method, for every direction (each variable at each point of each process) and state. The product is linear in the vector, the tendency "
     "in complex arithmetic of a real state is the tendency in real arithmetic, and a matrix assembled from the products on any number of processes has every entry at its place.",
     ["inputs", "configurations"],
     "all unit directions of small grids, several states, three sets of equations, 1, 6 and 24 processes",
     "Tests never compare a product with a derivative; a wrong one only costs accuracy or iterations.",
     [W + "solvers/matvec.py", W + "rhs/rhs_dfr.py", W + "rhs/rhs_sw.py", W + "pde/fluxes.py", W + "pde/interface.cpp"],
     [("products", W + "solvers/matvec.py matvec_fun, matvec_rat"), ("matrix", W + "solvers/eigenvalue_util.py gen_matrix")],
     ["arrays returned by matvec_fun and matvec_rat; matrix returned and stored by gen_matrix"],
     "exhaustive enumeration of all columns of the Jacobian on the real code (model MPI), against fourth-order differences of the real tendency",
     "Every column on the stated grids and states. One recorded finding (Euler on the sphere, complex step).")

prop("P15", "Krylov and Newton solvers report success only with the accuracy asked for",
     "When a linear (FGMRES, or GCROT after any earlier solves) or nonlinear (Newton-Krylov) solver reports success, the residual of what it returns is within the tolerance asked for, and the residual it reports is the true one; "
     "when it does not converge it says so or raises an exception, and it always ends. This holds for every matrix, right-hand side, first guess (also an exact one), restart length and preconditioner, "
     "and every division of the unknowns among processes: all processes take the same decisions and get the parts of the same solution.",
     ["inputs", "configurations", "schedules"],
     "all matrices of bounded families, right-hand sides, guesses, restart lengths, tolerances, preconditioners, divisions among processes",
     "Tests solve a few well-behaved systems on one process.",
     [W + "solvers/fgmres.py", W + "solvers/gcrot.py", W + "solvers/nonlin.py", W + "solvers/global_operations.py"],
     [("FGMRES", W + "solvers/fgmres.py fgmres"), ("GCROT", W + "solvers/gcrot.py gcrot"), ("Newton-Krylov", W + "solvers/nonlin.py newton_krylov")],
     ["values and flags returned by fgmres and newton_krylov"],
     "exhaustive enumeration of matrices, guesses and divisions among processes on the real code (model MPI), against dense linear algebra",
     "All 3x3 matrices over {-1,0,1} and the stated families.")

prop("P16", "Exponential solvers return the phi-function combination to the tolerance asked",
     "For every matrix A, set of vectors b_0..b_p and list of output times t, each exponential solver returns sum_k t^k phi_k(tA) b_k at each of them, to the tolerance asked for. "
     "This holds whatever the first Krylov size, the bounds on it, vectors that are zero, exhausted Krylov spaces, calls made before, and whatever the division of the unknowns among processes, all of which take the same decisions. "
     "The Runge-Kutta variant (exode) does so with each of its methods.",
     ["inputs", "configurations", "histories"],
     "all problems of bounded families, solvers, tolerances, Krylov sizes, output times, divisions, histories of calls",
     "Tests call two or three solvers on one problem each, mostly with one output time.",
     [W + "solvers/kiops.py", W + "solvers/pmex.py", W + "solvers/pmex_1s.py", W + "solvers/cwy_1s.py", W + "solvers/icwy_1s.py", W + "solvers/exode.py", W + "solvers/dcgs2.py"],
     [("adaptive Krylov solvers", W + "solvers/kiops.py, pmex*.py, cwy*.py, icwy*.py"), ("Runge-Kutta solver", W + "solvers/exode.py exode")],
     ["arrays returned by the solvers"],
     "exhaustive enumeration of problems, options and divisions on the real code (model MPI), against the dense exponential of the augmented matrix",
     "All problems of the stated families; recorded findings for lagged-normalisation solvers on exhausted spaces and dcgs2.")

prop("P17", "Each time integrator has the order of accuracy it is named for",
     "Advanced through any history of step sizes, each integrator approaches the exact solution of the equations with the order of accuracy it is named for. Exponential schemes are exact on linear problems, "
     "implicit schemes satisfy their own equation within the solver's tolerance, multistep schemes keep their order from their start-up and when the step changes. "
     "The scheme that runs is the one the configuration names.",
     ["inputs", "histories", "configurations"],
     "all integrators, options and exponential solvers, systems, all step histories of bounded length",
     "Tests run a few steps of a few schemes and compare with stored norms or nothing.",
     [W + "integrators/"],
     [("schemes", W + "integrators/*.py __step__"), ("selection", W + "simulation/simulation.py")],
     ["state returned by Integrator.step"],
     "exhaustive enumeration of integrators, systems and step histories on the real code, against the exact flow",
     "All histories of bounded length; order judged on two halvings of the step.")

prop("P18", "Discrete operators are exact on the polynomials their order promises",
     "Quadrature points and weights, extrapolation to element faces, derivatives with face corrections, filters, sponge and change of resolution give, for each number of points, direction, layout of the data "
     "and kind of grid, exactly the result calculus gives for every polynomial of the degree the scheme promises. Filters act on each mode by the prescribed factor and preserve element means. "
     "Every order and option the configuration admits can be built and used.",
     ["inputs", "configurations"],
     "all orders within bounds, all basis polynomials, operators, directions, layouts, filter and sponge options",
     "Tests use one or two orders and a handful of fields.",
     [W + "geometry/operators.py", W + "common/interpolation.py"],
     [("operators", W + "geometry/operators.py DFROperators"), ("remeshing", W + "common/interpolation.py")],
     ["arrays returned by the operators"],
     "exhaustive enumeration of orders, operators and all basis polynomials on the real code, against exact calculus",
     "Linear operators: the basis decides the space; stated range of orders.")

NOT_APPLICABLE = {}


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for k in sorted(P):
            f.write(json.dumps(P[k]["line"]) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": {"guard": "WX_MC", "enable": "no hooks are needed: the checks run the unmodified sources with a model of mpi4py first on the import path", "source_commits": []},
        "checks": [
            {
                "property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough",
                "evidence_file": f"evidence/{k}.json", "technique": P[k]["technique"], "level": P[k]["level"], "level_note": P[k]["note"],
            }
            for k in sorted(P) if k not in NOT_APPLICABLE
        ],
        "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
        "notes": "Deciding method everywhere: exhaustive enumeration of executions of the real code within stated bounds.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
