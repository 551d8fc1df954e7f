#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
TECH = "deterministic simulation: seeded search over schedules, timings and faults"
SEQ = "simulated ranks, threads, clock, storage and allocator run the real code in one process; a clean batch is evidence over the sampled runs, not proof; MPI, libc and memory (sequentially consistent) behave as modelled in sim/"

def P(id, title, statement, over, qtext, why, files, mech, observe, level="exploration", note="", tech="", state=(), hook=None):
    PROPS.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)),
        level=level, note=note, tech=tech))
def N(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, [])
    PROPS[-1]["na"] = reason

P("C01", "Results do not depend on message or process timing",
  "For a given input deck, process count and thread count, every recorded field, particle, accumulator, diagnostic value and output file is bit-for-bit the same whatever the relative speed of the processes, the latency of messages, the progress the transport makes between calls, and the previous content of memory.",
  "schedules configurations inputs", "all message latencies, eager or rendezvous sends, completion orders, process stalls and short writes, on every decomposition, boundary, sorting, cleaning, emission, injection and dump configuration",
  "The integrated tests run each deck once on whatever timing the machine gives, mostly on one process, and compare summary numbers.",
  ["src/boundary/boundary_p.cc", "src/field_advance/standard/remote.cc", "src/sf_interface/hydro_array.cc", "src/grid/grid_comm.cc", "src/util/mp/DMPPolicy.h", "src/vpic/advance.cc"],
  [("fixed exchange order and tags per port", "src/grid/grid_comm.cc"), ("sizes then payload exchange of movers", "src/boundary/boundary_p.cc"), ("send/receive buffers owned until the matching wait", "src/util/mp/DMPPolicy.h")],
  ["deck diagnostics hook at every step", "files written"], note="canonical schedule compared with perturbed ones bit by bit at every step")
P("C02", "Results do not depend on thread interleaving",
  "For a given deck and thread count, every recorded field, particle, accumulator and diagnostic value is bit-for-bit the same under every interleaving of the worker threads, with spurious wake-ups and arbitrarily delayed threads.",
  "schedules configurations", "all interleavings of the pipeline threads at synchronisation operations and at memory accesses, for the thread-pool and the OpenMP dispatcher",
  "Unit tests run with at most a few real threads whose interleaving nobody controls; a race shows only when two accesses happen to collide.",
  ["src/util/pipelines/pipelines_thread.cc", "src/util/pipelines/pipelines_exec_omp.h", "src/species_advance/standard/pipeline", "src/sf_interface/pipeline", "src/species_advance/standard/pipeline/sort_p_pipeline.cc"],
  [("per-pipeline accumulators, movers and random generators", "src/sf_interface/accumulator_array.cc"), ("dispatch/wait protocol", "src/util/pipelines/pipelines_thread.cc"), ("disjoint block distribution", "src/util/pipelines/pipelines.h")],
  ["deck diagnostics hook at every step"], note="pre-emption at every instrumented memory access in the *ts builds")
P("C03", "Runs end: no deadlock, livelock or abnormal termination",
  "A run whose deck is valid and whose machine does not fail always finishes its requested steps and shuts down cleanly on every process, whatever the timing of messages, threads and processes; it never deadlocks, spins for ever, crashes, leaves a message unmatched or loses a pending request.",
  "schedules configurations inputs", "all schedules including fully synchronous sends and adversarial thread scheduling; all supported deck features and process layouts",
  "A hang needs one particular relative timing or a layout no test uses; tests run few layouts on an unloaded machine with a transport that buffers sends.",
  ["src/util/mp/DMPPolicy.h", "src/boundary/boundary_p.cc", "src/field_advance/standard/remote.cc", "src/util/pipelines/pipelines_thread.cc", "deck/main.cc", "src/util/boot.cc"],
  [("receives posted before sends", "src/boundary/boundary_p.cc"), ("thread hand-off by condition variable or spin flag", "src/util/pipelines/pipelines_thread.cc"), ("orderly halt", "src/util/boot.cc")],
  ["process exit status", "step counter", "pending requests at finalize"], note="liveness as completion within a bounded number of scheduling steps under fair random schedules")
P("C04", "The same physics on any domain decomposition",
  "Splitting the same global problem over any number of processes in any supported arrangement yields, at every step, the same particles in the same cells with the same momenta and the same electric and magnetic fields and currents as on one process, up to floating-point rounding.",
  "configurations inputs schedules", "every factorisation of up to 8 processes, periodic, reflecting and absorbing outer boundaries, sorting and cleaning intervals, under random message timing",
  "The tests compare a handful of summary numbers on one or two process counts; a wrong ghost exchange on one face, edge or corner shows only for particular layouts.",
  ["src/grid/partition.cc", "src/grid/ops.cc", "src/field_advance/standard/remote.cc", "src/boundary/boundary_p.cc", "src/sf_interface/hydro_array.cc"],
  [("neighbour tables built by partitioning", "src/grid/partition.cc"), ("ghost field and current exchange", "src/field_advance/standard/remote.cc"), ("particle migration", "src/boundary/boundary_p.cc")],
  ["full state at every step"], note="differential against one process with tolerance at rounding level")
P("C05", "The same physics for any thread count and vector width",
  "Running the same deck with any number of threads per process and with any of the supported vector widths and threading back ends yields, at every step, the same particles and fields as the scalar single-threaded run, up to floating-point rounding.",
  "configurations inputs schedules", "1-4 threads, scalar, 4-, 8- and 16-wide pipelines, pthread and OpenMP dispatch, particle counts that leave every remainder",
  "Each build's tests compare it with stored summary numbers; partial vectors, remainders and block boundaries depend on counts no fixed test enumerates.",
  ["src/species_advance/standard/pipeline", "src/field_advance/standard/pipeline", "src/sf_interface/pipeline", "src/util/pipelines"],
  [("block distribution with a scalar remainder", "src/util/pipelines/pipelines.h"), ("vector pipelines", "src/species_advance/standard/pipeline/advance_p_pipeline_v4.cc")],
  ["full state at every step"], note="differential against the scalar single-threaded build")
P("C06", "Particles are neither lost, duplicated, altered nor misplaced",
  "Through every step each particle keeps its identity and weight and exists exactly once on exactly one process, unless the deck's own boundary, emission or injection settings remove or create it, and every removal is accounted for.",
  "schedules inputs configurations", "all particle motions including corner crossings into several processes in one step, buffer growth, sorting, and every boundary kind",
  "Tests count particles at the end of a few single-process runs; loss or duplication needs a crossing at the right instant between the right neighbours.",
  ["src/boundary/boundary_p.cc", "src/species_advance/standard/move_p.cc", "src/species_advance/standard/sort_p.cc", "src/species_advance/standard/pipeline/sort_p_pipeline.cc", "src/vpic/advance.cc"],
  [("injector exchange", "src/boundary/boundary_p.cc"), ("back-fill on removal", "src/boundary/boundary_p.cc"), ("mover lists", "src/species_advance/standard/pipeline/advance_p_pipeline.cc")],
  ["full particle lists at every step, identity carried in the weight and momentum"], note="identity of every particle followed step by step; positions stay inside their cells and no particle outruns light")
P("C07", "Charge is conserved and currents match the motion of charge",
  "In every step the current deposited equals the motion of the particles' charge: the total charge, including charge left on boundaries, is unchanged except for what the deck adds or a boundary absorbs into its own account, and without divergence cleaning the local Gauss-law residual at every node stays what it was up to rounding.",
  "inputs schedules configurations", "all motions, layouts, boundaries and thread counts",
  "A test can compare one total after a run; a mis-deposited segment at one edge between two processes leaves totals intact and shows only node by node.",
  ["src/species_advance/standard/move_p.cc", "src/species_advance/standard/rho_p.cc", "src/sf_interface/pipeline/unload_accumulator_pipeline.cc", "src/field_advance/standard/remote.cc", "src/boundary/boundary_p.cc"],
  [("charge-conserving segment deposition", "src/species_advance/standard/move_p.cc"), ("synchronize_jf / synchronize_rho", "src/field_advance/standard/remote.cc"), ("bound charge left by removed particles", "src/species_advance/standard/rho_p.cc")],
  ["full state at every step"], note="charge and Gauss residual recomputed in double precision from the recorded particles")
P("C08", "Processes agree on every field value they share",
  "After every step all copies of a tangential electric or normal magnetic field component on a face, edge or corner shared by several processes (or by two sides of one process) agree to rounding, and they are identical after a step that synchronised the shared faces.",
  "schedules configurations inputs", "all layouts, including a process being its own neighbour, and all timings",
  "Disagreements grow slowly from one wrong copy and are invisible in summary numbers; few layouts are tested.",
  ["src/field_advance/standard/remote.cc", "src/field_advance/standard/local.cc", "src/field_advance/standard/sfa.cc"],
  [("synchronize_tang_e_norm_b", "src/field_advance/standard/remote.cc"), ("ghost updates before each update", "src/field_advance/standard/pipeline/advance_e_pipeline.cc")],
  ["field arrays of all processes at every step"], note="every pair of copies compared at every step")
P("C09", "Magnetic divergence stays zero and cleaning reduces errors",
  "A magnetic field that starts divergence-free stays so to rounding, and divergence cleaning passes reduce the measured divergence errors of the magnetic and electric fields that they are given, never amplify them, on any layout.",
  "inputs configurations schedules", "random fields, injected divergence errors, all layouts and cleaning schedules",
  "A test sees one field on one layout; the guarantee concerns every stencil at every boundary.",
  ["src/field_advance/standard/pipeline/advance_b_pipeline.cc", "src/field_advance/standard/pipeline/clean_div_b_pipeline.cc", "src/field_advance/standard/pipeline/clean_div_e_pipeline.cc", "src/vpic/advance.cc"],
  [("Marder passes", "src/field_advance/standard/pipeline/clean_div_b_pipeline.cc"), ("local boundary adjustments", "src/field_advance/standard/local.cc")],
  ["field arrays at every step"], note="divergences recomputed from recorded fields")
P("C10", "Restart from a checkpoint is bit-for-bit transparent",
  "A run that is stopped by a crash at any point and restarted from its last completed checkpoint continues exactly as the uninterrupted run: the same particles, fields, random streams, tallies, diagnostics, later checkpoints and final results, bit for bit.",
  "crash_points schedules histories configurations", "crash of one or all processes at any scheduling point, repeated crashes, several checkpoints, every object kind a checkpoint holds",
  "One integrated test restarts one deck once from one point on one process.",
  ["src/util/checkpt/checkpt.cc", "src/vpic/vpic.cc", "src/vpic/misc.cc", "deck/main.cc", "src/boundary/link.cc", "src/util/rng/rng_pool.cc", "src/species_advance/species_advance.cc", "src/grid/grid_structors.cc"],
  [("registry of checkpointable objects with restore and reanimate functions", "src/util/checkpt/checkpt.cc"), ("restart path", "deck/main.cc")],
  ["state at every step after restart", "files written after restart"], note="crash points are sampled over the executed scheduling points, including inside checkpoint writing")
P("C11", "A damaged or mismatched checkpoint is never silently accepted",
  "Restarting from a checkpoint whose files are missing, truncated, cut short on read, swapped or written by a run with a different number of processes or threads stops with an error on some process; it never proceeds to advance with wrong or incomplete state.",
  "fault_sequences crash_points configurations", "truncation at any byte, missing or exchanged files, read errors and short reads at any read, different process or thread counts",
  "No test damages a checkpoint.",
  ["src/util/checkpt/checkpt.cc", "src/util/checkpt/checkpt_io.cc", "src/util/io/StandardIOPolicy.h", "src/vpic/vpic.cc", "deck/main.cc"],
  [("magic numbers and sizes while reading", "src/util/checkpt/checkpt.cc"), ("checked reads", "src/util/checkpt/checkpt_io.cc")],
  ["exit status", "error log", "state after restore"], note="fault positions sampled uniformly over the bytes and read operations of a recorded restart")
P("C12", "A failed checkpoint is reported and never costs an earlier one",
  "When the storage fails while a checkpoint is written (full disk, write, open or close error) the run reports it instead of continuing as if the checkpoint existed, and a restart from the previous completed checkpoint kept under another name still works exactly.",
  "fault_sequences crash_points", "a storage fault at any operation of any process while a checkpoint is written, followed by a restart",
  "Tests never see a failing disk.",
  ["src/util/checkpt/checkpt.cc", "src/util/checkpt/checkpt_io.cc", "src/util/io/StandardIOPolicy.h", "src/vpic/misc.cc"],
  [("error on incomplete write or close", "src/util/checkpt/checkpt_io.cc")],
  ["exit status", "error log", "state after restarting"], note="one fault per run at a uniformly chosen storage operation")
P("C14", "Dump files describe the simulation faithfully",
  "Every energy, species, material, grid, field, hydro and particle dump, with or without strides and variable selection, in either layout, holds exactly the values the simulation had at the time of the dump, complete and in the documented order, with headers that describe them and under the documented file and directory names.",
  "inputs configurations schedules", "all layouts, strides, variable masks, band or interleaved formats, dump intervals and process counts",
  "No test reads a dump back.",
  ["src/vpic/dump.cc", "src/vpic/dumpmacros.h", "src/util/io/FileIO.h", "src/util/io/StandardIOPolicy.h", "src/vpic/vpic.h"],
  [("header and array macros", "src/vpic/dumpmacros.h"), ("stride and variable selection", "src/vpic/dump.cc")],
  ["files written, decoded independently"], note="independent decoder compares every byte with the recorded state")
P("C15", "Output failures are reported, never silent",
  "When opening, writing or closing an output file or creating an output directory fails, or the disk is full, the run reports an error or warning; it never finishes quietly with missing or incomplete output files.",
  "fault_sequences inputs", "a storage fault at any output operation, short and interrupted writes, full disk",
  "Tests never see a failing disk.",
  ["src/vpic/dump.cc", "src/util/io/StandardIOPolicy.h", "src/util/io/StandardUtilsPolicy.h"],
  [("status checks of open, write and close", "src/vpic/dump.cc"), ("buffered writer", "src/util/io/StandardIOPolicy.h")],
  ["log", "exit status", "files"], note="one fault per run at a uniformly chosen output operation")
P("C16", "Observing a simulation does not change it",
  "Computing energies, moments and divergence errors, writing dumps, printing status and writing checkpoints, at any interval, leaves the subsequent evolution bit-for-bit the same as without them.",
  "histories configurations schedules", "all subsets and intervals of diagnostics on all features",
  "A test runs a deck with its diagnostics; it never compares with the same deck without.",
  ["src/vpic/dump.cc", "src/vpic/advance.cc", "src/sf_interface/hydro_array.cc", "src/species_advance/standard/pipeline/hydro_p_pipeline.cc", "src/field_advance/standard/pipeline/energy_f_pipeline.cc", "src/vpic/misc.cc"],
  [("read-only pipelines on interpolator and particles", "src/species_advance/standard/pipeline"), ("separate hydro array", "src/sf_interface/hydro_array.cc")],
  ["state at every step"], note="differential, bit by bit")
P("C17", "Parallel work is executed exactly once and completely",
  "Each dispatched parallel job runs exactly once on every pipeline with the right arguments and pipeline number, waiting returns only when all of them have finished, and their effects are visible afterwards, for any number of threads, back-to-back dispatches, thread start and stop and any interleaving with spurious wake-ups.",
  "schedules histories", "all interleavings of dispatcher and workers at memory-access granularity",
  "Unit tests run the dispatcher on an idle machine where workers always win the same races.",
  ["src/util/pipelines/pipelines_thread.cc", "src/util/pipelines/pipelines_exec_pth.h", "src/util/pipelines/pipelines_exec_omp.h", "src/util/pipelines/pipelines_helper.cc", "src/util/pipelines/pipelines_serial.cc"],
  [("per-thread mailbox with state word, mutex and condition variable", "src/util/pipelines/pipelines_thread.cc")],
  ["job log kept by the jobs themselves"], note="")
P("C18", "A turnstile admits at most its width, everyone once, without deadlock",
  "Code placed in a turnstile of width N is executed once by every process and never by more than N processes at the same time, and all processes get through, for every N and process count.",
  "schedules configurations", "all process counts up to 8, widths from 1 to beyond the process count, all timings",
  "No test observes overlap, and the test transport never delays a baton.",
  ["src/util/mp/mp.h", "src/vpic/dump.cc", "src/vpic/misc.cc"], [("baton passing", "src/util/mp/mp.h")], ["simulated entry and exit events"], note="")
P("C19", "Elapsed time is common, and quotas stop all processes together",
  "All processes read the same elapsed time whenever they ask together, it never runs backwards while their clocks run forward, it reflects real time since start, and a run with a time quota stops every process at the same step, saving a checkpoint that can be restarted where the deck asks for it.",
  "schedules fault_sequences", "skewed, drifting and jumping clocks per process, all timings",
  "Tests run on one machine with one clock and never reach a quota.",
  ["src/util/boot.cc", "src/util/mp/mp.cc", "src/vpic/misc.cc", "src/vpic/advance.cc"], [("elapsed time agreed by a collective", "src/util/boot.cc")], ["values returned on every process"], note="")
P("C20", "Random number streams are reproducible and independent as documented",
  "Random streams depend only on the seed and the process and generator they belong to: the same seed gives the same numbers on every run and schedule, streams meant to be common are the same on all processes, and private streams of different processes, pipelines and seeds differ. Bulk draws give what single draws would, deviates stay in their documented intervals and follow their documented distributions, and permutations and shuffles can be any permutation.",
  "configurations schedules histories", "all seeds, process and thread counts, reseeding and restarts",
  "Unit tests check one generator on one process.",
  ["src/util/rng/rng_pool.cc", "src/util/rng/rng.cc", "src/vpic/vpic.cc", "src/vpic/vpic.h"], [("seed spacing of pools", "src/util/rng/rng_pool.cc")], ["numbers drawn on every process"], note="")
P("C21", "Collisions conserve momentum and energy, in their cell, on schedule",
  "Binary collision operators change only the momenta of particles that share a cell with a partner, keep each cell's total momentum and energy to the operator's accuracy and the weights, positions and numbers of all particles, act exactly at the requested interval, and leave all other species untouched. Where the particles of a pair carry different weights the lighter one always scatters and the heavier one as often as balance on average asks.",
  "inputs schedules configurations", "all densities including empty and single-particle cells, unequal weights and masses, all pairings, intervals and thread counts",
  "Tests check relaxation rates of one setup; per-cell pairing errors need odd populations, empty cells or a particular partition between threads.",
  ["src/collision/pipeline/binary_pipeline.cc", "src/collision/pipeline/takizuka_abe_pipeline.cc", "src/collision/hard_sphere.cc", "src/collision/large_angle_coulomb.cc", "src/collision/takizuka_abe.cc", "src/collision/binary.cc", "src/species_advance/standard/sort_p.cc"],
  [("cells found through the sort partition", "src/species_advance/standard/sort_p.cc"), ("interval and sub-interval test", "src/collision/binary.cc")],
  ["particles before and after the collision phase"], note="")
P("C22", "Running out of memory is reported, never silent",
  "When an allocation fails at any point the process reports an error and stops; it never continues with missing data, corrupts state or crashes without a message.",
  "fault_sequences", "failure of any single allocation of any process of a run, including growth of particle and exchange buffers and restart",
  "Tests never run out of memory.",
  ["src/util/util_base.cc", "src/boundary/boundary_p.cc", "src/util/mp/DMPPolicy.h", "src/util/checkpt/checkpt.cc"], [("checked allocation", "src/util/util_base.cc")], ["log", "exit status"], note="one failing allocation per run, chosen uniformly over the allocations of the reference run")
P("C23", "Collective operations deliver their definition to every process",
  "Sums, all-gathers, gathers, barriers and pairwise sends and receives deliver to every process exactly the values their definition prescribes, in order, and barriers separate what comes before from what comes after, on every process count and timing.",
  "schedules inputs", "all process counts up to 8, payload sizes and timings, back-to-back operations",
  "Unit tests use one or two processes.",
  ["src/util/mp/mp.cc", "src/util/mp/DMPPolicy.h"], [("thin layer over MPI", "src/util/mp/DMPPolicy.h")], ["results on every process"], note="")
P("C24", "Particles injected by the deck appear exactly once, where asked",
  "A particle the deck injects at a global position by calling on all processes appears on exactly one of them, in the cell containing that position, with the requested momentum, weight and species, wherever the position lies, including on process and domain boundaries; positions outside the domain create nothing, and a species without room for another particle or mover is never written past its end.",
  "inputs configurations schedules", "all positions including exact boundaries, ages, charge updates and layouts",
  "Decks inject random positions; boundary ties between processes are never tested.",
  ["src/vpic/misc.cc", "src/species_advance/standard/rho_p.cc", "src/vpic/vpic.h"], [("half-open ownership of positions", "src/vpic/misc.cc")], ["particles after injection"], note="")
P("C25", "Boundary tallies, reflux and emission account for every particle",
  "Absorbing tallies count exactly the particles absorbed per species and surface, refluxing boundaries return each incident particle of a handled species exactly once into the domain with the same weight, and emitters add exactly the particles their documented rule prescribes at their surfaces with the weight their rule gives, on schedule.",
  "schedules inputs configurations", "all layouts, wall placements, fluxes, thread counts and restarts",
  "Tests exercise one wall on one process.",
  ["src/boundary/absorb_tally.cc", "src/boundary/maxwellian_reflux.cc", "src/boundary/link.cc", "src/emitter/child_langmuir.cc", "src/boundary/boundary_p.cc"],
  [("boundary handler interface", "src/boundary/boundary_p.cc"), ("component lists of emitters", "src/emitter/emitter.cc")], ["tallies and particles at every step"], note="")
P("C26", "Run-time overrides take effect everywhere, exactly as written, or fail",
  "An override file supplied at start or restart changes exactly the documented settings it names, to the values it gives, on every process, before the run advances; settings it does not name keep their values, and a file that cannot be read is an error.",
  "inputs configurations fault_sequences", "all combinations of keys, orders, spacing, values and process counts, on fresh starts and restarts, unreadable files",
  "No test uses an override file.",
  ["src/vpic/misc.cc", "deck/main.cc", "src/vpic/vpic.cc"], [("parsing of the override file", "src/vpic/misc.cc")], ["effective settings on every process and steps executed"], note="")
P("C27", "Energies, moments and fluxes reported match the state",
  "Field and particle energies, hydrodynamic moments and boundary fluxes reported by a run equal what their definitions give for the particles and fields of all processes at that time, on every process, whatever the layout, thread count and vector width.",
  "inputs configurations schedules", "all particle and field configurations, layouts, thread counts, vector widths",
  "Tests compare a few energies with stored numbers.",
  ["src/species_advance/standard/pipeline/energy_p_pipeline.cc", "src/species_advance/standard/pipeline/hydro_p_pipeline.cc", "src/field_advance/standard/pipeline/energy_f_pipeline.cc", "src/field_advance/standard/pipeline/vacuum_energy_f_pipeline.cc", "src/sf_interface/hydro_array.cc", "src/vpic/dump.cc", "src/vpic/vpic.h"],
  [("global sums", "src/util/mp/mp.cc"), ("hydro synchronisation between processes", "src/sf_interface/hydro_array.cc")], ["values recorded with the full state"], note="double-precision recomputation from the recorded state")
P("C28", "Every particle follows the equations of motion",
  "In every step each particle's momentum and position are advanced by the relativistic Boris push in the fields interpolated at its position, moving through cells and reflecting at walls as its new momentum dictates, to single-precision accuracy, whatever the process, thread or vector lane that handles it.",
  "inputs schedules configurations", "all particle speeds, cell crossings, walls, layouts, thread counts and vector widths",
  "Tests follow one particle in prescribed fields; lanes, remainders, crossings and process hand-over multiply the cases.",
  ["src/species_advance/standard/pipeline/advance_p_pipeline.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v4.cc", "src/species_advance/standard/move_p.cc", "src/sf_interface/pipeline/interpolator_array_pipeline.cc", "src/boundary/boundary_p.cc"],
  [("push and in-bounds fast path", "src/species_advance/standard/pipeline/advance_p_pipeline.cc"), ("cell-by-cell streaming", "src/species_advance/standard/move_p.cc")], ["full state at every step"], note="refinement: each step recomputed in double precision from the recorded state")
P("C29", "Fields and currents follow Maxwell's equations every step",
  "In every step the current density equals what the recorded particle motion deposits, and the electric and magnetic fields are advanced by the documented leap-frog scheme with the materials, damping and boundary conditions of the deck, to single-precision accuracy, at every mesh point of every process.",
  "inputs schedules configurations", "all field configurations, materials, walls, layouts, thread counts and vector widths",
  "Tests follow a few waves on one process.",
  ["src/field_advance/standard/pipeline/advance_b_pipeline.cc", "src/field_advance/standard/pipeline/advance_e_pipeline.cc", "src/field_advance/standard/pipeline/vacuum_advance_e_pipeline.cc", "src/field_advance/standard/local.cc", "src/field_advance/standard/remote.cc", "src/sf_interface/pipeline/unload_accumulator_pipeline.cc", "src/sf_interface/pipeline/reduce_array_pipeline.cc"],
  [("local boundary and remote ghost values", "src/field_advance/standard/local.cc")], ["full state at every step"], note="refinement: each step recomputed in double precision from the recorded state")
N("C30", "Vector classes compute lane-wise what their operators say",
  "Every operation of the portable and hardware vector classes gives on each lane the result of the scalar operation.", "inputs", "all operand values of every operation and width",
  "Tests check a few operands per operation.", ["src/util/v4", "src/util/v8", "src/util/v16"], [("class operators", "src/util/v4/v4_sse.h")],
  "a pure function of its operands: no schedule, clock, fault or multi-party behaviour for a simulation to control; only the effect of the operations the pipelines use is covered, through C05, C27, C28 and C29")
P("C32", "Collisions happen as often and scatter as their model prescribes",
  "Every collision model scatters pairs and particles as often as its documented rate prescribes for the density, relative velocity, interval, sampling and weights present, and deflects them by the documented law: hard spheres isotropically, Coulomb collisions by the Rutherford law up to the cut-off, cumulative small-angle collisions with the prescribed variance, the direction around the relative velocity uniform; collisions with a background fluid and the thermal bath exchange momentum and energy at the documented rates.",
  "inputs configurations schedules", "all collision models, densities, weights, masses, charges, intervals, sampling, background fluids, unit systems, layouts and thread counts",
  "Tests compare one relaxation curve with a generous tolerance.",
  ["src/collision/hard_sphere.cc", "src/collision/large_angle_coulomb.cc", "src/collision/takizuka_abe.cc", "src/collision/langevin.cc", "src/collision/pipeline/binary_pipeline.cc", "src/collision/pipeline/unary_pipeline.cc", "src/collision/pipeline/takizuka_abe_pipeline.cc", "src/collision/pipeline/langevin_pipeline.cc"],
  [("rate constants and collision kernels", "src/collision/hard_sphere.cc"), ("sampling of pairs and time step per pair", "src/collision/binary.cc")],
  ["particles before and after each collision phase"], note="each pair's exact state before the collision gives its probability and angle law; accumulated over a run and compared at seven standard deviations")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["p"]) + "\n")
    m = dict(version=1, setup_cmd="python3 simbuild.py",
             hooks=dict(guard="VPIC_SIM (reserved; no hook was needed)", enable="nothing to enable: /repo's sources are compiled unmodified and the seams are put at link time (-Wl,--wrap), through a substitute mpi.h and through the deck", source_commits=[]),
             checks=[], not_applicable=[],
             notes="Every check is check.py PROP: it rebuilds the simulator's rank images from /repo's working tree, searches seeds on 8 workers, gates every violation by repeating its seed in fresh processes, minimises it and writes a replay file under /verif/replays. VERIF_SEED selects the batch.")
    for p in PROPS:
        i = p["p"]["id"]
        if "na" in p:
            m["not_applicable"].append(dict(property=i, reason=p["na"]))
        else:
            m["checks"].append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i, evidence_file="evidence/%s.json" % i,
                                    technique=TECH, level=p["level"], level_note=(p["note"] + "; " if p["note"] else "") + SEQ))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
