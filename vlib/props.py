"""Per-property configuration: scenarios with their share of the budget, (runs, wall seconds) per tier, evidence texts."""
COMPONENTS = {
    "real": ["all of liblm's sources from /repo/src (compiled with access instrumentation)", "libstdc++ streams, strings, containers", "stb_image / stb_image_write", "cereal, nlohmann json, fmt",
             "kernel files below a scratch directory", "dlopen of real test plug-ins (P14)"],
    "stub": ["OpenMP runtime (team formation, loop worksharing, barriers) replaced by the simulator's", "pthread mutexes, condition variables, thread start/join (blocking decided by the simulator)",
             "clocks and sleeps (simulated time)", "malloc/free bookkeeping (poisoned redzones, no reuse)", "large-object atomics (libatomic entry points)", "std::random_device and hardware_concurrency",
             "stdio files below the scratch directory (fopencookie over raw system calls with fault injection)"],
}
A_COMMON = ["threads run one at a time under the simulator: effects of weak memory ordering are covered only through the happens-before race check (P16)",
            "library code is compiled by g++ at -O1 with access instrumentation; scheduling points are its memory accesses, atomics, locks, loop claims and system calls"]
def P(scenarios, quick, thorough, rule, extra=()):
    return dict(scenarios=scenarios, quick=quick, thorough=thorough, rule=rule, assumptions=A_COMMON + list(extra))
PROPS = {
 "P01": P([("P01", 1)], (300000, 75), (2000000, 600), "Seeded worker configurations and sequences of 1-5 loops under a seeded scheduler (random walk, PCT, sync points, bursts, serial); non-trivial: a loop with more than one iteration and more than one worker; distinct by execution hash."),
 "P02": P([("P02", .65), ("P02R", .35)], (300000, 75), (2000000, 600), "Seeded sequences of loops whose bodies and progress callbacks throw at seeded iterations; non-trivial: at least one loop failed; distinct by execution hash."),
 "P03": P([("P03", 1)], (240000, 75), (800000, 600), "Seeded sequences of loops, scheduler runs and direct reporter events with clock jumps, stalls and failing bodies; non-trivial: a session with updates; distinct by execution hash."),
 "P04": P([("P04", .6), ("P04R", .4)], (150000, 75), (800000, 600), "Seeded scheduler kinds, film sizes, sample counts, time limits and worker counts; non-trivial: several samples and workers; distinct by execution hash."),
 "P05": P([("P05", 1)], (150000, 75), (800000, 600), "Seeded time limits, pass durations, stalls and wall-clock jumps; non-trivial: more than one pass or an elapsed-time query sequence; distinct by execution hash."),
 "P06": P([("P06", 1)], (300000, 75), (1000000, 600), "Seeded films of up to 4x3 pixels, 2-4 threads with set, splat, update and average operations on one hot or several pixels, concurrent readers and savers, accumulate and clear between rounds; compare-and-swap failures, stalls, small teams; non-trivial: several threads updated one pixel; distinct by execution hash."),
 "P07": P([("P07", 1)], (150000, 75), (500000, 600), "Seeded films, formats, directory depths and sequences of 1-4 saves with one seeded storage fault plan each; non-trivial: a save failed or storage shortened and interrupted writes; distinct by execution hash."),
 "P08": P([("P08", 1)], (30000, 85), (150000, 900), "Seeded asset hierarchies over every built-in component, saved whole, as subtrees or as single assets and restored in the same or a new simulated process, compared by behavioural fingerprints; non-trivial: a restored state was compared; distinct by execution hash."),
 "P09": P([("P09", 1)], (25000, 85), (100000, 900), "Seeded hierarchies with failing saves (open, write, full disk, close, kill inside a write) and failing loads (truncation at any byte, open and read errors, unknown components); non-trivial: an operation failed; distinct by execution hash."),
 "P10": P([("P10", 1)], (25000, 85), (100000, 900), "Seeded sequences of loads, replacements, scene edits and failing loads (unknown keys, bad names, bad parameters, throwing constructors, failing allocations), every reference checked after every step and the final state compared with a fresh load; non-trivial: a replacement or a failed load happened; distinct by execution hash."),
 "P11": P([("P11", 1)], (40000, 85), (150000, 900), "Seeded triangle sets (empty, degenerate, coincident, clustered, deep), instances and both acceleration structures, rebuilt after edits, with 0-6 build threads, failing thread creation and spurious wake-ups; ray queries compared with exhaustive search; non-trivial: a build with several threads; distinct by execution hash."),
 "P12": P([("P12", 1)], (300000, 75), (500000, 600), "Seeded plans of 1-4 threads logging messages of all shapes, threshold and indentation changes; the captured output is parsed back; non-trivial: several threads logged; distinct by execution hash."),
 "P13": P([("P13", 1)], (100000, 75), (400000, 600), "Seeded OBJ, MTL and image files (indices of all forms, quads, groups, several materials, textures of 1-4 channels) loaded under one seeded open or read fault plan, short and interrupted reads, and loaded again without; contents compared with the generator's own model of the file; non-trivial: a load failed or reads were shortened; distinct by execution hash."),
 "P14": P([("P14", 1)], (100000, 75), (300000, 600), "Seeded histories of 2-10 plug-in loads, unloads, directory loads, scopes, registrations and unregistrations with failing dynamic loader calls and seeded directory order, compared with a model of the registry after every step; non-trivial: an operation failed; distinct by execution hash."),
 "P15": P([("P15", 1)], (60000, 85), (120000, 900), "Seeded scenes, renderers and worker counts rendered in parallel and replayed serially sample by sample, repeated renders and other renderers in between; non-trivial: samples ran on more than one worker or an image was compared with another schedule; distinct by execution hash."),
 "P16": P([("P16", .6), ("P16R", .4)], (40000, 85), (120000, 900), "Seeded loops, builds, film updates, queries, logging and renders of every renderer under a vector-clock happens-before detector on every instrumented access; non-trivial: several threads ran library code; distinct by execution hash."),
 "P17": P([("P17", 1)], (100000, 75), (300000, 600), "Seeded histories of 3-16 initialisations (default, user-defined, unknown, failing, with failing allocations), shutdowns, resets and uses of the library and each subsystem, compared with a model after every step; non-trivial: an initialisation or a use failed; distinct by execution hash."),
}
