"""What is built and which harnesses decide which property."""
QUICK_SECS = 30
THOROUGH_SECS = 420

PAR = ["-DUSE_TBB", "-DUSE_TBB_ONEAPI"]
HARNESSES = {
    "c01_tbb": {"src": "c01_par.cpp", "flags": PAR},
    "c01_seq": {"src": "c01_par.cpp"},
}
COMPONENTS = {
    "real": "all of /repo/src/limbo that the scenario uses, compiled from the working tree with -fsanitize=thread instrumentation; Eigen, NLopt, libstdc++ and Boost.Filesystem are the installed ones",
    "stubs": "TBB (simulated task scheduler and concurrent_vector), the kernel's threads, locks, clock, host name, pid, entropy and file system (simulated disk), malloc (arena allocator), and for C21 the external library of the expected hypervolume improvement (an exact implementation of its interface)",
    "assumptions": [
        "sequentially consistent execution between scheduling points; data races are reported by a happens-before detector instead of being simulated with weak memory",
        "context switches happen at instrumented accesses of limbo and harness code and at synchronisation, allocation and system calls, not inside uninstrumented shared libraries",
    ],
}
PROPS = {
    "C01": {
        "harnesses": ["c01_tbb", "c01_seq"],
        "shares": [0.8, 0.2],
        "rule": "Random sequences of loop, for_each, max, sort, replicate and concurrent-vector operations (nested, with throwing elements, from one or several client threads) on 0 to 4 simulated pool workers.",
    },
}
RAND = ["shim_rand"]
HARNESSES["c02"] = {"src": "c02_multigp.cpp", "flags": PAR, "inc": RAND}
PROPS["C02"] = {"harnesses": ["c02"], "rule": "Random histories of compute, add_sample, recompute, parameter changes and parallel training on multi-output models of 1 to 4 outputs, from one or two owner threads, on 0 to 4 simulated pool workers."}
HARNESSES["c03"] = {"src": "c03_query.cpp", "flags": PAR, "inc": RAND}
PROPS["C03"] = {"harnesses": ["c03"], "rule": "Random trained models (kernel, mean, data), 2 to 4 reader threads with random questions, each compared with the answer given to a lone reader."}
PROPS["C04"] = {"harnesses": ["c03"], "rule": "Random models and acquisition functions, 2 to 4 threads evaluating one object, and histories of model updates with an object kept in use."}
HARNESSES["c05"] = {"src": "c05_opt.cpp", "flags": PAR, "inc": RAND}
PROPS["C05"] = {"harnesses": ["c05"], "rule": "Random objectives (with equal, infinite and very low values), replicate counts and epsilons, recording and real inner optimisers, failing evaluations, several repeaters at the same time."}
PROPS["C20"] = {"harnesses": ["c05"], "rule": "Random objectives, starts, budgets and sequences of uses of the ten inner optimisers, with throwing, NaN and infinite evaluations, alone and concurrently."}
HARNESSES["c06"] = {"src": "c06_rand.cpp", "flags": PAR + ["-DRANDUTILS_CPU_ENTROPY=sim_tsc()", "-include", "sim.h"]}
PROPS["C06"] = {"harnesses": ["c06"], "rule": "Random users of the generators in 1 to 4 threads, with frozen or repeated clocks, addresses, process ids and hardware entropy."}
for _p in ("C07", "C08", "C09"):
    HARNESSES[_p.lower()] = {"src": "c08_bo.cpp", "flags": PAR + ["-DPART_" + _p], "inc": RAND}
    PROPS[_p] = {"harnesses": [_p.lower()]}
PROPS["C07"]["rule"] = "Two or three optimisations of random kinds run alone, then at the same time under random schedules."
PROPS["C08"]["rule"] = "Random histories of optimize, eval_and_add and add_new_sample with throwing, NaN and infinite evaluations and failing allocations at random points, followed by a recovery without faults."
PROPS["C09"]["rule"] = "Random histories of one to three calls of optimize with random initial design, model, acquisition, optimiser, aggregator, criteria, period and budget, observed through recording components."
for _p in ("C10", "C11", "C19"):
    HARNESSES[_p.lower()] = {"src": "c10_stats.cpp", "flags": PAR + ["-DPART_" + _p], "inc": RAND}
    PROPS[_p] = {"harnesses": [_p.lower()]}
HARNESSES["c11_nd"] = {"src": "c10_stats.cpp", "flags": PAR + ["-DPART_C11", "-DNDEBUG"], "inc": RAND}
PROPS["C11"]["harnesses"].append("c11_nd")
PROPS["C10"]["rule"] = "One to three lives of a process that optimises with all statistics enabled, killed at a random system call (a write in progress is torn at a random byte), with short and interrupted writes, restarted with the same or another pid and clock."
PROPS["C11"]["rule"] = "One or two optimisations with all statistics, under short, interrupted and failing writes, a full disk, failing close, mkdir and (build without assertions) open, compared with the same optimisation without statistics."
PROPS["C19"]["rule"] = "One to three threads create one to three optimisers each with the same or jumping clocks, host names of 1 to 64 characters, and directories left by previous processes with the same name."
for _p in ("C12", "C13", "C14", "C15"):
    HARNESSES[_p.lower()] = {"src": "c12_model.cpp", "flags": PAR + ["-DPART_" + _p], "inc": RAND}
    PROPS[_p] = {"harnesses": [_p.lower()]}
PROPS["C12"]["rule"] = "Random matrices, lists of vectors (with denormalised, extreme and signed zero values) and models of seven kinds saved and loaded, in the same process, another one or by several threads, with short and interrupted reads and writes, over archives of other models and over saves killed at a random system call or byte."
PROPS["C13"]["rule"] = "Random models saved and loaded with failing open, mkdir, write, read and close calls, full disks, and missing, empty and truncated files."
PROPS["C14"]["rule"] = "Random histories of one to eight operations on a model (batch and incremental data, changes of kernel and mean parameters, training, copies, archives), with checkpoints and processes killed at random points and restarted from the last checkpoint, compared with reference formulas after each operation."
PROPS["C15"]["rule"] = "Random models trained one or two times with each kind of training; the objective is evaluated by one to three threads at random parameters and compared with reference formulas and finite differences."
for _p in ("C16", "C17", "C18"):
    HARNESSES[_p.lower()] = {"src": "c16_exp.cpp", "flags": PAR + ["-DPART_" + _p], "inc": RAND}
    PROPS[_p] = {"harnesses": [_p.lower()]}
PROPS["C16"]["rule"] = "Random histories of one to three constrained optimisations (0 to 2 constraints, 1 or 2 objectives) with and without reset, points added by the user, throwing, NaN and infinite evaluations, then a recovery without faults; and two optimisations alone, then at the same time."
PROPS["C17"]["rule"] = "Random sets of 1 to 9 points of 2 to 4 objectives (equal values, infinities, signed zeros), alone and from several threads on 0 to 4 workers, and the fronts and front files of growing databases."
PROPS["C18"]["rule"] = "Random histories of batch and incremental data in 1 to 3 dimensions, on models that keep 1 to 6 points, from one or two threads on 0 to 4 workers."
HARNESSES["c21"] = {"src": "c21_multi.cpp", "flags": PAR, "inc": RAND + ["shim_ehvi"]}
PROPS["C21"] = {"harnesses": ["c21"]}
PROPS["C21"]["rule"] = "Random histories of one to three multi-objective optimisations (ParEGO with 2 and 3 objectives, EHVI) with and without reset, points added by the user, throwing, NaN and infinite evaluations, then a recovery without faults; and two of them alone, then at the same time, on 0 to 4 workers."
HARNESSES["c22"] = {"src": "c22_spgp.cpp", "flags": PAR, "inc": RAND}
PROPS["C22"] = {"harnesses": ["c22"]}
PROPS["C22"]["rule"] = "Random histories of one to five operations (batch and incremental data in 1 to 3 dimensions, trainings, recomputations, other parameters of the mean, copies) on models with 10 to 100 percent of pseudo-inputs, with trainings that fail, objectives evaluated by one to three threads, two or three readers of one model, and two or three models trained at the same time."
