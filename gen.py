#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the definitions below and from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Parallel primitives execute every element exactly once and in isolation",
     "On any number of worker threads and under any interleaving, a parallel loop, for-each, maximum, sort or replicate call runs its body exactly once per element (or step), returns only when all of them are finished, and gives the result of the sequential definition: every effect is visible to the caller, the maximum is one of the produced values (or the initial one) and no produced value is better, the sort is an ordered permutation of its range, a concurrent vector retains every pushed element, and there is no data race. An exception of an element reaches the caller and no element runs twice or after the call has returned. The build without a thread library gives the same results.",
     ["schedules", "inputs", "fault_sequences"], "All numbers of workers, all interleavings of elements, nested and concurrent calls from several client threads, any subset of elements that throw.",
     "The tests run each primitive once per process on whatever schedule the machine produces, with no failing element and no nesting.",
     ["src/limbo/tools/parallel.hpp"], [("loop, for_each, max, sort, replicate, vector", "src/limbo/tools/parallel.hpp")])

prop("C02", "A multi-output model equals independent single-output models",
     "After any sequence of batch computation, incremental addition of samples, recomputation, change of mean or kernel parameters and parallel training, each output of a multi-output model over full Gaussian processes has the same prediction (mean and variance), likelihood and leave-one-out score as a single-output model of that output alone, and the model holds exactly the data it was given. This does not depend on how the work on the outputs is scheduled over threads. Several such models used by several threads do not influence each other.",
     ["schedules", "histories", "inputs"], "All histories of operations on the model, all dimensions and mean functions, all schedules of the per-output tasks.",
     "The tests compare a few fixed histories sequentially; the schedules and most orders of operations (mean update after an incremental addition, recomputation without the kernel) are not sampled.",
     ["src/limbo/model/multi_gp.hpp", "src/limbo/model/multi_gp/parallel_lf_opt.hpp"],
     [("per-output parallel loops", "src/limbo/model/multi_gp.hpp"), ("parallel training of the outputs", "src/limbo/model/multi_gp/parallel_lf_opt.hpp")])

prop("C03", "Concurrent readers of a model get the answers a lone reader gets",
     "Any number of threads can query a trained model (mean, variance, joint query, and the evaluation of likelihood objectives on copies of it) at the same time: there is no data race, and each query returns bit for bit what it returns when nobody else uses the model. Reading, and working on copies of the model, does not change it.",
     ["schedules", "inputs", "configurations"], "All interleavings of readers, all read operations, all kernels and mean functions of the library, full and sparsified models.",
     "The tests query models from one thread; the acquisition optimisation queries them from many, where a single schedule says nothing about the others.",
     ["src/limbo/model/gp.hpp", "src/limbo/model/sparsified_gp.hpp", "src/limbo/kernel", "src/limbo/mean", "src/limbo/model/gp/kernel_lf_opt.hpp"],
     [("const queries", "src/limbo/model/gp.hpp"), ("hyper-parameter objectives copy the model", "src/limbo/model/gp/kernel_lf_opt.hpp")])

prop("C04", "Concurrent evaluations of one acquisition function agree with a sequential one",
     "One acquisition function object can be evaluated at the same time by any number of threads: there is no data race, and each evaluation returns bit for bit what a sequential evaluation on the same model returns, and this is the documented formula (UCB, GP-UCB, expected improvement, constrained expected improvement) of the predictions of the model. An acquisition function object that stays in use while its model receives new samples gives the value a newly built one gives.",
     ["schedules", "histories", "inputs"], "All interleavings of evaluations, all acquisition functions and models, histories of updates of the model between evaluations.",
     "The tests evaluate acquisition functions sequentially and rebuild them for each model.",
     ["src/limbo/acqui/ucb.hpp", "src/limbo/acqui/gp_ucb.hpp", "src/limbo/acqui/ei.hpp", "src/limbo/experimental/acqui/eci.hpp"],
     [("cached best observation", "src/limbo/acqui/ei.hpp"), ("cached best observation", "src/limbo/experimental/acqui/eci.hpp")])

prop("C05", "A repeated parallel optimisation returns the best of its replicates",
     "On any number of threads, the parallel repetition of an optimiser starts the requested number of replicates, each from its own random point within epsilon of the initial point and with the bounds it was given, and returns, after all of them have finished, a point whose value is the best of those the replicates return. A failure of the objective in one replicate reaches the caller. Repetitions that run at the same time do not influence each other.",
     ["schedules", "inputs", "fault_sequences"], "All interleavings of replicates, all objectives (including those with infinite, equal or very low values), all failure points.",
     "The tests run one repetition on one smooth objective, whatever the schedule is, and compare the result with a loose tolerance.",
     ["src/limbo/opt/parallel_repeater.hpp"], [("tools::par::max over replicates", "src/limbo/opt/parallel_repeater.hpp")])

prop("C06", "Random numbers are independent between threads and generators and reproducible",
     "Random vectors, Latin hypercube designs and generators have the documented size and range under any schedule, and designs are Latin hypercubes. Two generators that are not seeded, and the streams of two threads, never repeat each other's numbers, even when the clock, the addresses, the process id or the hardware entropy they are seeded with are frozen or repeated. A generator that is seeded gives the same sequence each time, whatever other threads do, and different seeds give different sequences.",
     ["schedules", "fault_sequences", "histories"], "All interleavings of users of random numbers, including at initialisation, all qualities of the entropy sources.",
     "The tests draw from one thread with good entropy; seeding collisions need two threads to meet in the seeding code or weak entropy.",
     ["src/limbo/tools/random_generator.hpp", "src/external/rand_utils.hpp", "src/limbo/tools/math.hpp"],
     [("thread-local generators", "src/limbo/tools/random_generator.hpp"), ("entropy mixing with a process-wide counter", "src/external/rand_utils.hpp")])

prop("C07", "Optimisations that run at the same time do not influence each other",
     "Any number of Bayesian optimisers can run at the same time in different threads of one process: there is no data race, and each of them evaluates bit for bit the points, and returns the result and the model, that it would if it ran alone with the same random numbers. Their random designs differ from each other.",
     ["schedules", "configurations"], "All interleavings of two or three optimisations with their hyper-parameter training, all mixes of models, acquisition functions, initial designs and acquisition optimisers.",
     "The tests run one optimiser at a time in a single thread.",
     ["src/limbo/bayes_opt/boptimizer.hpp", "src/limbo/bayes_opt/bo_base.hpp", "src/limbo/tools/random_generator.hpp", "src/limbo/opt", "src/limbo/model"],
     [("no shared mutable state between optimisers", "src/limbo/bayes_opt/boptimizer.hpp"), ("thread-local random streams", "src/limbo/tools/random_generator.hpp")])

prop("C08", "A failing evaluation never damages the database of an optimisation",
     "Whenever the evaluated function throws, or returns an observation that is not a number or infinite, the failure reaches the caller (its own exception, or an evaluation error) and the database holds exactly the pairs of point and observation of the successful evaluations, in order; the same holds when memory runs out while a pair is being recorded, which then is either completely present or absent. Calling the optimiser again after any sequence of such failures carries on: unless it is reset, every known pair is in the database and in the model, and the full number of iterations is done. The best sample and observation are always one pair of the database, and the best.",
     ["fault_sequences", "histories", "crash_points"], "All sequences of optimisation, single evaluation and manual addition; all positions of failing evaluations and allocations, in the initial design and in the loop.",
     "The tests inject one exception in one place and do not continue after it.",
     ["src/limbo/bayes_opt/bo_base.hpp", "src/limbo/bayes_opt/boptimizer.hpp"],
     [("rejection of NaN and infinities before recording", "src/limbo/bayes_opt/bo_base.hpp"), ("resumption without reset", "src/limbo/bayes_opt/boptimizer.hpp")],
     state=[("samples, observations", "the database", "src/limbo/bayes_opt/bo_base.hpp")])

prop("C09", "The optimisation loop does what its parameters say",
     "For every configuration and every sequence of calls (with and without reset, with points added by the user in between), an optimisation evaluates its complete initial design (random points, Latin hypercube, all points of the grid, or none) exactly when it has no iteration behind it, and then exactly the points proposed by the acquisition optimiser, all in the unit cube, until one of the stopping criteria says stop (the predicted-value criterion: once the best observation exceeds its ratio of the highest prediction its optimiser finds, by default the acquisition optimiser). At each iteration the acquisition function sees the iteration number and a model of all data known before, the statistics see the new point, and the counters are right; the hyper-parameters are trained exactly at the iterations the period says, on all data. At the end the model predicts what the reference posterior of the database predicts.",
     ["histories", "configurations", "inputs"], "All histories of calls, all combinations of initial design, model, acquisition function and optimiser, aggregator, stopping criteria, hyper-parameter period and budget, including zero.",
     "The tests check the final value on a few fixed configurations with one call to optimise.",
     ["src/limbo/bayes_opt/boptimizer.hpp", "src/limbo/bayes_opt/bo_base.hpp", "src/limbo/init", "src/limbo/stop"],
     [("optimize()", "src/limbo/bayes_opt/boptimizer.hpp"), ("initial designs", "src/limbo/init"), ("chained stopping criteria", "src/limbo/stop/chain_criteria.hpp")])

prop("C20", "Optimisers keep their bounds, budget, best point and update rule under faults",
     "For every objective, including one that throws, returns infinities or not-a-number, or is flat, every inner optimiser (random point, grid search, Rprop, gradient ascent, Adam, NLopt with and without gradient, chained) called with bounds evaluates and returns only points of the unit cube, respects its budget of evaluations, and ends when the objective throws, the optimisers of the library itself handing the exception to the caller. Those that promise it return the best point they have evaluated, the grid search evaluates exactly the grid, the gradient optimisers follow their published update rules, and the NLopt bindings do what NLopt does with the same settings and constraints. An optimiser object that is used again, after a failure or in another dimension, or at the same time as others, behaves as a new one alone.",
     ["inputs", "fault_sequences", "histories", "schedules"], "All objectives and failure points, all starting points, budgets and settings, sequences of uses of one object, concurrent uses of several.",
     "The tests run each optimiser once on one smooth objective and check that it ends near the optimum.",
     ["src/limbo/opt"], [("Rprop", "src/limbo/opt/rprop.hpp"), ("GridSearch", "src/limbo/opt/grid_search.hpp"), ("GradientAscent", "src/limbo/opt/gradient_ascent.hpp"), ("Adam", "src/limbo/opt/adam.hpp"), ("NLOptBase", "src/limbo/opt/nlopt_base.hpp"), ("Chained", "src/limbo/opt/chained.hpp")])

exec(open(os.path.join(HERE, "gen_more.py")).read()) if os.path.exists(os.path.join(HERE, "gen_more.py")) else None

NA = {}
P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks = []
for p in P:
    i = p["id"]
    if i in NA:
        continue
    q = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py run %s" % i,
        "thorough_cmd": "python3 check.py run %s --tier thorough" % i,
        "technique": "deterministic simulation: seeded search over schedules, faults and histories",
        "level": "exploration",
        "level_note": q.get("note", "Every simulated run executes the real headers of /repo under a simulator that decides scheduling, time, entropy, disk and faults from one seed; the oracle is checked in each run and a violation is minimised and replayed exactly. It covers the runs drawn in the time given (counts in the evidence), not all of them; sequentially consistent interleavings only (data races are found by a happens-before detector)."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hook is needed in /repo: every seam (threads, TBB, clock, entropy, disk, allocation) is at link or include level. Replay a violation with 'python3 check.py replay FILE'."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
