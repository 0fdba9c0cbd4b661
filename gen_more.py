# (executed by gen.py)
prop("C10", "The statistics survive a crash at any point, and a restart never damages them",
     "With any set of the statistics of the library (samples, observations, aggregated observations, the best ones, acquisition values, hyper-parameters, likelihood, prediction differences and dumps of the model) and whenever the process is killed, even in the middle of a write, each file holds exactly, in order, the header and the line of every record whose statistics call has returned, with the right iteration and values, plus at most a prefix of the record in progress. Incomplete and interrupted writes change nothing. A process that starts again, with the same process id, host and time or not, writes in a directory of its own and leaves the files of the previous ones as they are.",
     ["crash_points", "fault_sequences", "histories"], "All system calls as crash points and all bytes of a write as its end, all sequences of up to three lives of the process, several calls with and without reset in each life.",
     "The tests do not kill the process, and check few of the files after normal runs.",
     ["src/limbo/stat", "src/limbo/bayes_opt/bo_base.hpp"],
     [("one flushed line per record", "src/limbo/stat/samples.hpp"), ("log file of a statistic", "src/limbo/stat/stat_base.hpp"), ("directory of the optimiser", "src/limbo/bayes_opt/bo_base.hpp")])

prop("C11", "A failing disk never changes an optimisation",
     "With the statistics enabled and a disk that accepts only parts of the writes, interrupts or fails them, is full, or fails when files are closed, an optimisation evaluates bit for bit the same points and returns the same result and model as it does with the statistics disabled; when its directory cannot be created, the failure is reported when the optimiser is built. If no write fails for good, the statistics are complete. Several optimisations that write at the same time keep their files apart.",
     ["fault_sequences", "schedules", "histories"], "All sequences of write, close, open and directory failures, at all positions, and all interleavings of two optimisations.",
     "The tests run on a disk that works.",
     ["src/limbo/stat", "src/limbo/bayes_opt/bo_base.hpp"],
     [("statistics only write", "src/limbo/stat/stat_base.hpp"), ("creation of the directory", "src/limbo/bayes_opt/bo_base.hpp")])

prop("C19", "Every optimiser has its own directory, whoever creates it and when",
     "Optimisers that are created at the same time or in the same second, by several threads of a process or after a restart with the same process id and whatever the clock does, never share a directory and never write in one that exists; the directory is named after the host, the date and the process id, and is created. The host name, date and process id utilities are right for all lengths of host names and can be used by several threads.",
     ["schedules", "histories", "fault_sequences"], "All interleavings of creations, frozen, ticking and jumping clocks, directories left by previous processes, host names of 1 to 64 characters.",
     "The tests create one optimiser per process on one host.",
     ["src/limbo/bayes_opt/bo_base.hpp", "src/limbo/tools/sys.hpp"],
     [("exclusive creation of the directory", "src/limbo/bayes_opt/bo_base.hpp"), ("date, hostname, getpid", "src/limbo/tools/sys.hpp")])

prop("C12", "What an archive has saved is what any process loads",
     "Every matrix, list of vectors and model (full, multi-output and sparsified Gaussian processes with any kernel and mean) saved in a text or binary archive is loaded, by the same or another process, bit for bit as it was saved: its data and parameters are the same, it answers every query as the saved model does, with and without recomputation, and both evolve in the same way afterwards. This holds whatever incomplete and interrupted reads and writes happen, over the archive of another model or one whose save was killed at any point, when several threads save and load models, and with an object that held another model before. Saving does not change the model.",
     ["inputs", "crash_points", "fault_sequences", "schedules", "histories"], "All numbers (denormalised, extreme, signed zeros), all models and their histories, all crash points of previous saves, all splits of reads and writes, all interleavings of threads with archives of their own.",
     "The tests save and load one model of each kind in one process, on a disk that works.",
     ["src/limbo/serialize", "src/limbo/model/gp.hpp", "src/limbo/model/multi_gp.hpp"],
     [("save and load of a model", "src/limbo/model/gp.hpp"), ("text format", "src/limbo/serialize/text_archive.hpp"), ("binary format", "src/limbo/serialize/binary_archive.hpp")])

prop("C13", "A failed save or load of an archive is always reported",
     "If a system call on the files of an archive fails while something is saved (open, directory, write, full disk, close) or loaded (open, read), or a file is missing, empty or incomplete (a binary file cut anywhere, a text matrix cut between two numbers), the operation throws: it never returns as if it had succeeded. After such failures, the saved model is unchanged, saving again when the disk works gives a complete archive, and loading again gives the saved model.",
     ["fault_sequences", "inputs", "histories"], "All positions of failing system calls, all files of the archive removed, emptied or cut at any byte, all kinds of models.",
     "The tests do not make the disk fail; an ignored stream state is invisible while it works.",
     ["src/limbo/serialize", "src/limbo/model/gp.hpp", "src/limbo/model/multi_gp.hpp"],
     [("checks of the streams", "src/limbo/serialize/text_archive.hpp"), ("checks of the streams", "src/limbo/serialize/binary_archive.hpp")])

prop("C14", "A model is the exact posterior of its data after any history and restart",
     "After any sequence of batch computations, incremental additions, changes of kernel and mean parameters with the recomputation they ask for, trainings, copies, assignments, saves and loads, a Gaussian process predicts the mean and variance, and reports the likelihood and leave-one-out score, of the textbook formulas for exactly the data and parameters it was given; before any data it predicts the prior. A process killed at any point of such a history that starts again from its last checkpoint and repeats the remaining operations reaches the same model. A copy shares nothing with its original.",
     ["histories", "crash_points", "inputs", "configurations"], "All histories of up to eight operations, all points where the process is killed, all kernels, means, dimensions and noises.",
     "The tests check a few fixed histories; stale caches (mean of the samples, inverse kernel, scores) only show after particular orders of operations.",
     ["src/limbo/model/gp.hpp", "src/limbo/kernel", "src/limbo/mean"],
     [("batch and incremental Cholesky", "src/limbo/model/gp.hpp"), ("cached inverse, likelihood and scores", "src/limbo/model/gp.hpp"), ("kernel parameters", "src/limbo/kernel/kernel.hpp")])

prop("C15", "Hyper-parameter training optimises the right objective and keeps its result",
     "For every kind of training (kernel by likelihood, kernel by leave-one-out score, mean, kernel and mean), whichever threads evaluate the objective and in whichever order, the value and gradient given to the optimiser at any parameters are the score of the model with those parameters on the data and its derivative, the evaluation changes nothing and races with nothing, and the optimisation starts from the current parameters. Afterwards the model has exactly the parameters the optimiser returned, predicts as the reference model with them, and reports their score. If the evaluation fails in the optimiser, the model still is what it was.",
     ["schedules", "inputs", "histories", "fault_sequences"], "All models and data, all parameters, all interleavings of one to three evaluating threads, repeated trainings with additions in between, optimisers that throw.",
     "The tests check gradients of some kernels at a few points, from one thread.",
     ["src/limbo/model/gp", "src/limbo/model/gp.hpp"],
     [("objective of the likelihood", "src/limbo/model/gp/kernel_lf_opt.hpp"), ("leave-one-out", "src/limbo/model/gp/kernel_loo_opt.hpp"), ("mean", "src/limbo/model/gp/mean_lf_opt.hpp"), ("both", "src/limbo/model/gp/kernel_mean_lf_opt.hpp")])

prop("C16", "A constrained optimisation keeps its database, both models and feasible best",
     "For any number of constraints and any history of calls (with and without reset, with points added by the user, with evaluations that throw or return an observation that is not finite), a constrained optimisation does exactly the initial design and the iterations asked for, its database is exactly the successful evaluations in order, and at each iteration the acquisition function sees an objective model and a constraint model of all data known, each trained at the iterations the period says. The best sample and observation are one pair of the database, the best feasible one (every constraint, 1 if satisfied and 0 if not, is satisfied), or the best of all if none is feasible. Failures reach the caller, calling again carries on, and constrained optimisations that run at the same time do not influence each other.",
     ["histories", "fault_sequences", "schedules", "configurations"], "All histories of up to four calls, all positions of failing evaluations, 0 to 2 constraints with values 0 and 1, 1 and 2 objectives, interleavings of two optimisations.",
     "No test of the repository runs the constrained optimiser.",
     ["src/limbo/experimental/bayes_opt/cboptimizer.hpp", "src/limbo/experimental/acqui/eci.hpp", "src/limbo/bayes_opt/bo_base.hpp"],
     [("optimize()", "src/limbo/experimental/bayes_opt/cboptimizer.hpp"), ("choice of the best feasible observation", "src/limbo/experimental/bayes_opt/cboptimizer.hpp")])

prop("C17", "A Pareto set is exactly the non-dominated elements under any schedule",
     "On any number of threads and under any interleaving, the Pareto set of a list of elements is exactly its non-dominated elements (objectives are maximised; equal elements do not dominate each other), each of them once and with its payload, in decreasing lexicographic order of the objectives, and the list is unchanged. The front of the database of a multi-objective optimisation, and the file its statistics write at each iteration, are that set. Computations that run at the same time do not influence each other.",
     ["schedules", "inputs"], "All interleavings of the parallel scan, all lists with equal, infinite and signed zero objectives, 2 to 4 objectives, concurrent computations.",
     "No test of the repository computes a Pareto set, and the parallel scan appends to a shared vector in the order of the schedule.",
     ["src/limbo/experimental/tools/pareto.hpp", "src/limbo/experimental/bayes_opt/bo_multi.hpp", "src/limbo/experimental/stat/pareto_front.hpp"],
     [("pareto_set_std", "src/limbo/experimental/tools/pareto.hpp"), ("update_pareto_data", "src/limbo/experimental/bayes_opt/bo_multi.hpp")])

prop("C18", "A sparsified model keeps the same points whatever the schedule, by density",
     "After any sequence of batch computations and incremental additions, on any number of threads and under any interleaving, a sparsified Gaussian process keeps all points while they are at most its maximum, and otherwise exactly that many: those that remain, in order and with their own observations, when the point with the smallest sum of distances to its nearest neighbours (as many as there are dimensions) is removed again and again. The choice between equally dense points does not depend on the schedule. It predicts what a full model of the points it keeps predicts, and models used by several threads do not influence each other.",
     ["schedules", "inputs", "histories"], "All interleavings of the parallel distance and density loops, all data (including regular grids, repeated points and ties), all maxima of 1 to 6 points, histories of up to three operations.",
     "The tests sparsify one random set on whatever schedule the machine produces and look at the prediction only.",
     ["src/limbo/model/sparsified_gp.hpp"],
     [("parallel search of the densest point", "src/limbo/model/sparsified_gp.hpp"), ("removal of rows and columns of the distances", "src/limbo/model/sparsified_gp.hpp")])

prop("C21", "Multi-objective optimisers learn all objectives of all evaluated points",
     "After any history of ParEGO calls (with and without reset, with points added by the user, training, and evaluations that throw or return an observation that is not finite), the model holds exactly the points of the database, each with the augmented Tchebycheff scalarisation max(w_i o_i) + rho sum(w_i o_i) of all its objectives under one vector of weights, which are not negative, sum to one and are drawn anew each time the model is updated. EHVI has at each iteration one model per objective with all the points known, searches (in the bounds) once from each point of the Pareto front of the database on any number of threads, and evaluates the point of greatest expected hypervolume improvement, for these models and this front, that the searches return. Both do exactly the initial design and the iterations asked for and carry on after a failure, and optimisations that run at the same time do not influence each other.",
     ["histories", "fault_sequences", "schedules", "configurations"], "All histories of up to four calls, all positions of failing evaluations, 2 and 3 objectives, all interleavings of the parallel searches and of two optimisations.",
     "No test of the repository runs a multi-objective optimiser.",
     ["src/limbo/experimental/bayes_opt/parego.hpp", "src/limbo/experimental/model/gp_parego.hpp", "src/limbo/experimental/bayes_opt/ehvi.hpp", "src/limbo/experimental/bayes_opt/bo_multi.hpp", "src/limbo/experimental/acqui/ehvi.hpp"],
     [("scalarisation", "src/limbo/experimental/model/gp_parego.hpp"), ("parallel searches and choice", "src/limbo/experimental/bayes_opt/ehvi.hpp"), ("one model per objective", "src/limbo/experimental/bayes_opt/bo_multi.hpp")])

prop("C22", "The pseudo-input model is the published one after any history and training",
     "After any history of a sparse model with pseudo-inputs (batch and incremental data in any dimension, trainings, some of which fail, recomputations, other parameters of the mean, copies), all its ways to predict (one point or several) give the mean and the variance of the published model (Snelson and Ghahramani, 2005) for its samples, its observations without the mean function, and the pseudo-inputs and parameters of its last training, and it holds exactly the samples given. Each training happens once, starts from max(min_m, percentage) different samples (at most all of them) and from finite parameters taken from the extent of the data (the default ones where the data has none), and maximises the logarithm of the likelihood of this model, with its exact gradient, also when the objective is evaluated by several threads; a failure of the training reaches the caller and the next training repairs the model. Readers of one model at the same time get bit for bit what they get alone, and models trained at the same time do not influence each other.",
     ["histories", "schedules", "fault_sequences"], "All histories of up to five operations, 1 to 21 samples in 1 to 3 dimensions, 10 to 100 percent of pseudo-inputs, all positions of failing trainings, all interleavings of readers, of evaluations of the objective and of trainings of two or three models; one output.",
     "No test of the repository uses this model.",
     ["src/limbo/experimental/model/spgp.hpp"],
     [("prediction", "src/limbo/experimental/model/spgp.hpp"), ("likelihood and gradient", "src/limbo/experimental/model/spgp.hpp"), ("start of the training", "src/limbo/experimental/model/spgp.hpp")])
