prop("C01", "Parallel evaluation is indistinguishable from sequential evaluation",
 "Evaluating a batch gives every solution in it exactly the fitnesses (and auxiliary evaluation data) that its own decision values yield, in place, whatever the number of worker processes, the sub-batch setting, or the order in which workers finish. Within one request every solution is evaluated exactly once: none is skipped, repeated, or given the result of another. This stays true over any sequence of requests, including single solutions, batches smaller than the number of workers, and requests made after the workers were shut down and re-created.",
 ["schedules", "configurations", "histories"], "all worker counts, sub-batch counts/sizes, batch sizes, assignment and completion orders of the workers, and sequences of evaluation requests with worker shutdowns in between",
 "tests/test_parallelization.py runs one or two configurations under whatever order Ray happens to produce; completion order, ragged piece sizes and restart histories are never enumerated.",
 ["core.py"], [("splitting a batch into pieces and writing the pieces' results back by piece index", "core.py:Problem._evaluate_all"), ("lazy creation of workers with own seeds and state", "core.py:Problem._parallelize"), ("piece bookkeeping", "core.py:SolutionBatchPieces")],
 [("actors", "pool of remote copies of the problem", "core.py:Problem._parallelize")], ["batch.evals after evaluate()", "arguments received by the user's fitness function"])

prop("C02", "A displayed fitness always belongs to the decision values beside it",
 "Writing decision values through a batch, a slice of it or a single solution marks exactly the solutions exposed by that write as not evaluated (unless the caller explicitly asks to keep the evaluations), and reading never changes anything. Slices, pieces of a split and single solutions share storage with the batch they come from in both directions, whereas clones, index-selected subsets and concatenations are independent. Tensors handed out for reading reject modification.",
 ["histories", "inputs"], "all histories of reads, writes, slicing, selecting, splitting, cloning, concatenating and re-evaluating over numeric and object-typed batches with one or more objectives and auxiliary data",
 "Tests check single read/write calls; the aliasing graph produced by chains of views and copies followed by writes in any order is not explored.",
 ["core.py", "tools/readonlytensor.py", "tools/objectarray.py"], [("invalidation on write access", "core.py:SolutionBatch.access_values / set_values"), ("slice_of / like / merging_of construction", "core.py:SolutionBatch.__init__"), ("single-solution view", "core.py:Solution")],
 [("decision values and evaluations", "two row-aligned arrays per batch, possibly shared", "core.py:SolutionBatch")], ["values / evals of every live handle after every operation"])

prop("C03", "Best and worst ever evaluated are tracked exactly",
 "After any history of evaluations, the reported best (worst) solution per objective carries the best (worst) fitness ever assigned by an evaluation of that problem and the decision values that earned it, with objective sense respected. The report never gets worse (better) over time, and is a snapshot: later changes to the evaluated batches do not alter it. Reported scalar best/worst evaluations agree with these solutions.",
 ["histories", "inputs"], "all sequences of evaluated batches and single solutions, any fitness values including ties and infinities, any mixture of objective senses, in-place edits of batches between evaluations",
 "Tests look at the status after one short run; ties, infinite fitnesses, multi-objective senses and mutation of earlier batches are not combined.",
 ["core.py", "algorithms/searchalgorithm.py"], [("per-objective comparison against stored extremes, cloning of the winning solution", "core.py:Problem._get_best_and_worst"), ("status exposure", "core.py:Problem.status"), ("population statistics", "algorithms/searchalgorithm.py:SinglePopulationAlgorithmMixin")],
 None, ["problem.status", "searcher.status"])

prop("C04", "Search steps, callbacks and status follow one fixed protocol",
 "Each step performs the before-step callbacks, exactly one generation, one increment of the generation counter, the after-step callbacks (whose returned items are merged into the status) and finally the log callbacks, which receive exactly the status of that generation. A run of n generations performs n steps and then the end-of-run callbacks with the final status. Status entries never survive from an earlier generation, callbacks fire in registration order, and their results are accumulated by the documented key rules.",
 ["histories", "configurations"], "all interleavings of step/run calls, callback registrations and removals, callbacks returning nothing, mappings or scalars, and reads of the lazily computed status",
 "tests/test_hook.py checks isolated callback lists; the order and staleness guarantees over whole run histories are not checked anywhere.",
 ["algorithms/searchalgorithm.py", "tools/hook.py", "core.py"], [("step order", "algorithms/searchalgorithm.py:SearchAlgorithm.step"), ("lazy status", "algorithms/searchalgorithm.py:LazyReporter"), ("callback list with dict accumulation", "tools/hook.py:Hook")],
 [("steps counter and lazy status dictionary", "", "algorithms/searchalgorithm.py")], ["order of callback invocations", "searcher.status", "searcher.step_count"])

prop("C05", "Loggers record exactly the generations they are configured for",
 "A logger attached at any point with a given interval records a generation if and only if the interval rule (with or without logging right after the first step) selects it, each at most once, with the values of that generation and in order. The file-saving logger additionally leaves behind a file for the last generation of a finished run, never saves the same generation twice, reports the file it saved last, and each file holds the state of the generation in its name.",
 ["histories", "configurations"], "all intervals, first-step settings, attachment points, numbers and lengths of consecutive runs, and explicit saves in between",
 "tests/test_logging.py runs a handful of fixed settings for one run each.",
 ["logging.py"], [("interval counting", "logging.py:Logger.__call__"), ("final save and explicit save bookkeeping", "logging.py:PicklingLogger"), ("row recording", "logging.py:PandasLogger")],
 None, ["rows of the data frame", "printed output", "files in the target directory"])

prop("C06", "Genetic algorithms keep population size and never lose the elite",
 "After every generation the population has its configured size, consists only of previous members and offspring of this generation, and every member carries the evaluation of its own values. With elitism the survivors are exactly the best of parents and offspring together, so the best fitness never deteriorates; without elitism they are the best offspring, topped up with the best parents only when there are too few offspring. Each generation evaluates exactly the solutions the re-evaluation settings call for.",
 ["histories", "configurations", "inputs"], "all population sizes, offspring counts, operator chains, elitism and re-evaluation settings, fitness assignments with ties, and numbers of generations",
 "tests/test_ga.py runs a few configurations on smooth functions and checks shapes or rough progress only.",
 ["algorithms/ga.py", "core.py"], [("survivor selection", "algorithms/ga.py:GeneticAlgorithm._step"), ("steady-state replacement", "algorithms/ga.py:SteadyStateGA"), ("Cosyne generation", "algorithms/ga.py:Cosyne")],
 [("population", "evaluated batch carried between generations", "algorithms/ga.py")], ["searcher.population before and after each step", "arguments of the user's fitness function"])

prop("C07", "Multi-objective ranking is exact non-dominated sorting with crowding",
 "Grouping a batch into fronts puts each solution in the first front in which nothing remaining dominates it, under the declared senses, and the fronts partition the batch. Selecting the best n of a multi-objective batch takes whole better fronts before worse ones and, inside the front that is cut, prefers larger crowding distance with extreme solutions first. Tournament selection and survivor selection agree with this order.",
 ["inputs", "configurations"], "all fitness matrices including duplicates, all numbers of objectives and senses, all selection sizes",
 "tests/test_pareto_sorting.py compares a few random matrices against one reference and never checks selection of a cut front.",
 ["core.py", "operators/base.py"], [("non-dominated sorting and crowding", "core.py:_pareto_sort / _compute_pareto_ranks"), ("selection of the best", "core.py:SolutionBatch.take_best")],
 None, ["fronts and ranks returned", "rows selected"])

prop("C08", "The MAP-Elites archive keeps the best suitable solution of every cell",
 "After every generation each cell holds the best solution, among its previous occupant, all other archive members and the new offspring, whose features lie within the cell's bounds, and is marked filled exactly if such a solution exists. With a deterministic fitness a filled cell never becomes empty and its fitness never deteriorates. Feature grids made from bounds and bin counts tile the whole feature space without gaps.",
 ["histories", "inputs", "configurations"], "all sequences of offspring, feature values on and off cell borders, objective senses, grid shapes and numbers of generations",
 "The archive rule is covered only by an example script that checks nothing about cell contents.",
 ["algorithms/mapelites.py"], [("best suitable solution per cell", "algorithms/mapelites.py:_best_solution_considering_all_features"), ("grid construction", "algorithms/mapelites.py:MAPElites.make_feature_grid")],
 [("archive with fill marks", "one solution per cell", "algorithms/mapelites.py:MAPElites")], ["population, filled and evals after each step"])

prop("C09", "Variation operators only recombine or perturb what they were given",
 "Cross-over children are made of the genes of two selected parents at matching positions (or of combinations bounded as documented), in complementary pairs, in the requested number; permutation and cut-and-splice operators conserve genes; mutation changes only values and keeps them inside the problem's declared bounds. No operator alters the batch it is applied to, and every child starts unevaluated except where a parent is passed on unchanged.",
 ["inputs", "configurations"], "all parent batches, solution lengths, bounds, numbers of children or rates, random draws and operator settings, numeric and object-typed",
 "tests/test_ga.py only exercises operators inside short runs with float populations and checks no gene provenance.",
 ["operators/base.py", "operators/real.py", "operators/sequence.py"], [("parent pairing by tournament", "operators/base.py:CrossOver"), ("gene exchange", "operators/real.py:MultiPointCrossOver / SimulatedBinaryCrossOver"), ("bounds enforcement", "operators/real.py:GaussianMutation / PolynomialMutation"), ("sequence operators", "operators/sequence.py:CutAndSplice")],
 None, ["children returned", "input batch before and after"])

prop("C10", "Ordering and selection always follow the objective sense",
 "Sorting, picking the best or worst, selecting the best n, tournaments, utilities and fitness rankings order solutions consistently with the objective sense: a strictly better solution is never placed behind, selected after, or given a smaller utility than a worse one. Rankings depend only on the order of the fitnesses where documented, have the documented value range and sum, and reordering the solutions reorders the result the same way.",
 ["inputs", "configurations"], "all fitness vectors including ties and extreme magnitudes, all ranking methods, senses, population sizes and permutations",
 "tests/test_ranking.py checks five fixed vectors.",
 ["tools/ranking.py", "core.py", "operators/base.py"], [("ranking methods", "tools/ranking.py"), ("argsort / argbest / take_best / utility", "core.py:SolutionBatch")],
 None, ["returned order, indices and utilities"])

prop("C11", "Search distributions are sampled and updated by their documented rules",
 "Samples of a symmetric search distribution come as mirrored pairs around the centre, and gradient estimates are exactly the documented weighted sums over the given samples with weights taken from the fitness ranking, independent of the order of independent samples. Following a gradient moves each parameter by its learning rate times the gradient, or through the configured optimizer, and never modifies the original distribution or the caller's arguments.",
 ["inputs", "histories", "configurations"], "all sample sets, fitness vectors, ranking methods, parameter settings, learning rates and sequences of updates",
 "Tests check shapes and a few end-to-end runs; no test compares an estimate with the formula for arbitrary samples.",
 ["distributions.py", "optimizers.py", "algorithms/distributed/gaussian.py"], [("sampling and gradient rules", "distributions.py:SeparableGaussian / SymmetricSeparableGaussian / ExpSeparableGaussian / ExpGaussian"), ("update rule", "distributions.py:Distribution.update_parameters"), ("optimizers", "optimizers.py")],
 None, ["samples, gradients and parameters returned"])

prop("C12", "Adaptation limits of distribution-based searches are never exceeded",
 "In every generation of a distribution-based search each standard deviation stays within the configured minimum and maximum and changes by no more than the configured relative amount. The clipped-momentum optimizer never moves the centre by more than its maximum speed in one step. Population sizes under an interaction budget start at the configured size and grow by that size, only while the budget is unmet and the configured maximum is not reached.",
 ["histories", "configurations", "inputs"], "all fitness landscapes (including constant and exploding ones), learning rates, limits given as scalars or vectors, and numbers of generations",
 "Tests run a few steps on a smooth function with default limits.",
 ["algorithms/distributed/gaussian.py", "optimizers.py", "tools/misc.py", "core.py", "algorithms/functional/funcpgpe.py"], [("controlled stdev update", "algorithms/distributed/gaussian.py:GaussianSearchAlgorithm._step"), ("clipping of changes", "tools/misc.py:modify_tensor / modify_vector"), ("speed cap", "optimizers.py:ClipUp"), ("interaction budget loop", "core.py:Problem._sample_and_compute_gradients")],
 [("distribution and optimizer velocity", "", "algorithms/distributed/gaussian.py")], ["status center/stdev after each step", "population sizes"])

prop("C13", "Maximising f and minimising -f are the same search",
 "For every algorithm, running with the same seed on the problem of maximising a fitness and on the problem of minimising its negation produces the same populations, centres and step sizes in every generation, with the fitnesses (and the reported best, worst and mean ones) negated. Likewise rank-based searches are unaffected by any strictly increasing rescaling of the fitness.",
 ["histories", "configurations", "inputs"], "all algorithms and their settings, fitness functions, seeds and numbers of generations",
 "No existing test compares the two senses; a sign slip in one branch only shows as slower convergence.",
 ["core.py", "algorithms/distributed/gaussian.py", "algorithms/ga.py", "algorithms/cmaes.py", "algorithms/mapelites.py", "distributions.py", "tools/ranking.py"], [("objective sense handled in comparisons, utilities and rankings", "core.py:SolutionBatch.utility / argsort"), ("ranking direction", "tools/ranking.py:rank")],
 None, ["population and status trajectories of twin runs"])

prop("C14", "Distributed gradient estimation accounts for every sample exactly once",
 "When gradient estimation is spread over workers, the requested population is divided among them without loss or duplication (in even shares where mirrored samples need them), each worker evaluates exactly its share, and the combined update equals the share-weighted average of the workers' own estimates whatever the order in which they finish. Reported sample and interaction totals equal what was actually evaluated, also when workers keep sampling to meet an interaction budget.",
 ["schedules", "configurations", "histories"], "all worker counts, population sizes, completion orders, interaction budgets and maximum sizes, weighting choices and numbers of generations",
 "The distributed mode is exercised by one or two smoke tests which only check that it runs.",
 ["core.py", "algorithms/distributed/gaussian.py", "tools/misc.py"], [("share computation", "tools/misc.py:split_workload; core.py:Problem.sample_and_compute_gradients"), ("combination of gradients", "algorithms/distributed/gaussian.py:_step_distributed"), ("interaction budget", "core.py:Problem._sample_and_compute_gradients")],
 None, ["solutions seen by workers", "status and distribution after each step"])

prop("C15", "Batched containers act as independent memories, dicts, lists and bags",
 "Every element of a batched container behaves exactly like its own plain memory, dictionary, bounded double-ended list or bag: reads return what was last stored, arithmetic updates apply the named operation, masked operations leave unmasked elements untouched, and no element influences another. Invalid keys, absent list elements, and overflows are reported instead of corrupting data when verification is on. A bag returns exactly the multiset of what was put in, each item once, in a random order of its own.",
 ["histories", "configurations", "inputs"], "all operation sequences, masks, key forms, key offsets, batch and value shapes, element types and capacities",
 "tests/test_structures.py runs short fixed scripts; masks, negative or offset keys, capacity limits, integer ranges and their combinations are mostly unvisited.",
 ["tools/structures.py"], [("addressing and masking", "tools/structures.py:CMemory"), ("existence marks", "tools/structures.py:CDict"), ("circular indexing", "tools/structures.py:CList"), ("shuffled circular storage", "tools/structures.py:CBag")],
 [("contiguous tensor, existence flags, begin/end cursors", "", "tools/structures.py")], ["results and full contents after each call"])

prop("C16", "Object arrays own their contents and read-only views cannot be written",
 "Anything stored in an object array (or made immutable) is insulated: mutating the original afterwards, or mutating a copy obtained from it, never changes what the array shows. Slices of an object array share storage in both directions while advanced indexing, cloning and pickling give independent contents, and identity sharing inside stored objects is preserved. Read-only views of tensors and object arrays, and everything sliced or derived as a view from them, refuse every in-place modification yet keep following the writable original.",
 ["histories", "inputs"], "all histories of storing, slicing, indexing, cloning, pickling, viewing and in-place writing over nested lists, tuples, dicts, sets, strings, numbers and arrays",
 "tests/test_objectarray.py and test_read_only_tensor.py check single calls, not aliasing over histories or nested containers.",
 ["tools/objectarray.py", "tools/immutable.py", "tools/readonlytensor.py", "tools/cloning.py"], [("conversion on store", "tools/immutable.py:as_immutable"), ("shared storage slicing", "tools/objectarray.py:ObjectArray"), ("in-place guard", "tools/readonlytensor.py:ReadOnlyTensor.__torch_function__")],
 None, ["contents of every live handle after every operation"])

prop("C17", "A cloned or pickled search continues exactly like the original",
 "Cloning or pickling a problem, batch, distribution or whole search at any point and continuing with the copy yields the same future as continuing with the original, and neither influences the other. Shared parts stay shared inside the copy (a search and its operators refer to one problem), and worker-held counters survive the round trip.",
 ["crash_points", "histories", "configurations"], "every point of a run at which a save may happen, every algorithm and problem kind, every continuation, repeated saves and restores",
 "tests/test_cloning.py clones small container trees; no test interrupts and resumes a search.",
 ["tools/cloning.py", "core.py", "distributions.py", "algorithms/searchalgorithm.py"], [("memoised deep cloning", "tools/cloning.py:deep_clone"), ("problem state capture including generator and worker states", "core.py:Problem._get_cloned_state"), ("pickling through cloning", "tools/cloning.py:Serializable")],
 None, ["trajectories of original and copy", "identity relations inside the copy"])

prop("C18", "A seeded problem is reproducible and stays inside its declared space",
 "Two searches built alike on problems with the same seed follow identical trajectories, regardless of what else consumes global randomness in the process, and running them does not disturb the global generators. Every freshly generated solution has the declared length and type and lies within the declared initial bounds (or, when only strict bounds are declared, within those); integer bounds are inclusive.",
 ["configurations", "histories", "inputs"], "all seeds, algorithms, problem declarations (scalar and vector bounds, integer, boolean and floating types) and interleavings with other random activity",
 "Tests never interleave foreign randomness and check bounds of a few float populations only.",
 ["core.py", "tools/tensormaker.py", "tools/misc.py", "operators/base.py"], [("problem-owned generator", "core.py:Problem.manual_seed / generator"), ("generator passed to every draw", "tools/tensormaker.py:TensorMakerMixin"), ("uniform fill within bounds", "core.py:Problem._fill; tools/misc.py:make_uniform")],
 None, ["trajectories of twin searches", "global generator states", "generated values"])

prop("C19", "Functional searches are pure and batches of them run independently",
 "A functional search state is a value: asking or telling never changes it, so any earlier state can be resumed any number of times with the same answer for the same inputs. A batch of searches behaves exactly as the same searches run one by one, including per-search hyper-parameters broadcast by the documented rules. The functional optimizers and searches agree with their class-based counterparts when given the same samples.",
 ["histories", "inputs", "configurations"], "all trees of ask/tell calls over states, all batch shapes and hyper-parameter broadcasts, all sample/fitness inputs",
 "tests/test_func_alg.py checks shapes and convergence of single linear runs.",
 ["algorithms/functional/funcpgpe.py", "algorithms/functional/funccem.py", "algorithms/functional/funcclipup.py", "algorithms/functional/funcadam.py", "algorithms/functional/funcsgd.py", "decorators.py", "distributions.py"], [("immutable state tuples", "algorithms/functional/*"), ("batch handling by dimension-aware mapping", "decorators.py:expects_ndim")],
 None, ["states and populations returned"])

prop("C20", "Functions declared for fixed dimensions batch like a loop over items",
 "A function wrapped to expect arguments of fixed dimensionality, when given extra leading dimensions, returns exactly what calling it item by item over the broadcast leading dimensions would return, with the leading dimensions in front of the result. Omitted or too-small arguments are treated as documented or reported, and randomness per item follows the requested mode.",
 ["inputs", "configurations", "programs"], "all combinations of expected dimensions, leading shapes per argument, scalar and missing arguments, single and tuple results",
 "tests/test_expects_ndim.py and test_decorators.py sample a few shapes.",
 ["decorators.py"], [("alignment of leading dimensions and nested mapping", "decorators.py:expects_ndim"), ("row-wise wrapper", "decorators.py:rowwise")],
 None, ["results of wrapped calls"])

prop("C21", "Observation statistics count every observation exactly once",
 "Running statistics hold exactly the count, sum and sum of squares of the observations fed to them, however these were grouped into single items, batches, masked batches or merged statistics, and feeding them never alters the caller's data. Normalisation uses exactly these statistics. In a parallel reinforcement-learning problem the main statistics and counters equal the totals over all workers, each contribution merged once.",
 ["histories", "schedules", "configurations", "inputs"], "all orders and groupings of updates, masks, merges and resets, all worker counts and piece assignments",
 "tests/test_normalization.py feeds a couple of fixed batches; merging across workers is untested.",
 ["neuroevolution/net/runningnorm.py", "neuroevolution/net/runningstat.py", "neuroevolution/gymne.py", "neuroevolution/vecgymne.py", "core.py"], [("accumulation", "neuroevolution/net/runningnorm.py:RunningNorm.update"), ("delta collection and merge", "neuroevolution/gymne.py:_make_sync_data_for_main / _use_sync_data_from_actors"), ("sync protocol", "core.py:Problem._sync_before / _sync_after")],
 [("sum, sum of squares, count", "", "neuroevolution/net/runningnorm.py")], ["count, sum, sum_of_squares, normalised values", "interaction and episode counters"])

prop("C22", "Policy scores are the rewards of exactly that policy's own episodes",
 "In reinforcement-learning problems the score of each solution is the average over its configured number of episodes of the rewards its own policy collected, including configured reward shifts and survival bonuses, and nothing from other policies, from steps after its last episode, or from idle simulators. Every simulator receives its own policy's actions, brought within its limits and altered by nothing but the configured noise, and interaction and episode counters equal the steps and episodes actually played. Vectorised and non-vectorised problems agree on the same deterministic environment.",
 ["histories", "configurations", "schedules"], "all episode lengths and reward sequences, numbers of episodes, population sizes versus simulator counts, bonus schedules and repeated evaluations",
 "tests/test_neuroevolution_vecgymne.py uses one environment where all episodes have similar length and checks that evaluation runs.",
 ["neuroevolution/gymne.py", "neuroevolution/vecgymne.py", "neuroevolution/net/vecrl.py", "neuroevolution/net/rl.py"], [("episode loop", "neuroevolution/gymne.py:GymNE._rollout"), ("active mask and episode counting", "neuroevolution/vecgymne.py:VecGymNE._evaluate_subbatch"), ("auto-reset and episode limits", "neuroevolution/net/vecrl.py:SyncVectorEnv"), ("survival bonus", "neuroevolution/net/rl.py:AliveBonusScheduleWrapper")],
 [("per-simulator activity, score and episode count", "", "neuroevolution/vecgymne.py")], ["evals", "interaction_count / episode_count", "actions received by the environment"])

prop("C23", "A flat parameter vector always denotes the same network behaviour",
 "Filling a network with a flat vector, reading it back, calling its functional form, batching policies, and exporting a policy all interpret the same vector identically, element by element in parameter order, and a vector of the wrong length is rejected. Recurrent state is kept per policy, starts fresh, is cleared exactly for the policies that are reset, and never leaks between policies. A network described in text behaves as the sequence of the named layers in the written order.",
 ["inputs", "histories", "programs"], "all layer sequences, parameter vectors, input sequences, partial resets and parameter replacements",
 "tests/test_net.py and test_vecrl.py check a few fixed networks and one reset pattern.",
 ["neuroevolution/net/misc.py", "neuroevolution/net/functional.py", "neuroevolution/net/vecrl.py", "neuroevolution/net/parser.py", "neuroevolution/net/multilayered.py", "neuroevolution/net/statefulmodule.py", "neuroevolution/neproblem.py"], [("flat parameter slicing", "neuroevolution/net/functional.py:ModuleExpectingFlatParameters; net/misc.py:fill_parameters"), ("policy state and reset", "neuroevolution/net/vecrl.py:Policy"), ("layer chaining", "neuroevolution/net/multilayered.py:MultiLayered"), ("text parsing", "neuroevolution/net/parser.py:str_to_net")],
 [("hidden state per policy", "", "neuroevolution/net/vecrl.py:Policy")], ["network outputs", "parameter vectors"])

prop("C24", "Restarting searches restart when, and only when, their rule says so",
 "A restarting search behaves as its inner search until the inner search terminates or its restart condition holds, then continues with a freshly built inner search whose settings follow the restart rule (such as a multiplied population size), on the same problem. The outer generation counter keeps counting, and the best found so far survives restarts.",
 ["histories", "configurations"], "all sequences of inner terminations and condition outcomes, restart rules, multipliers and numbers of generations",
 "Restarting searches are covered by a smoke run at most.",
 ["algorithms/restarter/restart.py", "algorithms/restarter/modify_restart.py"], [("restart decision and inner search construction", "algorithms/restarter/restart.py:Restart"), ("population growth", "algorithms/restarter/modify_restart.py:IPOP")],
 [("inner search and restart count", "", "algorithms/restarter/restart.py")], ["inner search identity and settings after each step", "status"])

prop("C25", "Constraint penalties charge violations only, and monotonically",
 "The violation of a constraint is zero exactly when it is satisfied and otherwise the amount by which it is broken; penalties are zero without violation, directed against the objective sense, and grow monotonically with the violation up to the configured cap; barriers grow monotonically as the limit is approached and reach infinity, or their configured cap, at it. Batched inputs give the same values as item-wise calls.",
 ["inputs", "configurations"], "all left- and right-hand sides, comparison kinds, senses, penalty settings and batch shapes",
 "tests/test_constraint_penalization.py checks selected values.",
 ["tools/constraints.py"], [("violation, penalty and barrier formulas", "tools/constraints.py")],
 None, ["returned values"])

prop("C26", "Supervised evaluations use complete, shared and fresh minibatches",
 "In a supervised-learning problem the loss of each network is the average of its losses over the configured number of minibatches; with common minibatches all networks evaluated together by one process see exactly the same data, and every evaluation draws the next minibatches. Each pass of a process over the data set yields every item once before any repeats.",
 ["histories", "configurations"], "all data set sizes, minibatch sizes and counts, population sizes, common or individual minibatches and sequences of evaluations",
 "Only a smoke example runs this class.",
 ["neuroevolution/supervisedne.py", "neuroevolution/neproblem.py"], [("minibatch iteration with wrap-around", "neuroevolution/supervisedne.py:SupervisedNE.get_minibatch"), ("common minibatch handling", "neuroevolution/supervisedne.py:_evaluate_batch / _evaluate_network")],
 [("data loader iterator", "", "neuroevolution/supervisedne.py")], ["inputs seen by the networks", "evals"])
