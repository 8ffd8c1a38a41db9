TV = "TLA+ specification checked with TLC; recorded executions validated against it"
GEN = "TLA+ specification checked with TLC; behaviours generated from it replayed into the code and validated"
BOUND = (" The code is bound on seeded behaviours, not on all of them. Trusts TLC, the recording wrappers and exactly"
         " representable numbers.")
NOTES = {
    "C02": (GEN, "Exhaustive over all histories of the bounded storage/handle model; after every replayed operation all"
            " live handles are compared." + BOUND),
    "C03": (TV, "Exhaustive over bounded evaluation histories of the model; recorded histories of scripted problems and of"
            " every search algorithm are validated." + BOUND),
    "C04": (TV, "Exhaustive over the bounded protocol model; callback sequences recorded from scripted and real searches,"
            " and histories of hooks, are validated." + BOUND),
    "C05": (TV, "Exhaustive over bounded logger histories of the model; loggers of every installed kind are observed after"
            " every event, including their files." + BOUND + " Third-party services are replaced by recording stubs."),
    "C15": (GEN, "Exhaustive for the bounded model (ring buffer and shuffle refine list and bag); the code is bound on"
            " seeded operation sequences generated from the specification. Trusts TLC, exact small values, CPU tensors."),
    "C07": (TV, "Exhaustive over all point sets of up to 4 points on a 3x3 grid and all senses; recorded sortings and selections"
            " of seeded batches (with ties and larger ones) are validated." + BOUND),
    "C10": (TV, "Exhaustive over all fitness vectors of up to 4 solutions with ties; recorded orders, selections and rankings of"
            " seeded fitnesses of all magnitudes are validated." + BOUND),
    "C06": (TV, "Exhaustive over all generations of tiny genetic algorithms under all settings; recorded generations of real algorithms with noted evaluations and offspring are validated." + BOUND),
    "C09": (TV, "Exhaustive over all cut points and splices of short parents; recorded applications of every operator are validated as pairs, columns and bounds." + BOUND),
    "C08": (TV, "Exhaustive over all generations of a three-cell archive; recorded generations with noted offspring and evaluations, and feature grids, are validated." + BOUND),
    "C16": (TV, "Exhaustive over bounded histories of two shared objects, two arrays and three tensor views; recorded histories of stores, slices, copies, thaws and attempted writes are validated with full contents and identity patterns after every step." + BOUND),
    "C20": (TV, "Exhaustive over all leading shapes up to 3x3x3 of two arguments (peeling one dimension at a time uses the same items as right-aligned broadcasting); recorded calls over random shapes, types, scalars, layouts and declarations are compared with the function applied to every combination of items." + BOUND),
    "C25": (TV, "Exhaustive over all small constraints, senses and penalty settings including infinite violations; recorded calls with broadcast arguments are validated value by value (barriers: exactly at the limit and cap, to a thousandth at powers of two, and by monotonicity elsewhere)." + BOUND),
    "C11": (TV, "SearchDistribution.tla states weights, weighted sums, divisions, elites and local coordinates as fractions of integers; recorded gradients, chains of updates, samples and steps of whole searches are validated against it." + BOUND),
    "C12": (TV, "Adaptation.tla states limited changes, the clipping, momentum and adam steps, and growth under an interaction budget; TLC checks the limits over all short histories of a small search, and recorded optimizers, searches (class-based and functional) and budget runs are validated step by step." + BOUND),
    "C13": (TV, "SearchRuns.tla holds one look per origin and history, whichever mirror a run was set up with; TLC checks it over all interleavings of small elitist searches, and recorded generations of mirrored and rescaled searches of every algorithm are validated against each other." + BOUND),
    "C17": (TV, "TLC generates schedules of building, working, copying and discarding; they are replayed on real searches, problems, batches, distributions and optimizers, and every look and the sharing of parts is validated against SearchRuns.tla." + BOUND),
    "C18": (TV, "TLC generates interleavings of twin searches and other random activity; looks, states of the global generators and freshly generated solutions (bounds, types) are validated against SearchRuns.tla." + BOUND),
    "C19": (TV, "FunctionalSearch.tla holds answers per state and question and right-aligned places in a batch; TLC generates trees of ask and tell calls which are replayed on real functional searches and optimizers, and every answer is validated against earlier answers, the searches run alone and the class-based ones." + BOUND),
    "C01": (TV, "TLC explores all assignments, completion orders, restarts and request sequences of small pools; generated schedules drive the real evaluation code on a deterministic replacement of the process layer of Ray (pickled messages, per-worker random states, scheduler chosen by the behaviour), and every evaluation call and result is validated." + BOUND),
    "C14": (TV, "TLC explores all shares, completion orders and budgets of small pools; generated requests and orders drive real distributed estimations and searches on the deterministic replacement of the process layer of Ray, and the tasks, the gradients given back and the combined update are validated." + BOUND),
    "C21": (GEN, "Histories of updates and of requests generated by TLC are replayed; recorded counts, sums, normalised values (revealed by the actions which identity policies take) and totals are validated against RunningStats.tla and ParallelStatistics.tla." + BOUND),
    "C22": (GEN, "Problems, episode rules and sequences of evaluations generated by TLC are replayed with policies which sign their actions and simulators which write down everything; scores, counters, actions and episodes are validated against Episodes.tla." + BOUND),
    "C23": (GEN, "TLC checks that policies used together never notice each other over all short histories, and generates networks and histories of calls, resets and replacements; the outputs of every way of using a flat vector (filled, functional form, policies together, exported, made and evaluated by problems, written in text) are validated against Networks.tla in exact small integers." + BOUND),
    "C24": (GEN, "TLC checks counters, sizes and the best so far over all scripts of a small restarting search and generates scripts of fitnesses and endings; every generation of restarting searches around nine real algorithms is validated against Restarting.tla, and the inner search against the same algorithm run alone on a twin problem." + BOUND),
    "C26": (GEN, "TLC checks the even use of all items over all draws from small data sets and generates data sets, minibatch settings and sequences of requests; what every network sees and the losses it is given are validated against Supervised.tla." + BOUND),
}
