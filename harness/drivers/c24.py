"""C24: searches which restart, validated against Restarting.tla."""

import random

import torch
from common import enc, encs
from evotorch import Problem
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, PyCMAES, SteadyStateGA
from evotorch.algorithms.restarter import IPOP, ModifyingRestart, Restart
from evotorch.operators import GaussianMutation, OnePointCrossOver
from snap import name, see_search

CLASSES = {
    "snes": SNES, "xnes": XNES, "pgpe": PGPE, "cem": CEM, "cmaes": CMAES, "pycmaes": PyCMAES, "ga": GeneticAlgorithm, "ssga": SteadyStateGA, "cosyne": Cosyne,
}


class World:
    """A problem whose fitnesses are scripted by generation."""

    def __init__(self, plan, seed):
        self.plan = plan
        self.gen = -1
        self.seen = []

        class Scripted(Problem):
            def _evaluate_batch(problem, batch):
                g = plan["gens"][max(self.gen, 0) % len(plan["gens"])]
                n = len(batch)
                extra = {"same": [0] * n, "one": [g["odd"]] + [0] * (n - 1), "half": [g["odd"] * (i % 2) for i in range(n)], "rise": [(i * g["odd"]) % 5 for i in range(n)]}[g["shape"]]
                fits = [float(g["base"] + e) for e in extra]
                self.seen += fits
                if plan["extra"]:
                    batch.set_evals(torch.tensor(fits), torch.tensor([[100.0 * (i + 1)] for i in range(n)]))
                else:
                    batch.set_evals(torch.tensor(fits))

        self.problem = Scripted(plan["sense"], solution_length=3, initial_bounds=(-4.0, 4.0), eval_data_length=plan["extra"], seed=seed)

    def settings(self):
        p = self.problem
        return {
            "snes": lambda: dict(stdev_init=1.0, popsize=self.plan["size"]),
            "xnes": lambda: dict(stdev_init=1.0, popsize=self.plan["size"]),
            "pgpe": lambda: dict(popsize=self.plan["size"], center_learning_rate=0.25, stdev_learning_rate=0.125, stdev_init=1.0, symmetric=False),
            "cem": lambda: dict(popsize=self.plan["size"], parenthood_ratio=0.5, stdev_init=1.0),
            "cmaes": lambda: dict(stdev_init=1.0, popsize=self.plan["size"]),
            "pycmaes": lambda: dict(stdev_init=1.0, popsize=self.plan["size"], cma_options={"verbose": -9}),
            "ga": lambda: dict(popsize=self.plan["size"], operators=[OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.5)]),
            "ssga": lambda: dict(popsize=self.plan["size"], operators=[OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.5)]),
            "cosyne": lambda: dict(popsize=self.plan["size"], tournament_size=2, mutation_stdev=0.5),
        }[self.plan["alg"]]()


def one(tr, job):
    plan, seed = job
    rng = random.Random(seed)
    rule = plan["rule"]
    seed = rng.randrange(1 << 20)
    here, there = World(plan, seed), World(plan, seed)
    tr.cfg.update(sense=plan["sense"], size=plan["size"], rule=rule)
    base = CLASSES[plan["alg"]]
    built = []
    args = here.settings()
    given = dict(args)
    gens = plan["gens"]

    class Ending(base):
        """The algorithm, which ends when the script says so, and writes down how it was built."""

        def __init__(inner, problem, **kw):
            built.append((problem, kw))
            super().__init__(problem, **kw)

        @property
        def is_terminated(inner):
            return inner.step_count > 0 and gens[here.gen]["ended"]

    def builds():
        out = []
        for problem, kw in built:
            others = set(kw) == set(given) and all(kw[k] is given[k] or kw[k] == given[k] for k in given if k != "popsize")
            out.append({"same": problem is here.problem, "others": others, "size": kw["popsize"]})
        built.clear()
        return out

    if rule["kind"] == "plain":
        search = Restart(here.problem, Ending, args)
    elif rule["kind"] == "grow":
        more = {} if rule["lim"] == -1 else {"min_fitness_stdev": rule["lim"] / 2}
        if rule["twice"] != 4 or rng.random() < 0.5:
            more["popsize_multiplier"] = rule["twice"] / 2
        search = IPOP(here.problem, Ending, args, **more)
    else:

        class Listed(ModifyingRestart):
            def _modify_algorithm_args(self):
                self._algorithm_args = {**self._algorithm_args, "popsize": rule["sizes"][self.num_restarts % len(rule["sizes"])]}

        search = Listed(here.problem, Ending, args)

    def alone(size):
        kw = there.settings()
        kw["popsize"] = size
        return base(there.problem, **kw)

    first = builds()
    twin = alone(first[0]["size"])
    status = dict(search.status) if rng.random() < 0.5 else {}
    tr.add("start", built=first, outer=search.step_count, inner=search.search_algorithm.step_count, starts=search.num_restarts)
    before = {}

    def prepare():
        for w in (here, there):
            w.gen += 1
            w.seen = []
        before["inner"] = search.search_algorithm

    def note(status):
        nonlocal twin
        old = before["inner"]
        made = builds()
        twin.step()
        look, other = (name(repr(see_search(s))) for s in (old, twin))
        shown = status["search_algorithm"]
        tr.add(
            "step", fits=encs(old.population.evals[:, 0]), ended=gens[here.gen]["ended"], seen=encs(here.seen), made=old.step_count, built=made,
            changed=search.search_algorithm is not old, outer=search.step_count, iter=status["iter"], inner=search.search_algorithm.step_count,
            shown=shown["iter"] if "iter" in shown else 0, starts=search.num_restarts, reported=status["num_restarts"], best=enc(status["best_eval"]),
            over=bool(status["algorithm_terminated"]), look=look, alone=other,
        )
        if made:
            twin = alone(made[-1]["size"])

    search.before_step_hook.append(prepare)
    search.log_hook.append(note)
    while search.step_count < len(gens):
        if rng.random() < 0.5:
            search.step()
        else:
            search.run(rng.randint(1, len(gens) - search.step_count))
    tr.add("kept", kept=set(args) == set(given) and all(args[k] is given[k] for k in given))


def run(ctx):
    ctx.mc("MCRestarting")
    cfg = "INIT GInit\nNEXT GNext\nCONSTANT MaxGens = 5\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    rng = ctx.rng("jobs")
    plans = ctx.gen("RestartingGen", cfg, num=ctx.pick(500, 3000), depth=12)
    traces = ctx.record(one, [(p, rng.randrange(1 << 40)) for p in plans], procs=6)
    ctx.validate("RestartingTrace", traces, canary_keys=("outer", "starts", "inner", "best", "made"), label="restarts")
    ctx.assumptions += ["the fitnesses are scripted small integers, so that the restart condition is decided exactly, except where rounding decides; there both answers are accepted"]
