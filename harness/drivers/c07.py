"""C07: non-dominated sorting, crowding, selection; validated against Pareto.tla."""

import random

import torch

from evotorch import Problem, SolutionBatch
from evotorch.algorithms import GeneticAlgorithm
from evotorch.operators import OnePointCrossOver
from drivers.c10 import refused


def points(rng, n, m, senses):
    """Integer fitnesses; half of the time shaped so that large fronts arise."""
    kind = rng.random()
    hi = rng.choice([1, 2, 4, 9, 30])
    if n > 31 and m == 2 and kind < 0.7:
        # a few large fronts, one behind the other
        layers = rng.choice([2, 3])
        pts = []
        for i, b in enumerate(rng.sample(range(3 * n), n)):
            back = 3 * n * (i % layers)
            pts.append([(b - back) * (1 if senses[0] == "max" else -1), (-b - back) * (1 if senses[1] == "max" else -1)])
    elif n > 31:
        cols = [rng.sample(range(3 * n), n) for _ in range(m)]
        pts = [[cols[k][i] for k in range(m)] for i in range(n)]
    elif kind < 0.4:
        pts = [[rng.randint(0, hi) for _ in range(m)] for _ in range(n)]
    else:
        cols = []
        base = rng.sample(range(31), n)
        noise = rng.choice([0, 0, 3])
        for k in range(m):
            flip = -1 if k % 2 else 1
            col = [flip * b * rng.choice([1, 1, 1]) + rng.randint(-noise, noise) for b in base]
            cols.append(col)
        if m == 3:
            cols[2] = rng.sample(range(31), n)
        pts = [[cols[k][i] * (1 if senses[k] == "max" else -1) for k in range(m)] for i in range(n)]
    if kind > 0.9 and n > 2:
        pts[rng.randrange(n)] = list(pts[rng.randrange(n)])
    return pts


def one(tr, job):
    big = isinstance(job, tuple)
    rng = random.Random(job[0] if big else job)
    torch.manual_seed(rng.randrange(1 << 30))
    m = rng.choice([2, 2, 2, 3])
    n = rng.choice([40, 60]) if big else rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10])
    senses = [rng.choice(["min", "max"]) for _ in range(m)]
    pts = points(rng, n, m, senses)
    tr.cfg = {"senses": senses, "f": pts}
    aux = rng.choice([0, 0, 1])
    is_obj = rng.random() < 0.2
    evdt = rng.choice([torch.float32, torch.float64])
    kw = dict(objective_sense=senses, eval_data_length=aux, eval_dtype=evdt)
    dt = rng.choice([torch.float32, torch.float64, torch.int64])
    p = Problem(dtype=object, **kw) if is_obj else Problem(solution_length=3, initial_bounds=(-1, 1), dtype=dt, **kw)
    b = SolutionBatch(p, n, empty=True)
    b.set_values([[i, i, i] for i in range(n)] if is_obj else torch.tensor([[i, i, i] for i in range(n)], dtype=dt))
    shift, mul = rng.choice([0.0, 0.0, -64.0, 1024.0]), rng.choice([1.0, 1.0, 0.125, 4096.0])
    ev = torch.tensor(pts, dtype=evdt) * mul + shift * mul
    b.set_evals(torch.hstack([ev, torch.tensor([[float(-i)] for i in range(n)], dtype=evdt)]) if aux else ev)
    evals = b.evals.clone()
    vals = [str(s.values) for s in b]
    tr.add("batch")
    for crowd in (True, False):
        info = b.arg_pareto_sort(crowdsort=crowd)
        tr.add("fronts", crowd=crowd, fronts=[[int(i) + 1 for i in f] for f in info.fronts])
        tr.add("ranks", ranks=[int(r) for r in info.ranks])
        ranks, cr = b.compute_pareto_ranks(crowdsort=crowd)
        tr.add("ranks", ranks=[int(r) for r in ranks])
        if crowd:
            tr.add("crowdranks", ranks=[int(r) for r in cr])
    for k in sorted(rng.sample(range(1, n + 2), min(n, 4))):
        t = b.take_best(k)
        rows = [int(s.values[0]) + 1 for s in t]
        own = all(torch.equal(s.evals, evals[i - 1]) for s, i in zip(t, rows))
        tr.add("take_best", n=k, rows=rows, evals_own=own)
    if not is_obj and n <= 8 and dt != torch.int64:
        for _ in range(3):
            children = OnePointCrossOver(p, tournament_size=400, num_children=4)(b)
            tr.add("tournament", winners=[int(g) + 1 for s in children for g in s.values])
    u = SolutionBatch(p, 3, empty=True)
    if n > 1:
        u.set_evals(torch.full((3, m + aux), 1.0, dtype=evdt))
        u.access_evals()[1, 0] = float("nan")
    tr.add("refused", refused=refused(lambda: u.arg_pareto_sort()))
    tr.add("unchanged", same=bool(torch.equal(b.evals, evals)) and vals == [str(s.values) for s in b])


class Table(Problem):
    """The fitnesses of a solution are computed from its integer identity, which is its first value."""

    def __init__(self, senses, f):
        super().__init__(objective_sense=senses, solution_length=2, initial_bounds=(-1, 1), dtype=torch.float64)
        self.table, self.n = f, 0

    def _evaluate_batch(self, batch):
        batch.set_evals(torch.tensor([self.table[int(v[0])] for v in batch.values], dtype=self.eval_dtype))


def survivors(tr, job):
    """One generation of an elitist multi-objective search: who survives among parents and offspring."""
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    m = rng.choice([2, 2, 3])
    n = rng.choice([2, 3, 4, 5])
    k = rng.choice([1, 2, 3, 5])
    senses = [rng.choice(["min", "max"]) for _ in range(m)]
    pts = points(rng, n + k, m, senses)
    tr.cfg = {"senses": senses, "f": pts}
    p = Table(senses, pts)

    def newborn(values):
        # replaces the genetic operators: the offspring are the solutions n .. n+k-1
        return torch.tensor([[n + i, 0] for i in range(k)], dtype=torch.float64)

    s = GeneticAlgorithm(p, operators=[newborn], popsize=n, elitist=True, re_evaluate=rng.random() < 0.5)
    s.population.set_values(torch.tensor([[i, 0] for i in range(n)], dtype=torch.float64))
    s.step()
    tr.add("batch")
    rows = [int(x.values[0]) + 1 for x in s.population]
    own = all([int(e) for e in x.evals] == pts[i - 1] for x, i in zip(s.population, rows))
    tr.add("take_best", n=n, rows=rows, evals_own=own)


def run(ctx):
    ctx.mc("MCPareto")
    cfg = open(ctx.spec("MCPareto.cfg")).read()
    if ctx.thorough:
        ctx.mc("MCPareto", cfg.replace("M = 2", "M = 3").replace("MaxV = 2", "MaxV = 1"))
        ctx.mc("MCPareto", cfg.replace("MaxV = 2", "MaxV = 3"), timeout=600)
    rng = ctx.rng("jobs")
    n = ctx.pick(300, 3000)
    jobs = [rng.randrange(1 << 60) for _ in range(n)] + [(rng.randrange(1 << 60),) for _ in range(n // 30)]
    traces = ctx.record(one, jobs, procs=6)
    keys = ("fronts", "ranks", "rows", "winners", "evals_own")
    ctx.validate("ParetoTrace", traces, canary_keys=keys, label="batches")
    traces = ctx.record(survivors, [rng.randrange(1 << 60) for _ in range(n // 3)], procs=6)
    ctx.validate("ParetoTrace", traces, canary_keys=keys, label="survivors")
