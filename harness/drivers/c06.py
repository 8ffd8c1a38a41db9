"""C06: generations of genetic algorithms, validated against Genetic.tla."""

import random
import zlib

import torch

from common import vid
from drivers.c10 import refused
from evotorch import Problem
from evotorch.algorithms import Cosyne, GeneticAlgorithm, SteadyStateGA
from evotorch.operators import (
    CopyingOperator,
    GaussianMutation,
    MultiPointCrossOver,
    OnePointCrossOver,
    Operator,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)
from evotorch.tools import ObjectArray


def ident(values):
    return vid(values) if isinstance(values, torch.Tensor) else vid(str([int(x) for x in values]))


def ids(batch):
    return [ident(s.values) for s in batch]


class Noted(Problem):
    """Fitness: a hash of the decision values and of the version, which changes from generation to generation."""

    def __init__(self, tr, senses, is_obj, dtype, levels, op="evaluate", aux=0, strict=False):
        kw = dict(objective_sense=senses if len(senses) > 1 else senses[0], eval_data_length=aux)
        if is_obj:
            super().__init__(dtype=object, **kw)
        else:
            kw["bounds" if strict else "initial_bounds"] = (-4, 4)
            super().__init__(solution_length=3, dtype=dtype, **kw)
        self.tr, self.version, self.levels, self.op, self.aux, self.count = tr, 0, levels, op, aux, 0

    def _fill(self, values):
        if self.dtype is object:
            for i in range(len(values)):
                values[i] = [i, 7]
        else:
            super()._fill(values)

    def fit(self, i, k):
        return zlib.crc32(f"{i}/{k}/{self.version}".encode()) % self.levels

    def _evaluate_batch(self, batch):
        rows = [[self.fit(i, k) for k in range(len(self.senses))] for i in ids(batch)]
        batch.set_evals(torch.tensor([r + [0] * self.aux for r in rows], dtype=self.eval_dtype))
        self.tr.add(self.op, rows=[{"id": i, "ev": r} for i, r in zip(ids(batch), rows)])


class Spy(CopyingOperator):
    def __init__(self, problem, fn):
        super().__init__(problem)
        self.fn = fn

    def _do(self, batch):
        self.fn(batch)
        return batch


class InPlace(Operator):
    """A modification of the batch itself."""

    def _do(self, batch):
        batch.access_values()[:] += 1


class SpiedCrossOver(OnePointCrossOver):
    def _do(self, batch):
        self.fn(batch)
        return super()._do(batch)


class SpiedMutation(GaussianMutation):
    def _do(self, batch):
        r = super()._do(batch)
        self.fn(r)
        return r


def rows(pop, nobj):
    return [{"id": ident(s.values), "ev": [int(e) if float(e) == e else -99 for e in s.evals[:nobj]]} for s in pop]


def grow(rng, k):
    def op(values):
        if isinstance(values, ObjectArray):
            new = [[rng.randrange(50), 1] for _ in range(k)]
            res = ObjectArray(len(new))
            for i, v in enumerate(new):
                res[i] = v
            return res
        idx = [rng.randrange(len(values)) for _ in range(k)]
        res = values[idx].clone()
        res[:, 0] += 1
        return res

    return op


def chain(rng, p, is_obj):
    """A random chain of operators."""
    if is_obj:
        return [grow(rng, rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 30]))], False
    ops, cross = [], False
    kind = rng.random()
    if kind < 0.6:
        cross = True
        kw = rng.choice([{}, {"num_children": 2}, {"num_children": 10}, {"cross_over_rate": 0.5}, {"cross_over_rate": 1.6}])
        ops.append(rng.choice([
            lambda: OnePointCrossOver(p, tournament_size=2, **kw),
            lambda: TwoPointCrossOver(p, tournament_size=2, **kw),
            lambda: MultiPointCrossOver(p, tournament_size=3, num_points=2, **kw),
            lambda: SimulatedBinaryCrossOver(p, tournament_size=2, eta=8, **kw),
        ])())
    elif kind < 0.85:
        ops.append(grow(rng, rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 30])))
    if not ops or rng.random() < 0.6:
        ops.append(rng.choice([
            lambda: GaussianMutation(p, stdev=0.5, mutation_probability=0.5),
            lambda: GaussianMutation(p, stdev=0.5) if p.lower_bounds is None else PolynomialMutation(p, eta=5.0),
            lambda: InPlace(p),
            lambda: (lambda v: v * 2),
        ])())
    return ops, cross


def ga(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    nobj = rng.choice([1, 1, 1, 2])
    senses = [rng.choice(["min", "max"]) for _ in range(nobj)]
    is_obj = rng.random() < 0.15
    p = Noted(tr, senses, is_obj, rng.choice([torch.float32, torch.float64]), rng.choice([2, 4, 100]), aux=rng.choice([0, 1]),
              strict=rng.random() < 0.4)
    n = rng.randint(2, 8) if rng.random() < 0.85 else rng.choice([14, 25, 40])
    elitist, re_evaluate = rng.random() < 0.5, rng.random() < 0.6
    noise = rng.random() < 0.5
    seen = {}
    steady = not is_obj and rng.random() < 0.25
    if steady:
        co = SpiedCrossOver(p, tournament_size=2)
        mu = SpiedMutation(p, stdev=0.5)
        co.fn = lambda b: seen.update(inp=ids(b))
        mu.fn = lambda b: tr.add("spawn", known=True, inp=seen["inp"], ids=ids(b))
        pf = None if not re_evaluate else rng.choice([None, True])
        s = SteadyStateGA(p, popsize=n, elitist=elitist, re_evaluate=re_evaluate, re_evaluate_parents_first=pf)
        for o in rng.sample([co, mu], 2):
            s.use(o)
        tr.add("refused", refused=refused(lambda: s.use(co)))
        pfirst = True
    else:
        ops, cross = chain(rng, p, is_obj)
        ops = [Spy(p, lambda b: seen.update(inp=ids(b)))] + ops
        ops.append(Spy(p, lambda b: tr.add("spawn", known=True, inp=seen["inp"], ids=ids(b))))
        pf = None
        if re_evaluate and rng.random() < 0.4:
            pf = True if cross else rng.random() < 0.5
        pfirst = cross if pf is None else pf
        s = GeneticAlgorithm(p, operators=ops, popsize=n, elitist=elitist, re_evaluate=re_evaluate, re_evaluate_parents_first=pf)
        if not re_evaluate:
            tr.add("refused", refused=refused(
                lambda: GeneticAlgorithm(p, operators=ops, popsize=n, re_evaluate=False, re_evaluate_parents_first=True)))
        tr.add("refused", refused=refused(lambda: GeneticAlgorithm(p, operators=[], popsize=n)))
    tr.cfg = {"ga": {"n": n, "elitist": elitist, "reeval": re_evaluate, "pfirst": pfirst, "senses": senses},
              "ids": ids(s.population)}
    for _ in range(rng.randint(1, 5)):
        s.step()
        tr.add("generation", pop=rows(s.population, nobj))
        if noise:
            p.version += 1
    if steady:
        tr.add("refused", refused=refused(lambda: s.use(co)))


def cosyne(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    sense = rng.choice(["min", "max"])
    p = Noted(tr, [sense], False, torch.float32, rng.choice([3, 100]), op="raw")
    n = rng.randint(4, 9) if rng.random() < 0.8 else rng.choice([16, 25, 30])
    kw = {}
    parents = n // 4
    elites = rng.choice([None, 0, 1, 2, 3])
    if elites is not None:
        if rng.random() < 0.3:
            kw["elitism_ratio"] = elites / n
            elites = int(n * (elites / n))
        else:
            kw["num_elites"] = elites
    children = rng.choice([None, 2, 4])
    if children is not None:
        kw["num_children"] = children
    if rng.random() < 0.3:
        kw["eta"] = 5.0
    stdev = rng.choice([None, 0.5])
    s = Cosyne(p, popsize=n, tournament_size=2, mutation_stdev=stdev, permute_all=rng.random() < 0.5, **kw)
    tr.cfg = {"ga": {"n": n, "senses": [sense], "elites": elites or 0, "children": 2 * parents if children is None else children},
              "ids": ids(s.population)}
    noise = rng.random() < 0.4
    for g in range(rng.randint(1, 4)):
        k = len(tr.ev)
        s.step()
        reqs = [e["rows"] for e in tr.ev[k:]]
        del tr.ev[k:]
        if g == 0 and reqs:
            tr.add("cosyne_first", rows=reqs.pop(0))
        tr.add("cosyne", rows=sum(reqs, []), pop=rows(s.population, 1))
        if noise:
            p.version += 1


def run(ctx):
    ctx.mc("MCGenetic")
    if ctx.thorough:
        ctx.mc("MCGenetic", open(ctx.spec("MCGenetic.cfg")).read().replace("MaxGen = 2", "MaxGen = 3"), timeout=600)
    rng = ctx.rng("jobs")
    n = ctx.pick(400, 4000)
    traces = ctx.record(ga, [rng.randrange(1 << 60) for _ in range(n)], procs=6)
    ctx.validate("GeneticTrace", traces, canary_keys=("rows", "ids", "pop", "inp"), label="genetic algorithms")
    traces = ctx.record(cosyne, [rng.randrange(1 << 60) for _ in range(n // 4)], procs=6)
    ctx.validate("GeneticTrace", traces, canary_keys=("rows", "pop"), label="cosyne")
