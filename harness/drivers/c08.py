"""C08: generations of MAP-Elites and feature grids, validated against Archive.tla."""

import itertools
import random
import zlib

import torch

from common import enc, encs
from drivers.c06 import InPlace, Spy, grow, ids, ident
from evotorch import Problem
from evotorch.algorithms import MAPElites
from evotorch.operators import GaussianMutation, OnePointCrossOver, SimulatedBinaryCrossOver


class Featured(Problem):
    """Fitness and features are hashes of the decision values (and of the version for noisy problems)."""

    def __init__(self, tr, sense, nfeat, dtype, levels, feats, infinite, units=(1.0, 1.0), shift=0):
        super().__init__(sense, solution_length=3, initial_bounds=(-4, 4), dtype=dtype, eval_data_length=nfeat)
        self.units, self.shift = units, shift
        self.tr, self.version, self.nfeat, self.levels, self.feats, self.infinite = tr, 0, nfeat, levels, feats, infinite

    def evals_of(self, i):
        h = lambda k: zlib.crc32(f"{i}/{k}/{self.version}".encode())
        fit = float(h(0) % self.levels - self.shift)
        if self.infinite and h(9) % 3 == 0:
            fit = float("inf") if h(8) % 2 else float("-inf")
        return [fit] + [self.feats[h(k + 1) % len(self.feats)] for k in range(self.nfeat)]

    def _evaluate_batch(self, batch):
        rows = [self.evals_of(i) for i in ids(batch)]
        a, b = self.units
        batch.set_evals(torch.tensor([[r[0] * a] + [x * b for x in r[1:]] for r in rows], dtype=self.eval_dtype))
        self.tr.add("evaluate", rows=[{"id": i, "ev": encs(r, 8)} for i, r in zip(ids(batch), rows)])


def counted(evals, units):
    """Evaluations, counted in the units of the problem."""
    return encs([float(x) / units[min(k, 1)] for k, x in enumerate(evals)], 8)


def one(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    sense = rng.choice(["min", "max"])
    nfeat = rng.choice([1, 1, 2])
    infinite = rng.random() < 0.3
    noise = rng.random() < 0.25
    units = (rng.choice([1.0, 2.0**30, 2.0**-30]), rng.choice([1.0, 1.0, 2.0**30, 2.0**-30]))
    unit = units[1]
    p = Featured(tr, sense, nfeat, rng.choice([torch.float32, torch.float64]), rng.choice([3, 50]),
                 [x / 2 for x in range(-6, 7)], infinite, units, rng.choice([0, 0, 40]))
    if rng.random() < 0.6:
        grid = MAPElites.make_feature_grid([-2.0 * unit] * nfeat, [2.0 * unit] * nfeat, rng.choice([3, 4]) if nfeat == 1 else 3,
                                           dtype=rng.choice(["float32", "float64"]))
    else:
        cells = []
        for _ in range(rng.randint(1, 6)):
            c = []
            for _ in range(nfeat):
                lo = rng.choice([float("-inf"), -2.0, -1.0, 0.0, 1.5])
                hi = rng.choice([float("inf"), 2.0, 3.0]) if rng.random() < 0.8 else max(lo, -2.0)
                c.append([lo * unit, hi * unit])
            cells.append(c)
        grid = torch.tensor(cells) if rng.random() < 0.5 else cells
    ops = []
    cross = rng.random() < 0.4
    seen = {}
    ops.append(Spy(p, lambda b: seen.update(inp=ids(b))))
    if cross:
        ops.append(rng.choice([lambda: OnePointCrossOver(p, tournament_size=2), lambda: SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0, num_children=4)])())
    elif rng.random() < 0.5:
        ops.append(grow(rng, rng.randint(1, 6)))
    ops.append(rng.choice([lambda: GaussianMutation(p, stdev=1.0), lambda: InPlace(p)])())
    ops.append(Spy(p, lambda b: tr.add("spawn", inp=seen["inp"], ids=ids(b))))
    re_evaluate = rng.random() < 0.5
    s = MAPElites(p, operators=ops, feature_grid=grid, re_evaluate=re_evaluate)
    tr.cfg = {
        "ga": {"n": len(grid), "elitist": True, "reeval": re_evaluate, "pfirst": cross, "senses": [sense]},
        "ids": ids(s.population), "cells": encs(torch.as_tensor(grid) / unit, 8), "noise": noise and re_evaluate,
    }
    for _ in range(rng.randint(1, 5)):
        s.step()
        tr.add("generation", filled=[bool(x) for x in s.filled],
               pop=[{"id": ident(x.values), "ev": counted(x.evals, units)} for x in s.population])
        if noise:
            p.version += 1


def grids(tr, job):
    rng = random.Random(job)
    nfeat = rng.choice([1, 2, 2, 3])
    bins = [rng.randint(2, 5) for _ in range(nfeat)]
    exact = rng.random() < 0.5
    tr.cfg = {"ga": {}, "ids": [], "cells": []}
    dt = rng.choice(["float32", "float64", "float16"])
    if exact:
        lb = [float(rng.randint(-4, 0)) for _ in bins]
        ub = [l + rng.randint(1, 3) * 6 for l in lb]
    else:
        lb = [rng.uniform(-3, 0) for _ in bins]
        ub = [rng.uniform(0.5, 3) for _ in bins]
    if rng.random() < 0.3:
        bins = [bins[0]] * nfeat
        nb = bins[0]
    else:
        nb = bins
    if rng.random() < 0.3:
        g = MAPElites.make_feature_grid(torch.tensor(lb, dtype=getattr(torch, dt)), torch.tensor(ub, dtype=getattr(torch, dt)), nb)
    else:
        g = MAPElites.make_feature_grid(lb, ub, nb, dtype=dt)
    cells = g.tolist()
    if exact:
        enc_cells, elb, eub = encs(cells, 8), encs(lb, 8), encs(ub, 8)
    else:
        vals = sorted({v for c in cells for f in c for v in f if abs(v) != float("inf")})
        code = lambda v: enc(v) if abs(v) == float("inf") else vals.index(v)
        enc_cells = [[[code(v) for v in f] for f in c] for c in cells]
        elb = eub = []
    tr.add("grid", cells=enc_cells, bins=bins, lb=elb, ub=eub, exact=exact, dtype_kept=g.dtype == getattr(torch, dt))


def run(ctx):
    ctx.mc("MCArchive")
    if ctx.thorough:
        ctx.mc("MCArchive", open(ctx.spec("MCArchive.cfg")).read().replace("MaxGen = 2", "MaxGen = 3"), timeout=800)
    rng = ctx.rng("jobs")
    n = ctx.pick(250, 2500)
    traces = ctx.record(one, [rng.randrange(1 << 60) for _ in range(n)], procs=6)
    ctx.validate("ArchiveTrace", traces, canary_keys=("rows", "ids", "pop", "filled"), label="archives")
    traces = ctx.record(grids, [rng.randrange(1 << 60) for _ in range(n // 3)], procs=6)
    ctx.validate("ArchiveTrace", traces, canary_keys=("cells", "dtype_kept"), label="grids")
