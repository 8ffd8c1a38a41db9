"""What can be seen of a search: the record [vals, evs, marks, means] of SearchRuns.tla."""

import re
import struct

import torch

from common import vid
from evotorch.core import Solution, SolutionBatch

STATUS_SKIPPED = {"median_eval"}  # of an even number of fitnesses, the smaller middle one is reported


def fcode(x):
    """An integer for a float32: ordered as the numbers are, and negated when the number is negated (0 for NaN)."""
    x = float(x)
    if x != x:
        return 0
    bits = struct.unpack("<i", struct.pack("<f", abs(x)))[0]
    return -bits if x < 0 else bits


def name(x):
    """An integer naming values (0 and -0 are the same value)."""
    if isinstance(x, torch.Tensor):
        x = torch.as_tensor(x.tolist(), dtype=x.dtype)
        if x.is_floating_point():
            x = x + 0.0
    return vid(x)


def see_search(search):
    """The population, the distribution and everything in the status."""
    nobj = len(search.problem.senses)
    vals, marks, means = [], [], []

    def add_solution(sln):
        vals.append(name(sln.values))
        ev = sln.evals.tolist()
        marks.extend([j + 1, fcode(ev[j])] for j in range(nobj))

    pop = search.population
    vals.extend(name(row) for row in pop.values)
    evs = [[fcode(v) for v in row[:nobj].tolist()] for row in pop.evals]
    vals.append(name(pop.evals[:, nobj:]))
    if hasattr(search, "filled"):
        vals.append(name(search.filled))
    for key in sorted(search.status):
        value = search.status[key]
        m = re.match(r"obj(\d+)_(.*)", key)
        k, base = (int(m.group(1)), m.group(2)) if m else (0, key)
        if not m and getattr(search, "obj_index", None) is not None:
            k = search.obj_index
        if base in STATUS_SKIPPED:
            continue
        if base == "mean_eval":
            means.append([k + 1, fcode(value)])
        elif base.endswith("_eval"):
            marks.append([k + 1, fcode(value) if value is not None else 77])
        elif isinstance(value, Solution):
            add_solution(value)
        elif isinstance(value, (SolutionBatch, list)):
            for sln in value:
                add_solution(sln)
        else:
            vals.append(name(value))
    return {"vals": vals, "evs": evs, "marks": marks, "means": means}


def see_batch(batch):
    nobj = len(batch.senses)
    evs = [[fcode(v) for v in row[:nobj].tolist()] for row in batch.evals]
    vals = [name(row) for row in batch.values] + [name(batch.evals[:, nobj:])]
    return {"vals": vals, "evs": evs, "marks": [], "means": []}
