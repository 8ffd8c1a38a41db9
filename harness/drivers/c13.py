"""C13: mirrored and rescaled searches, validated against SearchRuns.tla."""

import random

import algos
import torch
from evotorch import Problem
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, PyCMAES
from evotorch.algorithms.functional import cem, cem_ask, cem_tell, pgpe, pgpe_ask, pgpe_tell
from snap import fcode, name, see_search

LANDSCAPES = [
    lambda x: torch.sum(x**2, dim=-1) - 5.0,
    lambda x: torch.sum((x - 1.25) * torch.sin(3.0 * x), dim=-1),
    lambda x: torch.sum(torch.abs(x + 0.5) ** 1.5, dim=-1) * 40.0 - 100.0,
    lambda x: torch.sum(x * torch.tensor([1.0, -2.0, 0.5], dtype=x.dtype), dim=-1),
    lambda x: 1e-3 * torch.prod(x + 0.75, dim=-1),
]
# Strictly increasing functions without rounding, so that no two fitnesses become one
STRETCHES = [
    lambda f: f,
    lambda f: 8.0 * f,
    lambda f: torch.where(f > 0, 4.0 * f, f / 2.0),
    lambda f: torch.where(f > 1.0, 1024.0 * f, f),
    lambda f: torch.where(f < 0, 64.0 * f, f),
]


def raw_pgpe(p, rng):
    return PGPE(p, popsize=8, center_learning_rate=0.01, stdev_learning_rate=0.01, stdev_init=1.0,
                ranking_method=rng.choice(["raw", "normalized", "centered"]), symmetric=rng.random() < 0.5)  # fmt: skip


def raw_snes(p, rng):
    return SNES(p, popsize=8, stdev_init=1.0, stdev_learning_rate=0.01, ranking_method=rng.choice(["normalized", "nes"]))


def cem_ranked(p, rng):
    return CEM(p, popsize=12, parenthood_ratio=0.25, stdev_init=0.5)


def one_of_many(p, rng):
    """A search following one of several objectives."""
    k = rng.randrange(len(p.senses))
    return rng.choice([
        lambda: SNES(p, popsize=8, stdev_init=1.0, obj_index=k),
        lambda: XNES(p, popsize=8, stdev_init=1.0, obj_index=k),
        lambda: PGPE(p, popsize=8, stdev_init=1.0, center_learning_rate=0.1, stdev_learning_rate=0.1, obj_index=k),
        lambda: CEM(p, popsize=8, stdev_init=1.0, parenthood_ratio=0.5, obj_index=k),
        lambda: CMAES(p, popsize=8, stdev_init=1.0, obj_index=k),
        lambda: PyCMAES(p, popsize=8, stdev_init=1.0, obj_index=k, cma_options={"verbose": -9}),
    ])()  # fmt: skip


NEGATE = {**algos.SINGLE, "raw_pgpe": raw_pgpe, "raw_snes": raw_snes, "mapelites": algos.mapelites}
MULTI = {**algos.MULTI, "one_of_many": one_of_many}
RESCALE = {**algos.SINGLE, "cem": cem_ranked, "mapelites": algos.mapelites}


def make_problem(kind, mirror, senses, funcs, stretch, seed, bounded):
    """The problem of optimising the given functions, each negated together with its sense where mirrored."""
    feats = 2 if kind == "mapelites" else 0

    def fitness(x):
        fs = [m * stretch(f(x).to(torch.float32)) for m, f in zip(mirror, funcs)]
        fs.extend(x[:, j].to(torch.float32) for j in range(feats))
        return torch.stack(fs, dim=-1) if len(fs) > 1 else fs[0]

    flip = {"min": "max", "max": "min"}
    senses = [s if m == 1 else flip[s] for s, m in zip(senses, mirror)]
    kw = {"bounds": (-4.0, 4.0)} if bounded else {"initial_bounds": (-4.0, 4.0)}
    return Problem(senses if len(senses) > 1 else senses[0], fitness, solution_length=3, seed=seed, vectorized=True,
                   eval_data_length=feats, **kw)  # fmt: skip


def twins(tr, job):
    rng = random.Random(job)
    ordinal = rng.random() < 0.35
    multi = (not ordinal) and rng.random() < 0.3
    kinds = MULTI if multi else (RESCALE if ordinal else NEGATE)
    kind = rng.choice(sorted(kinds))
    nobj = rng.choice([2, 3]) if multi else 1
    senses = [rng.choice(["min", "max"]) for _ in range(nobj)]
    funcs = rng.sample(LANDSCAPES, nobj)
    seed, setup, gens = rng.randrange(1 << 30), rng.randrange(1 << 30), rng.randint(1, 6)
    bounded = rng.random() < 0.3 and kind in ("ga", "ssga", "cosyne", "mapelites", "pycmaes")
    count = 3 if ordinal or multi else 2
    mirrors = [[1] * nobj] + [[rng.choice([1, -1]) for _ in range(nobj)] for _ in range(count - 1)]
    if not ordinal:
        mirrors[1] = [-1] * nobj if not multi else mirrors[1]
        if multi and 1 not in mirrors[1][1:] and -1 not in mirrors[1]:
            mirrors[1][0] = -1
    stretches = [STRETCHES[0]] + [rng.choice(STRETCHES[1:]) if ordinal else STRETCHES[0] for _ in mirrors[1:]]
    tr.cfg = {"ordinal": ordinal}
    tr.meta = {"kind": kind, "mirrors": mirrors, "ordinal": ordinal}
    for r, (mirror, stretch) in enumerate(zip(mirrors, stretches), 1):
        p = make_problem(kind, mirror, senses, funcs, stretch, seed, bounded)
        search = kinds[kind](p, random.Random(setup))
        tr.add("make", run=r, origin=1, mirror=mirror)
        for _ in range(gens):
            search.step()
            tr.add("do", run=r, what="step")
            tr.add("see", run=r, **see_search(search))


def functional_twins(tr, job):
    rng = random.Random(job)
    ordinal = rng.random() < 0.4
    f, seed, gens = rng.choice(LANDSCAPES), rng.randrange(1 << 30), rng.randint(1, 6)
    sense = rng.choice(["min", "max"])
    batch = rng.choice([(), (2,)])
    which = rng.choice(["pgpe", "cem"])
    rank = rng.choice(["centered", "linear", "nes"] + ([] if ordinal else ["raw", "normalized"]))
    opt = rng.choice(["clipup", "adam", "sgd"])
    tr.cfg = {"ordinal": ordinal}
    for r, (mirror, stretch) in enumerate([(1, STRETCHES[0]), (-1, STRETCHES[0]), (rng.choice([1, -1]), rng.choice(STRETCHES))], 1):
        if r == 3 and not ordinal:
            break
        s = sense if mirror == 1 else {"min": "max", "max": "min"}[sense]
        center = torch.full(batch + (3,), 0.75)
        torch.manual_seed(seed)
        if which == "pgpe":
            state = pgpe(center_init=center, stdev_init=1.0, center_learning_rate=0.01, stdev_learning_rate=0.01, objective_sense=s,
                         ranking_method=rank, optimizer=opt, symmetric=True)  # fmt: skip
            ask, tell = pgpe_ask, pgpe_tell
        else:
            state = cem(center_init=center, stdev_init=1.0, parenthood_ratio=0.25, objective_sense=s)
            ask, tell = cem_ask, cem_tell
        tr.add("make", run=r, origin=1, mirror=[mirror])
        for _ in range(gens):
            pop = ask(state, popsize=12)
            fits = mirror * stretch(f(pop))
            state = tell(state, pop, fits)
            tr.add("do", run=r, what="step")
            center = state.optimizer_state.center if which == "pgpe" else state.center
            tr.add("see", run=r, vals=[name(pop), name(center), name(state.stdev)], evs=[[fcode(v)] for v in fits.reshape(-1).tolist()], marks=[], means=[])


MC = "CONSTANTS\n  Names = {{{names}}}\n  Histories = {h}\n  Ordinal = {o}\nINIT Init\nNEXT Next\nINVARIANT Functional\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.mc("MCSearchRuns", MC.format(names="1, 2, 3" if ctx.thorough else "1, 2", h=ctx.pick(4, 2), o="TRUE"))
    ctx.mc("MCSearchRuns", MC.format(names="1, 2, 3", h=ctx.pick(2, 3), o="FALSE"))
    rng = ctx.rng("jobs")
    for fn, n in ((twins, ctx.pick(360, 3600)), (functional_twins, ctx.pick(100, 1000))):
        traces = ctx.record(fn, [rng.randrange(1 << 60) for _ in range(n)], procs=6)
        ctx.validate("SearchRunsTrace", traces, canary_keys=("vals", "evs"), label=fn.__name__)
