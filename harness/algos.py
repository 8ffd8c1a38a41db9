"""Search algorithms in many configurations, built the same way by every check that runs whole searches."""

import torch
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, MAPElites, PyCMAES, SteadyStateGA
from evotorch.operators import (
    CosynePermutation,
    GaussianMutation,
    MultiPointCrossOver,
    OnePointCrossOver,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)

# Each builder receives a problem (real-valued, solution length 3, initial bounds -4..4) and a `random.Random`.


def _gauss(rng, **more):
    kw = {}
    if rng.random() < 0.5:
        kw["stdev_min"] = 0.125
    if rng.random() < 0.5:
        kw["stdev_max"] = 8.0
    kw.update(more)
    return kw


def snes(p, rng):
    return SNES(p, stdev_init=rng.choice([0.5, 1.0]), popsize=rng.choice([4, 8, 16]), **_gauss(rng))


def snes_adam(p, rng):
    return SNES(p, stdev_init=1.0, popsize=8, optimizer="adam", center_learning_rate=0.25,
                ranking_method=rng.choice(["nes", "centered", "linear"]))


def xnes(p, rng):
    return XNES(p, stdev_init=1.0, popsize=rng.choice([4, 8]))


def pgpe(p, rng):
    opt = rng.choice(["clipup", "adam", "sgd"])
    cfg = {"max_speed": 0.5} if opt == "clipup" else {}
    return PGPE(p, popsize=rng.choice([4, 8]), center_learning_rate=0.25, stdev_learning_rate=0.125, stdev_init=1.0,
                optimizer=opt, optimizer_config=cfg, ranking_method=rng.choice(["centered", "linear", "nes"]),
                symmetric=rng.random() < 0.7)


def cem(p, rng):
    return CEM(p, popsize=rng.choice([8, 16]), parenthood_ratio=rng.choice([0.25, 0.5]), stdev_init=1.0,
               stdev_max_change=rng.choice([None, 0.25]))


def cmaes(p, rng):
    return CMAES(p, stdev_init=1.0, popsize=rng.choice([4, 8]), separable=rng.random() < 0.5, active=rng.random() < 0.5)


def pycmaes(p, rng):
    return PyCMAES(p, stdev_init=1.0, popsize=8, cma_options={"verbose": -9})


def ga(p, rng):
    multi = len(p.senses) > 1
    ops = []
    n = rng.choice([None, 4, 6]) if not multi else None
    kw = {"num_children": n} if n else {}
    ops.append(rng.choice([
        lambda: OnePointCrossOver(p, tournament_size=2, **kw),
        lambda: TwoPointCrossOver(p, tournament_size=3, **kw),
        lambda: MultiPointCrossOver(p, tournament_size=2, num_points=2, **kw),
        lambda: SimulatedBinaryCrossOver(p, tournament_size=2, eta=8, **kw),
    ])())
    ops.append(GaussianMutation(p, stdev=0.5))
    return GeneticAlgorithm(p, operators=ops, popsize=8, elitist=rng.random() < 0.7, re_evaluate=rng.random() < 0.6)


def ssga(p, rng):
    s = SteadyStateGA(p, popsize=8, elitist=rng.random() < 0.7, re_evaluate=rng.random() < 0.6)
    s.use(OnePointCrossOver(p, tournament_size=2))
    s.use(GaussianMutation(p, stdev=0.5, mutation_probability=0.5))
    return s


def cosyne(p, rng):
    return Cosyne(p, popsize=8, tournament_size=2, mutation_stdev=0.5, mutation_probability=0.5,
                  permute_all=rng.random() < 0.5, num_elites=2)


GRID = MAPElites.make_feature_grid(lower_bounds=[-4.0, -4.0], upper_bounds=[4.0, 4.0], num_bins=[2, 2], dtype="float32")


def mapelites(p, rng):
    return MAPElites(p, operators=[GaussianMutation(p, stdev=1.0)], feature_grid=GRID, re_evaluate=rng.random() < 0.5)


SINGLE = {
    "snes": snes, "snes_adam": snes_adam, "xnes": xnes, "pgpe": pgpe, "cem": cem, "cmaes": cmaes, "pycmaes": pycmaes,
    "ga": ga, "ssga": ssga, "cosyne": cosyne,
}
MULTI = {"ga": ga, "ssga": ssga}
