"""C09: variation operators, validated against Variation.tla."""

import random

import torch

from common import encs
from evotorch import Problem, SolutionBatch
from evotorch.operators import (
    CosynePermutation,
    CutAndSplice,
    GaussianMutation,
    MultiPointCrossOver,
    OnePointCrossOver,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)

SC = 1024


def unevaluated(b):
    return bool(torch.isnan(torch.as_tensor(b.evals)).all()) and not any(s.is_evaluated for s in b)


def counting(rng, n):
    """Settings of the number of children, and what they call for."""
    k = rng.random()
    if k < 0.3:
        return {}, n + n % 2, 0
    if k < 0.6:
        c = rng.choice([2, 4, 6, 10])
        return {"num_children": c}, c, 0
    r = rng.choice([0.25, 0.5, 0.75, 1.0, 1.25])
    if r * n < 1 or r * n > 12:
        return {"num_children": 4}, 4, 0
    return {"cross_over_rate": r}, int(r * n * 4), 4


def fill(rng, b, nobj, aux):
    ev = torch.tensor([[rng.randint(-3, 3) for _ in range(nobj + aux)] for _ in range(len(b))], dtype=torch.float32)
    b.set_evals(ev)


def snapshot(b):
    return [[str(s.values), str(s.evals)] for s in b]


def spawn(rng, op, b):
    before = snapshot(b)
    kids = op(b)
    return kids, snapshot(b) == before


def cross(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    nobj = rng.choice([1, 1, 2])
    aux = rng.choice([0, 1])
    senses = [rng.choice(["min", "max"]) for _ in range(nobj)]
    kw = dict(objective_sense=senses if nobj > 1 else senses[0], eval_data_length=aux)
    L, n = rng.randint(2, 6), rng.randint(2, 6) if rng.random() < 0.8 else rng.randint(7, 12)
    kind = rng.choice(["cut", "cut", "splice", "blend"])
    t = {"tournament_size": rng.choice([1, 2, 3])}
    if nobj > 1 and rng.random() < 0.5:
        t["obj_index"] = rng.randrange(nobj)
    if kind == "splice":
        p = Problem(dtype=object, **kw)
        par = [[i * 64 + g for g in range(rng.randint(1, 4))] for i in range(n)]
        b = SolutionBatch(p, n, empty=True)
        b.set_values(par)
        tr.cfg = {"kind": kind, "par": par}
    elif kind == "cut":
        dt = rng.choice([torch.float32, torch.float64, torch.int64])
        p = Problem(solution_length=L, initial_bounds=(-4, 4), dtype=dt, **kw)
        par = [[i * 64 + g for g in range(L)] for i in range(n)]
        b = SolutionBatch(p, n, empty=True)
        b.set_values(torch.tensor(par, dtype=dt))
        tr.cfg = {"kind": kind, "par": par}
    else:
        bounded = rng.random() < 0.5
        lo = [rng.randint(-3, -1) for _ in range(L)] if rng.random() < 0.5 else [-4] * L
        hi = [rng.randint(1, 3) for _ in range(L)] if rng.random() < 0.5 else [4] * L
        key = "bounds" if bounded else "initial_bounds"
        p = Problem(solution_length=L, dtype=torch.float64, **{key: (lo, hi)}, **kw)
        b = SolutionBatch(p, n)
        vals = torch.tensor([[rng.randint(lo[g] * 16, hi[g] * 16) / 16 for g in range(L)] for _ in range(n)], dtype=torch.float64)
        b.set_values(vals)
        tr.cfg = {"kind": kind, "par": encs(vals, SC)}
    fill(rng, b, nobj, aux)
    for _ in range(3):
        c, num, den = counting(rng, n)
        x = {"k": 0}
        if kind == "splice":
            op = CutAndSplice(p, **t, **c)
        elif kind == "blend":
            op = SimulatedBinaryCrossOver(p, eta=rng.choice([0.5, 2.0, 20.0]), **t, **c)
            x = {"tol": 3, "lo": [v * SC for v in lo] if bounded else [], "hi": [v * SC for v in hi] if bounded else []}
        else:
            k = rng.choice([1, 2, 3, 4])
            x = {"k": k}
            op = (OnePointCrossOver(p, **t, **c) if k == 1 and rng.random() < 0.5
                  else TwoPointCrossOver(p, **t, **c) if k == 2 and rng.random() < 0.5
                  else MultiPointCrossOver(p, num_points=k, **t, **c))
        kids, same = spawn(rng, op, b)
        if kind == "splice":
            rows = [[int(v) for v in s.values] for s in kids]
        else:
            rows = encs(kids.values, SC if kind == "blend" else 1, kind != "blend")
        tr.add("cross", kids=rows, num=num, den=den, x=x, same=same, unevaluated=unevaluated(kids))


def permute(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    nobj = rng.choice([1, 1, 2])
    senses = [rng.choice(["min", "max"]) for _ in range(nobj)]
    L, n = rng.randint(1, 6), rng.randint(2, 8)
    dt = rng.choice([torch.float32, torch.float64])
    p = Problem(objective_sense=senses if nobj > 1 else senses[0], solution_length=L, initial_bounds=(-4, 4), dtype=dt)
    b = SolutionBatch(p, n)
    par = [[rng.randint(-5, 5) for _ in range(L)] for _ in range(n)]
    b.set_values(torch.tensor(par, dtype=dt))
    fill(rng, b, nobj, 0)
    tr.cfg = {"kind": "permute", "par": par}
    for _ in range(3):
        all_ = rng.random() < 0.5
        op = CosynePermutation(p, permute_all=all_, **({} if all_ or nobj == 1 else {"obj_index": rng.randrange(nobj)}))
        kids, same = spawn(rng, op, b)
        tr.add("permute", kids=encs(kids.values), same=same, unevaluated=unevaluated(kids))


def mutate(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    L, n = rng.randint(1, 5), rng.randint(1, 6)
    dt = rng.choice([torch.float32, torch.float64])
    how = rng.choice(["none", "both", "both", "both"])
    lo = [rng.randint(-3, 1) for _ in range(L)]
    hi = [v + rng.choice([0, 1, 1, 4]) for v in lo]
    if how == "none":
        p = Problem("min", solution_length=L, initial_bounds=(-4, 4), dtype=dt)
    elif rng.random() < 0.4:
        lo, hi = [-2] * L, [3] * L
        p = Problem("min", solution_length=L, bounds=(-2, 3), dtype=dt)
    else:
        p = Problem("min", solution_length=L, bounds=([float(v) for v in lo], [float(v) for v in hi]), dtype=dt)
    b = SolutionBatch(p, n)
    vals = [[rng.randint(lo[g] * 4, hi[g] * 4) / 4 for g in range(L)] for _ in range(n)]
    b.set_values(torch.tensor(vals, dtype=dt))
    fill(rng, b, 1, 0)
    tr.cfg = {"kind": "mutate", "par": encs(b.values, SC), "lo": [v * SC for v in lo] if how == "both" else [],
              "hi": [v * SC for v in hi] if how == "both" else []}
    if rng.random() < 0.3:
        b = b[:]
    for _ in range(4):
        prob = rng.choice([None, None, 0.0, 0.5, 1.0])
        if how == "both" and rng.random() < 0.5:
            op = PolynomialMutation(p, eta=rng.choice([None, 0.5, 5.0]), mutation_probability=prob)
            still = prob == 0.0
        else:
            stdev = rng.choice([0.0, 0.5, 100.0])
            op = GaussianMutation(p, stdev=stdev, mutation_probability=prob)
            still = prob == 0.0 or stdev == 0.0
        kids, same = spawn(rng, op, b)
        tr.add("mutate", kids=encs(kids.values, SC, False), same=same, still=still, unevaluated=unevaluated(kids),
               dtype_kept=kids.values.dtype == dt)


def rates(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    p = Problem("min", solution_length=20, bounds=(-4, 4))
    b = p.generate_batch(20)
    tr.cfg = {"kind": "rate"}
    prob = rng.choice([None, 0.25, 0.5, 0.75, 1.0])
    op = rng.choice([lambda: GaussianMutation(p, stdev=1.0, mutation_probability=prob),
                     lambda: PolynomialMutation(p, eta=5.0, mutation_probability=prob)])()
    kids, same = spawn(rng, op, b)
    q = 1.0 if prob is None else prob
    # ten standard deviations of a binomial variable (at most a few unlucky rounding collisions for q = 1)
    d = torch.as_tensor(kids.values) != torch.as_tensor(b.values)
    mixed = [int((d.any(dim=i) & ~d.all(dim=i)).sum()) for i in (0, 1)]
    tr.add("rate", changed=int(d.sum()), expected=int(400 * q), slack=100 if q < 1 else 20, mixed=mixed if q < 1 else [],
           same=same, unevaluated=unevaluated(kids))


def mixing(tr, job):
    """Many children at once: all cuts are made, and both parents are used."""
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    tr.cfg = {"kind": "mixing"}
    n, L = rng.choice([8, 20, 31]), 10
    kind = rng.choice(["cut", "cut", "cut", "splice", "blend"])
    t = {"tournament_size": 1, "num_children": 2000}
    par = [[i * 64 + g for g in range(L)] for i in range(n)]
    if kind == "splice":
        p = Problem("min", dtype=object)
        b = SolutionBatch(p, n, empty=True)
        b.set_values(par)
    else:
        p = Problem("min", solution_length=L, initial_bounds=(-4, 4), dtype=torch.float64)
        b = SolutionBatch(p, n, empty=True)
        b.set_values(torch.tensor(par, dtype=torch.float64))
    fill(rng, b, 1, 0)
    k = rng.choice([1, 2, 3])
    op = (CutAndSplice(p, **t) if kind == "splice" else SimulatedBinaryCrossOver(p, eta=2.0, **t) if kind == "blend"
          else MultiPointCrossOver(p, num_points=k, **t))
    kids, same = spawn(rng, op, b)
    switches, firsts = [], set()
    for s in kids:
        of = [int(v) // 64 for v in s.values]
        if kind == "blend":
            of = [float(v) for v in s.values]
            switches.append(0 if of in par else 1)
        else:
            switches.append(sum(x != y for x, y in zip(of, of[1:])))
            firsts |= set(of)
    tr.add("mixing", most=max(switches), k=k if kind == "cut" else 1, plain=sum(x == 0 for x in switches), kids=len(switches),
           used=len(firsts) if kind != "blend" else n, n=n, same=same, unevaluated=unevaluated(kids))


def run(ctx):
    ctx.mc("MCVariation")
    if ctx.thorough:
        ctx.mc("MCVariation", open(ctx.spec("MCVariation.cfg")).read().replace("L = 3", "L = 4").replace("NP = 2", "NP = 3"), timeout=600)
    rng = ctx.rng("jobs")
    n = ctx.pick(200, 2500)

    def many(fn, k, keys, label):
        ctx.validate("VariationTrace", ctx.record(fn, [rng.randrange(1 << 60) for _ in range(k)], procs=6),
                     canary_keys=keys, label=label)

    many(cross, 2 * n, ("kids", "same"), "cross-over")
    many(permute, n // 2, ("kids", "unevaluated"), "permutation")
    many(mutate, n, ("dtype_kept", "same"), "mutation")
    many(rates, n // 10, ("changed", "same"), "rates")
    many(mixing, ctx.pick(40, 300), ("most", "same"), "mixing")
