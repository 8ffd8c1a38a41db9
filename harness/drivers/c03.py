"""C03: histories of evaluations; the reported best and worst are validated against BestWorst.tla."""

import copy
import pickle
import random

import torch

import algos
from common import encs, vid
from evotorch import Problem, Solution, SolutionBatch
from evotorch.tools import ObjectArray


class Scripted(Problem):
    """The fitnesses are whatever the script says next; every evaluation is noted."""

    def __init__(self, senses, obj, dtype, aux):
        kw = dict(objective_sense=senses if len(senses) > 1 else senses[0], eval_data_length=aux)
        if obj:
            super().__init__(dtype=object, **kw)
        else:
            super().__init__(solution_length=2, dtype=dtype, initial_bounds=(-3, 3), **kw)
        self.script = []
        self.note = []

    def _fill(self, values):
        if self.dtype is object:
            for i in range(len(values)):
                values[i] = [i]
        else:
            super()._fill(values)

    def _evaluate_batch(self, batch):
        rows = [self.script.pop(0) for _ in range(len(batch))]
        batch.set_evals(torch.tensor(rows, dtype=self.eval_dtype))
        self.note.extend(rows_of(batch))


def ident(sln):
    v = sln.values
    return vid(v) if isinstance(v, torch.Tensor) else vid(str([int(x) for x in v]))


def row(sln):
    n = len(sln.senses) if not isinstance(sln.senses, str) else 1
    return {"id": ident(sln), "ev": encs(sln.evals[:n])}


def rows_of(batch):
    return [row(batch[i]) for i in range(len(batch))]


def report(status, nobj):
    b, w = status.get("best"), status.get("worst")
    if nobj == 1:
        b, w = [b], [w]
    opt = lambda s: [] if s is None else [row(s)]
    nothing = [[] for _ in range(nobj)]
    res = {"best": nothing if b is None else [opt(s) for s in b], "worst": nothing if w is None else [opt(s) for s in w]}
    for k in ("best_eval", "worst_eval"):
        v = status.get(k)
        res[k] = [] if v is None else [encs(v)]
    return res


def problem_history(tr, job):
    rng = random.Random(job)
    senses = [rng.choice(["min", "max"]) for _ in range(rng.choice([1, 1, 2, 3]))]
    nobj = len(senses)
    obj = rng.random() < 0.25
    dtype = rng.choice([torch.float32, torch.float64, torch.int64])
    aux = rng.choice([0, 0, 1])
    p = Scripted(senses, obj, dtype, aux)
    tr.cfg = {"senses": senses}
    pool = [0.0, 1.0, 2.0, -1.0, 5.0, -7.0, 3.0]
    special = rng.random()
    if special < 0.25:
        pool += [float("inf"), float("-inf")]
    if special > 0.7:
        pool += [float("nan")] * 3
    ids = [0]

    def fresh(n):
        b = SolutionBatch(p, n)
        if obj:
            vals = []
            for _ in range(n):
                ids[0] += 1
                vals.append([ids[0], rng.randrange(3)])
            b.set_values(vals)
        else:
            ids[0] += 1
            b.set_values(torch.tensor([[ids[0], 10 * i + rng.randrange(3)] for i in range(n)], dtype=dtype))
        return b

    batches, held = [], []
    for _ in range(rng.randint(4, 10)):
        k = rng.random()
        if k < 0.55 or not batches:
            target = None
            if batches and rng.random() < 0.4:
                target = rng.choice(batches)
                if rng.random() < 0.3 and len(target) > 1:
                    target = target[: len(target) - 1]
                elif rng.random() < 0.4:
                    target = target[rng.randrange(len(target))]
            else:
                target = fresh(rng.randint(1, 5))
                batches.append(target)
            n = 1 if isinstance(target, Solution) else len(target)
            p.script = [[rng.choice(pool) for _ in range(nobj)] + [1.0] * aux for _ in range(n)]
            p.note.clear()
            p.evaluate(target)
            st = dict(p.status)
            held.append(st)
            tr.add("evaluate", rows=list(p.note), **report(st, nobj))
        elif k < 0.7:
            # modify something that was evaluated
            b = rng.choice(batches)
            i = rng.randrange(len(b))
            if obj:
                b.access_values(keep_evals=rng.random() < 0.5)[i] = [500 + rng.randrange(99)]
            else:
                b.access_values(keep_evals=rng.random() < 0.5)[i, :] = 500 + rng.randrange(99)
            if rng.random() < 0.5:
                b.access_evals()[i, :] = 400.0
            tr.add("other")
            if held:
                tr.add("status", **report(p.status, nobj))
        elif k < 0.8 and held:
            q = pickle.loads(pickle.dumps(p)) if rng.random() < 0.5 else p.clone()
            if rng.random() < 0.5:
                # continue with the copy, on batches made by the copy
                p = q
                batches.clear()
            tr.add("other")
        elif held:
            j = rng.randrange(len(held))
            tr.add("held", k=j + 1, **report(held[j], nobj))
    for j in range(len(held)):
        tr.add("held", k=j + 1, **report(held[j], nobj))


class Fit(Problem):
    """Integer-valued fitness (so that means stay exact) over real decision values."""

    def __init__(self, senses, seed, low=-4.0, **kw):
        super().__init__(senses if len(senses) > 1 else senses[0], solution_length=3, initial_bounds=(low, 4.0), seed=seed, **kw)
        self.note = []

    def _evaluate_batch(self, batch):
        v = batch.values
        f1 = torch.floor(2 * (v * v).sum(dim=-1)).clamp(max=1000)
        f2 = torch.floor(4 * (v[:, 0] - v[:, 1])).clamp(-1000, 1000)
        f = torch.stack([f1, f2], dim=-1)[:, : len(self.senses)]
        if self.eval_data_length:
            batch.set_evals(f, v[:, :2])
        else:
            batch.set_evals(f)
        self.note.extend(rows_of(batch))


def search_history(tr, job):
    name, seed = job
    rng = random.Random(seed)
    multi = name.startswith("multi_")
    senses = [rng.choice(["min", "max"]) for _ in range(2 if multi else 1)]
    extra = {"eval_data_length": 2} if name == "mapelites" else {}
    p = Fit(senses, rng.randrange(1 << 20), **extra)
    tr.cfg = {"senses": senses}
    if name == "mapelites":
        s = algos.mapelites(p, rng)
    elif multi:
        s = algos.MULTI[name[6:]](p, rng)
    else:
        s = algos.SINGLE[name](p, rng)
    held = []
    gens = rng.randint(3, 6)
    for g in range(gens):
        p.note.clear()
        if rng.random() < 0.3 and g:
            dict(s.status)  # reading the status before the step must not freeze it
        s.step()
        st = dict(s.status)
        held.append({k: st.get(k) for k in ("best", "worst", "best_eval", "worst_eval")})
        pops = []
        pop = s.population
        if name == "mapelites":
            pop = pop[torch.nonzero(s.filled).reshape(-1)] if not bool(s.filled.all()) else pop
        rows = rows_of(pop)
        for i in range(len(senses)):
            pre = "" if len(senses) == 1 else f"obj{i}_"
            if pre + "pop_best" not in st or name == "mapelites":
                continue
            n = len(rows)
            pops.append({
                "obj": i + 1, "best": row(st[pre + "pop_best"]), "best_eval": encs(st[pre + "pop_best_eval"]),
                "exact": n & (n - 1) == 0 and n <= 64, "mean": encs(st[pre + "mean_eval"], 64), "median": encs(st[pre + "median_eval"]),
            })
        tr.add("step", rows=list(p.note), pop=rows, pops=pops, **report(st, len(senses)))
        if rng.random() < 0.3:
            # tamper with the current population
            if s.population.values.dtype.is_floating_point:
                i = rng.randrange(len(s.population))
                s.population.access_values(keep_evals=True)[i, 0] += 100.0
                s.population.access_evals()[i, 0] += 64.0
            tr.add("other")
            s.population.access_values(keep_evals=True)[i, 0] -= 100.0
            s.population.access_evals()[i, 0] -= 64.0
    for j in range(len(held)):
        tr.add("held", k=j + 1, **report(held[j], len(senses)))


def run(ctx):
    ctx.mc("MCBestWorst")
    if ctx.thorough:
        with open(ctx.spec("MCBestWorst.cfg")) as f:
            c = f.read()
        ctx.mc("MCBestWorst", c.replace("NObj = 1", "NObj = 2").replace("MaxEvals = 3", "MaxEvals = 2"), timeout=800)
    rng = ctx.rng()
    traces = ctx.record(problem_history, [rng.randrange(1 << 30) for _ in range(ctx.pick(500, 6000))], procs=6)
    ctx.validate("BestWorstTrace", traces, canary_keys=("best", "worst"), label="problem")
    names = list(algos.SINGLE) + ["multi_" + n for n in algos.MULTI] + ["mapelites"]
    jobs = [(n, rng.randrange(1 << 30)) for n in names for _ in range(ctx.pick(6, 60))]
    traces = ctx.record(search_history, jobs, procs=6)
    ctx.validate("BestWorstTrace", traces, canary_keys=("best", "worst", "pops"), label="search")
