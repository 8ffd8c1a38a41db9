"""C10: sorting, selecting and ranking of fitnesses, validated against Ordering.tla."""

import random

import torch

from common import enc, encs
from evotorch import Problem, SolutionBatch
from evotorch.operators import MultiPointCrossOver, OnePointCrossOver, SimulatedBinaryCrossOver, TwoPointCrossOver
from evotorch.tools import ranking

SCALE = 8192
METHODS = ["centered", "linear", "nes", "raw", "normalized"]


def codes(values):
    """Integers ordered like the given floats."""
    s = sorted(set(values))
    return [s.index(v) for v in values]


def fitnesses(rng, n):
    """A list of floats, and integers standing for them (the very same numbers if they are small integers)."""
    kind = rng.random()
    if kind < 0.45:
        f = [float(rng.randint(-4, 4)) for _ in range(n)]
        return f, [int(x) for x in f], True
    if kind < 0.55:
        f = [float(x) for x in rng.sample(range(-3 * n, 3 * n), n)]
        return f, [int(x) for x in f], True
    if kind < 0.8:
        f = [rng.choice([-1, 1]) * 2.0 ** rng.randint(-60, 60) for _ in range(n)]
    elif kind < 0.9:
        f = [1.0 + rng.randint(0, 3) * 2.0**-23 for _ in range(n)]
    else:
        f = [rng.choice([float("inf"), float("-inf"), 0.0, 1.0, -1.0, 3e38]) for _ in range(n)]
    return f, codes(f), False


def rank_event(tr, rng, obj, method, u, small):
    if method == "normalized":
        tr.add("rank", obj=obj, method=method, u=encs(u, 1024, False))
    elif method == "raw" and not small:
        tr.add("rank", obj=obj, method="order", u=codes([float(x) for x in u]))
    else:
        tr.add("rank", obj=obj, method=method, u=encs(u, SCALE, False))


def usable(method, col, n):
    if method == "normalized":
        return len(set(col[0])) > 1 and col[2] and n <= 40
    return n > 1 or method == "raw"


def one(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    nobj = rng.choice([1, 1, 2, 3])
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 25, 33, 60])
    senses = [rng.choice(["min", "max"]) for _ in range(nobj)]
    cols = [fitnesses(rng, n) for _ in range(nobj)]
    tr.cfg = {"senses": senses, "f": [c[1] for c in cols]}
    aux = rng.choice([0, 0, 2])
    is_obj = rng.random() < 0.2
    kw = dict(objective_sense=senses if nobj > 1 else senses[0], eval_data_length=aux)
    dt = rng.choice([torch.float32, torch.float64])
    p = Problem(dtype=object, **kw) if is_obj else Problem(solution_length=3, initial_bounds=(-1, 1), dtype=dt, **kw)
    b = SolutionBatch(p, n, empty=True)
    if is_obj:
        b.set_values([[i, i, i] for i in range(n)])
    else:
        b.set_values(torch.tensor([[i, i, i] for i in range(n)], dtype=dt))
    ev = torch.tensor([c[0] for c in cols], dtype=p.eval_dtype).T
    b.set_evals(torch.hstack([ev, torch.tensor([[-i, i] for i in range(n)], dtype=p.eval_dtype)]) if aux else ev)
    if rng.random() < 0.3:
        # a batch obtained from another one
        order = list(range(n))
        rng.shuffle(order)
        inv = sorted(range(n), key=lambda i: order[i])
        b = b[order][inv] if rng.random() < 0.5 else b.take(order).take(inv)
    values_before = [list(s.values) if is_obj else s.values.tolist() for s in b]
    evals_before = b.evals.clone()

    def ident(s):
        v = s.values
        return int(v[0]) + 1

    for k in range(nobj):
        obj = k + 1
        arg = rng.choice([k, k - nobj])
        if nobj == 1 and rng.random() < 0.5:
            arg = None
        f, c, small = cols[k]
        tr.add("argsort", obj=obj, perm=[int(i) + 1 for i in b.argsort(arg)])
        tr.add("argbest", obj=obj, i=int(b.argbest(arg)) + 1)
        tr.add("argworst", obj=obj, i=int(b.argworst(arg)) + 1)
        for _ in range(4):
            i, j = rng.randrange(n), rng.randrange(n)
            d = float(p.compare_solutions(b[i], b[j], arg))
            better, worse = bool(p.is_better(b[i], b[j], arg)), bool(p.is_worse(b[i], b[j], arg))
            tr.add("compare", obj=obj, i=i + 1, j=j + 1, sign=int(d > 0) - int(d < 0), better=better, worse=worse)
        for _ in range(2):
            m = rng.randint(1, n + 1)
            t = b.take_best(m, obj_index=arg)
            rows = [ident(s) for s in t]
            own = all(torch.equal(s.evals, evals_before[i - 1]) for s, i in zip(t, rows))
            tr.add("take_best", obj=obj, n=m, rows=rows, evals_own=own)
        for method in rng.sample(METHODS, 3) + [None]:
            if method is not None and not usable(method, cols[k], n):
                continue
            same_dtype = not is_obj and rng.random() < 0.3
            u = b.utility(arg, ranking_method=method, using_values_dtype=same_dtype)
            rank_event(tr, rng, obj, method or "raw", u, small)
        # the ranking functions themselves
        method = rng.choice(METHODS)
        if usable(method, cols[k], n):
            x = torch.tensor(f, dtype=rng.choice([torch.float32, torch.float64]))
            shape = [n]
            for d in (2, 3, 4):
                if n % d == 0 and rng.random() < 0.5:
                    shape = [d, n // d]
            x = x.reshape(shape)
            kept = x.clone()
            how = rng.random()
            if how < 0.3 and len(shape) == 1:
                u = ranking.rank(f, method, higher_is_better=senses[k] == "max")
            elif how < 0.6:
                u = ranking.rank(x, method, higher_is_better=senses[k] == "max")
            else:
                u = ranking.rankers[method](x, higher_is_better=senses[k] == "max")
            tr.add("shape", got=list(u.shape), want=shape)
            tr.add("unchanged", same=bool(torch.equal(x, kept)))
            rank_event(tr, rng, obj, method, u.reshape(-1), small)
    # all objectives at once
    for method in rng.sample(METHODS, 2) + [None]:
        if method is not None and not all(usable(method, c, n) for c in cols):
            continue
        u = b.utils(ranking_method=method)
        tr.add("shape", got=list(u.shape), want=[n, nobj])
        for k in range(nobj):
            rank_event(tr, rng, k + 1, method or "raw", u[:, k], cols[k][2])
        if nobj > 1:
            u = b.utility(ranking_method=method)
            for k in range(nobj):
                rank_event(tr, rng, k + 1, method or "raw", u[:, k], cols[k][2])
    # requests without meaning
    for bad in ([nobj, -nobj - 1] + ([None] if nobj > 1 else [])):
        for fn in (b.argsort, b.argbest, b.argworst):
            tr.add("refused", refused=refused(lambda: fn(bad)))
    if nobj > 0:
        u = SolutionBatch(p, 3) if not is_obj else SolutionBatch(p, 3, empty=True)
        tr.add("refused", refused=refused(lambda: u.utility(0)))
    tr.add("refused", refused=refused(lambda: ranking.rank([1.0, 2.0], "no such method", higher_is_better=True)))
    # tournaments so large that the best takes part in each of them
    if not is_obj and n <= 9:
        k = rng.randrange(nobj)
        if nobj > 1 or all(abs(x) < 1e30 for x in cols[k][0]):
            num = rng.choice([2, 4, 6])
            cls = rng.choice([OnePointCrossOver, TwoPointCrossOver, MultiPointCrossOver, SimulatedBinaryCrossOver])
            extra = {"num_points": 2} if cls is MultiPointCrossOver else {}
            if cls is SimulatedBinaryCrossOver:
                extra = {"eta": 5.0}
                if len(set(cols[k][1])) != n:
                    cls, extra = OnePointCrossOver, {}
            op = cls(p, tournament_size=600, num_children=num, obj_index=k if nobj > 1 else None, **extra)
            ch = op(b)
            if n > 1:
                genes = [int(round(float(g))) + 1 for s in ch for g in s.values]
                tr.add("tournament", obj=k + 1, winners=genes, want=3 * num)
    tr.add("unchanged", same=bool(torch.equal(b.evals, evals_before))
           and values_before == [list(s.values) if is_obj else s.values.tolist() for s in b])


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def run(ctx):
    ctx.mc("MCOrdering")
    if ctx.thorough:
        ctx.mc("MCOrdering", open(ctx.spec("MCOrdering.cfg")).read().replace("N = 4", "N = 5").replace("MaxV = 2", "MaxV = 3"))
    rng = ctx.rng("jobs")
    jobs = [rng.randrange(1 << 60) for _ in range(ctx.pick(300, 3000))]
    traces = ctx.record(one, jobs, procs=6)
    ctx.validate("OrderingTrace", traces, canary_keys=("perm", "i", "sign", "better", "worse", "rows", "u", "refused", "same", "winners"), label="orders")
