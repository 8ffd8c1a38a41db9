"""C20: functions declared for fixed dimensions, validated against Batching.tla."""

import itertools
import random

import numpy as np
import torch

from common import encs
from drivers.c10 import refused
from evotorch import Problem
from evotorch.decorators import expects_ndim, rowwise, vectorized


def weigh(a):
    """A number which depends on every element of a and on its position."""
    if not isinstance(a, torch.Tensor):
        return a
    x = a.to(torch.float64) if a.dtype != torch.float64 else a
    w = torch.arange(1, x.numel() + 1, dtype=torch.float64).reshape(x.shape)
    return (x * w).sum()


def make_function(rng, seen):
    kind = rng.choice(["scalar", "vector", "first", "tuple", "index"])

    def f(*args):
        seen[:] = [str(a.dtype).replace("torch.", "") if isinstance(a, torch.Tensor) else "plain" for a in args]
        total = 0
        for i, a in enumerate(args):
            total = total * 3 + weigh(a)
        if not isinstance(total, torch.Tensor):
            total = torch.as_tensor(float(total))
        first = next((a for a in args if isinstance(a, torch.Tensor)), total)
        if kind == "scalar":
            return total
        if kind == "vector":
            return torch.stack([total, total * 2, -total])
        if kind == "first":
            return first.to(torch.float64) * 2 + total
        if kind == "index":
            return torch.stack([total, total]).reshape(2, 1)
        return total, torch.stack([total, total + 1])

    return f


def tensor_json(x):
    x = torch.as_tensor(x).to(torch.float64)
    return {"shape": list(x.shape), "data": encs(x.reshape(-1), 2)}


def outs(r):
    return [tensor_json(y) for y in (r if isinstance(r, tuple) else (r,))]


def call(tr, job):
    rng = random.Random(job)
    seen = []
    f = make_function(rng, seen)
    k = rng.choice([1, 2, 2, 3])
    small = rng.random() < 0.25
    lead = [rng.randint(1, 3) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
    dts = [torch.float32, torch.float64, torch.int64] if rng.random() < 0.3 else [rng.choice([torch.float32, torch.float64, torch.int64])]
    args, js, nds = [], [], []
    for i in range(k):
        nd = rng.choice([0, 0, 1, 1, 2, None])
        nds.append(nd)
        c = rng.random()
        if nd is None and c < 0.4:
            v = rng.randint(1, 5)
            args.append(v)
            js.append({"nd": -1, "kind": "other", "shape": [], "dtype": "plain"})
            continue
        if nd == 0 and c < 0.35:
            v = rng.choice([rng.randint(-4, 4), bool(rng.getrandbits(1)), float(rng.randint(-3, 3)), np.float64(2), np.bool_(True)])
            if isinstance(v, np.float64) and torch.int64 in dts:
                v = 2
            if torch.int64 not in dts and rng.random() < 0.3:
                v = rng.randint(-5, 5) + 0.5
            args.append(v)
            kind = "bool" if isinstance(v, (bool, np.bool_)) else "number"
            js.append({"nd": 0, "kind": kind, "shape": [], "dtype": "?"})
            continue
        own = lead[len(lead) - rng.randint(0, len(lead)) :] if nd is not None else []
        if nd is not None and own and rng.random() < 0.06:
            own = [own[0] + 1] + own[1:]
        shape = own + [rng.randint(1, 2) for _ in range(nd if nd is not None else rng.randint(0, 2))]
        if nd and rng.random() < 0.08:
            shape = shape[len(shape) - nd + 1 :] if rng.random() < 0.7 else []
        dt = rng.choice(dts)
        x = torch.tensor([rng.randint(-4, 4) for _ in range(int(np.prod(shape)))], dtype=dt).reshape(shape)
        kind = "tensor"
        if nd is not None and rng.random() < 0.15:
            x, kind = x.numpy(), "numpy"
        elif len(shape) >= 2 and rng.random() < 0.3:
            x = x.transpose(0, 1).contiguous().transpose(0, 1)  # another memory layout
        args.append(x)
        js.append({"nd": -1 if nd is None else nd, "kind": kind, "shape": list(x.shape), "dtype": str(dt).replace("torch.", "")})
    # the function applied to all combinations of items
    items = []
    for a, j in zip(args, js):
        if j["nd"] < 0 or not isinstance(a, (torch.Tensor, np.ndarray)):
            items.append([a if j["nd"] < 0 else torch.as_tensor(a)])
        else:
            e = max(0, len(j["shape"]) - j["nd"])
            t = torch.as_tensor(a)
            items.append(list(t.reshape([-1] + j["shape"][e:])) if e else [t])
    table = [outs(f(*c)) for c in itertools.product(*items)]
    before = [a.clone() if isinstance(a, torch.Tensor) else np.array(a) for a in args]
    fits = True
    given = list(args)
    if rng.random() < 0.05:
        given.append(torch.ones(2))
        fits = False
    style = rng.random()
    if style < 0.5:
        g = expects_ndim(*nds, allow_smaller_ndim=small)(f)
    else:
        g = expects_ndim(f, tuple(nds), allow_smaller_ndim=small)
    res = []
    ref = refused(lambda: res.append(g(*given)))
    intact = all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(args, before))
    tr.add("call", args=js, small=small, fits=fits, refused=ref, table=table, out=[] if ref else outs(res[0]),
           seen=list(seen) if not ref else [], intact=intact)


def randomness(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    mode = rng.choice(["error", "same", "different"])
    nd = rng.choice([0, 1])
    lead = rng.choice([[], [3], [2, 2]])
    x = torch.zeros(lead + [2] * nd)

    def f(a):
        return torch.rand(3, dtype=torch.float64) * (1 << 24) + a.sum()

    if nd == 1 and rng.random() < 0.5:
        g = rowwise(randomness=mode)(f)
    else:
        g = expects_ndim(nd, randomness=mode)(f)
    res = []
    ref = refused(lambda: res.append(g(x)))
    rows = [] if ref else [[int(v) for v in r] for r in res[0].reshape(-1, 3).tolist()]
    tr.add("random", mode=mode, batched=len(lead) > 0, refused=ref, rows=rows)


def evaluate(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    n, d = rng.randint(1, 5), rng.randint(1, 3)
    nobj, aux = rng.choice([1, 1, 2]), rng.choice([0, 0, 1])
    ndims = []

    def raw(x):
        ndims.append(x.ndim)
        s = weigh(x).to(torch.float32)
        o = torch.stack([s * (i + 1) - i for i in range(nobj)])
        o = o[0] if nobj == 1 and (not aux or squeeze) else o
        return (o, torch.stack([s + 100] * aux)) if aux else o

    squeeze = rng.random() < 0.7
    kind = rng.choice(["rowwise", "rowwise", "vectorized", "plain", "argument"])
    kw = {}
    if kind == "rowwise":
        fn = rowwise(raw)
    elif kind in ("vectorized", "argument"):

        def whole(xs):
            ndims.append(xs.ndim)
            k = len(ndims)
            rs = [raw(x) for x in xs]
            del ndims[k:]
            if aux:
                return torch.stack([r[0] for r in rs]), torch.stack([r[1] for r in rs])
            return torch.stack(rs)

        fn = vectorized(whole) if kind == "vectorized" else whole
        if kind == "argument":
            kw["vectorized"] = True
    else:
        fn = raw
    p = Problem(["min", "max"][:nobj] if nobj > 1 else rng.choice(["min", "max"]), fn, solution_length=d, initial_bounds=(-1, 1),
                eval_data_length=aux, **kw)
    b = p.generate_batch(n)
    b.set_values(torch.tensor([[rng.randint(-4, 4) for _ in range(d)] for _ in range(n)], dtype=torch.float32))
    part = b
    if rng.random() < 0.3:
        part = b[rng.sample(range(n), rng.randint(1, n))]
    p.evaluate(part)
    nds, evals = list(ndims), encs(part.evals)
    rows = []
    for x in part.values:
        r = raw(torch.as_tensor(x))
        r = r if isinstance(r, tuple) else (r,)
        rows.append([v for y in r for v in encs(y.reshape(-1))])
    tr.add("evaluate", evals=evals, rows=rows, ndims=nds, declared=2 if kind in ("vectorized", "argument") else 1)


def run(ctx):
    ctx.mc("MCBatching")
    rng = ctx.rng("jobs")
    for fn, n in ((call, ctx.pick(2500, 20000)), (randomness, ctx.pick(200, 1500)), (evaluate, ctx.pick(400, 3000))):
        traces = ctx.record(fn, [rng.randrange(1 << 60) for _ in range(n)], procs=6)
        ctx.validate("BatchingTrace", traces, canary_keys=("out", "refused", "evals", "rows"), label=fn.__name__)
