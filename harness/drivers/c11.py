"""C11: sampling, gradient estimates and updates of search distributions, validated against SearchDistribution.tla."""

import math
import random

import torch

from common import enc, encs
from drivers.c10 import refused
from evotorch import Problem
from evotorch.algorithms import CEM, PGPE, SNES, XNES
from evotorch.distributions import (
    ExpGaussian,
    ExpSeparableGaussian,
    SeparableGaussian,
    SymmetricSeparableGaussian,
    make_functional_grad_estimator,
    make_functional_sampler,
)
from evotorch.optimizers import SGD, Adam, ClipUp

KIND = {"sep": SeparableGaussian, "sym": SymmetricSeparableGaussian, "exp": ExpSeparableGaussian, "cem": SeparableGaussian, "full": ExpGaussian}
SHAPES = [
    ([[2, 0], [0, 2]], [[2, 0], [0, 2]]),
    ([[2, 2], [0, 2]], [[2, -2], [0, 2]]),
    ([[4, 0], [2, 2]], [[1, 0], [-1, 2]]),
    ([[0, 2], [2, 0]], [[0, 2], [2, 0]]),
    ([[2, 0], [4, 2]], [[2, 0], [-4, 2]]),
    ([[2, 0], [0, 4]], [[2, 0], [0, 1]]),
]
DIVS = ["none", "num_solutions", "num_directions", "total_weight", "weight_stdev"]
DTYPES = [torch.float32, torch.float64]


class Kept:
    """Remembers tensors and dictionaries, to tell whether they were modified."""

    def __init__(self, *things):
        self.things = things
        self.before = [self.copy(t) for t in things]

    @staticmethod
    def copy(t):
        return {k: Kept.copy(v) for k, v in t.items()} if isinstance(t, dict) else (t.clone() if isinstance(t, torch.Tensor) else t)

    @staticmethod
    def same(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and list(a) == list(b) and all(Kept.same(a[k], b[k]) for k in a)
        if isinstance(a, torch.Tensor):
            return isinstance(b, torch.Tensor) and a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())
        return a is b or a == b

    def __call__(self):
        return all(self.same(a, b) for a, b in zip(self.before, self.things))


class Setup:
    """A distribution, samples and fitnesses which are all small multiples of one half."""

    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.ranking = rng.choice(["raw", "linear", "centered", "nes", "normalized", None])
        self.sense = rng.choice(["min", "max"])
        self.n = rng.choice([2, 4, 6]) if kind == "sym" else rng.randint(2, 6)
        self.dim = 2 if kind == "full" else rng.randint(1, 3)
        self.ratio = 8
        if kind == "cem":
            self.n = rng.choice([4, 5, 6, 7, 8])
            self.ratio = rng.choice([r for r in range(1, 9) if self.n * r // 8 >= 2])
            self.ranking = rng.choice(["raw", None, "centered"])
        self.divs = [rng.choice(DIVS), rng.choice(DIVS)] if kind in ("sep", "sym") else ["none", "none"]
        if self.ranking == "nes":
            self.divs = [by if by != "weight_stdev" else "total_weight" for by in self.divs]
        self.mu = [rng.randint(-4, 4) for _ in range(self.dim)]
        self.dtype = rng.choice(DTYPES)
        self.A, self.inv = rng.choice(SHAPES)
        top = 2 if kind == "full" or "weight_stdev" in self.divs or self.ranking == "normalized" else 4
        small = [2] if top == 2 and kind != "exp" else [1, 2] if kind == "exp" else [1, 2, 4]
        self.sg = [rng.choice(small) for _ in range(self.dim)]
        self.noise = [[rng.randint(-top, top) for _ in range(self.dim)] for _ in range(self.n)]
        if kind == "sym":
            for k in range(0, self.n, 2):
                self.noise[k + 1] = [-v for v in self.noise[k]]
        self.redraw()
        self.x = [[m + v for m, v in zip(self.mu, row)] for row in self.noise]

    def redraw(self):
        """Fitnesses: ties only where the ranking gives them no arbitrary order."""
        if self.kind != "cem" and self.ranking in ("raw", None, "normalized") and self.rng.random() < 0.5:
            while True:
                self.f = [self.rng.randint(-3, 3) for _ in range(self.n)]
                if len(set(self.f)) > 1 and sum(self.f) != 0:
                    return
        else:
            self.f = self.rng.sample([v for v in range(-4, 5)], self.n)

    def parameters(self):
        t = lambda v: torch.tensor(v, dtype=self.dtype) / 2  # noqa: E731
        p = {"mu": t(self.mu), "sigma": t(self.A) if self.kind == "full" else t(self.sg)}
        if self.kind == "cem":
            p["parenthood_ratio"] = self.ratio / 8
        for name, by in zip(("divide_mu_grad_by", "divide_sigma_grad_by"), self.divs):
            if by != "none":
                p[name] = by
        return p

    def samples(self):
        return torch.tensor(self.x, dtype=self.dtype) / 2

    def fitnesses(self):
        return torch.tensor(self.f, dtype=self.dtype)

    def describe(self, grads):
        fields = {
            "kind": self.kind, "sense": self.sense, "ranking": self.ranking or "raw", "by_mu": self.divs[0], "by_sg": self.divs[1],
            "x": self.x, "mu": self.mu, "sg": self.sg, "f": self.f, "ratio": self.ratio, "A": self.A, "inv": self.inv,
        }  # fmt: skip
        if self.kind == "full":
            return {**fields, "g_mu": encs(grads["d"], 256, False), "g_M": [encs(r, 256, False) for r in grads["M"]]}
        return {**fields, "g_mu": encs(grads["mu"], 256, False), "g_sg": encs(grads["sigma"], 256, False)}


def gradients(tr, job):
    rng = random.Random(job)
    s = Setup(rng, rng.choice(list(KIND)))
    par = s.parameters()
    made = Kept(par)
    dist = KIND[s.kind](par, **rng.choice([{}, {"dtype": s.dtype}, {"device": "cpu", "solution_length": s.dim}]))
    if s.kind == "full" and rng.random() < 0.5:
        other = rng.choice(SHAPES)
        sigma = torch.tensor(other[0], dtype=s.dtype) / 2
        s.A, s.inv = other
        if rng.random() < 0.5:
            dist.sigma = sigma
        else:
            dist = dist.modified_copy(sigma=sigma)
    x, f = s.samples(), s.fitnesses()
    if rng.random() < 0.3:
        f = f.to(rng.choice([torch.float32, torch.float64]))
    kept = Kept(dist.parameters, x, f)
    kw = {} if s.ranking is None else {"ranking_method": s.ranking}
    g = dist.compute_gradients(x, f, objective_sense=s.sense, **kw)
    tr.add("grad", kept=kept() and made(), **s.describe(g))
    # the same samples in another order
    order = list(range(s.n))
    if s.kind == "sym":
        pairs = list(range(0, s.n, 2))
        rng.shuffle(pairs)
        order = [k + e for k in pairs for e in (0, 1)]
    else:
        rng.shuffle(order)
    g = dist.compute_gradients(x[order], f[order], objective_sense=s.sense, **kw)
    s.x, s.f = [s.x[i] for i in order], [s.f[i] for i in order]
    tr.add("grad", kept=kept(), **s.describe(g))
    if s.kind == "full":
        tr.add("cov", A=s.A, cov=[encs(r, 4) for r in dist.cov])
    n = s.n
    tr.add("refuse", refused=refused(lambda: dist.compute_gradients(x, f, objective_sense="best")))
    tr.add("refuse", refused=refused(lambda: dist.compute_gradients(x, f[: n - 1], objective_sense="min")))
    tr.add("refuse", refused=refused(lambda: dist.compute_gradients(x, f, objective_sense="max", ranking_method="none")))
    tr.add("refuse", refused=refused(lambda: KIND[s.kind]({**s.parameters(), "what": torch.zeros(s.dim)})))
    tr.add("refuse", refused=refused(lambda: KIND[s.kind]({"mu": par["mu"], "sigma": torch.ones(s.dim + 1)})))


def batched_gradients(tr, job):
    """The functional estimator, with batches of distributions, of samples, or of both."""
    rng = random.Random(job)
    s = Setup(rng, rng.choice(list(KIND)))
    size = rng.randint(1, 3)
    names = ["mu", "sigma"]
    par = s.parameters()
    fixed = {k: v for k, v in par.items() if k not in names}
    if rng.random() < 0.3:
        fixed["sigma"] = par["sigma"]
        names = ["mu"]
    late = rng.random() < 0.3
    est = make_functional_grad_estimator(
        KIND[s.kind],
        objective_sense=None if late else s.sense,
        required_parameters=names,
        fixed_parameters=fixed or None,
        **({} if s.ranking is None else {"ranking_method": s.ranking}),
    )
    items, xs, fs, mus = [], [], [], []
    for _ in range(size):
        s.redraw()
        shift = [rng.randint(-2, 2) for _ in range(s.dim)]
        mu = [m + d for m, d in zip(s.mu, shift)]
        x = [[v + d for v, d in zip(row, shift)] for row in s.x]
        items.append((mu, x, s.f))
        xs.append(torch.tensor(x, dtype=s.dtype) / 2)
        fs.append(torch.tensor(s.f, dtype=s.dtype))
        mus.append(torch.tensor(mu, dtype=s.dtype) / 2)
    args = [torch.stack(xs), torch.stack(fs), torch.stack(mus)]
    values = {"mu": args[2], "sigma": par["sigma"]}
    if rng.random() < 0.3:
        # one distribution for all samples
        args[0] = torch.stack([x - m + mus[0] for x, m in zip(xs, mus)])
        items = [(items[0][0], [[v - a + b for v, a, b in zip(row, m, items[0][0])] for row in x], f) for m, x, f in items]
        values["mu"] = mus[0]
    kept = Kept(args[0], args[1], values)
    late = {"objective_sense": s.sense} if late else {}
    if rng.random() < 0.5:
        g = est(args[0], args[1], **{k: values[k] for k in names}, **late)
    else:
        g = est(args[0], args[1], *[values[k] for k in names], **late)
    ok = kept()
    for i, (mu, x, f) in enumerate(items):
        s.mu, s.x, s.f = mu, x, f
        tr.add("grad", kept=ok, **s.describe({k: v[i] for k, v in g.items()}))


def flat(grads):
    return [enc(v, 4096, False) for k in sorted(grads) for v in grads[k].reshape(-1).tolist()]


def own_samples(tr, job):
    """The functional estimator drawing its own samples: it must report the samples which it used."""
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    s = Setup(rng, rng.choice(list(KIND)))
    par = s.parameters()
    fixed = {k: v for k, v in par.items() if k not in ("mu", "sigma")}
    weights = torch.tensor([rng.randint(1, 3) * 1.0 for _ in range(s.dim)], dtype=s.dtype)
    kw = {} if s.ranking is None else {"ranking_method": s.ranking}
    num = 2 * rng.randint(2, 5)
    est = make_functional_grad_estimator(
        KIND[s.kind], function=lambda x: (x * weights).sum(dim=-1), objective_sense=s.sense, required_parameters=["mu", "sigma"],
        fixed_parameters=fixed or None, return_samples=True, return_fitnesses=True, **kw,
    )  # fmt: skip
    size = rng.choice([0, 2])
    mu = torch.stack([par["mu"] + i for i in range(size)]) if size else par["mu"]
    res = est(num, mu, par["sigma"])
    for i in range(max(size, 1)):
        pick = (lambda v: v[i]) if size else (lambda v: v)
        x, f = pick(res.samples), pick(res.fitnesses)
        dist = KIND[s.kind]({**s.parameters(), "mu": pick(mu)})
        tr.add("agree", a=flat({k: pick(v) for k, v in res.grads.items()}), b=flat(dist.compute_gradients(x, f, objective_sense=s.sense, **kw)))
        tr.add("agree", a=encs(f, 4096, False), b=encs((x * weights).sum(dim=-1), 4096, False))
        drawn(tr, s, pick(mu), num, x, True, True)


def drawn(tr, s, mu, num, x, filled, kept, ref=False):
    tr.add("sample", kind=s.kind, num=num, mu=encs(mu, 4096, False), refused=ref, filled=filled, kept=kept, x=[encs(r, 4096, False) for r in x])


def sampling(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    s = Setup(rng, rng.choice(["sep", "sym", "sym", "exp", "full"]))
    par = s.parameters()
    dist = KIND[s.kind](par)
    kept = Kept(dist.parameters)
    gen = torch.Generator()
    gen.manual_seed(rng.randrange(1 << 30))
    for _ in range(3):
        num = rng.randint(1, 9)
        kw = rng.choice([{}, {"generator": gen}])
        out = torch.full((num, s.dim), 7.0, dtype=s.dtype)
        if rng.random() < 0.5:
            box = []
            ref = refused(lambda: box.append(dist.sample(num, **kw)))
            drawn(tr, s, dist.mu, num, [] if ref else box[0], True, kept(), ref)
        else:
            box = []
            ref = refused(lambda: box.append(dist.sample(out=out, **kw)))
            drawn(tr, s, dist.mu, num, [] if ref else out, ref or box[0] is out, kept(), ref)
    sampler = make_functional_sampler(KIND[s.kind], required_parameters=["mu", "sigma"])
    num = rng.randint(1, 7)
    mus = torch.stack([par["mu"], par["mu"] + 1])
    box = []
    ref = refused(lambda: box.append(sampler(num, mus, par["sigma"]) if rng.random() < 0.5 else sampler(num, sigma=par["sigma"], mu=mus)))
    for i in range(2):
        drawn(tr, s, mus[i], num, [] if ref else box[0][i], True, True, ref)
    if not ref:
        tr.add("refuse", refused=bool((box[0][0] - mus[0] == box[0][1] - mus[1]).all()) is False)
    # the spread of many samples
    num = 600
    how = rng.randint(0, 2)
    if how == 0:
        x = dist.sample(num, generator=gen)
    elif how == 1:
        x = dist.sample(out=torch.empty(num, s.dim, dtype=s.dtype))
    else:
        x = sampler(num, par["mu"], par["sigma"])
    z = x - par["mu"]
    z = z @ torch.linalg.inv(par["sigma"]).T if s.kind == "full" else z / par["sigma"]
    tr.add("spread", kind=s.kind, z=[encs(col, 16, False) for col in z.T])
    tr.add("refuse", refused=refused(lambda: dist.sample()))
    tr.add("refuse", refused=refused(lambda: dist.sample(2, out=torch.zeros(2, s.dim))))
    tr.add("refuse", refused=refused(lambda: dist.sample(out=torch.zeros(2, s.dim + 1))))
    tr.add("refuse", refused=refused(lambda: dist.sample(out=torch.zeros(2))))


def optimizers(rng, s):
    kind, seed = rng.choice([SGD, Adam, ClipUp]), rng.choice([0.25, 1.0])
    return [kind(solution_length=s.dim, dtype=s.dtype, stepsize=seed) for _ in range(2)]


def updates(tr, job):
    """A chain of updates, each starting from the distribution which the last one returned."""
    rng = random.Random(job)
    s = Setup(rng, rng.choice(["sep", "sym", "exp", "full"]))
    dist = KIND[s.kind](s.parameters())
    opt, twin = optimizers(rng, s)
    square = s.kind == "full"
    grid = lambda t: [encs(r, 256, False) for r in t] if square else encs(t, 256, False)  # noqa: E731
    tr.add("start", mu=encs(dist.mu, 256, False), sg=grid(dist.sigma))
    names = ("d", "M") if square else ("mu", "sigma")
    for _ in range(rng.randint(1, 4)):
        g_mu, g_sg = [rng.randint(-4, 4) for _ in range(s.dim)], [rng.randint(0, 2) for _ in range(s.dim)]
        if not any(g_mu):
            g_mu[0] = 1
        k = [rng.choice([0, 0, 1, -1]) for _ in range(s.dim)]
        how_mu, how_sg = rng.choice(["rate", "rate", "optimizer", "plain"]), rng.choice(["rate", "rate", "plain"])
        lr_mu, lr_sg = rng.choice([1, 2, 4]), rng.choice([1, 2, 4])
        vec = lambda v: torch.tensor(v, dtype=s.dtype) / 2  # noqa: E731
        grads = {names[0]: vec(g_mu), names[1]: vec(g_sg)}
        if s.kind in ("exp", "full"):
            grads[names[1]] = torch.tensor(k, dtype=s.dtype) * (2 * math.log(2)) / (lr_sg / 4 if how_sg == "rate" else 1)
        if square:
            grads["M"] = torch.diag(grads["M"])
        rates, opts = {}, {}
        for name, how, lr in zip(("mu", "sigma"), (how_mu, how_sg), (lr_mu, lr_sg)):
            if square and rng.random() < 0.3:
                name = {"mu": "d", "sigma": "M"}[name]
            if how == "rate":
                rates[name] = lr / 4
            elif how == "optimizer":
                opts[name] = opt
        step = twin.ascent(grads[names[0]]) if how_mu == "optimizer" else torch.zeros(s.dim)
        kept = Kept(dist.parameters, grads, rates, opts)
        kw = {}
        if rates or rng.random() < 0.5:
            kw["learning_rates"] = rates
        if opts or rng.random() < 0.5:
            kw["optimizers"] = opts
        new = dist.update_parameters(grads, **kw)
        tr.add(
            "update", kind=s.kind, how_mu=how_mu, how_sg=how_sg, lr_mu=lr_mu, lr_sg=lr_sg, g_mu=g_mu, g_sg=g_sg, k=k, kept=kept(),
            step=encs(step, 256, False), out_mu=encs(new.mu, 256, False), out_sg=grid(new.sigma), out_inv=grid(new.A_inv) if square else [],
        )  # fmt: skip
        dist = new
    both = {"d" if square else "mu": 1.0}
    grads = {names[0]: torch.ones(s.dim, dtype=s.dtype), names[1]: torch.zeros(s.dim, s.dim, dtype=s.dtype) if square else torch.zeros(s.dim, dtype=s.dtype)}
    tr.add("refuse", refused=refused(lambda: dist.update_parameters(grads, learning_rates=both, optimizers={list(both)[0]: opt})))


def searches(tr, job):
    """A search follows the estimates of its distribution, by its learning rates and its optimizer."""
    rng = random.Random(job)
    sense = rng.choice(["min", "max"])
    dim = rng.randint(1, 3)
    kind = rng.choice([SNES, PGPE, PGPE, CEM, XNES])
    torch.manual_seed(rng.randrange(1 << 30))
    target = torch.tensor([rng.randint(-3, 3) / 2 for _ in range(dim)])
    problem = Problem(sense, lambda x: (1 if sense == "min" else -1) * ((x - target) ** 2).sum(dim=-1), solution_length=dim, initial_bounds=(-2, 2), vectorized=True, seed=rng.randrange(1 << 30))
    kw = {"popsize": 2 * rng.randint(3, 6), "stdev_init": rng.choice([0.5, 1.0, 2.0])}
    if rng.random() < 0.5:
        kw["center_init"] = torch.full((dim,), rng.choice([0.0, 1.5]))
    dkw, ranking, clr, slr = {}, None, 1.0, 1.0
    if kind is CEM:
        kw["parenthood_ratio"] = rng.choice([0.5, 0.75])
        dkw["parenthood_ratio"] = kw["parenthood_ratio"]
        dist_kind = SeparableGaussian
    else:
        clr, slr = rng.choice([0.25, 0.5, 1.0]), rng.choice([0.1, 0.25])
        kw.update(center_learning_rate=clr, stdev_learning_rate=slr)
        ranking = {PGPE: "centered"}.get(kind, "nes")
        if rng.random() < 0.4:
            ranking = kw["ranking_method"] = rng.choice(["centered", "nes"] if kind is XNES else ["centered", "linear", "raw", "normalized", "nes"])
        dist_kind = {SNES: ExpSeparableGaussian, XNES: ExpGaussian}.get(kind)
        if dist_kind is None:
            symmetric = rng.random() < 0.6
            kw.update(symmetric=symmetric, stdev_max_change=None)
            dist_kind = SymmetricSeparableGaussian if symmetric else SeparableGaussian
            by = "num_directions" if symmetric else "num_solutions"
            dkw.update(divide_mu_grad_by=by, divide_sigma_grad_by=by)
        else:
            kw["scale_learning_rate"] = False
    name, make = rng.choice([("adam", Adam), ("clipup", ClipUp), ("sgd", SGD)])
    conf = {"adam": {"beta1": 0.5, "beta2": 0.75}, "clipup": {"max_speed": 0.3, "momentum": 0.5}, "sgd": {"momentum": 0.5}}[name]
    twin = None
    if kind is not CEM:
        if rng.random() < 0.6:
            kw["optimizer"] = name
            if rng.random() < 0.5:
                kw["optimizer_config"] = conf
            twin = make(solution_length=dim, dtype=torch.float32, stepsize=clr, **(conf if "optimizer_config" in kw else {}))
        elif kind is PGPE:
            kw["optimizer"] = None
    search = kind(problem, **kw)
    search.step()
    for _ in range(4):
        dist = dist_kind({"mu": search.status["center"].clone(), "sigma": search.status["stdev"].clone(), **dkw})
        x, f = search.population.values.clone(), search.population.evals[:, 0].clone()
        grads = dist.compute_gradients(x, f, objective_sense=sense, ranking_method=ranking)
        rates = {"sigma": slr}
        if twin is None:
            rates["mu"] = clr
        new = dist.update_parameters(grads, learning_rates=rates, optimizers={} if twin is None else {"mu": twin})
        if max(float(new.mu.abs().max()), float(new.sigma.abs().max())) > 50 or float(x.std(dim=0).min()) < 0.05:
            break  # rounding errors would be amplified
        search.step()
        tr.add("agree", a=encs(search.status["center"], 4096, False), b=encs(new.mu, 4096, False))
        tr.add("agree", a=encs(search.status["stdev"].reshape(-1), 4096, False), b=encs(new.sigma.reshape(-1), 4096, False))


def entropies(tr, job):
    rng = random.Random(job)
    n = rng.randint(1, 3)
    e0, e1 = [[rng.randint(-1, 1) for _ in range(n)] for _ in range(2)]
    m0, m1 = [[rng.randint(-3, 3) for _ in range(n)] for _ in range(2)]
    make = lambda m, e: SeparableGaussian({"mu": torch.tensor(m) / 2, "sigma": 2.0 ** torch.tensor(e)})  # noqa: E731
    tr.add("entropy", e0=e0, e1=e1, m0=m0, m1=m1, kl2=enc(2 * float(make(m0, e0).relative_entropy(make(m1, e1))), 1024, False))


def run(ctx):
    ctx.mc("MCSearchDistribution")
    rng = ctx.rng("jobs")
    plan = (
        (gradients, ctx.pick(500, 5000), ("g_mu", "kept", "refused")),
        (batched_gradients, ctx.pick(200, 2000), ("g_mu", "kept")),
        (own_samples, ctx.pick(60, 600), ("a", "kept")),
        (sampling, ctx.pick(60, 400), ("num", "refused")),
        (updates, ctx.pick(500, 5000), ("out_mu", "kept")),
        (searches, ctx.pick(150, 1500), ("a",)),
        (entropies, ctx.pick(60, 600), ("e0",)),
    )
    for fn, n, keys in plan:
        traces = ctx.record(fn, [rng.randrange(1 << 60) for _ in range(n)], procs=6)
        ctx.validate("SearchDistributionTrace", traces, canary_keys=keys, label=fn.__name__)
