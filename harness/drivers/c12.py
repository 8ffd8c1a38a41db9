"""C12: limits on standard deviations, speed and population size, validated against Adaptation.tla."""

import random

import torch

from common import enc, encs
from drivers.c10 import refused
from drivers.c11 import Kept
from evotorch import Problem
from evotorch.algorithms import CEM, PGPE, SNES, XNES
from evotorch.algorithms.functional import (
    adam, adam_ask, adam_tell, cem, cem_ask, cem_tell, clipup, clipup_ask, clipup_tell, pgpe, pgpe_ask, pgpe_tell, sgd, sgd_ask, sgd_tell,
)  # fmt: skip
from evotorch.distributions import ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian
from evotorch.optimizers import SGD, Adam, ClipUp
from evotorch.tools import modify_tensor
from evotorch.tools.misc import modify_vector

HUGE = 2000000001
DTYPES = [torch.float32, torch.float64]


def limits(tr, job):
    """Direct calls: all values are multiples of 1/64, so that results are exact."""
    rng = random.Random(job)
    n = rng.randint(1, 4)
    dt = rng.choice(DTYPES)
    old = [rng.choice([0, 64, 64, 128, 192, 640, -64]) for _ in range(n)]
    target = [rng.choice([v, v + rng.randint(-300, 300), 0, 5000, -5000]) for v in old]
    tens = lambda v: torch.tensor(v, dtype=dt) / 64  # noqa: E731

    def limit(draw):
        """None, a scalar or a vector; and its elements."""
        how = rng.choice(["none", "float", "scalar", "vector"])
        if how == "none":
            return None, None
        if how == "vector":
            vals = [draw() for _ in range(n)]
            return tens(vals), vals
        v = draw()
        return (v / 64 if how == "float" else tens(v)), [v] * n

    lo, los = limit(lambda: rng.choice([0, 1, 32, 64]))
    hi, his = limit(lambda: rng.choice([64, 128, 640, 1000]))
    ch, chs = limit(lambda: rng.choice([0, 1, 13, 32, 64]))
    vec = rng.random() < 0.4
    if vec and (lo is None) != (hi is None):
        lo, los = tens([0] * n), [0] * n
        hi, his = tens([640] * n), [640] * n
    args = (tens(old), tens(target), *[v for v in (lo, hi, ch) if isinstance(v, torch.Tensor)])
    kept = Kept(*args)
    fields = {"old": old, "target": target, "lo": los or [-HUGE] * n, "hi": his or [HUGE] * n, "ch": chs or [HUGE] * n}
    if vec:
        size = rng.choice([0, 2])
        o, t = args[:2]
        if size:
            o, t = (torch.stack([o, o + 1]), t) if rng.random() < 0.5 else (o, torch.stack([t, t + 1]))
        res = modify_vector(o, t, lb=lo, ub=hi, max_change=ch)
        if not size:
            tr.add("limit", kept=kept(), **fields, out=encs(res, 64 * 64, True))
        for k in range(size):
            oo, tt = (o[k] if o.ndim == 2 else o), (t[k] if t.ndim == 2 else t)
            tr.add("limit", kept=kept(), **{**fields, "old": encs(oo, 64), "target": encs(tt, 64)}, out=encs(res[k] if res.ndim == 2 else res, 64 * 64, True))
    elif rng.random() < 0.5:
        res = modify_tensor(args[0], args[1], lb=lo, ub=hi, max_change=ch)
        tr.add("limit", kept=kept(), **fields, out=encs(res, 64 * 64, True))
    else:
        o = args[0].clone()
        res = modify_tensor(o, args[1], lb=lo, ub=hi, max_change=ch, in_place=True)
        tr.add("limit", kept=kept() and res is o, **fields, out=encs(o, 64 * 64, True))
    # limits of relative changes are multiples of 1/64 of multiples of 1/64
    for e in tr.ev:
        for key in ("old", "target", "lo", "hi"):
            e[key] = [v * 64 if abs(v) < HUGE else v for v in e[key]]


GRADS = {1: [[0], [1], [-3]], 2: [[0, 0], [3, 4], [-4, 3], [0, -5], [6, 8]], 3: [[0, 0, 0], [1, 2, 2], [-2, 6, 3], [0, 3, -4]]}


def clipups(tr, job):
    rng = random.Random(job)
    n = rng.randint(1, 3)
    dt = rng.choice(DTYPES)
    momentum, stepsize = rng.choice([0, 4, 7, 8]), rng.choice([64, 256, 1024])
    speed = rng.choice([HUGE, HUGE, stepsize, stepsize * 3 // 2, 32, 0])
    kw = {"momentum": momentum / 8} if momentum != 7 or rng.random() < 0.5 else {}
    if not kw:
        momentum = None
    if speed != HUGE:
        kw["max_speed"] = speed / 1024
    functional = rng.random() < 0.5
    if momentum is None:
        momentum, kw["momentum"] = 7, 7 / 8
    tr.add("make", kind="clipup", n=n, momentum=momentum, stepsize=stepsize, speed=speed)
    size = rng.choice([0, 2])
    if functional:
        center = torch.zeros((size, n) if size else n, dtype=dt)
        state = clipup(center_init=center, center_learning_rate=stepsize / 1024, **kw)
    else:
        opt = ClipUp(solution_length=n, dtype=dt, stepsize=stepsize / 1024, **kw)
    last = None
    for _ in range(rng.randint(2, 7)):
        if not functional and rng.random() < 0.25:
            name = rng.choice(["lr", "momentum", "max_speed"])
            value = rng.choice([-1, 0, 4, 9]) if name == "momentum" else rng.choice([-8, 0, 128, 512])
            group = opt.contained_optimizer.param_groups[0]
            ref = refused(lambda: group.__setitem__(name, value / (8 if name == "momentum" else 1024)))
            tr.add("set", name=name, value=value, refused=ref, now=[enc(group["momentum"], 8), enc(group["lr"], 1024), enc(group["max_speed"], 1024)])
        g = rng.choice(GRADS[n])
        gt = torch.tensor(g, dtype=dt) * rng.choice([1.0, 1.0, 0.25, 1e6])
        kept = Kept(gt)
        if functional:
            gs = torch.stack([gt, -gt]) if size else gt
            new = clipup_tell(state, follow_grad=gs)
            moved = clipup_ask(new) - clipup_ask(state)
            state = new
            out = moved[0] if size else moved
            if size and not bool(((moved[0] + moved[1]).abs() < 1e-5 * (1 + moved[0].abs())).all()):
                out = moved[1] * 1000  # the second search of the batch is the mirror image of the first one
        else:
            out = opt.ascent(gt, **rng.choice([{}, {"cloned_result": True}]))
            if last is not None and not bool((last[0] == last[1]).all()):
                kept.before = [None]
            last = (out, out.clone())
        tr.add("step", g=g, out=encs(out, 1024, False), kept=kept())


def torch_optimizers(tr, job):
    rng = random.Random(job)
    n = rng.randint(1, 3)
    dt = rng.choice(DTYPES)
    functional = rng.random() < 0.4
    lr = rng.choice([0.25, 0.5, 1.0])
    if rng.random() < 0.5:
        mom, damp = rng.choice([0, 1]), 0 if functional else rng.choice([0, 1])
        nesterov = (not functional) and mom == 1 and damp == 0 and rng.random() < 0.4
        tr.add("make", kind="sgd", n=n, mom=mom, damp=damp, nesterov=nesterov)
        kw = {"momentum": mom / 2} if mom or rng.random() < 0.5 else {}
        if functional:
            state, ask, tell = sgd(center_init=torch.zeros(n, dtype=dt), center_learning_rate=lr, **kw), sgd_ask, sgd_tell
        else:
            if damp:
                kw["dampening"] = damp / 2
            if nesterov:
                kw["nesterov"] = True
            opt = SGD(solution_length=n, dtype=dt, stepsize=lr, **kw)
        scale, gscale, steps, exact = 4096 / lr, 4096, rng.randint(1, 5), True
    else:
        tr.add("make", kind="adam", n=n)
        kw = {"beta1": 0.5, "beta2": 0.75}
        if functional:
            state, ask, tell = adam(center_init=torch.zeros(n, dtype=dt), center_learning_rate=lr, **kw), adam_ask, adam_tell
        else:
            opt = Adam(solution_length=n, dtype=dt, stepsize=lr, **kw)
        scale, gscale, steps, exact = 64 / lr, 1, rng.randint(1, 3), False
    for _ in range(steps):
        g = [rng.randint(-4, 4) for _ in range(n)]
        gt = torch.tensor(g, dtype=dt)
        kept = Kept(gt)
        if functional:
            new = tell(state, follow_grad=gt)
            out = ask(new) - ask(state)
            state = new
        else:
            out = opt.ascent(gt)
        tr.add("step", g=[v * gscale for v in g], out=encs(out, scale, exact), kept=kept())


LANDSCAPES = [
    lambda x: torch.sum(x**2, dim=-1),
    lambda x: torch.full((len(x),), 3.0, dtype=x.dtype),
    lambda x: 1e6 * torch.sum(x, dim=-1),
    lambda x: torch.exp(torch.clamp(torch.sum(torch.abs(x), dim=-1), max=20.0)),
    lambda x: -torch.amax(torch.abs(x), dim=-1),
    lambda x: torch.sum(torch.floor(x), dim=-1),
]


def draw_limits(rng, dim, stdev):
    """Limits around the initial deviations, as scalars or as vectors; and their elements at scale 65536."""
    kw, los, his, chs = {}, [-HUGE] * dim, [HUGE] * dim, [HUGE] * dim

    def put(name, draw, scale):
        if rng.random() < 0.3:
            return None
        vals = [draw()] * dim
        if rng.random() < 0.4:
            vals = [draw() for _ in range(dim)]
            kw[name] = torch.tensor(vals)
        else:
            kw[name] = vals[0]
        return [round(v * scale) for v in vals]

    los = put("stdev_min", lambda: stdev * rng.choice([0.0625, 0.25, 0.75, 1.0]), 65536) or los
    his = put("stdev_max", lambda: stdev * rng.choice([1.0, 1.125, 2.0, 8.0]), 65536) or his
    chs = put("stdev_max_change", lambda: rng.choice([1, 6, 13, 32, 128]) / 64, 64) or chs
    return kw, los, his, chs


def searches(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    sense = rng.choice(["min", "max"])
    dim = rng.randint(1, 4)
    fn = rng.choice(LANDSCAPES)
    kind = rng.choice([PGPE, PGPE, SNES, CEM])
    stdev = rng.choice([0.25, 1.0, 2.0])
    problem = Problem(sense, fn, solution_length=dim, initial_bounds=(-2, 2), vectorized=True, seed=rng.randrange(1 << 30))
    lim, los, his, chs = draw_limits(rng, dim, stdev)
    if kind is PGPE and "stdev_max_change" not in lim:
        lim["stdev_max_change"] = None
    if kind is not PGPE and "stdev_max_change" not in lim and rng.random() < 0.5:
        lim["stdev_max_change"] = None
    kw = {"popsize": 2 * rng.randint(2, 6), "stdev_init": stdev, **lim}
    dkw, ranking, slr = {}, None, 1.0
    if kind is CEM:
        kw["popsize"] = 8
        kw["parenthood_ratio"] = dkw["parenthood_ratio"] = rng.choice([0.25, 0.5, 0.75])
        dist_kind = SeparableGaussian
        if fn is LANDSCAPES[1]:
            return
    else:
        slr = rng.choice([0.125, 1.0, 5.0])
        ranking = rng.choice(["centered", "nes", "linear"])
        kw.update(center_learning_rate=rng.choice([0.25, 2.0]), stdev_learning_rate=slr, ranking_method=ranking)
        dist_kind = ExpSeparableGaussian
        if kind is SNES:
            kw["scale_learning_rate"] = False
        else:
            symmetric = rng.random() < 0.6
            kw["symmetric"] = symmetric
            dist_kind = SymmetricSeparableGaussian if symmetric else SeparableGaussian
            by = "num_directions" if symmetric else "num_solutions"
            dkw.update(divide_mu_grad_by=by, divide_sigma_grad_by=by)
    speed = None
    if kind is PGPE or (kind is SNES and rng.random() < 0.3):
        if rng.random() < 0.7:
            kw["optimizer"] = "clipup"
            speed = 2 * kw["center_learning_rate"]
            if rng.random() < 0.5:
                speed = rng.choice([0.25, 0.5])
                kw["optimizer_config"] = {"max_speed": speed}
        else:
            kw["optimizer"] = rng.choice(["adam", None])
    search = kind(problem, **kw)
    search.step()
    for _ in range(rng.randint(3, 8)):
        before = search.status["stdev"].clone()
        center = search.status["center"].clone()
        if float(before.abs().max()) > 80 or float(before.min()) <= 0:
            break
        dist = dist_kind({"mu": center, "sigma": before, **dkw})
        x, f = search.population.values.clone(), search.population.evals[:, 0].clone()
        grads = dist.compute_gradients(x, f, objective_sense=sense, ranking_method=ranking)
        target = dist.update_parameters(grads, learning_rates={"mu": 0.0, "sigma": slr}).sigma
        search.step()
        tr.add("sigma", old=encs(before, 65536, False), new=encs(search.status["stdev"], 65536, False), target=encs(target, 65536, False), known=True, lo=los, hi=his, ch=chs)
        moved = search.status["center"] - center
        if speed is not None and float(center.abs().max()) < 1000:
            tr.add("speed", moved=encs(moved, 1024, False), speed=enc(speed, 1024))


def functional_searches(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    sense = rng.choice(["min", "max"])
    dim = rng.randint(1, 3)
    size = rng.choice([0, 2])
    fn = rng.choice(LANDSCAPES)
    stdev = rng.choice([0.25, 1.0, 2.0])
    lim, los, his, chs = draw_limits(rng, dim, stdev)
    los = [max(v, 0) for v in los]
    center = torch.randn((size, dim) if size else dim)
    batched = lambda x: fn(x.reshape(-1, dim)).reshape(x.shape[:-1])  # noqa: E731
    speed = None
    if rng.random() < 0.5:
        if fn is LANDSCAPES[1]:
            return
        state = cem(center_init=center, parenthood_ratio=0.5, objective_sense=sense, stdev_init=stdev, **lim)
        ask, tell, popsize = cem_ask, cem_tell, 8
    else:
        lr = rng.choice([0.25, 2.0])
        kw = {} if rng.random() < 0.5 else {"optimizer": "clipup", "optimizer_config": {"max_speed": 0.25}}
        speed = kw["optimizer_config"]["max_speed"] if kw else 2 * lr
        if "stdev_max_change" not in lim:
            lim["stdev_max_change"] = None
        state = pgpe(
            center_init=center, center_learning_rate=lr, stdev_learning_rate=rng.choice([0.125, 1.0, 5.0]), objective_sense=sense,
            ranking_method=rng.choice(["centered", "linear", "nes"]), stdev_init=stdev, symmetric=rng.random() < 0.6, **lim, **kw,
        )  # fmt: skip
        ask, tell, popsize = pgpe_ask, pgpe_tell, 2 * rng.randint(2, 6)
    where = lambda s: s.center if hasattr(s, "center") else s.optimizer_state.center  # noqa: E731
    for _ in range(rng.randint(3, 8)):
        x = ask(state, popsize=popsize)
        new = tell(state, x, batched(x))
        for k in range(max(size, 1)):
            pick = (lambda v: v[k] if v.ndim == 2 else v) if size else (lambda v: v)
            old = pick(state.stdev)
            if float(old.abs().max()) > 80 or float(old.min()) <= 0:
                return
            tr.add("sigma", old=encs(old, 65536, False), new=encs(pick(new.stdev), 65536, False), target=[0] * dim, known=False, lo=los, hi=his, ch=chs)
            if speed is not None and float(center.abs().max()) < 1000:
                tr.add("speed", moved=encs(pick(where(new)) - pick(where(state)), 1024, False), speed=enc(speed, 1024))
        state = new


class Counting(Problem):
    """A problem whose evaluations make interactions, a number which depends on the solutions."""

    def __init__(self, tr, rng, sense, dim, top):
        super().__init__(sense, solution_length=dim, initial_bounds=(-1, 1), seed=rng.randrange(1 << 30))
        self.tr, self.top, self.count = tr, top, 0
        self.after_eval_hook.append(lambda batch: {"total_interaction_count": self.count})

    def _evaluate_batch(self, batch):
        x = batch.values
        made = torch.floor(torch.abs(x[:, 0] * 1000)).to(torch.int64) % (self.top + 1)
        self.count += int(made.sum())
        batch.set_evals(torch.sum(x**2, dim=-1))
        self.tr.add("sampled", n=len(batch), made=int(made.sum()))

    def _get_local_interaction_count(self):
        return self.count


def budgets(tr, job):
    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    dim = rng.randint(1, 3)
    pop = 2 * rng.randint(2, 5)
    top = rng.choice([1, 2, 5])
    problem = Counting(tr, rng, rng.choice(["min", "max"]), dim, top)
    budget = rng.choice([0, 1, pop * top // 2, pop * top, pop * top * 2, pop])
    most = rng.choice([HUGE, pop, pop * 2, pop * 3, pop * 2 + 1, pop // 2]) if rng.random() < 0.7 else HUGE
    tr.cfg = {"pop": pop, "budget": budget, "most": most}
    lim = {"num_interactions": budget, **({} if most == HUGE else {"popsize_max": most})}
    if rng.random() < 0.6:
        kind = rng.choice([PGPE, SNES, CEM, XNES])
        kw = {PGPE: {"center_learning_rate": 0.5, "stdev_learning_rate": 0.1}, CEM: {"parenthood_ratio": 0.5}}.get(kind, {})
        search = kind(problem, popsize=pop, stdev_init=1.0, **kw, **lim)
        for _ in range(3):
            search.step()
            tr.add("generation", size=len(search.population))
    else:
        dist = SymmetricSeparableGaussian({"mu": torch.zeros(dim), "sigma": torch.ones(dim)})
        for _ in range(3):
            res = problem.sample_and_compute_gradients(dist, pop, **lim, ranking_method="centered")
            tr.add("generation", size=(res[0] if isinstance(res, list) else res)["num_solutions"])


def run(ctx):
    ctx.mc("MCAdaptation")
    rng = ctx.rng("jobs")
    plan = (
        (limits, ctx.pick(600, 6000), ("out", "kept")),
        (clipups, ctx.pick(300, 3000), ("out", "kept", "refused")),
        (torch_optimizers, ctx.pick(300, 3000), ("out", "kept")),
        (searches, ctx.pick(200, 2000), ("new", "hi")),
        (functional_searches, ctx.pick(120, 1200), ("new",)),
        (budgets, ctx.pick(200, 2000), ("n", "size")),
    )
    for fn, n, keys in plan:
        traces = ctx.record(fn, [rng.randrange(1 << 60) for _ in range(n)], procs=6)
        ctx.validate("AdaptationTrace", traces, canary_keys=keys, label=fn.__name__)
