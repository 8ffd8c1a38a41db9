"""C18: seeded searches amid other consumers of randomness, and freshly generated solutions, against SearchRuns.tla."""

import random

import numpy as np
import torch
from common import vid
from drivers.c13 import LANDSCAPES, MULTI, NEGATE, make_problem
from evotorch import Problem
from evotorch.algorithms import CEM, PGPE, SNES, XNES
from evotorch.operators import CutAndSplice, GaussianMutation, OnePointCrossOver, PolynomialMutation
from evotorch.tools.tensormaker import TensorMakerMixin
from snap import fcode, name, see_batch, see_search


def disturb(rng, what):
    """Something else in the process uses or reseeds the global generators."""
    if what == "torch":
        rng.choice([lambda: torch.rand(rng.randint(1, 5)), lambda: torch.manual_seed(rng.randrange(99)), lambda: torch.randperm(4)])()
    elif what == "numpy":
        rng.choice([lambda: np.random.rand(rng.randint(1, 5)), lambda: np.random.seed(rng.randrange(99))])()
    else:
        rng.choice([random.random, lambda: random.seed(rng.randrange(99))])()


def globals_now():
    st = np.random.get_state()
    return [vid(torch.get_rng_state()), vid([st[1].tolist(), st[2], st[3]]), vid(random.getstate())]


def make_any(kind, *args):
    return Interactive(args[4]) if kind == "adaptive" else make_problem(kind, *args)


def twins(tr, job):
    """Searches of one origin, in an interleaving with each other and with other random activity."""
    schedule, seed = job
    rng = random.Random(seed)
    tr.cfg = {"ordinal": False}
    multi = rng.random() < 0.15
    kinds = MULTI if multi else NEGATE
    kind = rng.choice(sorted(kinds) + ["adaptive"] * (not multi))
    nobj = 2 if multi else 1
    funcs, setup = rng.sample(LANDSCAPES, nobj), rng.randrange(1 << 30)
    pseed = rng.choice([0, 1, rng.randrange(1 << 30), rng.randrange(1 << 62)])
    tr.meta = {"kind": kind, "seed": seed}
    reseed = rng.random() < 0.3
    searches = {}

    def watched(fn):
        before = globals_now()
        fn()
        tr.add("global", before=before, after=globals_now())

    def make(r):
        for what in ("torch", "numpy", "python"):
            disturb(rng, what)

        def build():
            if reseed:
                p = make_any(kind, [1] * nobj, ["min", "max"][:nobj], funcs, lambda f: f, rng.randrange(1 << 30), False)
                p.generate_batch(rng.randint(1, 4))
                p.manual_seed(pseed)
            else:
                p = make_any(kind, [1] * nobj, ["min", "max"][:nobj], funcs, lambda f: f, pseed, False)
            searches[r] = pick(kinds, kind)(p, random.Random(setup))

        watched(build)
        tr.add("make", run=r, origin=1, mirror=[1] * nobj)

    def do(r, what):
        s = searches[r]
        if what == "step":
            watched(s.step)
            tr.add("do", run=r, what=what)
            tr.add("see", run=r, **see_search(s))
        else:
            made = []
            watched(lambda: made.append(s.problem.generate_batch(3)))
            tr.add("do", run=r, what=what)
            tr.add("see", run=r, **see_batch(made[0]))

    count = {}
    for e in schedule:
        if e["op"] == "make":
            make(e["run"])
            count[e["run"]] = []
        elif e["op"] == "do":
            what = "step" if e["what"] == "0" else "gen"
            count[e["run"]].append(what)
            do(e["run"], what)
        elif e["op"] == "noise":
            disturb(rng, e["what"])
            tr.add("noise", what=e["what"])
    for k, r in enumerate(sorted(count)):
        if not count[r]:
            continue
        make(100 + k)
        for what in count[r]:
            if rng.random() < 0.3:
                disturb(rng, rng.choice(["torch", "numpy", "python"]))
            do(100 + k, what)


class Interactive(Problem):
    """A problem which reports interactions, so that populations have adaptive sizes."""

    def __init__(self, seed):
        super().__init__("max", solution_length=3, initial_bounds=(-4, 4), seed=seed)
        self.count = 0
        self.after_eval_hook.append(lambda batch: {"total_interaction_count": self.count})

    def _evaluate_batch(self, batch):
        self.count += int((torch.abs(batch.values[:, 0]) * 10).sum()) % 50
        batch.set_evals(LANDSCAPES[1](batch.values))


def adaptive(p, rng):
    kind = rng.choice([SNES, PGPE, CEM, XNES])
    kw = {PGPE: {"center_learning_rate": 0.5, "stdev_learning_rate": 0.1}, CEM: {"parenthood_ratio": 0.5}}.get(kind, {})
    return kind(p, popsize=4, stdev_init=1.0, num_interactions=60, popsize_max=20, **kw)


def pick(kinds, kind):
    return adaptive if kind == "adaptive" else kinds[kind]


class Lists(Problem):
    """Variable-length solutions."""

    def __init__(self, seed):
        super().__init__("max", lambda v: float(sum(v)), dtype=object, seed=seed)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [int(v) for v in self.make_randint((1 + int(self.make_randint((), n=5)),), n=9)]


class Maker(TensorMakerMixin):
    """Something with a generator which is not a problem."""

    def __init__(self, seed):
        self.dtype, self.device, self.solution_length = torch.float32, "cpu", 3
        self.generator = torch.Generator()
        self.generator.manual_seed(seed)
        self.use_numpy = False


def draws(tr, job):
    """Single random operations which are given a generator."""
    rng = random.Random(job)
    tr.cfg = {"ordinal": False}
    seed = rng.randrange(1 << 30)
    plan = [rng.choice(["uniform", "gaussian", "randint", "batch", "sbatch", "cross", "mutate", "poly", "shaped", "splice"]) for _ in range(rng.randint(1, 5))]
    use_problem = rng.random() < 0.6
    for r in (1, 2):
        disturb(rng, "torch")
        p = Problem("min", LANDSCAPES[0], solution_length=3, bounds=(-2, 2), vectorized=True, seed=seed)
        m = p if use_problem else Maker(seed)
        pop = p.generate_batch(6)
        p.evaluate(pop)
        tr.add("make", run=r, origin=1, mirror=[1])
        for what in plan:
            disturb(rng, rng.choice(["torch", "numpy", "python"]))
            before = globals_now()
            if what == "uniform":
                res = m.make_uniform(4, lb=-1, ub=2)
            elif what == "shaped":
                res = m.make_uniform((2, 2), lb=0, ub=2) if use_problem else m.make_gaussian((2, 2))
            elif what == "gaussian":
                res = m.make_gaussian(4, center=1.0, stdev=2.0, symmetric=rng.random() < 0)
            elif what == "randint":
                res = m.make_randint(4, n=1000)
            elif what == "batch":
                res = p.generate_batch(4).values
            elif what == "sbatch":
                res = p.generate_batch(4, center=1.0, stdev=0.5, symmetric=True).values
            elif what == "cross":
                res = OnePointCrossOver(p, tournament_size=2)(pop).values
            elif what == "mutate":
                res = GaussianMutation(p, stdev=0.5, mutation_probability=0.5)(pop).values
            elif what == "splice":
                lists = Lists(seed + 1)
                res = lists.generate_batch(6)
                lists.evaluate(res)
                res = repr([list(v) for v in CutAndSplice(lists, tournament_size=2)(res).values])
            else:
                res = PolynomialMutation(p, eta=8.0)(pop).values
            after = globals_now()
            tr.add("global", before=before, after=after)
            tr.add("do", run=r, what=what)
            tr.add("see", run=r, vals=[name(res)], evs=[], marks=[], means=[])


DTYPES = {"float32": torch.float32, "float64": torch.float64, "float16": torch.float16, "bfloat16": torch.bfloat16,
          "int8": torch.int8, "uint8": torch.uint8, "int16": torch.int16, "int32": torch.int32, "int64": torch.int64, "bool": torch.bool}  # fmt: skip


def fresh(tr, job):
    """Freshly generated solutions of problems declared in many ways."""
    rng = random.Random(job)
    tr.cfg = {"ordinal": False}
    dname = rng.choice(list(DTYPES))
    dt = DTYPES[dname]
    n = rng.randint(1, 4)
    floating = dt.is_floating_point

    def draw():
        if floating:
            a = rng.choice([-4096.0, -3.5, -1.0, 0.0, 0.25, 2.0, 100.0])
            return a, a + rng.choice([0.0, 0.25, 1.0, 5.0, 8192.0])
        if dt is torch.bool:
            return rng.choice([(False, True), (False, True), (True, True), (False, False)])
        if dt is torch.uint8:
            return rng.choice([(0, 1), (3, 9), (250, 254), (0, 0), (7, 7), (0, 200)])
        return rng.choice([(0, 1), (-3, 3), (-9, -5), (5, 5), (-20, 80), (-128, -127), (126, 127), (0, 2)])

    vec_lo, vec_hi = rng.random() < 0.5, rng.random() < 0.5
    pairs = [draw() for _ in range(n)]
    if not vec_lo and not vec_hi:
        pairs = [pairs[0]] * n
    elif not vec_lo:
        pairs = [(pairs[0][0], max(pairs[0][0], h)) for _, h in pairs]
    elif not vec_hi:
        top = max(h for _, h in pairs)
        pairs = [(lo, top) for lo, _ in pairs]
    if dt is torch.int8:
        pairs = [(lo, min(hi, lo + 100)) for lo, hi in pairs] if vec_lo == vec_hi else pairs
        if any(hi - lo > 120 for lo, hi in pairs):
            pairs = [(0, 1)] * n
            vec_lo = vec_hi = False
    if floating:
        # as they can be expressed in the declared type
        pairs = [tuple(torch.tensor(v, dtype=dt).item() for v in p) for p in pairs]
    los, his = [p[0] for p in pairs], [p[1] for p in pairs]

    def form(vals, vec):
        if not vec:
            return vals[0]
        return rng.choice([lambda: list(vals), lambda: torch.tensor(vals, dtype=dt), lambda: np.array(vals)])()

    bnds = (form(los, vec_lo), form(his, vec_hi))
    how = rng.choice(["initial", "strict", "both"])
    if how == "both" and dt is not torch.bool and dt is not torch.uint8:
        wide = (los[0] - 1, 120 if dt is torch.int8 else 20000)
        if dt is torch.int8 and (los[0] <= -128 or max(his) > 120 or min(los) < los[0] - 1):
            how = "initial"
        elif min(los) < wide[0]:
            how = "initial"
    else:
        how = "initial" if how == "both" else how
    kw = {"initial": {"initial_bounds": bnds}, "strict": {"bounds": bnds}}.get(how) or {"initial_bounds": bnds, "bounds": wide}
    p = Problem("min", solution_length=n, dtype=rng.choice([dt, dname]), seed=rng.choice([None, rng.randrange(1 << 30)]), **kw)
    if p.generator is None:
        torch.manual_seed(rng.randrange(1 << 30))
    code = fcode if floating else int
    small = (not floating) and all(h - lo <= 6 for lo, h in pairs)
    # a value is missing among 400 fair draws out of at most 7 with a probability below 1e-25
    num = rng.choice([1, 2, 7]) if not small or rng.random() < 0.5 else 400
    for _ in range(2):
        how = rng.choice(["batch", "values", "default"])
        vals = p.generate_values(num) if how == "values" else p.generate_batch(num).values
        tr.add("fresh", n=num, dtype=str(vals.dtype), declared=str(dt), lo=[code(v) for v in los], hi=[code(v) for v in his], full=num == 400, floating=dt in (torch.float32, torch.float64),
               rows=[[code(v) for v in row] for row in vals.tolist()])  # fmt: skip


MC = "CONSTANTS\n  Names = {{1, 2, 3}}\n  Histories = {h}\n  Ordinal = FALSE\nINIT Init\nNEXT Next\nINVARIANT Functional\nCHECK_DEADLOCK FALSE\n"
GEN = 'CONSTANTS\n  Depth = {d}\n  Work = {{"0", "1"}}\n  Ways = {{}}\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.mc("MCSearchRuns", MC.format(h=ctx.pick(2, 3)))
    rng = ctx.rng("jobs")
    n = ctx.pick(240, 2400)
    schedules = []
    for d in (6, 12) if not ctx.thorough else (6, 12, 20):
        more = ctx.gen("SearchRunsGen", GEN.format(d=d), num=n // 2, depth=d + 1)
        schedules.extend(rng.sample(more, min(len(more), n)))
    traces = ctx.record(twins, [(rng.choice(schedules), rng.randrange(1 << 60)) for _ in range(n)], procs=6)
    ctx.validate("SearchRunsTrace", traces, canary_keys=("vals", "after"), label="twins")
    for fn, num, keys in ((draws, ctx.pick(150, 1500), ("vals", "after")), (fresh, ctx.pick(300, 3000), ("rows", "lo"))):
        traces = ctx.record(fn, [rng.randrange(1 << 60) for _ in range(num)], procs=6)
        ctx.validate("SearchRunsTrace", traces, canary_keys=keys, label=fn.__name__)
