"""C17: copies of searches, problems, batches, distributions and optimizers, validated against SearchRuns.tla."""

import copy
import pickle
import random

import algos
import numpy as np
import torch
from common import vid
from evotorch import Problem, Solution
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian
from evotorch.optimizers import SGD, Adam, ClipUp
from evotorch.tools import ObjectArray, as_read_only_tensor, clone, make_tensor
from evotorch.tools.cloning import deep_clone
from parts import numbered, parts
from snap import name, see_batch, see_search

# ---------------------------------------------------------------- fitness functions (module level: they are pickled)


def f_one(x):
    return torch.sum((x - 0.5) ** 2, dim=-1) + torch.sum(torch.sin(3.0 * x), dim=-1)


def f_two(x):
    return torch.stack([torch.sum(x**2, dim=-1), torch.sum((x - 1.0) ** 2, dim=-1)], dim=-1)


def f_feats(x):
    return torch.cat([f_one(x).reshape(-1, 1), x[:, :2]], dim=-1)


def f_sum(x):
    return torch.sum(torch.as_tensor(x, dtype=torch.float32), dim=-1)


def f_len(value):
    return float(len(value) + sum(v for v in value if isinstance(v, int)))


def plain(values):
    """The decision values as text."""
    if isinstance(values, torch.Tensor):
        return repr(values.tolist())
    return repr(shown(values)) if isinstance(values, ObjectArray) else repr([shown(v) for v in values])


def note(batch):
    return {"evaluated": len(batch)}


class Lists(Problem):
    """Solutions are variable-length lists."""

    def __init__(self, seed):
        super().__init__("max", f_len, dtype=object, seed=seed)

    def _fill(self, values):
        for i in range(len(values)):
            n = int(self.make_randint((), n=5))
            values[i] = [int(v) for v in self.make_randint((n,), n=9)] + ["abc"]


class Sticky(Problem):
    """A problem with state of its own: the fitness depends on how many evaluations were made before."""

    def __init__(self, seed):
        super().__init__("min", solution_length=3, initial_bounds=(-2, 2), seed=seed)
        self.count = 0
        self.table = {"weights": torch.ones(3), "log": [0]}
        self.alias = self.table["weights"]
        self.hooked = 0
        self.after_eval_hook.append(self.count_rows)

    def count_rows(self, batch):
        self.hooked += len(batch)
        return {"rows": self.hooked}

    def _evaluate_batch(self, batch):
        self.count += 1
        self.alias[self.count % 3] += 0.5
        self.table["log"].append(len(batch))
        batch.set_evals(batch.values @ self.table["weights"] + self.count)


# ---------------------------------------------------------------- the kinds of runs
class Run:
    ways = ["pickle", "deepcopy", "clone"]
    work = ["step"]

    def copied(self, x, how):
        if how == "pickle":
            return pickle.loads(pickle.dumps(x))
        if how == "deepcopy":
            return copy.deepcopy(x)
        if how == "copy":
            return copy.copy(x)
        return clone(x) if self.setup % 2 else x.clone()


class SearchRun(Run):
    ways = ["pickle", "deepcopy"]
    work = ["step", "gen", "evaluate"]

    def __init__(self, rng):
        self.setup = rng.randrange(1 << 30)
        self.seed = rng.randrange(1 << 30)
        self.multi = rng.random() < 0.15
        self.kinds = algos.MULTI if self.multi else {**algos.SINGLE, "mapelites": algos.mapelites, "sticky": algos.snes}
        self.kind = rng.choice(sorted(self.kinds))

    def make(self):
        if self.kind == "sticky":
            p = Sticky(self.seed)
        else:
            feats = self.kind == "mapelites"
            p = Problem(["min", "max"] if self.multi else "max", f_two if self.multi else f_feats if feats else f_one, solution_length=3,
                        initial_bounds=(-4, 4), vectorized=True, seed=self.seed, eval_data_length=2 if feats else 0)  # fmt: skip
        p.after_eval_hook.append(note)
        return self.kinds[self.kind](p, random.Random(self.setup))

    def do(self, x, what):
        if what == "step":
            x.step()
        elif what == "gen":
            x.problem.generate_batch(2)
        else:
            b = x.problem.generate_batch(2)
            x.problem.evaluate(b)

    def see(self, x):
        if x.step_count == 0:
            # there may not be a population yet
            vals = [name(x.status[k]) for k in ("center", "stdev", "stepsize") if k in x.status] + [name(x.problem.generator.get_state())]
            return {"vals": vals, "evs": [], "marks": [], "means": []}
        s = see_search(x)
        status = x.problem.status
        s["vals"] = s["vals"] + [vid(sorted(status)), name(x.problem.generator.get_state())]
        if "best" in status and not self.multi:
            s["vals"] = s["vals"] + [name(status["best"].values), name(status["worst"].values)]
        return s


class ProblemRun(Run):
    ways = ["pickle", "deepcopy", "clone", "copy"]
    work = ["gen", "evaluate", "seed"]

    def __init__(self, rng):
        self.setup = rng.randrange(1 << 30)
        self.seed = rng.randrange(1 << 30)
        self.kind = rng.choice(["real", "int", "bool", "object", "multi", "sticky", "unbounded64"])
        self.last = {}

    def make(self):
        s = self.seed
        p = {
            "real": lambda: Problem("min", f_one, solution_length=3, initial_bounds=(-1, [1, 2, 3]), vectorized=True, seed=s),
            "int": lambda: Problem("max", f_sum, solution_length=4, dtype=torch.int64, bounds=(-3, 3), vectorized=True, seed=s),
            "bool": lambda: Problem("max", f_sum, solution_length=4, dtype=torch.bool, bounds=(False, True), vectorized=True, seed=s),
            "object": lambda: Lists(s),
            "multi": lambda: Problem(["max", "min"], f_two, solution_length=2, initial_bounds=(-1, 1), vectorized=True, seed=s),
            "sticky": lambda: Sticky(s),
            "unbounded64": lambda: Problem("max", f_one, solution_length=2, initial_bounds=(0, 1), dtype="float64", vectorized=True, seed=s),
        }[self.kind]()
        p.after_eval_hook.append(note)
        return p

    def do(self, x, what):
        if what == "seed":
            x.manual_seed(self.seed + 5)
            b = None
        else:
            b = x.generate_batch(3)
            if what == "evaluate":
                x.evaluate(b)
        self.last[id(x)] = b

    def see(self, x):
        vals = [name(x.generator.get_state())]
        b = self.last.get(id(x))
        if b is not None:
            vals += [vid(plain(b.values)), vid(repr(b.evals.tolist()))]
        for key in sorted(x.status):
            v = x.status[key]
            for s in v if isinstance(v, list) else [v]:
                vals.append(vid(plain(s.values) + repr(s.evals.tolist()) if isinstance(s, Solution) else repr(s)))
        return {"vals": vals, "evs": [], "marks": [], "means": []}


class BatchRun(Run):
    ways = ["pickle", "deepcopy", "clone", "copy"]
    work = ["values", "evals", "slice", "forget"]

    def __init__(self, rng):
        self.setup = rng.randrange(1 << 30)
        self.kind = rng.choice(["batch", "solution", "objects"])

    def make(self):
        p = Lists(self.setup) if self.kind == "objects" else Problem("min", f_one, solution_length=3, initial_bounds=(-1, 1), vectorized=True, seed=self.setup)
        b = p.generate_batch(4)
        if self.kind == "solution":
            return b[2]
        return b

    def do(self, x, what):
        b = x.to_batch() if isinstance(x, Solution) else x
        tag = vid(plain(x.values) + repr(x.evals.tolist())) % 97
        if self.kind == "objects":
            if what == "values":
                b.access_values()[tag % 4] = [tag, "x"]
            elif what == "evals":
                b.set_evals(torch.arange(4.0) + tag)
            elif what == "slice":
                b[1:3].access_values()[0] = [tag]
            else:
                b.access_evals().fill_(float("nan"))
        elif what == "values":
            b.access_values()[tag % len(b), 1] += 0.5 + tag
        elif what == "evals":
            b.set_evals(torch.arange(float(len(b))) + tag)
        elif what == "slice":
            b[0:2].access_values()[0, 0] = float(tag)
        else:
            b.access_evals().fill_(float("nan"))

    def see(self, x):
        if self.kind == "objects":
            return {"vals": [vid(plain(x.values)), vid(repr(x.evals.tolist())), len(x)], "evs": [], "marks": [], "means": []}
        if self.kind == "solution":
            return {"vals": [name(x.values), name(x.evals)], "evs": [], "marks": [], "means": []}
        return see_batch(x)


class DistRun(Run):
    ways = ["pickle", "deepcopy", "clone", "copy"]
    work = ["learn", "write", "read"]

    def __init__(self, rng):
        self.setup = rng.randrange(1 << 30)
        self.kind = rng.choice([SeparableGaussian, SymmetricSeparableGaussian, ExpSeparableGaussian, ExpGaussian])

    def make(self):
        params = {"mu": torch.tensor([1.0, -1.0]), "sigma": torch.tensor([1.0, 2.0])}
        if self.kind is ExpGaussian:
            params["sigma"] = torch.tensor([[2.0, 0.5], [0.5, 1.0]])
        if self.kind is SeparableGaussian:
            params["parenthood_ratio"] = 0.5
        return [self.kind(params)]

    def copied(self, x, how):
        if how == "pickle":
            return pickle.loads(pickle.dumps(x))
        if how == "deepcopy":
            return copy.deepcopy(x)
        return [x[0].clone() if how == "clone" else copy.copy(x[0])]

    def do(self, x, what):
        d = x[0]
        g = torch.Generator()
        g.manual_seed(5)
        s = d.sample(4, generator=g)
        if what == "learn":
            grads = d.compute_gradients(s, f_one(s), objective_sense="max", ranking_method="centered")
            x[0] = d.update_parameters(grads, learning_rates={"mu": 0.5, "sigma": 0.25})
        elif what == "write":
            d.parameters["mu"][0] += 0.25

    def see(self, x):
        d = x[0]
        g = torch.Generator()
        g.manual_seed(3)
        return {"vals": [name(d.parameters["mu"]), name(d.parameters["sigma"]), name(d.sample(4, generator=g)), vid(sorted(d.parameters))], "evs": [], "marks": [], "means": []}


class OptRun(Run):
    ways = ["pickle", "deepcopy"]
    work = ["up", "down"]

    def __init__(self, rng):
        self.setup = rng.randrange(1 << 30)
        self.make_opt = rng.choice([
            lambda: ClipUp(solution_length=2, dtype="float32", stepsize=0.25, momentum=0.5),
            lambda: Adam(solution_length=2, dtype="float32", stepsize=0.5),
            lambda: SGD(solution_length=2, dtype="float32", stepsize=0.5, momentum=0.5),
        ])  # fmt: skip

    def make(self):
        return {"opt": self.make_opt(), "at": torch.zeros(2)}

    def do(self, x, what):
        g = torch.tensor([1.0, 0.5]) if what == "up" else torch.tensor([-2.0, 1.0])
        x["at"] = x["at"] + x["opt"].ascent(g)

    def see(self, x):
        return {"vals": [name(x["at"])], "evs": [], "marks": [], "means": []}


KINDS = [SearchRun, SearchRun, SearchRun, ProblemRun, BatchRun, DistRun, OptRun]


def copies(tr, job):
    kind, schedule, seed = job
    rng = random.Random(seed)
    run = KINDS[kind](rng)
    tr.cfg = {"ordinal": False}
    tr.meta = {"kind": str(getattr(run, "kind", KINDS[kind].__name__)), "seed": seed}
    things, hist = {}, {}

    def see(r):
        tr.add("see", run=r, **run.see(things[r]))

    def make(r):
        things[r], hist[r] = run.make(), []
        tr.add("make", run=r, origin=1, mirror=[1, 1])

    def do(r, what):
        run.do(things[r], what)
        hist[r].append(what)
        tr.add("do", run=r, what=what)

    schedule = copy.deepcopy(schedule)
    for at, e in enumerate(schedule):
        if e["op"] == "make":
            make(e["run"])
            see(e["run"])
        elif e["op"] == "do":
            do(e["run"], run.work[int(e["what"]) % len(run.work)])
            for r in things if rng.random() < 0.3 else [e["run"]]:
                see(r)
        elif e["op"] == "copy":
            r, c = e["run"], e["copy"]
            how = run.ways[int(e["how"]) % len(run.ways)]
            things[c] = run.copied(things[r], how)
            hist[c] = list(hist[r])
            if isinstance(run, ProblemRun):
                run.last[id(things[c])] = run.last.get(id(things[r]))
            tr.add("copy", run=r, copy=c)
            if how != "copy" or isinstance(run, (ProblemRun, BatchRun)):
                here, there = numbered(parts(things[r]), parts(things[c]))
                chere, cthere = numbered(parts(things[r], core=True), parts(things[c], core=True))
                tr.add("parts", here=here, there=there, roles=chere, copied_roles=cthere)
            see(c)
            see(r)
            if rng.random() < 0.15 and len(things) > 2:
                # the original is discarded: the copy lives on
                del things[r]
                for later in schedule[at + 1 :]:
                    if later.get("run") == r:
                        later["run"] = c
        elif e["what"] == "torch":
            torch.rand(3)
        elif e["what"] == "numpy":
            np.random.rand()
        else:
            random.random()
    # every run against a new one to which the same was done at once
    for k, r in enumerate(sorted(things)):
        see(r)
        fresh = 100 + k
        make(fresh)
        for what in hist[r]:
            do(fresh, what)
        see(fresh)


# ---------------------------------------------------------------- arbitrary data
def graph(rng, depth, pool):
    """A nested structure with shared parts."""
    if pool and rng.random() < 0.25:
        return rng.choice(pool)
    k = rng.choice(["int", "str", "tensor", "array", "none"] if depth == 0 else ["list", "dict", "tuple", "tensor", "array", "oarray", "ro", "objects", "set", "list", "dict"])
    if k == "int":
        return rng.randrange(99)
    if k == "str":
        return "s%d" % rng.randrange(9)
    if k == "none":
        return None
    if k == "tensor":
        x = torch.arange(float(rng.randint(1, 4)))
    elif k == "array":
        x = np.arange(rng.randint(1, 4))
    elif k == "set":
        x = {rng.randrange(9) for _ in range(3)}
    elif k == "ro":
        x = as_read_only_tensor(torch.arange(3.0))
    elif k == "objects":
        x = make_tensor([graph(rng, 0, []) if rng.random() < 0.5 else [1, "a"] for _ in range(2)] + [None], dtype=object)
    elif k == "oarray":
        x = np.empty(2, dtype=object)
        for i in range(2):
            x[i] = graph(rng, depth - 1, pool)
    elif k == "list":
        x = [graph(rng, depth - 1, pool) for _ in range(rng.randint(0, 3))]
    elif k == "tuple":
        return tuple(graph(rng, depth - 1, pool) for _ in range(rng.randint(0, 3)))
    else:
        x = {"k%d" % i: graph(rng, depth - 1, pool) for i in range(rng.randint(0, 3))}
    pool.append(x)
    return x


def shown(x):
    """What the structure contains, without identities."""
    if isinstance(x, torch.Tensor):
        return ["tensor", type(x).__name__, str(x.dtype), x.tolist()]
    if isinstance(x, np.ndarray):
        return ["array", bool(x.flags["WRITEABLE"]), [shown(v) for v in x.tolist()]]
    if isinstance(x, ObjectArray):
        return ["objects", x.is_read_only, [shown(v) for v in x]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [shown(v) for v in x]
    if isinstance(x, dict):
        return ["dict"] + [[k, shown(v)] for k, v in x.items()]
    if isinstance(x, set):
        return ["set", sorted(x)]
    return [type(x).__name__, repr(x)]


def structures(tr, job):
    rng = random.Random(job)
    tr.cfg = {"ordinal": False}
    x = [graph(rng, 3, []) for _ in range(2)]
    if rng.random() < 0.2:
        x.append(x)  # contains itself
    show = lambda v: vid(repr(shown(v[:2])))  # noqa: E731
    tr.add("make", run=1, origin=1, mirror=[1])
    tr.add("see", run=1, vals=[show(x)], evs=[], marks=[], means=[])
    y = clone(x) if rng.random() < 0.5 else deep_clone(x, otherwise_deepcopy=True)
    tr.add("copy", run=1, copy=2)
    here, there = numbered(parts(x), parts(y))
    tr.add("parts", here=here, there=there, roles=here, copied_roles=there)
    tr.add("see", run=2, vals=[show(y)], evs=[], marks=[], means=[])


MC = "CONSTANTS\n  Names = {{1, 2, 3}}\n  Histories = {h}\n  Ordinal = FALSE\nINIT Init\nNEXT Next\nINVARIANT Functional\nCHECK_DEADLOCK FALSE\n"
GEN = 'CONSTANTS\n  Depth = {d}\n  Work = {{"0", "1", "2", "3"}}\n  Ways = {{"0", "1", "2", "3"}}\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.mc("MCSearchRuns", MC.format(h=ctx.pick(2, 3)))
    rng = ctx.rng("jobs")
    n = ctx.pick(350, 3500)
    schedules = []
    for d in (8, 14) if not ctx.thorough else (6, 10, 16, 24):
        more = ctx.gen("SearchRunsGen", GEN.format(d=d), num=n // 2, depth=d + 1)
        schedules.extend(rng.sample(more, min(len(more), n)))
    schedules = [s for s in schedules if any(e["op"] == "copy" for e in s)]
    jobs = [(i % len(KINDS), rng.choice(schedules), rng.randrange(1 << 60)) for i in range(n)]
    traces = ctx.record(copies, jobs, procs=6)
    ctx.validate("SearchRunsTrace", traces, canary_keys=("vals", "copied_roles"), label="copies")
    traces = ctx.record(structures, [rng.randrange(1 << 60) for _ in range(ctx.pick(200, 2000))], procs=6)
    ctx.validate("SearchRunsTrace", traces, canary_keys=("vals",), label="structures")
