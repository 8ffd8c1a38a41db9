"""C14: gradient estimations spread over workers, validated against DistributedGradient.tla."""

import inspect
import math
import random

import simray

sim = simray.install()

import torch  # noqa: E402
from common import vid  # noqa: E402
from drivers.c10 import refused  # noqa: E402
from evotorch import Problem  # noqa: E402
from evotorch.algorithms import CEM, PGPE, SNES, XNES  # noqa: E402
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian  # noqa: E402
from evotorch.tools import split_workload  # noqa: E402

UNIT = 100000
LIMIT = 20000000
REC = []


def unit(x):
    x = float(x)
    if not math.isfinite(x):
        return 2 * LIMIT
    return int(max(-LIMIT, min(LIMIT, round(x * UNIT))))


def units(x):
    return [unit(v) for v in torch.as_tensor(x, dtype=torch.float64).flatten().tolist()]


def flat(grads):
    return [u for k in sorted(grads) for u in units(grads[k])]


class Work(Problem):
    def __init__(self, report, share, **kw):
        self.report, self.share = report, share
        super().__init__(**kw)
        self.inter = 0
        self.rows = 0
        self.token = -1
        self.requests = 0
        self.table = torch.ones(2) if share else None

    @property
    def _nonserialized_attribs(self):
        return super()._nonserialized_attribs + (["table"] if self.share and self.num_actors else [])

    @property
    def _shared_attribs(self):
        return super()._shared_attribs + (["table"] if self.share else [])

    def _evaluate_batch(self, batch):
        if self.share and self.table.tolist() != [1.0, 1.0]:
            raise RuntimeError("evaluation without what was shared")
        x = batch.values.as_subclass(torch.Tensor)
        fits = torch.stack([torch.sum((x - k) ** 2, dim=-1) * 0.1 + torch.sin(5 * x[:, 0]) for k in range(len(self.senses))], dim=-1)
        inters = [1 + int(abs(float(v)) * 7) % 3 for v in x[:, 0]]
        self.inter += sum(inters)
        self.rows += len(batch)
        batch.set_evals(fits)
        REC.append({"call": len(sim.steps), "who": self.actor_index, "x": x.clone(), "f": fits.clone(), "inter": sum(inters), "token": self.token})

    def _get_local_interaction_count(self):
        return self.inter

    def sample_and_compute_gradients(self, *args, **kw):
        if self.is_main:
            ask = inspect.signature(Problem.sample_and_compute_gradients).bind(self, *args, **kw)
            ask.apply_defaults()
            self.asked = dict(ask.arguments)
            self.given = result = super().sample_and_compute_gradients(*args, **kw)
            return result
        return super().sample_and_compute_gradients(*args, **kw)

    def _make_sync_data_for_actors(self):
        if not self.report:
            return NotImplemented
        self.requests += 1
        return self.requests

    def _use_sync_data_from_main(self, received):
        self.token = received

    def _make_sync_data_for_main(self):
        return self.rows

    def _use_sync_data_from_actors(self, received):
        self.received = list(received)


def natural(d, mu0, mu1, s0, s1, lr_mu, lr_s, kind):
    """How far the parameters of the search moved, in the coordinates of the gradients."""
    f = torch.float64
    mu0, mu1, s0, s1 = (torch.as_tensor(t).as_subclass(torch.Tensor).to(f) for t in (mu0, mu1, s0, s1))
    if kind == "xnes":
        inv = torch.inverse(s0)
        e, v = torch.linalg.eigh((lambda m: (m + m.T) / 2)(inv @ s1))
        return {"d": inv @ (mu1 - mu0) / lr_mu, "M": v @ torch.diag(2 * torch.log(e) / lr_s) @ v.T}
    if kind == "snes":
        return {"mu": (mu1 - mu0) / lr_mu, "sigma": 2 * torch.log(s1 / s0) / lr_s}
    return {"mu": (mu1 - mu0) / lr_mu, "sigma": (s1 - s0) / lr_s}


class World:
    def __init__(self, tr, job):
        plan, seed = job
        self.tr = tr
        self.rows = 0
        self.rng = rng = random.Random(seed)
        del REC[:]
        sim.reset(simray.scheduler_from([w - 1 for w in plan["order"]], rng), (lambda: rng.random() < 0.4) if rng.random() < 0.5 else (lambda: False))
        self.w = plan["w"]
        how, req = dict(plan["how"]), plan["req"]
        # the numbers of the model, scaled up
        self.k = k = rng.choice([1, 2, 3, 4])
        self.pop = max(1, req["popsize"] * k + (rng.randint(0, 2) if how["kind"] != "size" else 0))
        if how["kind"] == "size":
            how["arg"] *= k
        self.how = how
        self.budget = req["budget"] * k * rng.choice([1, 2, 3]) if req["budget"] else 0
        self.max = self.pop + rng.randint(0, 2 * self.pop) if req["max"] else 0
        self.length = rng.choice([3, 4])
        self.dtype = rng.choice([torch.float64, torch.float64, torch.float32])
        self.nobj = rng.choice([1, 1, 2])
        self.report = rng.random() < 0.5
        senses = rng.choice(["min", "max"]) if self.nobj == 1 else [rng.choice(["min", "max"]) for _ in range(2)]
        kw = {"objective_sense": senses, "solution_length": self.length, "initial_bounds": (-2, 2), "dtype": self.dtype, "num_actors": self.w}
        if how["kind"] == "count":
            kw["num_subbatches"] = how["arg"]
        if how["kind"] == "size":
            kw["subbatch_size"] = how["arg"]
        if rng.random() < 0.7:
            kw["seed"] = rng.randrange(1 << 30)
        self.problem = Work(self.report, rng.random() < 0.3, **kw)
        self.tr.cfg = {"W": self.w, "how": how if self.w > 1 else {"kind": "default", "arg": 0}, "weighted": True, "tol": 60 if self.dtype == torch.float32 else 20}

    # the smallest share for which the ranking and the distribution are defined
    def smallest(self, even):
        n, s = self.pop, self.how
        if self.w <= 1:
            return n
        if s["kind"] == "size":
            m = s["arg"]
        else:
            parts = [v for v in split_workload(n, s["arg"] if s["kind"] == "count" else self.w) if v > 0]
            m = min(parts)
        return m + m % 2 if even else m

    def tasks(self, dist, obj_index, ranking):
        """What the workers did, one event per call."""
        calls = {}
        for r in REC:
            calls.setdefault((r["call"], r["who"]), []).append(r)
        for (call, who), rs in calls.items():
            x = torch.cat([r["x"] for r in rs])
            f = torch.cat([r["f"] for r in rs])[:, obj_index]
            est = dist.compute_gradients(x, f, objective_sense=self.problem.senses[obj_index], ranking_method=ranking)
            self.tr.add("task", sizes=[len(r["x"]) for r in rs], inters=[r["inter"] for r in rs], ids=[vid(v) for v in x], est=flat(est),
                        mean=unit(torch.mean(f)), token=rs[0]["token"], request=self.problem.requests)  # fmt: skip
        del REC[:]

    def after(self, combined, mean, **wanted):
        p = self.problem
        asked, given = {**p.asked, **wanted}, p.given
        self.tr.add("ask", popsize=asked["popsize"], even=asked["ensure_even_popsize"], budget=asked["num_interactions"] or 0, max=asked["popsize_max"] or 0)
        obj = asked["obj_index"]
        obj = 0 if obj is None else obj % self.nobj
        rows = sum(len(r["x"]) for r in REC)
        self.tasks(asked["distribution"].modified_copy(dtype=self.dtype), obj, asked["ranking_method"])
        results = given if isinstance(given, (list, tuple)) else [given]
        if not asked["with_stats"]:
            self.tr.add("grads", results=[flat(r) for r in results])
        else:
            rs = [{"n": int(r["num_solutions"]), "mean": unit(r["mean_eval"]), "grad": flat(r["gradients"])} for r in results]
            self.tr.add("result", results=rs, combined=combined, mean=unit(mean) if combined else 0)
        if self.report and self.w > 1:
            self.rows += rows
            self.tr.add("sync", counts=p.received, rows=self.rows)

    def search(self):
        rng, p = self.rng, self.problem
        kind = rng.choice(["pgpe", "pgpe", "pgpe", "snes", "xnes", "cem"])
        kw = {"popsize": self.pop, "stdev_init": rng.choice([0.5, 1.0]), "distributed": True}
        even = False
        if self.nobj > 1 or rng.random() < 0.2:
            kw["obj_index"] = rng.randrange(self.nobj)
        if self.budget:
            kw["num_interactions"] = self.budget
            if self.max:
                kw["popsize_max"] = self.max
        weighted = not self.budget
        if rng.random() < 0.4:
            weighted = rng.random() < 0.5
            kw["popsize_weighted_grad_avg"] = weighted
        lr_mu = lr_s = 1.0
        if kind == "pgpe":
            even = rng.random() < 0.7
            lr_mu, lr_s = rng.choice([0.25, 0.5]), rng.choice([0.125, 0.0625])
            kw |= {"center_learning_rate": lr_mu, "stdev_learning_rate": lr_s, "symmetric": even, "optimizer": rng.choice(["sgd", None]), "stdev_max_change": None}
            cls = PGPE
        elif kind == "cem":
            need = self.smallest(False)
            if need * 0.5 < 2:
                return False
            kw |= {"parenthood_ratio": rng.choice([0.5, 0.75]), "stdev_max_change": None}
            cls = CEM
        else:
            lr_mu, lr_s = rng.choice([0.5, 0.75]), rng.choice([0.25, 0.125])
            kw |= {"center_learning_rate": lr_mu, "stdev_learning_rate": lr_s, "scale_learning_rate": False}
            if kind == "xnes":
                kw["stdev_init"] = 1.0
            cls = SNES if kind == "snes" else XNES
        if kind != "cem":
            kw["ranking_method"] = rng.choice(["centered", "linear", "nes"])
        if self.smallest(even) < 2:
            return False
        wanted = {"popsize": self.pop, "ensure_even_popsize": even, "num_interactions": self.budget, "popsize_max": kw.get("popsize_max"),
                  "obj_index": kw.get("obj_index", 0), "ranking_method": kw.get("ranking_method")}  # fmt: skip
        s = cls(p, **kw)
        self.tr.cfg["weighted"] = weighted
        for _ in range(3):
            mu0, s0 = s.status["center"].clone(), s.status["stdev"].clone()
            s.step()
            mu1, s1 = s.status["center"], s.status["stdev"]
            moved = natural(None, mu0, mu1, s0, s1, lr_mu, lr_s, kind)
            self.after(flat(moved), s.status["mean_eval"], **wanted)
        return True

    def direct(self):
        rng, p = self.rng, self.problem
        f = self.dtype
        mu = torch.tensor([rng.uniform(-1, 1) for _ in range(self.length)], dtype=f)
        sd = torch.tensor([rng.uniform(0.5, 1.5) for _ in range(self.length)], dtype=f)
        k = rng.random()
        even = k < 0.25
        params = {"mu": mu, "sigma": sd}
        dist = SymmetricSeparableGaussian(params) if even else (SeparableGaussian if k < 0.5 else ExpSeparableGaussian if k < 0.75 else ExpGaussian)(params)
        if even or k < 0.5:
            params["divide_mu_grad_by"] = "num_directions" if even and rng.random() < 0.5 else "num_solutions"
            dist = type(dist)(params)
        for _ in range(2):
            if not self.w > 1 and even and self.pop % 2:
                return
            if self.smallest(even) < 2:
                return
            kw = {"ensure_even_popsize": even, "ranking_method": rng.choice(["centered", "linear"])}
            if self.budget:
                kw["num_interactions"] = self.budget
                if self.max:
                    kw["popsize_max"] = self.max
            if self.nobj > 1 or rng.random() < 0.3:
                kw["obj_index"] = rng.randrange(-1, self.nobj)
            if rng.random() < 0.3:
                kw["with_stats"] = False
            other = torch.float32 if f == torch.float64 else torch.float64
            p.sample_and_compute_gradients(dist.modified_copy(dtype=other) if rng.random() < 0.2 else dist, self.pop, **kw)
            self.after([], 0)
        if self.how["kind"] == "size" and self.w > 1:
            bad = self.pop + rng.randint(0, self.how["arg"])
            kw = {"obj_index": 0, "ranking_method": "centered", "ensure_even_popsize": even}
            self.tr.add("refused", popsize=bad, refused=refused(lambda: p.sample_and_compute_gradients(dist, bad, **kw)))
            del REC[:]

    def run(self):
        n, k = self.rng.randint(0, 40), self.rng.randint(1, 9)
        self.tr.add("split", n=n, k=k, parts=list(split_workload(n, k)))
        if self.w > 1 and self.rng.random() < 0.65:
            self.search()
        else:
            self.direct()


def one(tr, job):
    World(tr, job).run()


def run(ctx):
    ctx.mc("MCDistributedGradient")
    cfg = "INIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxPop = 9 MaxWorkers = 4 MaxBudget = 12\n"
    plans = ctx.gen("DistributedGradientGen", cfg, num=ctx.pick(500, 3000), depth=120)
    rng = ctx.rng("jobs")
    jobs = [(p, rng.randrange(1 << 40)) for p in plans]
    traces = ctx.record(one, jobs, procs=6)
    ctx.validate("DistributedGradientTrace", traces, canary_keys=("combined", "results", "sizes", "mean"), label="distributed gradient estimations")
    ctx.assumptions += ["the workers live in this process behind a replacement of Ray's process layer; the estimate of a task is recomputed from its samples with the library's own gradient formulas, which C11 checks"]
