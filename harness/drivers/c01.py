"""C01: requests to evaluate, served by workers in every order, validated against ParallelEvaluation.tla."""

import copy
import pickle
import random

import simray

sim = simray.install()

import torch  # noqa: E402
from common import NAN, encs  # noqa: E402
from evotorch import Problem  # noqa: E402
from evotorch.decorators import on_aux_device, on_device, vectorized  # noqa: E402
from evotorch.tools import ObjectArray  # noqa: E402

REC = []  # what the fitness functions (wherever they run) were asked to do


def saw(rows, worker=None, token=-1):
    REC.append({"op": "work", "worker": -1 if worker is None else worker, "token": token, "vals": [[int(v) for v in r] for r in rows]})


def weighted(x):
    return sum((k + 1) * v for k, v in enumerate(x))


def outcome(x, nobj, naux):
    """The evaluation results of one solution (a list of integers)."""
    x = [int(v) for v in x]
    last = x[-1] if x else 0
    return [weighted(x) * o + last * last + len(x) + o for o in range(1, nobj + 1)] + [7 * j - 3 * weighted(x) for j in range(1, naux + 1)]


class Fitness:
    """The fitness function of a problem, as a callable given by the user."""

    def __init__(self, nobj, naux, dtype, split):
        self.nobj, self.naux, self.dtype, self.split = nobj, naux, dtype, split

    def single(self, x):
        saw([list(x)])
        r = torch.tensor(outcome(x, self.nobj, self.naux), dtype=self.dtype)
        if self.naux and self.split:
            return r[: self.nobj], r[self.nobj :]
        if self.nobj == 1 and not self.naux:
            return float(r[0]) if self.split else r[0]
        return r

    def many(self, xs):
        saw(xs.tolist())
        r = torch.tensor([outcome(x, self.nobj, self.naux) for x in xs.tolist()], dtype=self.dtype).reshape(len(xs), self.nobj + self.naux)
        if self.naux and self.split:
            return (r[:, 0] if self.nobj == 1 else r[:, : self.nobj]), r[:, self.nobj :]
        return r[:, 0] if self.nobj == 1 and not self.naux else r


class Custom(Problem):
    """A problem with its own evaluation method, and with things to prepare, to share and to report."""

    def __init__(self, fit, by_batch, share, report, **kw):
        self.fit, self.by_batch, self.share, self.report = fit, by_batch, share, report
        super().__init__(**kw)
        self.table = torch.arange(5) if share else None
        self.tool = None
        self.rows_done = 0
        self.token = -1
        self.requests = 0
        self.reports = []

    @property
    def _nonserialized_attribs(self):
        return super()._nonserialized_attribs + (["table", "tool"] if self.share and self.num_actors else [])

    @property
    def _shared_attribs(self):
        return super()._shared_attribs + (["table"] if self.share else [])

    def _prepare(self):
        self.tool = "ready"

    def _fill(self, values):
        if not isinstance(values, ObjectArray):
            values.zero_()
            return
        for i in range(len(values)):
            values[i] = [0]

    def check(self):
        if self.tool != "ready":
            raise RuntimeError("evaluation without preparation")
        if self.share and self.table.tolist() != [0, 1, 2, 3, 4]:
            raise RuntimeError("evaluation without what was shared")

    def note(self, rows):
        self.check()
        self.rows_done += len(rows)
        saw(rows, self.actor_index, self.token)

    def rows_of(self, batch):
        return [list(v) for v in batch.values] if isinstance(batch.values, ObjectArray) else batch.values.tolist()

    def _evaluate_batch(self, batch):
        if not self.by_batch:
            return super()._evaluate_batch(batch)
        rows = self.rows_of(batch)
        self.note(rows)
        f = self.fit
        r = torch.tensor([outcome(x, f.nobj, f.naux) for x in rows], dtype=f.dtype).reshape(len(rows), f.nobj + f.naux)
        batch.set_evals(r[:, : f.nobj], r[:, f.nobj :]) if f.naux else batch.set_evals(r)

    def _evaluate(self, solution):
        row = list(solution.values) if isinstance(solution.values, ObjectArray) or not hasattr(solution.values, "tolist") else solution.values.tolist()
        self.note([row])
        f = self.fit
        r = torch.tensor(outcome(row, f.nobj, f.naux), dtype=f.dtype)
        solution.set_evals(r[: f.nobj], r[f.nobj :]) if f.naux else solution.set_evals(r)

    # what is sent around
    def _make_sync_data_for_actors(self):
        if not self.report:
            return NotImplemented
        self.requests += 1
        return {"request": self.requests}

    def _use_sync_data_from_main(self, received):
        self.token = received["request"]

    def _make_sync_data_for_main(self):
        return self.rows_done

    def _use_sync_data_from_actors(self, received):
        REC.append({"op": "sync", "counts": list(received)})

    def who(self, arg):
        return [self.actor_index if self.is_remote and not self.is_main else -1, arg]

    def draw(self):
        return int(self.make_randint((), n=1 << 30))


class World:
    def __init__(self, tr, job):
        plan, seed = job
        self.tr, self.plan = tr, plan
        self.rng = rng = random.Random(seed)
        self.schedule = [h["n"] - 1 for h in plan["hist"] if h["op"] == "finish"]
        lazy = rng.random() < 0.5
        sim.reset(simray.scheduler_from(self.schedule, rng), (lambda: rng.random() < 0.4) if lazy else (lambda: False))
        del REC[:]
        self.w = 0 if rng.random() < 0.06 else plan["w"]
        how = plan["how"]
        self.nobj = rng.choice([1, 1, 1, 2, 3])
        self.naux = rng.choice([0, 0, 0, 1, 2])
        self.length = rng.choice([1, 2, 3])
        self.objects = False
        self.asked = self.w
        self.w = 0 if self.w == 1 else self.w  # a single worker is of no use and is not created
        tr.cfg = {"W": self.w, "kind": how["kind"], "arg": how["arg"], "nobj": self.nobj, "naux": self.naux}
        self.problem = self.make(how)

    def make(self, how):
        rng = self.rng
        kw = {"objective_sense": "min" if self.nobj == 1 and rng.random() < 0.8 else [rng.choice(["min", "max"]) for _ in range(self.nobj)]}
        kw["num_actors"] = "max" if self.w == 4 and rng.random() < 0.5 else rng.choice([0, None]) if self.asked == 0 else self.asked
        if how["kind"] == "count":
            kw["num_subbatches"] = how["arg"]
        elif how["kind"] == "size":
            kw["subbatch_size"] = how["arg"]
        if self.naux:
            kw["eval_data_length"] = self.naux
        if rng.random() < 0.5:
            kw["seed"] = rng.randrange(1000)
        if rng.random() < 0.2:
            kw["actor_config"] = {"num_cpus": 1}
        if rng.random() < 0.3:
            kw["store_solution_stats"] = rng.random() < 0.5
        dtype = rng.choice([torch.float32, torch.float32, torch.float64, torch.int64])
        evdtype = torch.float32 if dtype == torch.int64 else dtype
        kw["dtype"] = dtype
        if dtype == torch.int64 or rng.random() < 0.2:
            evdtype = torch.float64
            kw["eval_dtype"] = evdtype
        self.objects = rng.random() < 0.2
        if self.objects:
            kw["dtype"] = object
            kw["eval_dtype"] = evdtype
        else:
            kw["solution_length"] = self.length
            kw["initial_bounds"] = (-3, 3)
        fit = Fitness(self.nobj, self.naux, evdtype, rng.choice([0, 1, 2]))
        kind = rng.choice(["custom", "custom", "single", "many"]) if not self.objects else "custom"
        self.kind = kind
        if kind == "custom":
            self.report = rng.random() < 0.6
            return Custom(fit, rng.random() < 0.6, rng.random() < 0.5, self.report, **kw)
        self.report = False
        if kind == "single":
            return Problem(objective_func=fit.single, **kw)
        fn = fit.many
        k = rng.random()
        if k < 0.25:
            fn = Device("cpu", fit, rng.random() < 0.5)
            return Problem(objective_func=fn, vectorized=True, **kw)
        if k < 0.5:
            fn = vectorized(Device(None, fit, False))
            return Problem(objective_func=fn, **kw)
        return Problem(objective_func=fn, vectorized=True, **kw)

    # ---- looking
    def rows(self, batch):
        v = batch.values
        return [[int(a) for a in r] for r in (v if isinstance(v, ObjectArray) else v.tolist())]

    def evals(self, batch):
        return [[NAN if e == NAN else e for e in r] for r in encs(batch.evals.as_subclass(torch.Tensor))]

    def value(self):
        n = self.rng.randint(0, 4) if self.objects else self.length
        return [self.rng.randint(-9, 9) for _ in range(n)]

    def batch(self, n):
        rng = self.rng
        b = self.problem.generate_batch(n)
        vals = [self.value() for _ in range(n)]
        if n > 1 and rng.random() < 0.3:
            vals[rng.randrange(n)] = list(vals[rng.randrange(n)])
        self.put(b, vals)
        return b

    def put(self, b, vals):
        if self.objects:
            b.set_values(vals) if len(vals) else None
        else:
            b.set_values(torch.tensor(vals, dtype=b.dtype).reshape(len(vals), self.length))

    # ---- requests
    def request(self, n):
        rng, p, tr = self.rng, self.problem, self.tr
        k = rng.random()
        if n and k < 0.15 and getattr(self, "last", None) is not None and len(self.last) > 0:
            b = self.last  # the same batch again (perhaps with new values)
            if rng.random() < 0.6:
                self.put(b, [self.value() for _ in range(len(b))])
        else:
            extra = rng.randint(0, 3) if k > 0.6 else 0
            b = self.batch(n + extra)
        self.last = b
        total = len(b)
        if total and rng.random() < 0.2 and n <= 2:
            i = rng.randrange(total)
            what, sel = b[i], [i]
        elif total > n:
            lo = rng.randint(0, total - n)
            what, sel = b[lo : lo + n], list(range(lo, lo + n))
        else:
            what, sel = b, list(range(total))
        hooked = {"before": [], "after": []}
        p.before_eval_hook.clear()
        p.after_eval_hook.clear()
        p.before_eval_hook.append(lambda x: hooked["before"].append(len(x)))
        p.after_eval_hook.append(lambda x: hooked["after"].append(len(x)))
        tr.add("request", rows=self.rows(b), old=self.evals(b), sel=[i + 1 for i in sel])
        del REC[:]
        p.evaluate(what)
        if self.w and p.actors is not None and len(p.actors) != self.w:
            raise RuntimeError("wrong number of workers")
        tr.ev.extend(copy.deepcopy(REC))
        p.before_eval_hook.clear()
        p.after_eval_hook.clear()
        tr.add("done", rows=self.rows(b), evals=self.evals(b), **hooked)

    def shutdown(self):
        self.problem.kill_actors()
        self.tr.add("shutdown", none=not self.problem.actors)

    def other(self):
        rng, p, tr = self.rng, self.problem, self.tr
        k = rng.random()
        if k < 0.2 and self.kind == "custom" and self.w:
            arg = rng.randrange(100)
            tr.add("roll", arg=arg, answers=[list(a) for a in p.all_remote_problems().who(arg)], main=p.is_main and not p.is_remote)
        elif k < 0.3 and self.kind == "custom" and self.w and p.has_own_generator:
            tr.add("workers", n=len(p.actors) if p.actors is not None else self.w, draws=list(p.all_remote_problems().draw()))
        elif k < 0.4 and not (isinstance(p, Custom) and (p.share or p.report)):
            # the requests continue with a copy
            self.problem = pickle.loads(pickle.dumps(p)) if rng.random() < 0.5 else copy.deepcopy(p) if rng.random() < 0.5 else p.clone()

    def run(self):
        for h in self.plan["hist"]:
            if h["op"] == "request":
                self.other()
                self.request(h["n"])
            elif h["op"] == "shutdown" and self.w:
                if self.problem.actors is not None or self.rng.random() < 0.3:
                    self.shutdown()


class Device:
    """A fitness function which asks for its solutions on a device."""

    def __init__(self, device, fit, aux):
        self.fit = fit
        if device is not None:
            on_aux_device(self) if aux else on_device(device)(self)

    def __call__(self, xs):
        return self.fit.many(xs)


def one(tr, job):
    World(tr, job).run()


def run(ctx):
    ctx.mc("MCParallelEvaluation")
    cfg = "INIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxRows = 9 MaxWorkers = 4 Requests = 5\n"
    plans = ctx.gen("ParallelEvaluationGen", cfg, num=ctx.pick(400, 3000), depth=200)
    rng = ctx.rng("jobs")
    jobs = [(p, rng.randrange(1 << 40)) for p in plans]
    traces = ctx.record(one, jobs, procs=6)
    ctx.validate("ParallelEvaluationTrace", traces, canary_keys=("evals", "vals", "rows"), label="requests to evaluate")
    ctx.assumptions += ["the workers live in this process behind a replacement of Ray's process layer; Ray's own scheduling, pickling transport and ActorPool semantics are trusted"]
