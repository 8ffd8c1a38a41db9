"""C21: statistics of observations, alone (RunningStats.tla) and spread over workers (ParallelStatistics.tla)."""

import copy
import pickle
import random

import simray

sim = simray.install()

import numpy as np  # noqa: E402
import rlenv  # noqa: E402
import torch  # noqa: E402
from common import vid  # noqa: E402
from drivers.c10 import refused  # noqa: E402
from evotorch import SolutionBatch  # noqa: E402
from evotorch.distributions import SeparableGaussian  # noqa: E402
from evotorch.neuroevolution import GymNE, VecGymNE  # noqa: E402
from evotorch.neuroevolution.net import RunningNorm, RunningStat  # noqa: E402

BAD = 2000000007


def whole(x):
    x = float(x)
    return int(round(x)) if abs(x) < 1e9 and x == round(x) else BAD


def scaled(x, k):
    x = float(x) * k
    return int(round(x)) if abs(x) < 2e9 else BAD


def flat(x):
    return [v for v in np.asarray(x, dtype="float64").flatten()]


def look(stats):
    if stats is None or stats.count == 0:
        return {"n": 0, "sum": [], "sq": []}
    return {"n": int(stats.count), "sum": [whole(v) for v in flat(stats.sum)], "sq": [whole(v) for v in flat(stats.sum_of_squares)]}


# ---------------------------------------------------------------- statistics on their own


class Alone:
    def __init__(self, tr, job):
        self.tr = tr
        self.hist, seed = job
        rng = self.rng = random.Random(seed)
        self.stat = rng.random() < 0.3
        self.shape = rng.choice([(1,), (2,), (3,), (2, 2)] if self.stat else [(), (1,), (2,), (3,), (2, 2), (1, 2)])
        self.size = int(np.prod(self.shape))
        self.dtype = torch.float32 if self.stat else rng.choice([torch.float32, torch.float64])
        self.clip = [] if self.stat or rng.random() < 0.5 else rng.choice([[-1, 1], [-2, 3], [0, 4], [-3, -1]])
        self.floor = 1 if self.stat else rng.choice([1, 4, 25, 100])
        self.objs = {o: self.make() for o in "abc"}
        self.layer = None
        self.kept = []
        tr.cfg = {"floor": self.floor, "clip": self.clip, "stat": self.stat}
        tr.meta = {"shape": list(self.shape), "stat": self.stat, "dtype": str(self.dtype)}

    def make(self, shape=None):
        if self.stat:
            return RunningStat()
        shape = self.shape if shape is None else shape
        if len(shape) == 1 and self.rng.random() < 0.5:
            shape = shape[0]
        clip = tuple(c / 2 for c in self.clip) if self.clip else None
        return RunningNorm(shape=shape, dtype=self.dtype, min_variance=self.floor / 100, clip=clip)

    def rows(self, n):
        return [[self.rng.randint(-3, 3) for _ in range(self.size)] for _ in range(n)]

    def given(self, xs, single=False, nans=()):
        """The rows, in one of the forms in which a caller can have them."""
        a = np.array(xs, dtype="float64").reshape((len(xs),) + self.shape)
        for k in nans:
            a[k] = self.rng.choice([float("nan"), float("inf")])
        if single:
            a = a[0]
        if self.stat:
            x = a.astype(self.rng.choice(["float32", "float64"]))
        else:
            how = self.rng.choice(["same", "same", "other", "array", "list"])
            if how == "same":
                x = torch.tensor(a, dtype=self.dtype)
            elif how == "other":
                x = torch.tensor(a, dtype=torch.float32 if self.dtype == torch.float64 else torch.float64)
            elif how == "array":
                x = np.array(a, dtype="float32" if self.dtype == torch.float32 else "float64")
            else:
                x = a.tolist()
        self.kept.append(x)
        return x

    def now(self):
        return [vid(["given", np.asarray(x).astype("float64").tolist()]) for x in self.kept]

    def out(self, ys, single=False):
        if isinstance(ys, torch.Tensor):
            ys = ys.numpy()
        ys = np.asarray(ys)
        ys = ys.reshape(1, self.size) if single else ys.reshape(len(ys), self.size)
        return [[scaled(v, 50) for v in r] for r in ys.tolist()]

    def event(self, op, before, **fields):
        gave = self.now()[before:]
        assert len(gave) <= 1
        self.tr.add(op, looks={o: look(s) for o, s in self.objs.items()}, now=self.now(), gave=[self.first[len(self.kept) - 1]] if gave else [], **fields)

    def run(self):
        self.first = {}
        for h in self.hist:
            self.do(h["op"], h["o"], h["p"])

    def remember(self, x):
        # the value at the moment at which it was given
        self.first[len(self.kept) - 1] = self.now()[-1]
        return x

    def do(self, op, o, p):  # noqa: C901
        rng, s = self.rng, self.objs[o]
        before = len(self.kept)
        if op == "one" or (self.stat and op in ("batch", "masked", "both")):
            xs = self.rows(1)
            x = self.remember(self.given(xs, single=True))
            s.update(x)
            self.event("one", before, o=o, x=xs[0])
        elif op == "batch":
            xs = self.rows(rng.choice([0, 1, 2, 3]))
            x = self.given(xs)
            if len(xs) == 0 and isinstance(x, list):
                x = self.kept[-1] = torch.zeros((0,) + self.shape, dtype=self.dtype)
            s.update(self.remember(x))
            self.event("batch", before, o=o, xs=xs)
        elif op in ("masked", "both"):
            n = rng.choice([1, 2, 3])
            xs = self.rows(n)
            mask = [rng.randint(0, 1) for _ in range(n)]
            if op == "both" and not any(mask):
                mask[0] = 1
            if op == "both" and s.count + n > 12:
                return
            nans = [k for k in range(n) if op == "masked" and not mask[k] and rng.random() < 0.3]
            x = self.remember(self.given(xs, nans=nans))
            m = [bool(v) for v in mask]
            m = rng.choice([m, torch.tensor(m), np.array(m)])
            if op == "masked":
                s.update(x, m)
                self.event("masked", before, o=o, xs=xs, mask=mask)
            else:
                if all(mask) and rng.random() < 0.5:
                    y = s.update_and_normalize(x)
                else:
                    y = s.update_and_normalize(x, m)
                self.event("both", before, o=o, xs=xs, mask=mask, ys=self.out(y))
        elif op == "merge":
            if o == p or s.count + self.objs[p].count > 400:
                return
            s.update(self.objs[p])
            self.event("merge", before, o=o, p=p)
        elif op == "copy":
            how = rng.choice(["copy", "deepcopy", "pickle"])
            src = self.objs[p]
            self.objs[o] = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[how](src)
            if o == p:
                self.objs[o] = src
            self.event("copy", before, o=o, p=p)
        elif op == "reset":
            s.reset()
            self.event("reset", before, o=o)
        elif op == "normalize":
            if s.count > 12:
                return
            single = self.stat or rng.random() < 0.5
            xs = self.rows(1 if single else rng.choice([1, 2, 3]))
            x = self.remember(self.given(xs, single=single))
            try:
                y, bad = s.normalize(x), False
            except ValueError:
                y, bad = None, True
            self.event("normalize", before, o=o, xs=xs, ys=[] if bad else self.out(y, single), refused=bad)
        elif op == "layer":
            if 0 < s.count <= 12:
                self.layer = s.to_layer()
                self.event("layer", before, o=o)
        elif op == "through":
            if self.layer is not None:
                xs = self.rows(rng.choice([1, 2]))
                y = self.layer(torch.tensor(np.array(xs, dtype="float64").reshape((len(xs),) + self.shape), dtype=self.dtype))
                self.event("through", before, xs=xs, ys=self.out(y))
        elif op == "report":
            if 0 < s.count <= 12:
                if self.stat or rng.random() < 0.5:
                    mean, dev = s.mean, s.stdev
                else:
                    mean, dev = s.stats.mean, s.stats.stdev
                self.event("report", before, o=o, means=[scaled(v, 1000) for v in flat(mean)], devs=[scaled(v, 100) for v in flat(dev)])
        elif op == "bad":
            if self.stat:
                return
            kind = rng.choice(["shape", "ndim", "mask", "single mask", "merge"])
            if kind == "shape":
                bad = refused(lambda: s.update(torch.zeros((2,) + tuple(d + 1 for d in self.shape))) if self.shape else s.update(torch.zeros(2, 3)))
            elif kind == "ndim":
                bad = refused(lambda: s.update(torch.zeros((2, 2) + self.shape)))
            elif kind == "mask":
                bad = refused(lambda: s.update(torch.ones((3,) + self.shape, dtype=self.dtype), [True, False]))
            elif kind == "single mask":
                bad = refused(lambda: s.update(torch.ones(self.shape, dtype=self.dtype), [True]))
            else:
                other = self.make(tuple(d + 1 for d in self.shape) if self.shape else (2,))
                other.update(torch.ones((1,) + tuple(other.shape), dtype=self.dtype))
                bad = refused(lambda: s.update(other))
            self.event("bad", before, o=o, refused=bad)


def alone(tr, job):
    Alone(tr, job).run()


# ---------------------------------------------------------------- problems with episodes



class World:
    def __init__(self, tr, job):
        self.tr = tr
        self.hist, seed = job
        rng = self.rng = random.Random(seed)
        self.W = rng.choice([0, 0, 2, 3, 4])
        self.L = rng.choice([1, 2, 3])
        self.kind = rng.choice(["one", "vec", "sims"])
        self.norm = rng.random() < 0.85
        self.K = rng.choice([1, 1, 2, 3])
        sim.reset(simray.scheduler_from([h["n"] for h in self.hist if h["op"] == "finish"], rng), lambda: rng.random() < 0.5)
        rlenv.fresh(seed=rng.randrange(1 << 30), length=self.L, acts=self.L + 1, longest=rng.choice([1, 3, 4]), workers=max(1, self.W), dtype="float32")
        kw = dict(observation_normalization=self.norm, num_episodes=self.K)
        if self.W:
            kw["num_actors"] = self.W
            how = rng.random()
            if how < 0.4:
                kw["subbatch_size"] = rng.randint(1, 3)
            elif how < 0.7:
                kw["num_subbatches"] = rng.randint(1, 5)
        net = "Linear(obs_length, act_length)"
        if self.kind == "one":
            if rng.random() < 0.3:
                kw["episode_length"] = rng.randint(1, 3)
            self.problem = GymNE(rng.choice([rlenv.NAME, rlenv.Sim]), net, **kw)
        else:
            if rng.random() < 0.5:
                kw["max_num_envs"] = rng.randint(max(1, self.W), max(1, self.W) + 4)
            self.problem = VecGymNE(rlenv.NAME if self.kind == "vec" else rlenv.Sims, net, **kw)
        self.each = kw.get("subbatch_size", 1)
        self.next = 1
        self.handed = []
        tr.cfg = {"W": self.W, "norm": self.norm, "low": 1}
        tr.meta = {"kind": self.kind, "W": self.W, "K": self.K, **{k: v for k, v in kw.items() if isinstance(v, int)}}

    def params(self):
        """Parameters which pass the observation on as the action, and which sign it with a number."""
        ident, self.next = self.next, self.next + 1
        w = torch.zeros(self.L + 1, self.L)
        w[: self.L] = torch.eye(self.L)
        b = torch.zeros(self.L + 1)
        b[self.L] = ident
        return torch.cat([w.flatten(), b])

    def now(self):
        p = self.problem
        return dict(look=look(p.get_observation_stats()) if self.norm else look(None), totals=[p.interaction_count, p.episode_count])

    def act(self, a):
        return [scaled(v, 1000) for v in a[: self.L]]

    def played(self, normal=True):
        for w, events in sorted(rlenv.logged().items()):
            if self.kind == "one":
                for ep in rlenv.episodes(events):
                    for e in ep:
                        self.tr.add("step", w=w, xs=[e["seen"]], ys=[self.act(e["a"])] if normal else [], played=[1, 0])
                    self.tr.add("step", w=w, xs=[ep[-1]["obs"]], ys=[], played=[0, 1])
            else:
                for run in rlenv.runs(events):
                    # which simulator plays for which policy (the others are idle)
                    chosen = {}
                    for k, steps in enumerate(run):
                        chosen.setdefault(tuple(steps[0]["a"][self.L :]) if normal else k, steps)
                    active = [[e for ep in rlenv.cut(steps)[: self.K] for e in ep] for steps in chosen.values()]
                    for t in range(max(len(a) for a in active)):
                        es = [a[t] for a in active if t < len(a)]
                        self.tr.add("step", w=w, xs=[e["seen"] for e in es], ys=[self.act(e["a"]) for e in es] if normal else [], played=[len(es), sum(e["done"] for e in es)])

    def step(self, op, n):  # noqa: C901
        rng, p = self.rng, self.problem
        if op == "evaluate":
            self.tr.add("begin")
            batch = SolutionBatch(p, n, empty=True)
            batch.set_values(torch.stack([self.params() for _ in range(n)]))
            p.evaluate(batch)
            self.played()
            st = p.status
            self.tr.add("end", status=[int(st["total_interaction_count"]), int(st["total_episode_count"])], **self.now())
        elif op == "replace":
            if self.W:
                p.kill_actors()
            self.tr.add("replace", **self.now())
        elif op in ("copy", "pickle"):
            other = p.clone() if op == "copy" else pickle.loads(pickle.dumps(p))
            if n % 3:
                self.problem, other = other, p
            # the one which is not used from now on must not change
            if self.norm and other.get_observation_stats() is not None:
                self.handed.append((other.get_observation_stats(), look(other.get_observation_stats())))
            self.tr.add("copied", **self.now())
        elif op in ("set", "update"):
            if not self.norm:
                return
            xs = [[rng.randint(-2, 2) for _ in range(self.L)] for _ in range(n)]
            s = RunningStat() if self.kind == "one" else RunningNorm(shape=self.L, dtype="float32")
            for x in xs:
                s.update(np.array(x, dtype="float32"))
            (p.set_observation_stats if op == "set" else p.update_observation_stats)(s)
            self.handed.append((s, look(s)))
            self.tr.add("put", how=op, xs=xs, given=look(s), **self.now())
        elif op == "pop":
            if self.norm and not self.W:
                self.tr.add("pop", popped=look(p.pop_observation_stats()), **self.now())
        elif op in ("run", "peek"):
            if self.kind != "one" or (op == "run" and self.W):
                return
            if op == "run":
                self.tr.add("begin")
            p.run(self.params(), update_stats=op == "run", num_episodes=rng.randint(1, 2))
            if op == "run":
                self.played()
                self.tr.add("end", status=[], **self.now())
            else:
                es = [e for events in rlenv.logged().values() for e in events if e["op"] == "step"]
                self.tr.add("peek", xs=[e["seen"] for e in es], ys=[self.act(e["a"]) for e in es], **self.now())
        elif op == "policy":
            policy = p.to_policy(self.params())
            rlenv.logged()
            xs = [[rng.randint(-2, 2) for _ in range(self.L)] for _ in range(2)]
            with torch.no_grad():
                ys = [self.act(policy(torch.tensor(x, dtype=torch.float32)).tolist()) for x in xs]
            self.tr.add("peek", xs=xs, ys=ys, **self.now())
        elif op == "gradients":
            self.tr.add("begin")
            k = p.solution_length
            dist = SeparableGaussian({"mu": torch.zeros(k), "sigma": torch.ones(k)})
            p.sample_and_compute_gradients(dist, 2 * n * self.each, ranking_method="raw")
            self.played(normal=False)
            self.tr.add("end", status=[], **self.now())

    def run(self):
        later = [("copy", 3), ("evaluate", 4), ("replace", 0), ("evaluate", 3)]
        hist = self.hist + [{"op": op, "n": n} for op, n in later[self.rng.randrange(5) :]]
        for h in hist:
            if h["op"] in ("end", "finish"):
                continue
            if h["op"] == "gradients" and self.kind != "one":
                # the simulators without policies cannot be told apart
                continue
            self.step(h["op"], h["n"])
        for s, then in self.handed:
            self.tr.add("still", then=then, now=look(s))


def one(tr, job):
    World(tr, job).run()


def run(ctx):
    ctx.mc("MCRunningStats")
    ctx.mc("MCParallelStatistics")
    cfg = "INIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    rng = ctx.rng("jobs")
    plans = ctx.gen("RunningStatsGen", cfg + "CONSTANT Depth = 25\n", num=ctx.pick(300, 2000), depth=30)
    traces = ctx.record(alone, [(p, rng.randrange(1 << 40)) for p in plans], procs=6)
    ctx.validate("RunningStatsTrace", traces, canary_keys=("looks", "now", "ys"), label="statistics of observations")
    plans = ctx.gen("ParallelStatisticsGen", cfg + "CONSTANTS MaxFed = 8 NumWorkers = 3\n", num=ctx.pick(300, 2000), depth=24)
    traces = ctx.record(one, [(p, rng.randrange(1 << 40)) for p in plans], procs=6)
    ctx.validate("ParallelStatisticsTrace", traces, canary_keys=("look", "totals", "ys", "status"), label="statistics of episodes")
    ctx.assumptions += ["the workers live in this process behind a replacement of Ray's process layer"]
