"""C22: policies playing episodes, validated against Episodes.tla."""

import pickle
import random

import simray

sim = simray.install()

import rlenv  # noqa: E402
import torch  # noqa: E402
from drivers.c10 import refused  # noqa: E402
from evotorch import SolutionBatch  # noqa: E402
from evotorch.neuroevolution import GymNE, VecGymNE  # noqa: E402
from evotorch.neuroevolution.net.statefulmodule import ensure_stateful  # noqa: E402
from torch import nn  # noqa: E402

FAR = 20
IDS = 60


class Signs(nn.Module):
    """A policy which signs its actions. Parameters: the number of the policy, and a gain. Actions: the number, the age
    of the memory of the policy, an action beyond the limits, and the first element of the observation times the gain."""

    def __init__(self, memory):
        super().__init__()
        self.memory = memory
        self.ident = nn.Parameter(torch.zeros(1))
        self.gain = nn.Parameter(torch.zeros(1))

    def forward(self, x, h=None):
        if h is None:
            h = torch.zeros_like(x[..., :1])
        h = h + 1
        age = h if self.memory else h * 0
        y = torch.cat([self.ident + h * 0, age, self.ident * 100000 + h * 0, self.gain * x[..., :1]], dim=-1)
        return (y, h) if self.memory else y


class Picks(nn.Module):
    """The same, for simulators with numbered actions: the action is the number of the policy."""

    def __init__(self):
        super().__init__()
        self.ident = nn.Parameter(torch.zeros(1))
        self.gain = nn.Parameter(torch.zeros(1))

    def forward(self, x):
        return -((torch.arange(IDS, dtype=torch.float32) - self.ident) ** 2) + 0 * self.gain * x[..., :1]


class Noisy(nn.Module):
    def __init__(self):
        super().__init__()
        self.p = nn.Parameter(torch.zeros(1))

    def forward(self, x):
        return torch.cat([self.p + 0 * x[..., :1], self.p + 0 * x[..., :1]], dim=-1)


class Memory:
    def __init__(self, memory):
        self.memory = memory

    def __call__(self):
        return Signs(self.memory)


class World:
    def __init__(self, tr, job):
        self.tr = tr
        plan, seed = job
        self.plan = plan
        rng = self.rng = random.Random(seed)
        self.discrete = plan["discrete"]
        self.memory = not self.discrete and rng.random() < 0.7
        self.rule = plan["rule"]
        self.K = self.rule["episodes"]
        self.fixed = any(a["op"] == "agree" for a in plan["asked"])
        self.kind, self.W = plan["kind"], plan["w"]
        self.limit = plan["limit"] if self.kind == "one" and not self.fixed else 0
        sim.reset(simray.scheduler_from([], rng), lambda: rng.random() < 0.5)
        rlenv.fresh(
            seed=rng.randrange(1 << 30), length=rng.choice([1, 2]), acts=IDS if self.discrete else 4, bound=FAR * 100.0, discrete=self.discrete,
            longest=plan["longest"], workers=max(1, self.W), fixed=self.fixed, dtype=rng.choice(["float32", "float32", "float64"]),
        )
        self.most = plan["most"] if self.kind != "one" else 0
        if self.most and self.W:
            self.most += self.W
        self.problem = self.make(self.kind, self.W)
        self.next = 1
        tr.cfg = {"rule": self.rule, "limit": self.limit, "memory": self.memory, "far": 0 if self.discrete else FAR * 10}
        tr.meta = {k: plan[k] for k in ("kind", "w", "most", "discrete")}

    def make(self, kind, W):
        rng, bonus = self.rng, self.rule["bonus"]
        kw = dict(num_episodes=self.K)
        if self.rule["shift"] or rng.random() < 0.3:
            kw["decrease_rewards_by"] = self.rule["shift"] / 4
        if bonus:
            t0, t1, b = bonus
            kw["alive_bonus_schedule"] = (t0, b / 2) if t0 == t1 and rng.random() < 0.7 else (t0, t1, b / 2)
        if W:
            kw["num_actors"] = W
            if rng.random() < 0.6:
                kw["subbatch_size"] = rng.randint(1, 3)
        net = Picks if self.discrete else Memory(self.memory)
        if rng.random() < 0.4:
            net = net()
            if kind == "one" and self.memory and rng.random() < 0.5:
                # a network which keeps its memory by itself
                net = ensure_stateful(net)
        if rng.random() < 0.2:
            kw["action_noise_stdev"] = 0.0
        if kind == "one":
            if self.limit:
                kw["episode_length"] = self.limit
            return GymNE(rng.choice([rlenv.NAME, rlenv.Sim]), net, **kw)
        if self.most:
            kw["max_num_envs"] = self.most
        return VecGymNE(rlenv.NAME if kind == "vec" else rlenv.Sims, net, **kw)

    def step(self, e, last, gain):
        a = e["a"]
        if self.discrete:
            return {"id": a[0], "age": 0, "far": 0, "acts": True, "r": e["r"], "over": e["done"], "end": last}
        return {
            "id": int(round(a[0])), "age": int(round(a[1])), "far": int(round(a[2] / 10)), "acts": a[3] == gain.get(int(round(a[0])), 0) * e["seen"][0],
            "r": e["r"], "over": e["done"], "end": last,
        }

    def plays(self, kind, gain):
        for w, events in sorted(rlenv.logged().items()):
            if kind == "one":
                by = {}
                for ep in rlenv.episodes(events):
                    steps = [self.step(e, e is ep[-1], gain) for e in ep]
                    by.setdefault(steps[0]["id"], []).extend(steps)
                yield w, list(by.values())
            else:
                for run in rlenv.runs(events):
                    yield w, [[self.step(e, e["done"], gain) for e in steps] for steps in run]

    def share(self, w):
        """How many simulators the given worker can have."""
        if not self.most:
            return 0
        if not self.W:
            return self.most
        return self.most // self.W + (1 if w < self.most % self.W else 0)

    def request(self, problem, n, kind, record=True):
        ids = []
        for _ in range(n):
            ids.append(self.next)
            self.next += 1
        if self.fixed:
            ids = [1 + (i * 7) % (IDS - 1) for i in range(n)]
        gain = {i: self.rng.randint(-3, 3) for i in ids}
        batch = SolutionBatch(problem, n, empty=True)
        batch.set_values(torch.tensor([[i, gain[i]] for i in ids], dtype=torch.float32))
        rlenv.logged()
        if n == 1 and self.rng.random() < 0.3:
            problem.evaluate(batch[0])
        else:
            problem.evaluate(batch)
        scores = [int(round(1000 * float(v))) for v in batch.evals[:, 0]]
        if record:
            for w, sims in self.plays(kind, gain):
                self.tr.add("run", sims=sims, most=self.share(w))
            self.tr.add("scored", ids=ids, scores=scores, counters=[problem.interaction_count, problem.episode_count])
        return scores

    def run(self):
        for a in self.plan["asked"]:
            op, n = a["op"], a["n"]
            if op == "evaluate":
                if self.next + n < IDS:
                    self.request(self.problem, n, self.kind)
            elif op == "replace":
                if self.W:
                    self.problem.kill_actors()
            elif op == "copy":
                self.problem = self.problem.clone() if n % 2 else pickle.loads(pickle.dumps(self.problem))
            elif op == "agree":
                first = self.request(self.problem, n, self.kind)
                for kind in ("one", "vec", "sims"):
                    if kind != self.kind:
                        self.tr.add("agree", a=first, b=self.request(self.make(kind, 0), n, kind, record=False))


def one(tr, job):
    World(tr, job).run()


def noise(tr, job):
    """Actions with noise; and rules which cannot be followed."""
    kind, seed = job
    rng = random.Random(seed)
    torch.manual_seed(seed % (1 << 31))
    sim.reset(simray.scheduler_from([], rng))
    rlenv.fresh(seed=seed, length=1, acts=2, bound=1e6, longest=30)
    tr.cfg = {"rule": {"episodes": 1, "shift": 0, "bonus": []}, "limit": 0, "memory": False, "far": 0}
    tr.meta = {"kind": kind}
    stdev = rng.choice([0.5, 1.0, 4.0])
    make = GymNE if kind == "one" else VecGymNE
    env = {"one": rlenv.Sim, "vec": rlenv.NAME, "sims": rlenv.Sims}[kind]
    p = make(env, Noisy, action_noise_stdev=stdev)
    batch = SolutionBatch(p, 40, empty=True)
    batch.set_values(torch.full((40, 1), 3.0))
    for _ in range(3):
        p.evaluate(batch)
    got = [(v - 3.0) / stdev for e in rlenv.LOG if e["op"] == "step" for v in e["a"]]
    tr.add("noise", n=len(got), negative=sum(v < 0 for v in got), within=sum(abs(v) < 1 for v in got), beyond=sum(abs(v) > 2 for v in got))
    tr.add("bad", refused=refused(lambda: make(env, Noisy, alive_bonus_schedule=(1, 2, 3, 4)).evaluate(p.generate_batch(2))))


def run(ctx):
    ctx.mc("MCEpisodes")
    cfg = "INIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    rng = ctx.rng("jobs")
    plans = ctx.gen("EpisodesGen", cfg, num=ctx.pick(700, 4000), depth=10)
    traces = ctx.record(one, [(p, rng.randrange(1 << 40)) for p in plans], procs=6)
    ctx.validate("EpisodesTrace", traces, canary_keys=("scores", "counters", "id", "age"), label="episodes")
    traces = ctx.record(noise, [(k, rng.randrange(1 << 40)) for k in ("one", "vec", "sims") for _ in range(ctx.pick(2, 10))], procs=6)
    ctx.validate("EpisodesTrace", traces, canary_keys=("negative",), label="action noise")
    ctx.assumptions += ["the workers live in this process behind a replacement of Ray's process layer; the simulators are written for the check and compute exactly"]
