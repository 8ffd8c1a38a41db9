"""C19: histories of functional searches and optimizers, validated against FunctionalSearch.tla."""

import copy
import math
import random

import torch
from common import vid
from drivers.c10 import refused
from evotorch import Problem
from evotorch.algorithms import CEM, PGPE
from evotorch.algorithms.functional import adam, adam_ask, adam_tell, cem, cem_ask, cem_tell, clipup, clipup_ask, clipup_tell, pgpe, pgpe_ask, pgpe_tell, sgd, sgd_ask, sgd_tell
from evotorch.optimizers import SGD, Adam, ClipUp

UNIT = 1000000
LIMIT = 2000000000
DTYPES = {"torch.float64": 2, "torch.float32": 400, "torch.bfloat16": 9000000}


def whole(x):
    """The value of a state or tensor, as plain data."""
    if isinstance(x, torch.Tensor):
        return [str(x.dtype), list(x.shape), x.tolist()]
    if isinstance(x, tuple):
        return [type(x).__name__] + [whole(v) for v in x]
    return x if isinstance(x, (str, int, float, bool, type(None))) else getattr(x, "__name__", str(type(x)))


def micro(x):
    out = []
    for v in torch.as_tensor(x, dtype=torch.float64).flatten().tolist():
        out.append(LIMIT if math.isnan(v) else int(max(-LIMIT, min(LIMIT, round(v * UNIT)))) if math.isfinite(v) else (LIMIT if v > 0 else -LIMIT))
    return out


def tensor(x, nd):
    x = torch.as_tensor(x)
    return {"nd": nd, "shape": list(x.shape), "data": micro(x)}


def dummy(x):
    return torch.sum(x, dim=-1)


class Setting:
    """A hyper-parameter: its value for the batch, and for each search of it."""

    def __init__(self, w, nd, draw, plain=True):
        rng, lead = w.rng, w.lead
        self.nd = nd
        own = lead[rng.randint(0, len(lead)) :] if rng.random() < 0.6 else []
        if nd == 1 and not own and rng.random() < 0.4:
            core = []
        else:
            core = [w.length] * nd
        shape = own + core
        x = torch.tensor([draw() for _ in range(math.prod(shape))], dtype=w.dtype).reshape(shape)
        self.tensor = x
        self.value = x
        if not shape and plain and rng.random() < 0.6:
            self.value = float(x)
        self.parts = w.parts(x, nd if core or not nd else 0, len(own))


class World:
    def __init__(self, tr, job):
        schedule, seed = job
        self.tr, self.rng = tr, random.Random(seed)
        rng = self.rng
        self.schedule = schedule
        self.lead = rng.choice([[], [2], [3], [2], [2, 3], [1], [2, 2]])
        self.length = rng.randint(1, 4)
        self.kind = rng.choice(["cem", "pgpe", "pgpe", "pgpe", "adam", "sgd", "clipup"])
        self.opt = rng.choice(["adam", "sgd", "clipup", "clipup"]) if self.kind == "pgpe" else self.kind
        k = rng.random()
        self.dtname = "torch.float64" if k < 0.75 or self.opt == "adam" else "torch.float32" if k < 0.95 else "torch.bfloat16"
        self.dtype = {"torch.float64": torch.float64, "torch.float32": torch.float32, "torch.bfloat16": torch.bfloat16}[self.dtname]
        self.symmetric = self.kind == "pgpe" and rng.random() < 0.6
        self.n = rng.choice([4, 6, 8, 10])
        self.sense = rng.choice(["min", "max"])
        self.indices = self.every_index()
        tr.cfg = {"lead": self.lead, "length": self.length, "n": self.n, "dtype": self.dtname, "tol": DTYPES[self.dtname], "symmetric": self.symmetric, "kind": self.kind}
        self.named = {}
        self.settings = {}
        self.pops, self.evals = [], {}

    def every_index(self):
        out = [[]]
        for n in self.lead:
            out = [i + [k] for i in out for k in range(n)]
        return out

    def parts(self, x, nd, extras=None):
        """The item of x at every index of the batch."""
        extras = x.ndim - nd if extras is None else extras
        return [x[tuple(i[len(i) - extras :])] if extras else x for i in self.indices]

    # ------------------------------------------------------------ building
    def setting(self, key, nd, draw, plain=True):
        self.settings[key] = Setting(self, nd, draw, plain)
        return self.settings[key]

    def draw(self, lo, hi):
        return lambda: self.rng.randint(int(lo * 64), int(hi * 64)) / 64

    def rate(self, lo, hi):
        return lambda: 10 ** self.rng.uniform(math.log10(lo), math.log10(hi))

    def optimizer_settings(self, own):
        """Hyper-parameters of the optimizer besides its learning rate."""
        rng, keys = self.rng, []
        if self.opt == "adam":
            if rng.random() < 0.5:
                self.setting("beta1", 0, self.draw(0.5, 0.95))
                self.setting("beta2", 0, self.draw(0.5, 0.98))
                keys += ["beta1", "beta2"]
            if rng.random() < 0.5:
                self.setting("epsilon", 0, self.rate(0.0001, 0.1))
                keys.append("epsilon")
        elif self.opt == "sgd":
            if rng.random() < 0.7:
                self.setting("momentum", 0, self.draw(0.1, 0.95))
                keys.append("momentum")
        else:
            if rng.random() < 0.6:
                self.setting("momentum", 0, self.draw(0.1, 0.95))
                keys.append("momentum")
            if rng.random() < 0.6:
                self.setting("max_speed", 0, self.rate(0.1, 0.5))
                keys.append("max_speed")
                if own and rng.random() < 0.4:
                    del self.settings["center_learning_rate"]
        return keys

    def build(self):
        rng = self.rng
        while True:
            self.center = self.setting("center_init", 1, self.draw(-4, 4), plain=False)
            if self.center.tensor.ndim >= 1:
                break
        if self.kind == "cem":
            self.fixed = {"parenthood_ratio": rng.choice([0.5, 0.75]), "objective_sense": self.sense}
        else:
            self.setting("center_learning_rate", 0, self.rate(0.02, 0.5))
            self.optkeys = self.optimizer_settings(self.kind != "pgpe")
            self.fixed = {}
        if self.kind == "pgpe":
            self.setting("stdev_learning_rate", 0, self.rate(0.02, 0.5))
            names = {"adam": "adam", "sgd": rng.choice(["sgd", "sga", "momentum"]), "clipup": "clipup"}
            funcs = {"adam": (adam, adam_ask, adam_tell), "sgd": (sgd, sgd_ask, sgd_tell), "clipup": (clipup, clipup_ask, clipup_tell)}
            self.ranking = rng.choice(["centered", "raw", "linear", "nes", "normalized"])
            self.fixed = {"objective_sense": self.sense, "symmetric": self.symmetric, "ranking_method": self.ranking,
                          "optimizer": names[self.opt] if rng.random() < 0.7 else funcs[self.opt]}  # fmt: skip
            if self.opt == "clipup" and rng.random() < 0.3:
                del self.fixed["optimizer"]
        if self.kind in ("cem", "pgpe"):
            if rng.random() < 0.7:
                self.setting("stdev_init", 1, self.draw(0.5, 2))
            else:
                self.setting("radius_init", 0, self.draw(0.5 * self.length**0.5, 1.9 * self.length**0.5))
            for key, draw in (("stdev_min", self.draw(0.1, 0.4)), ("stdev_max", self.draw(2, 3)), ("stdev_max_change", self.draw(0.1, 0.5))):
                if rng.random() < 0.5:
                    self.setting(key, 1, draw)
        state = self.make({k: s.value for k, s in self.settings.items()})
        self.lone = {1: [self.make({k: s.parts[i] for k, s in self.settings.items()}) for i in range(len(self.indices))]}
        self.klass = {1: [self.counterpart(i) for i in range(len(self.indices))]}
        self.states = [state]
        for k, s in self.settings.items():
            self.named["h_" + k] = s.tensor
            self.tr.add("note", name="h_" + k, value=vid(whole(s.tensor)))
        self.named["s1"] = state
        self.tr.add("born", name="s1", value=vid(whole(state)), outs=self.outs(state), dtypes=self.dtypes(state),
                    **{"class": [self.klass_outs(x) for x in self.klass[1]]})  # fmt: skip

    def make(self, kw):
        kw = dict(kw)
        if self.kind == "pgpe":
            config = {k: kw.pop(k) for k in self.optkeys}
            if config or self.rng.random() < 0.5:
                kw["optimizer_config"] = config
        return {"cem": cem, "pgpe": pgpe, "adam": adam, "sgd": sgd, "clipup": clipup}[self.kind](**kw, **self.fixed)

    def counterpart(self, i):
        """The class-based search or optimizer for the i-th search of the batch."""
        kw = {k: s.parts[i] for k, s in self.settings.items()}
        center = kw.pop("center_init")
        center = center.expand(self.length).clone()
        floats = {k: float(v) for k, v in kw.items() if self.settings[k].nd == 0}
        if self.kind in ("adam", "sgd", "clipup"):
            if self.kind == "clipup" and "center_learning_rate" not in floats:
                floats["center_learning_rate"] = floats["max_speed"] / 2
            floats["stepsize"] = floats.pop("center_learning_rate")
            return [center, {"adam": Adam, "sgd": SGD, "clipup": ClipUp}[self.kind](solution_length=self.length, dtype=self.dtype, **floats)]
        p = Problem(self.sense, dummy, solution_length=self.length, initial_bounds=(-1, 1), vectorized=True, seed=i, dtype=self.dtype, eval_dtype=self.dtype)
        kw.update({k: float(v) for k, v in kw.items() if v.ndim == 0})
        kw["popsize"] = self.n
        kw["center_init"] = center
        if self.kind == "cem":
            s = CEM(p, parenthood_ratio=self.fixed["parenthood_ratio"], **kw)
        else:
            config = {k: kw.pop(k) for k in self.optkeys}
            s = PGPE(p, optimizer=self.opt, optimizer_config=config, ranking_method=self.ranking, symmetric=self.symmetric, **kw)
        s.step()
        return s

    # ------------------------------------------------------------ looking
    def center_of(self, state):
        return state.optimizer_state.center if self.kind == "pgpe" else state.center

    def outs(self, state):
        out = [tensor(self.center_of(state), 1)]
        return out + [tensor(state.stdev, 1)] if self.kind in ("cem", "pgpe") else out

    def dtypes(self, state):
        out = [str(self.center_of(state).dtype)]
        return out + [str(state.stdev.dtype)] if self.kind in ("cem", "pgpe") else out

    def klass_outs(self, x):
        if isinstance(x, list):
            return [micro(x[0])]
        sigma = torch.as_tensor(x.status["stdev"]).expand(self.length)
        return [micro(torch.as_tensor(x.status["center"])), micro(sigma)]

    def lone_outs(self, state):
        out = [micro(self.center_of(state).expand(self.length))]
        return out + [micro(state.stdev.expand(self.length))] if self.kind in ("cem", "pgpe") else out

    def seen(self):
        return {k: vid(whole(v)) for k, v in self.named.items()}

    # ------------------------------------------------------------ doing
    def ask(self, s, seed):
        state = self.states[s - 1]
        torch.manual_seed(seed)
        if self.kind in ("adam", "sgd", "clipup"):
            c = {"adam": adam_ask, "sgd": sgd_ask, "clipup": clipup_ask}[self.kind](state)
            self.tr.add("centre", args=self.outs(state), pop=tensor(c, 1), dtype=str(c.dtype), seen=self.seen())
            own = self.lead[self.rng.randint(0, len(self.lead)) :] if self.rng.random() < 0.7 else self.lead
            g = torch.tensor([self.draw(-3, 3)() + 0.01 for _ in range(math.prod(own) * self.length)], dtype=self.dtype).reshape(own + [self.length])
            if self.kind == "clipup" and self.rng.random() < 0.1:
                g = g * 0
            self.pops.append(g)
            n = f"p{len(self.pops)}"
            self.named[n] = g
            self.tr.add("note", name=n, value=vid(whole(g)))
            return
        pop = {"cem": cem_ask, "pgpe": pgpe_ask}[self.kind](state, popsize=self.n)
        self.pops.append(pop)
        n = f"p{len(self.pops)}"
        outs = self.outs(state)
        c, sd = self.center_of(state), state.stdev
        if sd.ndim < 1:
            sd = sd.expand(self.length)
        z = ((pop - c.unsqueeze(-2)) / sd.unsqueeze(-2)).reshape(-1, self.n * self.length)
        noise = [vid([round(v, 2) for v in row.tolist()]) for row in z] if self.n * self.length >= 8 and not self.symmetric or self.n * self.length >= 16 else []
        args = [{**o, "shape": o["shape"] if o["shape"] else [self.length], "data": o["data"] if o["shape"] else o["data"] * self.length} for o in outs]
        self.tr.add("ask", s=f"s{s}", question=vid([seed, self.n]), value=vid(whole(pop)), name=n, pop=tensor(pop, 2), dtype=str(pop.dtype), args=args, noise=noise, seen=self.seen())
        self.named[n] = pop

    def fitnesses(self, p, e):
        """Distinct fitnesses for a population, possibly of more searches than the population was for."""
        key = (p, e)
        if key not in self.evals:
            pop = self.pops[p - 1]
            own = list(pop.shape[:-2])
            if self.rng.random() < 0.3:
                own = self.lead[self.rng.randint(0, len(self.lead)) :]
            rows = [self.rng.sample(range(-60, 60), self.n) for _ in range(math.prod(own))]
            f = (torch.tensor(rows, dtype=torch.float64) / 16).reshape(own + [self.n]).to(self.dtype)
            self.evals[key] = f
            n = f"e{p}x{e}"
            self.named[n] = f
            self.tr.add("note", name=n, value=vid(whole(f)))
        return self.evals[key]

    def tell(self, s, p, e):
        state = self.states[s - 1]
        t = len(self.states) + 1
        pop = self.pops[p - 1]
        optimizer = self.kind in ("adam", "sgd", "clipup")
        args = [(self.settings[k].tensor, self.settings[k].nd) for k in self.settings if k != "center_init"]
        used = [[micro(self.settings[k].parts[i]) for k in self.settings if k != "center_init"] for i in range(len(self.indices))]
        if optimizer:
            fn = {"adam": adam_tell, "sgd": sgd_tell, "clipup": clipup_tell}[self.kind]
            lanes = self.parts(pop, 1)
            new = fn(state, follow_grad=pop)
            self.lone[t] = [fn(x, follow_grad=g) for x, g in zip(self.lone[s], lanes)]
            self.klass[t] = []
            for (c, o), g in zip(self.klass[s], lanes):
                o = copy.deepcopy(o)
                self.klass[t].append([c + o.ascent(g), o])
            args = [(self.center_of(state), 1)] + args + [(pop, 1)]
            used = [[self.lone_outs(self.lone[s][i])[0]] + u + [micro(lanes[i])] for i, u in enumerate(used)]
            question = vid(whole(pop))
        else:
            f = self.fitnesses(p, e)
            fn = {"cem": cem_tell, "pgpe": pgpe_tell}[self.kind]
            lanes = list(zip(self.parts(pop, 2), self.parts(f, 1)))
            new = fn(state, pop, f)
            self.lone[t] = [fn(x, v, w) for x, (v, w) in zip(self.lone[s], lanes)]
            self.klass[t] = []
            for x, (v, w) in zip(self.klass[s], lanes):
                x = copy.deepcopy(x)
                x.population.set_values(v)
                x.population.set_evals(w)
                x.step()
                self.klass[t].append(x)
            args = [(self.center_of(state), 1), (state.stdev, 1)] + args + [(pop, 2), (f, 1)]
            used = [self.lone_outs(self.lone[s][i])[:2] + u + [micro(lanes[i][0]), micro(lanes[i][1])] for i, u in enumerate(used)]
            question = vid([whole(pop), whole(f)])
        self.states.append(new)
        args = [tensor(x, nd) for x, nd in args]
        for a, u in zip(args, range(len(args))):
            if len(a["shape"]) < a["nd"]:
                for row in used:
                    row[u] = row[u] * self.length if len(row[u]) == 1 else row[u]
        self.tr.add("tell", s=f"s{s}", question=question, value=vid(whole(new)), name=f"s{t}", args=args, used=used, outs=self.outs(new), dtypes=self.dtypes(new),
                    alone=[self.lone_outs(x) for x in self.lone[t]], seen=self.seen(), **{"class": [self.klass_outs(x) for x in self.klass[t]]})  # fmt: skip
        self.named[f"s{t}"] = new


def history(tr, job):
    w = World(tr, job)
    w.build()
    for e in w.schedule:
        if e["op"] == "ask":
            w.ask(e["s"], e["seed"])
        else:
            w.tell(e["s"], e["p"], e["e"])


def mistakes(tr, seed):
    rng = random.Random(seed)
    tr.cfg = {"lead": [], "length": 1, "n": 1, "dtype": "", "tol": 0, "symmetric": False, "kind": "mistakes"}
    c = torch.zeros(rng.choice([(3,), (2, 3)]))
    good = {cem: {"parenthood_ratio": 0.5, "objective_sense": "min", "stdev_init": 1.0},
            pgpe: {"center_learning_rate": 0.1, "stdev_learning_rate": 0.1, "objective_sense": "max", "stdev_init": 1.0}}  # fmt: skip
    bad = [{"objective_sense": "maximize"}, {"objective_sense": "both"}, {"stdev_init": None}, {"radius_init": 1.0}, {"stdev_init": torch.ones(2)},
           {"stdev_min": torch.ones(4)}, {"stdev_max": torch.ones(2, 2)}, {"stdev_max_change": [0.1, 0.2]}, {"center_init": torch.zeros(0)}, {"center_init": 1.0}]  # fmt: skip
    fn = rng.choice([cem, pgpe])
    for b in rng.sample(bad, 4):
        tr.add("bad", refused=refused(lambda: fn(**{"center_init": c, **good[fn], **b})), what=str(b))
    tr.add("bad", refused=refused(lambda: pgpe(center_init=c, **good[pgpe], optimizer=rng.choice(["adamw", "ClipUp", 3]))), what="optimizer")
    tr.add("bad", refused=refused(lambda: clipup(center_init=c)), what="clipup")


GEN = "INIT Init\nNEXT Next\nCONSTANT Depth = {d}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    with open(ctx.spec("MCFunctionalSearch.cfg")) as f:
        cfg = f.read()
    ctx.mc("MCFunctionalSearch", cfg.replace("{<<>>, <<2>>, <<2, 2>>}", "{<<>>, <<2>>}") if not ctx.thorough else cfg)
    rng = ctx.rng("jobs")
    n = ctx.pick(240, 3000)
    schedules = []
    for d in (6, 10) if not ctx.thorough else (5, 8, 12):
        more = ctx.gen("FunctionalSearchGen", GEN.format(d=d), num=n // 4, depth=d + 1)
        schedules.extend(rng.sample(more, min(len(more), n)))
    jobs = [(rng.choice(schedules), rng.randrange(1 << 60)) for _ in range(n)]
    traces = ctx.record(history, jobs, procs=6)
    ctx.validate("FunctionalSearchTrace", traces, canary_keys=("value", "alone", "class", "outs", "pop", "seen"), label="histories")
    traces = ctx.record(mistakes, [rng.randrange(1 << 60) for _ in range(ctx.pick(40, 200))], procs=6)
    ctx.validate("FunctionalSearchTrace", traces, canary_keys=("refused",), label="mistakes")
