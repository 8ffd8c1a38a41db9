"""C05: loggers of every kind on scripted and real searches, validated against Loggers.tla."""

import contextlib
import io
import os
import pickle
import random
import re
import shutil
import sys
import tempfile
import types
from copy import deepcopy

import torch

if "sacred" not in sys.modules:
    # not installed here; the logger for it only needs these names
    sacred = types.ModuleType("sacred")
    sacred.Experiment = type("Experiment", (), {})
    sacred.run = types.SimpleNamespace(Run=type("Run", (), {}))
    sys.modules["sacred"] = sacred
import algos  # noqa: E402
import evotorch.logging as L  # noqa: E402
from common import vid
from evotorch import Problem, Solution
from evotorch.algorithms import SNES, SearchAlgorithm
from evotorch.neuroevolution import NEProblem


class Fit(Problem):
    def __init__(self, seed):
        super().__init__("min", solution_length=3, initial_bounds=(-4.0, 4.0), seed=seed)

    def _evaluate_batch(self, batch):
        batch.set_evals(torch.floor((batch.values ** 2).sum(dim=-1)))


class Net(NEProblem):
    """A policy problem: the saved file must hold the policy of that generation."""

    def __init__(self, seed):
        super().__init__("max", "Linear(2, 1)", seed=seed)

    def _evaluate_network(self, net):
        return torch.floor(net(torch.tensor([1.0, 2.0]))[0] * 4)

    def to_policy(self, x):
        return self.parameterize_net(x.values if isinstance(x, Solution) else x)


class Plain(SearchAlgorithm):
    """Status with scalars and non-scalars whose values change in every generation."""

    def __init__(self, problem):
        super().__init__(problem, g=lambda: 1000 + self.n, center=lambda: torch.full((3,), float(self.n)), seq=lambda: [self.n], zero=lambda: torch.tensor(7 * self.n))
        self.n = 0
        self.pop = problem.generate_batch(4)

    def _step(self):
        self.pop = self.problem.generate_batch(4)
        self.problem.evaluate(self.pop)
        self.n += 1


NONSCALAR = {"center", "seq", "best", "worst", "pop_best", "stdev", "sigma"}


def code(v):
    """One integer for a status item, the same for a Solution and for its saved values."""
    if isinstance(v, Solution):
        v = v.values
    if isinstance(v, torch.Tensor):
        return code(v.item()) if v.ndim == 0 else vid(v.clone())
    if isinstance(v, torch.nn.Module):
        return vid(torch.cat([p.detach().reshape(-1) for p in v.parameters()]))
    if isinstance(v, (int, float)):
        return int(v * 64) if float(v * 64).is_integer() else vid(float(v))
    return vid(v)


class Own(L.Logger):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.rows = []

    def _log(self, status):
        self.rows.append(deepcopy(dict(status)))


class OwnScalar(L.ScalarLogger):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.rows = []

    def _log(self, status):
        self.rows.append(deepcopy(dict(status)))


def history(tr, job):
    name, seed = job
    rng = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix="evtlog.", dir="/tmp")
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            _history(tr, name, rng, tmp, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _history(tr, name, rng, tmp, out):
    p = Net(rng.randrange(1 << 20)) if name == "net" else Fit(rng.randrange(1 << 20))
    if name == "plain":
        s = Plain(p)
    elif name == "net":
        s = SNES(p, stdev_init=1.0, popsize=4)
    else:
        s = algos.SINGLE[name](p, rng)
    snaps = []

    def snap(status):
        it = {k: code(v) for k, v in status.items()}
        if name == "net":
            it["policy"] = code(status["center"])
        snaps.append(it)

    s.log_hook.append(snap)
    counter = torch.tensor(0)  # one tensor, changed in place

    def more():
        counter.add_(rng.randint(1, 5))
        return {"m": rng.randrange(1000), "counter": counter}

    s.after_step_hook.append(more)
    loggers = []  # (logger, kind, info)

    def text_rows(buf):
        rows, cur = [], {}
        for line in buf.splitlines():
            m = re.match(r"\s*(\w+) : (.*)$", line)
            if m:
                v = m.group(2)
                t = re.fullmatch(r"\w+\((\d+)[^)]*\)", v)
                cur[m.group(1) + ("_again" if m.group(1) in cur else "")] = int(t.group(1)) if t else float(v)
            elif cur:
                rows.append(cur)
                cur = {}
        return rows

    def observe():
        obs = []
        for lg, kind, info in loggers:
            o = {"rec": [], "files": [], "last": [], "saves": 0, "steps": []}
            rows = None
            if kind in ("own", "scalar"):
                rows = lg.rows
            elif kind == "pandas":
                df = lg.to_dataframe(index=None)
                rows = df.to_dict("records")
                if rows and rng.random() < 0.3:
                    assert list(lg.to_dataframe().index) == [r["iter"] for r in rows]
            elif kind == "std":
                rows = text_rows(info["buf"].getvalue())
            elif kind in ("mlflow", "neptune", "wandb", "sacred"):
                rows = info["rows"]
                o["steps"] = list(info.get("steps", []))
            elif kind == "pickle":
                names = sorted(os.listdir(info["dir"]))
                for fn in names:
                    with open(os.path.join(info["dir"], fn), "rb") as f:
                        data = pickle.load(f)
                    m = re.fullmatch(re.escape(info["prefix"]) + r"_generation(\d+)\.pickle", fn)
                    nm = ["gen", int(m.group(1))] if m and len(m.group(1)) >= info["zfill"] else ["x", int(fn[1:-7])]
                    o["files"].append({
                        "name": nm, "g": int(data.get("iter", 0)),
                        "v": [[k, code(v)] for k, v in data.items() if k not in ("beginning_time", "now", "elapsed")],
                    })
                if lg.last_file_name is not None:
                    fn = os.path.basename(lg.last_file_name)
                    m = re.fullmatch(re.escape(info["prefix"]) + r"_generation(\d+)\.pickle", fn)
                    o["last"] = [[["gen", int(m.group(1))] if m else ["x", int(fn[1:-7])], int(lg.last_generation)]]
                    same = {k: code(v) for k, v in lg.unpickle_last_file().items() if k not in ("beginning_time", "now", "elapsed")}
                    with open(os.path.join(info["dir"], fn), "rb") as f:
                        data = pickle.load(f)
                    if same != {k: code(v) for k, v in data.items() if k in same}:
                        o["last"] = [[["wrong", 0], 0]]
                o["saves"] = out.getvalue().count("Saved to " + info["dir"] + "/")
                # which generations were selected shows in the files only
                o["rec"] = []
            if rows is not None:
                o["rec"] = [{"g": int(r["iter"]), "v": [[k, code(v)] for k, v in r.items()]} for r in rows]
            obs.append(o)
        return obs

    def attach():
        interval = rng.choice([1, 1, 2, 3, 4])
        first = rng.random() < 0.5
        kw = dict(interval=interval, after_first_step=first)
        if not first and rng.random() < 0.4:
            kw.pop("after_first_step")
        kind = rng.choice(["own", "scalar", "pandas", "std", "mlflow", "neptune", "wandb", "sacred", "pickle", "pickle", "pickle"])
        if interval == 1 and kind != "pickle" and rng.random() < 0.5:
            kw.pop("interval")
        status_keys = sorted(set(s.status) | {"iter", "m", "counter", "best", "worst", "best_eval", "worst_eval"})
        keys = status_keys if kind == "own" else [k for k in status_keys if k not in NONSCALAR]
        info = {}
        if kind == "own":
            lg = Own(s, **kw)
        elif kind == "scalar":
            lg = OwnScalar(s, **kw)
        elif kind == "pandas":
            lg = L.PandasLogger(s, **kw)
        elif kind == "std":
            info["buf"] = io.StringIO()

            class Std(L.StdOutLogger):
                def _log(self, status):
                    with contextlib.redirect_stdout(info["buf"]):
                        super()._log(status)

            if rng.random() < 0.5:
                kw["leading_keys"] = rng.sample(["m", "counter", "iter", "nope", "best_eval"], rng.randint(0, 3))
            lg = Std(s, **kw)
        elif kind == "mlflow":
            rows, steps = [], []
            info.update(rows=rows, steps=steps)

            class Client:
                def log_metric(self, run_id, k, v, step):
                    assert run_id == "run7"
                    if not rows or steps[-1] != step:
                        rows.append({})
                        steps.append(step)
                    rows[-1][k] = deepcopy(v)

            class Global(L.MlflowLogger):
                def _log(self, status):
                    old = L.mlflow.log_metrics

                    def log_metrics(metrics, step):
                        rows.append(deepcopy(metrics))
                        steps.append(step)

                    L.mlflow.log_metrics = log_metrics
                    try:
                        super()._log(status)
                    finally:
                        L.mlflow.log_metrics = old

            lg = L.MlflowLogger(s, Client(), "run7", **kw) if rng.random() < 0.6 else Global(s, **kw)
        elif kind == "sacred":
            rows = []
            info.update(rows=rows)
            result = rng.choice([None, "best_eval", "m"])

            class Run(L.sacred.run.Run):
                result = None

                def log_scalar(self, k, v):
                    if not rows or k in rows[-1]:
                        rows.append({})
                    rows[-1][k] = deepcopy(v)

            lg = L.SacredLogger(s, Run(), result, **kw)
        elif kind == "neptune":
            group = rng.choice([None, "grp"])
            rows = []
            info.update(rows=rows)

            class Cell:
                def __init__(self, k):
                    self.k = k

                def log(self, v):
                    k = self.k
                    if group is not None:
                        assert k.startswith("grp/")
                        k = k[4:]
                    if not rows or k in rows[-1]:
                        rows.append({})
                    rows[-1][k] = deepcopy(v)

            lg = L.NeptuneLogger(s, type("Run", (), {"__getitem__": lambda self, k: Cell(k)})(), group=group, **kw)
        elif kind == "wandb":
            group = rng.choice([None, "grp"])
            rows = []
            info.update(rows=rows)

            class Wb(L.WandbLogger):
                def _log(self, status):
                    old = L.wandb.log
                    L.wandb.log = lambda d: rows.append({(k[4:] if group else k): deepcopy(v) for k, v in d.items()})
                    try:
                        super()._log(status)
                    finally:
                        L.wandb.log = old

            lg = Wb(s, init=False, group=group, **kw)
        else:
            d = os.path.join(tmp, f"d{len(loggers)}")
            zfill = rng.choice([2, 6])
            possible = [k for k in status_keys if k not in ("worst", "seq")]
            items = ["iter"] + [k for k in possible if rng.random() < 0.5 and k != "iter"]
            info.update(dir=d, prefix="pre", zfill=zfill)
            keys = items + (["policy"] if name == "net" else [])
            lg = L.PicklingLogger(s, directory=d, prefix="pre", zfill=zfill, items_to_save=items + ["nope"], **dict(kw, interval=interval))
        loggers.append((lg, kind, info))
        return dict(interval=interval, first=first, kind="pickle" if kind == "pickle" else "plain", keys=keys)

    def done(op, **e):
        obs = observe()
        tr.add(op, obs=obs, **e)

    for _ in range(rng.randint(0, 2)):
        e = attach()
        done("attach", **e)
    for _ in range(rng.randint(3, 8)):
        k = rng.random()
        if k < 0.35:
            s.step()
            done("step", v=[[a, b] for a, b in snaps[-1].items()])
        elif k < 0.7:
            n = rng.choice([0, 1, 2, 3, 5])
            if n == 0 and s.step_count == 0:
                n = 1
            before = len(snaps)
            s.run(n)
            for it in snaps[before:]:
                tr.add("run_step", v=[[a, b] for a, b in it.items()])
            done("run_end")
        elif k < 0.9 and len(loggers) < 4:
            e = attach()
            done("attach", **e)
        else:
            ps = [i for i, x in enumerate(loggers) if x[1] == "pickle"]
            if ps and s.step_count > 0:
                i = rng.choice(ps)
                j = rng.randrange(3)
                loggers[i][0].save(f"x{j}.pickle")
                done("save", k=i + 1, name=["x", j])


def run(ctx):
    ctx.mc("MCLoggers")
    rng = ctx.rng()
    names = ["plain"] * 8 + ["net", "net", "snes", "pgpe", "cem", "ga", "cosyne", "cmaes"]
    jobs = [(n, rng.randrange(1 << 30)) for n in names for _ in range(ctx.pick(22, 200))]
    traces = ctx.record(history, jobs, procs=6)
    ctx.validate("LoggersTrace", traces, canary_keys=("obs",))
