"""C04: callbacks of every hook note their calls; the sequences are validated against SearchLoop.tla and Hooks.tla."""

import random
from collections import OrderedDict

import torch

import algos
from common import vid
from evotorch import Problem, Solution
from evotorch.algorithms import SearchAlgorithm
from evotorch.tools import Hook

ABSENT = -999


def things(status):
    """All tensors and solutions of a status."""
    out = []
    for k in sorted(status):
        v = status[k]
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, Solution):
                out += [vid(x.values), vid(x.evals)]
            elif isinstance(x, torch.Tensor):
                out.append(vid(x))
    return out


def look(status, keys):
    out = []
    for k in keys:
        v = status.get(k)
        out.append([k, ABSENT if v is None else int(v)])
    return out


class Noting(Problem):
    def __init__(self, tr, sense, seed, **kw):
        super().__init__(sense, solution_length=3, initial_bounds=(-4.0, 4.0), seed=seed, **kw)
        self.tr = tr

    def _evaluate_batch(self, batch):
        self.tr.add("eval")
        v = batch.values
        f = torch.stack([(v * v).sum(dim=-1), (v - 1.0).abs().sum(dim=-1)], dim=-1)[:, : len(self.senses)]
        batch.set_evals(f, *([v[:, :2]] if self.eval_data_length else []))

    def __getstate__(self):
        raise RuntimeError("not to be pickled")


class Plain(SearchAlgorithm):
    """An algorithm with one lazily computed status item, evaluating some number of batches per generation."""

    def __init__(self, problem, rng):
        super().__init__(problem, g=self._get_g)
        self.rng = rng
        self.n = 0

        self.ended = rng.random() < 0.3

    @property
    def is_terminated(self):
        # a run goes on for as many generations as it was asked for
        return self.ended

    def _get_g(self):
        return 1000 + self.n

    def _step(self):
        for _ in range(self.rng.choice([0, 1, 1, 2])):
            self.problem.evaluate(self.problem.generate_batch(3))
        self.n += 1


def noting_class(cls, tr):
    """The same algorithm, noting when its generations begin and end."""

    class Noted(cls):
        def _step(self):
            tr.add("gen_begin", count=self.step_count)
            super()._step()
            tr.add("gen_end", count=self.step_count)

    return Noted


def protocol(tr, job):
    name, seed = job
    rng = random.Random(seed)
    sense = ["min", "max"] if name.startswith("multi_") else rng.choice(["min", "max"])
    p = Noting(tr, sense, seed % 1000, **({"eval_data_length": 2} if name == "mapelites" else {}))
    if name == "plain":
        s = Plain(p, rng)
    elif name == "mapelites":
        s = algos.mapelites(p, rng)
    elif name.startswith("multi_"):
        s = algos.MULTI[name[6:]](p, rng)
    else:
        s = algos.SINGLE[name](p, rng)
    tr.cfg = {"noted": name == "plain"}
    if name == "plain":
        s.__class__ = noting_class(type(s), tr)
    keys = ["iter", "a", "b", "c", "pa", "pb"] + (["g"] if name == "plain" else [])
    hooks = {
        "before": s.before_step_hook, "after": s.after_step_hook, "log": s.log_hook, "end": s.end_of_run_hook,
        "before_eval": p.before_eval_hook, "after_eval": p.after_eval_hook,
    }
    count = [0]
    held = []

    def some(options):
        return {k: rng.randrange(100) for k in options if rng.random() < 0.4}

    def make(h):
        count[0] += 1
        x = count[0]
        spawner = rng.random() < 0.15

        def spawn():
            nonlocal spawner
            if spawner:
                spawner = False
                # whether a callback added to the hook being called is called at once is left open
                register(rng.choice([k for k in hooks if k != h]))

        if h == "before":

            def f():
                tr.add(h, x=x, st=look(s.status, keys))
                spawn()

        elif h == "after":

            def f():
                m = some(["a", "b", "c"] + (["g"] if name == "plain" else []))
                st = look(s.status, ["iter"] + (["g"] if name == "plain" and rng.random() < 0.5 else []))
                tr.add(h, x=x, m=[[k, v] for k, v in m.items()], count=s.step_count, st=st)
                spawn()
                return rng.choice([m, OrderedDict(m)]) if m else rng.choice([None, {}])

        elif h == "before_eval":

            def f(batch):
                tr.add(h, x=x)
                spawn()

        elif h == "after_eval":

            def f(batch):
                m = some(["pa", "pb", "a"])
                tr.add(h, x=x, m=[[k, v] for k, v in m.items()])
                spawn()
                return m if m else None

        else:

            def f(status):
                st = look(status, keys)
                tr.add(h, x=x, st=st)
                held.append((status, st, things(status)))
                spawn()

        return x, f

    def register(h):
        x, f = make(h)
        hooks[h].append(f)
        tr.add("register", h=h, x=x)

    # steps inside run() are noted through the class as well
    base_step = type(s).step

    class Stepping(type(s)):
        def step(self):
            tr.add("step_begin")
            base_step(self)
            tr.add("step_end", count=self.step_count, st=look(self.status, keys))

    s.__class__ = Stepping
    for _ in range(rng.randint(1, 5)):
        register(rng.choice(list(hooks)))
    for _ in range(rng.randint(2, 5)):
        k = rng.random()
        if k < 0.45:
            s.step()
        elif k < 0.8:
            n = rng.choice([0, 1, 2, 3])
            if n == 0 and s.step_count == 0 and name != "plain":
                n = 1
            tr.add("run_begin", n=n)
            s.run(n, **rng.choice([{}, {"reset_first_step_datetime": False}]))
            tr.add("run_end", count=rng.choice([s.step_count, s.steps_count]))
        elif k < 0.9:
            register(rng.choice(list(hooks)))
        else:
            h = rng.choice(list(hooks))
            if len(hooks[h]) > 0:
                i = rng.randrange(len(hooks[h]))
                del hooks[h][i]
                tr.add("unregister", h=h, i=i + 1)
    for status, then, parts in held:
        tr.add("held", then=then, now=look(status, keys), parts=parts, parts_now=things(status))


def hook_history(tr, job):
    rng = random.Random(job)
    calls, plan = [], {}
    ids = [0]

    def make():
        ids[0] += 1
        x = ids[0]

        def f(*args, **kwargs):
            calls.append({"id": x, "args": list(args), "kw": [[k, v] for k, v in kwargs.items()]})
            return plan.get(x)

        f.ident = x
        return f

    fs = [make() for _ in range(rng.randrange(4))]
    args = [rng.randrange(9) for _ in range(rng.randrange(3))]
    kw = {k: rng.randrange(9) for k in ("u", "v") if rng.random() < 0.3}
    form = rng.random()
    if form < 0.3 and not args and not kw:
        hook = Hook()
        for f in fs:
            hook.append(f)
    else:
        hook = Hook(fs if rng.random() < 0.5 else tuple(fs), args=tuple(args), kwargs=dict(kw))
    tr.cfg = {"funcs": [f.ident for f in fs], "args": args, "kw": [[k, v] for k, v in kw.items()]}

    def ret():
        k = rng.random()
        if k < 0.25:
            return None
        if k < 0.75 if mode == "dict" else k < 0.1:
            return {x: rng.randrange(50) for x in "abcd" if rng.random() < 0.5}
        if k < 0.9 if mode != "dict" else k < 0.8:
            return [rng.randrange(50) for _ in range(rng.randrange(3))]
        return 5 if rng.random() < 0.3 else None

    def desc(r):
        if r is None:
            return {"t": "none"}
        if isinstance(r, dict):
            return {"t": "dict", "m": [[k, v] for k, v in r.items()]}
        if isinstance(r, (list, tuple)):
            return {"t": "list", "q": list(r)}
        return {"t": "bad"}

    for _ in range(rng.randint(3, 9)):
        n = len(hook)
        k = rng.random()
        mode = rng.choice(["dict", "seq", "any"])
        e, op = {}, None
        if k < 0.4:
            op = "call"
            plan.clear()
            for f in hook:
                r = ret()
                plan[f.ident] = r
            rets = [desc(plan[f.ident]) for f in hook]
            a = [rng.randrange(9) for _ in range(rng.randrange(2))]
            w = {x: rng.randrange(9) for x in ("u", "w") if rng.random() < 0.3}
            calls.clear()
            fn = {"dict": hook.accumulate_dict, "seq": hook.accumulate_sequence, "any": hook}[mode]
            try:
                res = desc(fn(*a, **w))
            except TypeError:
                res = {"t": "error"}
            e = {"rets": rets, "args": a, "kw": [[x, y] for x, y in w.items()], "how": mode, "res": res,
                 "calls": [dict(c) for c in calls], "intact": [desc(plan[f.ident]) for f in hook] == rets}
        elif k < 0.5:
            op, f = "append", make()
            hook.append(f)
            e = {"x": f.ident}
        elif k < 0.6:
            op, f = "insert", make()
            i = rng.randint(-n - 1, n + 1)
            hook.insert(i, f)
            e = {"x": f.ident, "i": i}
        elif k < 0.68 and n:
            op = "delete"
            i = rng.randrange(n)
            if rng.random() < 0.5:
                del hook[i]
            elif rng.random() < 0.5:
                hook.pop(i)
            else:
                hook.remove(hook[i])
            e = {"i": i + 1}
        elif k < 0.76 and n:
            op, f = "set", make()
            i = rng.randrange(n)
            hook[i] = f
            e = {"i": i + 1, "x": f.ident}
        elif k < 0.82:
            op = "extend"
            q = [make() for _ in range(2)]
            if rng.random() < 0.5:
                hook.extend(q)
            else:
                hook += q
            e = {"q": [f.ident for f in q]}
        elif k < 0.87:
            op = "reverse"
            hook.reverse()
        elif k < 0.92 and n:
            op = "slice"
            a = rng.randrange(n)
            b = rng.randrange(a, n + 1)
            hook = hook[a:b]
            e = {"a": a + 1, "b": b}
        elif k < 0.96:
            op = "arg"
            v = rng.randrange(9)
            hook.args.append(v)
            e = {"v": v}
        else:
            op = "kw"
            v = rng.randrange(9)
            hook.kwargs["v"] = v
            e = {"k": "v", "v": v}
        tr.add(op, funcs=[f.ident for f in hook], **e)


def run(ctx):
    ctx.mc("MCSearchLoop")
    if ctx.thorough:
        with open(ctx.spec("MCSearchLoop.cfg")) as f:
            ctx.mc("MCSearchLoop", f.read().replace("MaxSteps = 2", "MaxSteps = 3"), timeout=600)
    rng = ctx.rng()
    names = ["plain"] * 14 + list(algos.SINGLE) + ["multi_" + n for n in algos.MULTI] + ["mapelites"]
    jobs = [(n, rng.randrange(1 << 30)) for n in names for _ in range(ctx.pick(12, 80))]
    traces = ctx.record(protocol, jobs, procs=6)
    ctx.validate("SearchLoopTrace", traces, canary_keys=("st", "count", "x"), label="protocol")
    traces = ctx.record(hook_history, [rng.randrange(1 << 30) for _ in range(ctx.pick(400, 4000))], procs=6)
    ctx.validate("HooksTrace", traces, canary_keys=("res", "calls", "funcs"), label="hooks")
