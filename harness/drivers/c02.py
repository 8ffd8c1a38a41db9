"""C02: histories over batches generated from Batches.tla, replayed into SolutionBatch and Solution."""

import copy
import pickle
import random

import numpy as np
import torch

from common import NAN, encs
from evotorch import Problem, Solution, SolutionBatch


class P(Problem):
    """Objectives and auxiliary data as in EvalFn of Batches.tla."""

    def __init__(self, nobj, ndata, obj, dtype):
        kw = dict(objective_sense=["min", "max"][:nobj] if nobj > 1 else "min", eval_data_length=ndata)
        if obj:
            super().__init__(dtype=object, **kw)
        else:
            super().__init__(solution_length=2, dtype=dtype, initial_bounds=(0, 5), **kw)
        self.nobj, self.ndata = nobj, ndata

    def _fill(self, values):
        if self.dtype is object:
            for i in range(len(values)):
                values[i] = [0]
        else:
            super()._fill(values)

    def _rows(self, batch):
        res = []
        for i in range(len(batch)):
            v = [float(x) for x in batch.values[i]]
            s, f = sum(v), (v[0] if v else 0.0)
            res.append([s, s - 3 * f][: self.nobj] + [len(v), f][: self.ndata])
        return torch.tensor(res, dtype=self.eval_dtype)

    def _evaluate_batch(self, batch):
        r = self._rows(batch)
        if self.ndata and self.flip:
            batch.set_evals(r[:, : self.nobj], r[:, self.nobj :])
        else:
            batch.set_evals(r)

    flip = False


class PSingle(P):
    def _evaluate_batch(self, batch):
        for sln in batch:
            self._evaluate(sln)

    def _evaluate(self, sln):
        r = self._rows(sln.to_batch())[0]
        if self.ndata:
            sln.set_evals(r[: self.nobj], r[self.nobj :])
        elif self.nobj == 1:
            sln.set_evaluation(float(r[0]))
        else:
            sln.set_evals(r)


def see(x):
    b = x.to_batch() if isinstance(x, Solution) else x
    vals = [[int(v) if float(v) == int(v) else NAN for v in b.values[i]] for i in range(len(b))]
    return {"v": vals, "e": encs(b.evals)}


def execute(tr, job):
    prog, seed = job
    rng = random.Random(seed)
    c = prog["cfg"]
    obj = c["obj"]
    tr.cfg = {"nobj": c["nobj"], "ndata": c["ndata"]}
    dtype = rng.choice([torch.float32, torch.float64, torch.int64])
    cls = rng.choice([P, PSingle])
    problem = cls(c["nobj"], c["ndata"], obj, dtype)
    problem.flip = rng.random() < 0.5
    H = []
    keep_refs = []

    def batch_of(i):
        return H[i].to_batch() if isinstance(H[i], Solution) else H[i]

    def values_arg(vals):
        if obj:
            vals = [list(v) for v in vals]
            keep_refs.append(vals)
            return vals
        t = torch.tensor(vals, dtype=dtype).reshape(len(vals), 2)
        keep_refs.append(t)
        return t

    def index_arg(ps):
        if len(ps) > 0 and ps == list(range(ps[0], ps[0] + len(ps))) and rng.random() < 0.4:
            return slice(ps[0], ps[0] + len(ps))
        return rng.choice([list(ps), torch.tensor(ps, dtype=torch.int64)])

    for o in prog["ops"]:
        op = o["op"]
        e = {"exc": ""}
        name = op
        try:
            if op == "create":
                b = SolutionBatch(problem, popsize=len(o["vals"]), empty=rng.random() < 0.5)
                b.set_values(values_arg(o["vals"]))
                H.append(b)
                e["vals"] = o["vals"]
            elif op == "set_values":
                e.update(h=o["h"], ps=o["ps"], vals=o["vals"])
                b = batch_of(o["h"] - 1)
                if o["all"]:
                    b.set_values(values_arg(o["vals"]))
                elif obj:
                    # object arrays take the values one by one when the positions are given one by one
                    ps = o["ps"]
                    for p, v in zip(ps, o["vals"]):
                        b.set_values([list(v)], solutions=slice(p, p + 1))
                else:
                    b.set_values(values_arg(o["vals"]), solutions=index_arg(o["ps"]))
            elif op == "access_values":
                e.update(h=o["h"], ps=o["ps"], vals=o["vals"], keep=o["keep"])
                x = H[o["h"] - 1]
                if isinstance(x, Solution):
                    if obj:
                        x.to_batch().access_values(keep_evals=o["keep"])[0] = list(o["vals"][0])
                    else:
                        x.access_values(keep_evals=o["keep"])[:] = torch.tensor(o["vals"][0], dtype=dtype)
                else:
                    t = x.access_values(keep_evals=True) if o["keep"] else x.access_values()
                    for p, v in zip(o["ps"], o["vals"]):
                        t[p] = list(v) if obj else torch.tensor(v, dtype=dtype)
            elif op == "set_evals":
                b = batch_of(o["h"] - 1)
                evs = torch.tensor(o["evs"], dtype=problem.eval_dtype)
                n = c["nobj"]
                f = o["f"]
                kw = {} if o["all"] else {"solutions": index_arg(o["ps"])}
                logged = o["evs"]
                if f < 3:
                    # only the objectives: the auxiliary data becomes unknown
                    arg = evs[:, :n]
                    if n == 1 and rng.random() < 0.5:
                        arg = arg[:, 0]
                    b.set_evals(arg, **kw)
                    logged = [r[:n] + [NAN] * c["ndata"] for r in o["evs"]]
                elif f < 6 and c["ndata"] > 0:
                    b.set_evals(evs[:, :n], evs[:, n:], **kw)
                elif f < 7 and not kw:
                    b.access_evals()[:] = evs
                elif f < 8 and not kw:
                    for j in range(n):
                        b.access_evals(rng.choice([j, j - n]))[:] = evs[:, j]
                    if c["ndata"]:
                        b.access_evals()[:, n:] = evs[:, n:]
                else:
                    b.set_evals(evs, **kw)
                e.update(h=o["h"], ps=o["ps"], evs=logged)
            elif op == "forget_evals":
                e.update(h=o["h"], ps=o["ps"])
                b = batch_of(o["h"] - 1)
                b.forget_evals() if o["all"] else b.forget_evals(solutions=index_arg(o["ps"]))
            elif op == "evaluate":
                e.update(h=o["h"])
                problem.evaluate(H[o["h"] - 1])
            elif op == "slice":
                name = "view"
                e.update(h=o["h"], ps=o["ps"])
                b = batch_of(o["h"] - 1)
                s = o["s"]
                H.append(b[o["a"] : o["b"]] if s == 1 else b[o["a"] : o["b"] : s])
            elif op == "sol":
                name = "view"
                e.update(h=o["h"], ps=o["ps"])
                b = batch_of(o["h"] - 1)
                i = o["ps"][0] - (o["n"] if o["neg"] else 0)
                if rng.random() < 0.3 and not o["neg"]:
                    H.append(list(b)[i])
                else:
                    H.append(b[i])
            elif op == "split":
                b = batch_of(o["h"] - 1)
                pieces = b.split(o["num"]) if o["num"] else b.split(max_size=o["maxsize"])
                parts = []
                for j in range(len(pieces)):
                    lo, hi = pieces.indices_of(j)
                    parts.append(list(range(lo, hi)))
                    H.append(pieces[j])
                via_iter = [list(range(lo, hi)) for _, (lo, hi) in pieces.iter_with_indices()]
                if via_iter != parts:
                    parts = via_iter
                e.update(h=o["h"], parts=parts, num=o["num"], maxsize=o["maxsize"])
            elif op == "take":
                name = "copy"
                e.update(h=o["h"], ps=o["ps"])
                b = batch_of(o["h"] - 1)
                f = o["f"]
                if f < 3:
                    H.append(b.take(o["ps"]))
                elif f < 5:
                    H.append(b[list(o["ps"])])
                elif f < 7:
                    H.append(b[torch.tensor(o["ps"])])
                elif f < 8:
                    H.append(b.take(torch.tensor(o["ps"])))
                else:
                    H.append(b[np.array(o["ps"])])
            elif op == "clone":
                name = "copy"
                e.update(h=o["h"], ps=o["ps"])
                x = H[o["h"] - 1]
                f = o["f"]
                if f < 5:
                    y = x.clone()
                elif f < 7:
                    y = copy.deepcopy(x)
                else:
                    y = pickle.loads(pickle.dumps(x))
                H.append(y)
            elif op == "concat":
                e.update(q=o["q"])
                bs = [batch_of(i - 1) for i in o["q"]]
                if len(bs) == 2 and o["f"] < 5:
                    H.append(bs[0].concat(bs[1]))
                elif o["f"] < 8:
                    H.append(SolutionBatch.cat(bs))
                else:
                    H.append(bs[0].concat(bs[1:]))
            elif op == "read":
                x = H[o["h"] - 1]
                f = o["f"]
                x.values, x.evals, str(x), repr(x), len(x)
                if isinstance(x, Solution):
                    x.evaluation, x.is_evaluated, x.shape, x.senses, list(x)
                    x.to("cpu") if not obj else None
                else:
                    x.values_shape, x.eval_shape, x.senses, x.objective_sense, x.solution_length
                    if len(x) > 0:
                        j = rng.randrange(c["nobj"])
                        x.argsort(j), x.argbest(j), x.argworst(j)
                        x.utility(j, check_nans=False), x.utils(check_nans=False)
                        x.utility(j, check_nans=False, ranking_method=rng.choice(["centered", "linear", "nes", "raw", "normalized"]))
                        if not bool(torch.isnan(x.evals[:, : c["nobj"]]).any()):
                            x.take_best(rng.randint(1, len(x)), obj_index=j)
                            if c["nobj"] == 2:
                                x.arg_pareto_sort(), x.compute_pareto_ranks(), x.take_best(1)
                    list(x)
                e.update(h=o["h"])
            elif op == "forbidden_write":
                x = batch_of(o["h"] - 1) if o["f"] % 2 else H[o["h"] - 1]
                refused = 0
                tries = []
                if obj:
                    if isinstance(x, SolutionBatch):
                        tries.append(lambda: x.values.__setitem__(0, [9]))
                    else:
                        tries.append(lambda: x.values.__setitem__(0, 9) if len(x.values) else x.values.append(9))
                else:
                    tries.append(lambda: x.values.__setitem__(0, 9))
                    tries.append(lambda: x.values.add_(1))
                    tries.append(lambda: x.values[...].zero_())
                    tries.append(lambda: torch.add(x.values, 1, out=x.values))
                    tries.append(lambda: x.values.view(-1).fill_(3))
                tries.append(lambda: x.evals.__setitem__(0, 9.0))
                tries.append(lambda: x.evals.fill_(1.0))
                tries.append(lambda: x.evals.__iadd__(1.0))
                for t in tries:
                    try:
                        t()
                    except Exception:
                        refused += 1
                e.update(h=o["h"], refused=refused == len(tries))
            elif op == "bad_index":
                b = batch_of(o["h"] - 1)
                try:
                    b[o["i"]]
                    r = False
                except IndexError:
                    r = True
                e.update(h=o["h"], refused=r)
            elif op == "is_evaluated":
                x = H[o["h"] - 1]
                sln = x if isinstance(x, Solution) else x[0]
                e.update(h=o["h"], res=bool(sln.is_evaluated))
            elif op == "sol_set":
                name = "set_values"
                e.update(h=o["h"], ps=o["ps"], vals=o["vals"])
                sln = batch_of(o["h"] - 1)[o["ps"][0]]
                v = list(o["vals"][0])
                keep_refs.append([v])
                sln.set_values(v if obj or o["f"] < 5 else torch.tensor(v, dtype=dtype))
            elif op == "sol_set_evals":
                name = "set_evals"
                sln = batch_of(o["h"] - 1)[o["ps"][0]]
                ev = list(o["evs"][0])
                n = c["nobj"]
                f = o["f"]
                logged = [ev]
                if f < 3:
                    (sln.set_evals if f else sln.set_evaluation)(float(ev[0]) if n == 1 else torch.tensor(ev[:n], dtype=problem.eval_dtype))
                    logged = [ev[:n] + [NAN] * c["ndata"]]
                elif f < 6 and c["ndata"]:
                    sln.set_evals(torch.tensor(ev[:n], dtype=problem.eval_dtype), ev[n:])
                elif f < 7:
                    sln.access_evals()[:] = torch.tensor(ev, dtype=problem.eval_dtype)
                else:
                    sln.set_evals(torch.tensor(ev, dtype=problem.eval_dtype))
                e.update(h=o["h"], ps=o["ps"], evs=logged)
            # what the caller still holds is changed afterwards: it must not matter
            for r in keep_refs:
                if isinstance(r, list):
                    for v in r:
                        v.append(99)
                else:
                    r[:] = 77
            keep_refs.clear()
        except Exception as ex:
            e["exc"] = type(ex).__name__
            e["msg"] = str(ex)[:200]
        e["obs"] = [see(x) for x in H]
        tr.add(name, **e)
        if e["exc"]:
            break


def run(ctx):
    ctx.mc("MCBatches")
    if ctx.thorough:
        with open(ctx.spec("MCBatches.cfg")) as f:
            ctx.mc("MCBatches", f.read().replace("MaxSteps = 4", "MaxSteps = 5"), timeout=800)
    rng = ctx.rng()
    g = "INIT Init\nNEXT Next\nCONSTANTS Depth = %d\n MaxH = 9\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    progs = ctx.gen("BatchesGen", g % 16, num=ctx.pick(900, 8000), depth=17)
    traces = ctx.record(execute, [(p, rng.randrange(1 << 30)) for p in progs], procs=6)
    ctx.validate("BatchesTrace", traces, canary_keys=("obs",))
