"""C25: constraint violations, penalties and barriers, validated against Penalties.tla."""

import random

import numpy as np
import torch

from common import NAN, enc
from drivers.c10 import refused
from evotorch.tools.constraints import log_barrier, penalty, violation


class Args:
    """Arguments with compatible leading shapes; at least one of them is a tensor."""

    def __init__(self, rng):
        self.rng = rng
        self.lead = [rng.randint(1, 3) for _ in range(rng.choice([0, 1, 1, 2]))]
        self.dtype = rng.choice([torch.float32, torch.float64])
        self.js = []

    def make(self, draw, scale, tensor=False, always=False):
        rng = self.rng
        if not tensor and rng.random() < 0.5:
            v = draw()
            self.js.append({"nd": 0, "shape": [], "data": [self.code(v, scale)]})
            return v
        own = self.lead if always else self.lead[len(self.lead) - rng.randint(0, len(self.lead)) :]
        if own and rng.random() < 0.03:
            own = [own[0] + 1] + own[1:]
        vals = [draw() for _ in range(int(np.prod(own)))]
        self.js.append({"nd": 0, "shape": list(own), "data": [self.code(v, scale) for v in vals]})
        return torch.tensor(vals, dtype=self.dtype).reshape(own)

    @staticmethod
    def code(v, scale):
        return NAN if v != v else enc(v, scale)


def result(fn, scale, exact=True):
    box = []
    ref = refused(lambda: box.append(fn()))
    if ref:
        return True, {"shape": [], "data": [0]}
    y = torch.as_tensor(box[0])
    return False, {"shape": list(y.shape), "data": [enc(v, scale, exact) for v in y.reshape(-1).tolist()]}


def violations(tr, job):
    rng = random.Random(job)
    a = Args(rng)
    side = lambda: rng.choice([rng.randint(-6, 6) / 2, rng.randint(-2, 2) * 1.0, rng.randint(-400, 400) / 2])  # noqa: E731
    c = rng.choice(["<=", ">=", "=="])
    l, r = a.make(lambda: float("inf") if rng.random() < 0.03 else side(), 2, tensor=True), a.make(side, 2)
    ref, out = result(lambda: violation(l, c, r), 2)
    tr.add("violation", args=a.js, cmp=c, refused=ref, out=out)


def penalties(tr, job):
    rng = random.Random(job)
    a = Args(rng)
    side = lambda: rng.choice([rng.randint(-6, 6) / 2, rng.randint(-2, 2) * 1.0])  # noqa: E731
    c = rng.choice(["<=", ">=", "=="])
    sign = rng.choice("+-")
    inf, nan = float("inf"), float("nan")
    l, r = a.make(lambda: inf if rng.random() < 0.05 else side(), 2, tensor=True), a.make(side, 2)
    kw = {}
    for name, draw, scale, default in (
        ("linear", lambda: rng.choice([0.0, 0.5, 1.0, 2.5]), 2, 0.0),
        ("step", lambda: rng.choice([0.0, 0.5, 3.0]), 8, 0.0),
        ("exp", lambda: rng.choice([1.0, 2.0, 3.0, nan]), 1, nan),
        ("exp_inf", lambda: rng.choice([1.0, 4.5, 20.0, inf]), 8, inf),
    ):
        if rng.random() < 0.4:
            a.js.append({"nd": 0, "shape": [], "data": [Args.code(default, scale)]})
            if rng.random() < 0.5:
                kw[name] = None
        else:
            kw[name] = a.make(draw, scale)
    ref, out = result(lambda: penalty(l, c, r, penalty_sign=sign, **kw), 8)
    tr.add("penalty", args=a.js, cmp=c, sign=sign, refused=ref, out=out)


def barriers(tr, job):
    rng = random.Random(job)
    a = Args(rng)
    a.lead = a.lead or [3]
    side = lambda: rng.choice([rng.randint(-8, 8) / 2, rng.choice([-1, 0, 0.5, 1, 2, 4, 8, 16, 32])])  # noqa: E731
    c = rng.choice(["<=", ">="])
    sign = rng.choice("+-")
    l, r = a.make(side, 2, tensor=True, always=rng.random() < 0.7), a.make(lambda: rng.choice([0.0, side()]), 2)
    kw = {}
    if rng.random() < 0.5:
        kw["sharpness"] = a.make(lambda: rng.choice([1.0, 2.0, 4.0]), 1)
    else:
        a.js.append({"nd": 0, "shape": [], "data": [1]})
    if rng.random() < 0.5:
        kw["inf"] = a.make(lambda: rng.choice([0.25, 0.5, 1.0, 100.0, float("inf")]), 1000)
    else:
        a.js.append({"nd": 0, "shape": [], "data": [enc(float("inf"))]})
    ref, out = result(lambda: log_barrier(l, c, r, penalty_sign=sign, **kw), 1000, exact=False)
    tr.add("barrier", args=a.js, cmp=c, sign=sign, refused=ref, out=out)


def around(values):
    """Integers ordered like the given numbers, zero standing for zero."""
    s = sorted(set(values) | {0.0})
    return [s.index(v) - s.index(0.0) for v in values]


def series(tr, job):
    """One constraint, with sides which are equal, nearly equal, or far apart."""
    rng = random.Random(job)
    dtype = rng.choice([torch.float32, torch.float64])
    c = rng.choice(["<=", ">=", "=="])
    sign = rng.choice("+-")
    r = rng.choice([0.0, 0.0, 1.0, -3.0, 1024.0])
    eps = 2.0 ** (-20 if dtype == torch.float32 else -40) * max(abs(r), 1.0)
    ls = [r] + [r + rng.choice([-1, 1]) * eps * 2.0 ** rng.randint(0, 30) for _ in range(9)]
    if r == 0.0:
        ls += [rng.choice([-1, 1]) * 2.0 ** rng.randint(-60, 60) for _ in range(4)]
    l = torch.tensor(ls, dtype=dtype)
    const = rng.choice([1, 3])
    v = violation(l, c, r)
    line = penalty(l, c, r, penalty_sign=sign, linear=4.0) / 4
    step = penalty(l, c, r, penalty_sign=sign, step=const / 2) * 2
    codes = around(l.tolist() + [r])
    amounts = around(v.tolist() + line.abs().tolist())
    lines = [a if x > 0 else -a for a, x in zip(amounts[len(ls) :], line.tolist())]
    tr.add("series", l=codes[:-1], r=codes[-1], cmp=c, sign=sign, const=const, v=amounts[: len(ls)], line=lines, step=[enc(x) for x in step.tolist()])


def run(ctx):
    ctx.mc("MCPenalties")
    rng = ctx.rng("jobs")
    traces = ctx.record(series, [rng.randrange(1 << 60) for _ in range(ctx.pick(150, 1500))], procs=6)
    ctx.validate("PenaltiesTrace", traces, canary_keys=("v", "line", "step"), label="series")
    for fn, n in ((violations, ctx.pick(500, 4000)), (penalties, ctx.pick(1500, 12000)), (barriers, ctx.pick(700, 6000))):
        traces = ctx.record(fn, [rng.randrange(1 << 60) for _ in range(n)], procs=6)
        ctx.validate("PenaltiesTrace", traces, canary_keys=("out", "refused"), label=fn.__name__)
