"""C23: networks given as flat parameter vectors, validated against Networks.tla."""

import math
import random

import rlenv
import torch
from common import encs
from drivers.c10 import refused
from drivers.c11 import Kept
from evotorch import SolutionBatch
from evotorch.neuroevolution import GymNE, NEProblem, VecGymNE
from evotorch.neuroevolution.net import (
    MultiLayered,
    Policy,
    count_parameters,
    fill_parameters,
    layers as etl,
    make_functional_module,
    parameter_vector,
    str_to_net,
)
from evotorch.neuroevolution.net.statefulmodule import StatefulModule, ensure_stateful
from torch import nn


class Tied(nn.Module):
    """The same linear map used twice."""

    def __init__(self, width):
        super().__init__()
        self.first = nn.Linear(width, width)
        self.second = self.first

    def forward(self, x):
        return self.second(self.first(x))


class Factors(nn.Module):
    """Fixed factors, kept in a buffer."""

    def __init__(self, width):
        super().__init__()
        self.register_buffer("factors", torch.arange(1, width + 1).to(torch.float32))

    def forward(self, x):
        return x * self.factors


ACTS = {"relu": "ReLU", "relu6": "ReLU6", "hardtanh": "Hardtanh", "round": "Round"}


def size(layer):
    k = layer["kind"]
    stack = 0
    if k in ("stack", "control"):
        w = layer["in"]
        for s in layer["stack"]:
            stack += s["size"] * (w + s["bias"])
            w = s["size"]
    if k in ("linear", "control", "waves"):
        return layer["out"] * (layer["in"] + layer["bias"]) + stack + (3 * layer["n"] * layer["out"] if k == "waves" else 0)
    if k == "stack":
        return stack
    if k == "rnn":
        return layer["out"] * (layer["in"] + layer["out"] + 2)
    if k == "tied":
        return layer["in"] * (layer["in"] + 1)
    return 0


class Writer:
    """Descriptions of networks in text."""

    def __init__(self, rng):
        self.rng = rng
        self.constants = {}

    def number(self, v):
        r = self.rng.random()
        if r < 0.5:
            return repr(v)
        name = f"c{len(self.constants)}"
        if r < 0.7:
            self.constants[name] = v
            return name
        if r < 0.85:
            self.constants[name] = [99, v, 98]
            return f"{name}[1]"
        self.constants[name] = {"no": 97, "yes": v}
        return f"{name}['yes']"

    def call(self, name, *args, named=()):
        """args: (keyword, value); those in `named` can be given only by keyword"""
        kw = self.rng.random() < 0.4
        parts, later = [], []
        for k, v in args:
            text = self.number(v) if isinstance(v, int) and not isinstance(v, bool) else repr(v)
            if k in named or kw:
                later.append(f"{k}={text}")
            else:
                parts.append(text)
        if kw:
            self.rng.shuffle(later)
        return f"{name}({', '.join(parts + later)})"

    def layer(self, layer):
        k = layer["kind"]
        rng = self.rng
        if k == "linear":
            return self.call("Linear", ("in_features", layer["in"]), ("out_features", layer["out"]), *([("bias", layer["bias"])] if not layer["bias"] or rng.random() < 0.5 else []))
        if k == "rnn":
            return self.call(rng.choice(["RNN", "RecurrentNet"]), ("input_size", layer["in"]), ("hidden_size", layer["out"]), ("nonlinearity", layer["act"]))
        if k == "stack":
            return self.call("FeedForwardNet", ("input_size", layer["in"]), ("layers", stack(layer, rng)))
        if k == "control":
            a = control(layer)
            return self.call("StructuredControlNet", *a.items(), named=tuple(a))
        if k == "act":
            return f"{ACTS[layer['act']]}()"
        if k == "clip":
            return self.call("Clip", ("lb", layer["lo"]), ("ub", layer["hi"]))
        if k == "bin":
            return self.call("Bin", ("lb", layer["lo"]), ("ub", layer["hi"]))
        if k == "slice":
            return self.call("Slice", ("from_index", layer["lo"]), ("to_index", layer["hi"]))
        if k == "apply":
            return self.call("Apply", ("operator", layer["op"]), ("argument", layer["arg"]))
        if k == "waves":
            a = waves_args(layer)
            return self.call("LocomotorNet", *a.items(), named=tuple(a))
        return None

    def join(self, parts):
        if len(parts) == 1:
            return f"({parts[0]})" if self.rng.random() < 0.2 else parts[0]
        if self.rng.random() < 0.5:
            return self.rng.choice([" >> ", ">>", "\n  >> "]).join(parts)
        k = self.rng.randrange(1, len(parts))
        left, right = self.join(parts[:k]), self.join(parts[k:])
        return f"({left}) >> ({right})" if self.rng.random() < 0.7 else f"{left} >> ({right})"


def stack(layer, rng):
    out = []
    for s in layer["stack"]:
        act = None if s["act"] == "none" else s["act"]
        out.append((s["size"], act) if s["bias"] and rng.random() < 0.5 else (s["size"], act, s["bias"]))
    return out


def control(layer):
    return dict(in_features=layer["in"], out_features=layer["out"], num_layers=layer["layers"], hidden_size=layer["hidden"], bias=layer["bias"], nonlinearity=layer["act"])


def waves_args(layer):
    return dict(in_features=layer["in"], out_features=layer["out"], bias=layer["bias"], num_sinusoids=layer["n"])


def made(layer, rng):
    """The layer, without text."""
    k = layer["kind"]
    if k == "linear":
        return nn.Linear(layer["in"], layer["out"], bias=layer["bias"])
    if k == "rnn":
        return etl.RNN(layer["in"], layer["out"], layer["act"])
    if k == "stack":
        return etl.FeedForwardNet(layer["in"], stack(layer, rng))
    if k == "control":
        return etl.StructuredControlNet(**control(layer))
    if k == "act":
        return {"relu": nn.ReLU, "relu6": nn.ReLU6, "hardtanh": nn.Hardtanh, "round": etl.Round}[layer["act"]]()
    if k == "clip":
        return etl.Clip(layer["lo"], layer["hi"])
    if k == "bin":
        return etl.Bin(layer["lo"], layer["hi"])
    if k == "slice":
        return etl.Slice(layer["lo"], layer["hi"])
    if k == "apply":
        return etl.Apply(layer["op"], layer["arg"])
    if k == "tied":
        return Tied(layer["in"])
    if k == "buffer":
        return Factors(layer["in"])
    return etl.LocomotorNet(**waves_args(layer))


def chained(net, rng):
    parts = [made(layer, rng) for layer in net]
    if len(parts) > 2 and rng.random() < 0.4:
        k = rng.randrange(1, len(parts))
        return MultiLayered(MultiLayered(*parts[:k]), *parts[k:])
    if all(layer["kind"] not in ("rnn", "waves") for layer in net) and rng.random() < 0.3:
        return nn.Sequential(*parts)
    if len(parts) == 1 and rng.random() < 0.7:
        return parts[0]
    return MultiLayered(*parts)


class Built:
    def __init__(self, net):
        self.net = net

    def __call__(self):
        return chained(self.net, random.Random(0))


class Case:
    def __init__(self, tr, job):
        self.tr = tr
        plan, seed = job
        rng = self.rng = random.Random(seed)
        self.plan = plan
        self.layers = plan["net"]
        self.n = plan["n"]
        self.width = plan["width"]
        tr.cfg.update(net=self.layers)
        writer = Writer(rng)
        texts = [writer.layer(layer) for layer in self.layers]
        self.text = writer.join(texts) if all(texts) else None
        self.constants = writer.constants
        tr.meta["text"] = self.text or ""
        self.N = sum(size(layer) for layer in self.layers)
        self.dtype = torch.float64 if rng.random() < 0.2 else torch.float32

    # ---- pieces
    def module(self):
        net = str_to_net(self.text, **self.constants) if self.text and self.rng.random() < 0.8 else chained(self.layers, self.rng)
        if self.rng.random() < 0.3:
            # some parameters are not to be trained by gradients; a flat vector holds them all the same
            for q in net.parameters():
                q.requires_grad_(self.rng.random() < 0.5)
        return net.to(self.dtype)

    def vector(self):
        return [self.rng.randint(-2, 2) for _ in range(self.N)]

    def tensor(self, p, dtype=None):
        return torch.tensor(p, dtype=dtype or self.dtype)

    def x(self):
        return [self.rng.randint(-3, 3) for _ in range(self.width)]

    def inputs(self):
        return [[self.x() for _ in range(self.rng.randint(1, 4))] for _ in range(2)]

    def played(self, net, xs, dtype=None, fresh=True):
        """Outputs for sequences of inputs; the memory is cleared before each of them."""
        out = []
        for k, seq in enumerate(xs):
            if (fresh or k > 0) and hasattr(net, "reset"):
                net.reset()
            with torch.no_grad():
                out.append([self.seen(net(self.tensor(x, dtype))) for x in seq])
        return out

    def seen(self, y):
        return encs(y)

    def play(self, way, net, p, xs, dtype=None, fresh=True):
        self.tr.add("play", way=way, p=p, xs=xs, ys=self.played(net, xs, dtype, fresh))

    # ---- ways of using a vector
    def filled(self):
        tr = self.tr
        net = self.module()
        f = make_functional_module(net)
        tr.add("length", lengths=[count_parameters(net), f.parameter_length, Policy(self.module()).parameter_length, len(parameter_vector(net))])
        held = []
        for p in (self.vector(), self.vector()):
            v = self.tensor(p)
            kept = Kept(v)
            fill_parameters(net, v.numpy() if self.rng.random() < 0.2 else v)
            tr.add("read", p=p, back=encs(parameter_vector(net)))
            self.play("filled", ensure_stateful(net), p, self.inputs())
            tr.add("kept", kept=kept())
            v.add_(1)
            held.append((p, parameter_vector(net)))
            for p, back in held:
                tr.add("read", p=p, back=encs(back))
        before = encs(parameter_vector(net))
        for n in sorted({0, 1, self.N - 1, self.N, self.N + 1, self.N + self.rng.randint(2, 9), 2 * self.N}):
            if n == self.N:
                continue
            no = refused(lambda: fill_parameters(net, torch.full((n,), 7, dtype=self.dtype)))
            tr.add("wrong", way="fill", length=n, refused=no, before=before, after=encs(parameter_vector(net)))
            no = refused(lambda: f(torch.full((n,), 7, dtype=self.dtype), self.tensor(self.x())))
            tr.add("wrong", way="function", length=n, refused=no, before=[], after=[])

    def function(self):
        tr = self.tr
        net = self.module()
        f = make_functional_module(net, disable_autograd_tracking=self.rng.random() < 0.5)
        if self.rng.random() < 0.5 and self.N:
            fill_parameters(net, self.tensor([5] * self.N))  # of no concern to the functional form
        p = self.vector()
        v = self.tensor(p)
        steps, hs, ys, given = [], [], [], [v]
        for k in range(6):
            back = self.rng.randint(0, k) if self.rng.random() < 0.5 else k
            x = self.x()
            t = self.tensor(x)
            args = [t]
            if back and hs[back - 1] is not None:
                args.append(hs[back - 1])
            out = f(v, *args)
            y, h = out if isinstance(out, tuple) else (out, None)
            hs.append(h)
            ys.append(y)
            given += [t, y]
            if k == 0:
                kept = Kept(v, t, y)
            steps.append({"x": x, "from": back})
        tr.add("function", p=p, steps=steps, ys=[encs(y.detach()) for y in ys])
        tr.add("kept", kept=kept())

    def batch(self):
        """Policies used together."""
        tr, rng = self.tr, self.rng
        solo = self.n == 1 and rng.random() < 0.5
        how = rng.random()
        if self.text and how < 0.4:
            policy = Policy(self.text, **self.constants)
            dtype = torch.float32
        elif how < 0.6:
            policy = Policy(Built(self.layers))
            dtype = torch.float32
        else:
            policy = Policy(self.module())
            dtype = self.dtype
        tr.add("wrong", way="call before parameters", length=-1, refused=refused(lambda: policy(torch.zeros(self.n, self.width))), before=[], after=[])
        ps = [self.vector() for _ in range(self.n)]
        given = self.tensor(ps, dtype)[0].clone() if solo else self.tensor(ps, dtype)
        kept = [Kept(given)]
        policy.set_parameters(given)
        tr.add("policies", ps=ps)
        self.call(policy, solo, dtype, kept)
        for op in self.plan["ops"]:
            is_ = list(op["is"])
            form = "all" if solo else op["form"]
            if form == "int":
                first = is_.index(True)
                is_ = [i == first for i in range(self.n)]
            elif form == "all":
                is_ = [True] * self.n
            where = [i for i in range(self.n) if is_[i]]
            index = {"mask": torch.tensor(is_), "list": where, "tensor": torch.tensor(where), "int": where[0], "all": None}[form]
            if op["op"] == "set":
                ps = [self.vector() for _ in range(self.n)]
                t = self.tensor(ps, dtype)
                t = t[0].clone() if solo or form == "int" and where[0] == 0 else t[where[0]].clone() if form == "int" else t[where].clone()
                kept.append(Kept(t))
                policy.set_parameters(t, *([] if index is None else [index]), reset=op["fresh"])
                tr.add("set", **{"is": is_}, ps=ps, fresh=op["fresh"])
            elif op["op"] == "reset":
                if op["fresh"] or rng.random() < 0.7:
                    h = policy.h
                    if torch.is_tensor(h):
                        kept.append(Kept(h))
                    policy.reset(*([] if index is None else [index]))
                else:
                    kept = []  # memories may be overwritten from now on
                    policy.reset(*([] if index is None else [index]), copy=False)
                tr.add("reset", **{"is": is_})
            self.call(policy, solo, dtype, kept)
        shown = policy.parameters
        tr.add("parameters", ps=encs(shown.unsqueeze(0) if solo else shown))
        tr.add("kept", kept=all(k() for k in kept))
        for n in {1, self.N - 1, self.N + 1}:
            if n != self.N:
                bad = torch.full((n,) if solo else (self.n, n), 7, dtype=dtype)

                def use():
                    policy.set_parameters(bad)
                    policy(torch.zeros(self.width, dtype=dtype) if solo else torch.zeros(self.n, self.width, dtype=dtype))

                tr.add("wrong", way="policies", length=n, refused=refused(use), before=[], after=[])

    def call(self, policy, solo, dtype, kept):
        xs = [self.x() for _ in range(self.n)]
        t = self.tensor(xs, dtype)
        k = Kept(t)
        y = policy(t[0] if solo else t)
        self.tr.add("call", xs=xs, ys=encs((y.unsqueeze(0) if solo else y).detach()))
        self.tr.add("kept", kept=k())

    def export(self):
        tr, rng = self.tr, self.rng
        module = self.module()
        policy = Policy(module)
        if rng.random() < 0.5:
            # it has been used before
            policy.set_parameters(self.tensor([self.vector() for _ in range(2)]))
            policy(self.tensor([self.x(), self.x()]))
        p, q = self.vector(), self.vector()
        v, w = self.tensor(p), self.tensor(q)
        first = ensure_stateful(policy.to_torch_module(v))
        second = ensure_stateful(policy.to_torch_module(w))
        self.play("exported", first, p, self.inputs())
        self.play("exported again", second, q, self.inputs())
        kept = Kept(w)
        with torch.no_grad():
            v.mul_(3).add_(1)
        self.play("exported, its vector gone", first, p, self.inputs())
        if self.N:
            fill_parameters(second, self.tensor([4] * self.N))
        tr.add("kept", kept=kept())
        for n in {self.N - 1, self.N + 1, self.N + 4}:
            if n != self.N:
                tr.add("wrong", way="export", length=n, refused=refused(lambda: policy.to_torch_module(torch.full((max(n, 0),), 7, dtype=self.dtype))), before=[], after=[])

    def problem(self):
        """The same through problems whose solutions are networks."""
        tr, rng = self.tr, self.rng
        if not self.N:
            return
        seen = []
        xs = self.inputs()

        def watch(net):
            seen.append((encs(parameter_vector(net)), self.played(ensure_stateful(net), xs, torch.float32)))
            return 1.0

        self.dtype = torch.float32
        if self.text and rng.random() < 0.6:
            network, args = self.text, self.constants
        elif rng.random() < 0.5:
            network, args = Built(self.layers), {}
        else:
            network, args = chained(self.layers, rng).to(torch.float32), {}
        p = NEProblem("min", network, watch, network_args=args)
        vs = [self.vector() for _ in range(3)]
        batch = SolutionBatch(p, 3, empty=True)
        batch.set_values(self.tensor(vs))
        p.evaluate(batch)
        tr.add("length", lengths=[p.solution_length])
        for v, (back, ys) in zip(vs, seen):
            tr.add("read", p=v, back=back)
            tr.add("play", way="evaluated", p=v, xs=xs, ys=ys)
        a, b = self.vector(), self.vector()
        t = self.tensor(a)
        first = ensure_stateful(p.make_net(rng.choice([t, a, batch[0]])))
        if not torch.is_tensor(first):
            pass
        given = encs(parameter_vector(first))
        tr.add("read", p=vs[0] if given == vs[0] else a, back=given)
        a = given
        second = ensure_stateful(p.parameterize_net(self.tensor(b)))
        self.play("made", first, a, self.inputs())
        t.add_(1)
        self.play("parameterised", second, b, self.inputs())
        self.play("made", first, a, self.inputs())
        for n in {self.N - 1, self.N + 1}:
            before = encs(parameter_vector(p.parameterize_net(self.tensor(b))))
            no = refused(lambda: p.make_net(torch.full((n,), 7.0)))
            tr.add("wrong", way="make", length=n, refused=no, before=before, after=encs(parameter_vector(second)))

    def gym(self):
        tr, rng = self.tr, self.rng
        if not self.N:
            return
        rng_state = rng.getstate()
        self.dtype = torch.float32
        net = chained(self.layers, rng)
        acts = len(self.played(ensure_stateful(net), [[self.x()]])[0][0])
        rlenv.fresh(seed=rng.randrange(1 << 30), length=self.width, acts=acts, bound=1e6, longest=3)
        rng.setstate(rng_state)
        kind = rng.choice(["one", "vec"])
        if self.text and rng.random() < 0.5:
            network, args = self.text, self.constants
        else:
            network, args = Built(self.layers), {}
        if rng.random() < 0.3 and self.text is None:
            network, args = StatefulModule(chained(self.layers, rng)) if kind == "one" else chained(self.layers, rng), {}
        p = (GymNE if kind == "one" else VecGymNE)(rlenv.NAME, network, network_args=args, observation_normalization=False, decrease_rewards_by=0.0)
        batch = SolutionBatch(p, 3, empty=True)
        batch.set_values(self.tensor([self.vector() for _ in range(3)]))
        if rng.random() < 0.7:
            p.evaluate(batch)
        v = self.vector()
        t = self.tensor(v)
        policy = p.to_policy(t)
        policy = ensure_stateful(policy)
        t.add_(1)
        self.play("policy of a problem", policy, v, self.inputs(), fresh=False)
        if rng.random() < 0.7:
            p.evaluate(batch)
        self.play("policy of a problem, later", policy, v, self.inputs())

    def strange(self):
        if not self.text:
            return
        tr = self.tr
        for what, text in (
            ("unknown layer", self.text + " >> NoSuchLayer(3)"),
            ("unknown constant", self.text + " >> Linear(nowhere, 2)"),
            ("unknown element", self.text + " >> Linear(some[5], 2)"),
            ("other operator", self.text + " + ReLU()"),
            ("not a layer", self.text + " >> 3"),
            ("incomplete", self.text + " >>"),
        ):
            tr.add("strange", what=what, refused=refused(lambda: str_to_net(text, some=[1, 2], **self.constants)))


def one(tr, job):
    case = Case(tr, job)
    for part in case.rng.sample(["filled", "function", "batch", "export", "problem"], 5):
        if case.N or part in ("function",):
            getattr(case, part)()
    if case.rng.random() < 0.4:
        case.gym()
    case.strange()


class Waves(Case):
    """Networks with a clock: angles are written in quarters of a turn."""

    def angles(self):
        out, off = [], 0
        for layer in self.layers:
            k = size(layer)
            if layer["kind"] == "waves":
                m = layer["n"] * layer["out"]
                out += list(range(off + k - 2 * m, off + k))
            off += k
        return out

    def tensor(self, p, dtype=None):
        t = torch.tensor(p, dtype=dtype or self.dtype)
        if t.ndim and t.shape[-1] == self.N:
            t[..., self.angles()] *= math.pi / 2
        return t

    def seen(self, y):
        return encs([round(float(v), 3) for v in y])

    def run(self):
        self.dtype = torch.float32
        net = self.module()
        for p in (self.vector(), self.vector()):
            fill_parameters(net, self.tensor(p))
            self.play("filled", ensure_stateful(net), p, self.inputs())
        problem = NEProblem("min", self.text, lambda net: float(net(torch.zeros(self.width)).sum()), network_args=self.constants)
        problem.evaluate(problem.generate_batch(self.rng.randint(1, 5)))
        p, q = self.vector(), self.vector()
        first = ensure_stateful(problem.make_net(self.tensor(p)))
        second = ensure_stateful(problem.make_net(self.tensor(q)))
        self.play("made", first, p, self.inputs(), fresh=False)
        self.play("made", second, q, self.inputs(), fresh=False)
        rlenv.fresh(seed=self.rng.randrange(1 << 30), length=self.width, acts=self.layers[-1]["out"], bound=1e6, longest=3)
        one = GymNE(rlenv.NAME, self.text, network_args=self.constants, observation_normalization=False)
        batch = one.generate_batch(3)
        batch.set_values(self.tensor([self.vector() for _ in range(3)]))
        one.evaluate(batch)
        p = self.vector()
        self.play("policy of a problem", ensure_stateful(one.to_policy(self.tensor(p))), p, self.inputs(), fresh=False)


def waves(tr, job):
    case = Waves(tr, job)
    case.N = sum(size(layer) for layer in case.layers)
    case.run()


def waves_together(tr, job):
    """Clocks in policies which are used together."""
    case = Waves(tr, job)
    case.dtype = torch.float32
    tr.meta["finding"] = "clock-shared"
    policy = Policy(case.text, **case.constants)
    ps = [case.vector(), case.vector()]
    policy.set_parameters(case.tensor(ps))
    tr.add("policies", ps=ps)
    for which in ([], [True, False], [True, True]):
        if which:
            policy.reset(torch.tensor(which))
            tr.add("reset", **{"is": which})
        for _ in range(2):
            xs = [case.x(), case.x()]
            y = policy(case.tensor(xs))
            tr.add("call", xs=xs, ys=[case.seen(v) for v in y.detach()])


def smooth(tr, job):
    """Networks with real numbers: all ways of using them, and torch's own layers, agree."""
    seed = job
    rng = random.Random(seed)
    torch.manual_seed(rng.randrange(1 << 30))
    a, b, c, d = (rng.randint(1, 3) for _ in range(4))
    tr.cfg.update(net=[])
    parts, ref = [], []
    widths = [a]
    for _ in range(rng.randint(1, 4)):
        i, o = widths[-1], rng.randint(1, 3)
        kind = rng.choice(["LSTM", "LSTM", "LSTMNet", "RNN", "Linear", "Tanh", "ELU"])
        if kind in ("LSTM", "LSTMNet"):
            parts.append(f"{kind}({i}, {o})")
            ref.append(nn.LSTM(i, o))
        elif kind == "RNN":
            parts.append(f"RNN({i}, {o})")
            ref.append(nn.RNN(i, o))
        elif kind == "Linear":
            parts.append(f"Linear({i}, {o})")
            ref.append(nn.Linear(i, o))
        else:
            o = i
            parts.append(f"{kind}()")
            ref.append(getattr(nn, kind)())
        widths.append(o)
    i, o = widths[-1], 2
    act = rng.choice(["tanh", "selu", "elu", "sigmoid"])
    parts.append(f"FeedForwardNet({i}, [({o}, '{act}')])")
    ref.append(nn.Sequential(nn.Linear(i, o), {"tanh": nn.Tanh, "selu": nn.SELU, "elu": nn.ELU, "sigmoid": nn.Sigmoid}[act]()))
    text = " >> ".join(parts)
    tr.meta["text"] = text
    ref = nn.ModuleList(ref)
    net = str_to_net(text)
    n = count_parameters(net)
    tr.add("alike", way="number of parameters", a=[n], b=[sum(q.numel() for q in ref.parameters())], within=0)

    class Reference:
        def __init__(self, v):
            self.v = v
            self.h = [None] * len(ref)

        @torch.no_grad()
        def __call__(self, x):
            off = 0
            for q in ref.parameters():
                q.data.copy_(self.v[off : off + q.numel()].reshape(q.shape))
                off += q.numel()
            x = x.reshape(1, -1)
            for k, m in enumerate(ref):
                if isinstance(m, (nn.LSTM, nn.RNN)):
                    x, self.h[k] = m(x, self.h[k])
                else:
                    x = m(x)
            return x[0]

        def reset(self):
            self.h = [None] * len(ref)

    def show(ys):
        return encs(torch.stack([y.detach() for y in ys]).reshape(-1), scale=100000, exact=False)

    v = torch.randn(n)
    xs = [torch.randn(a) for _ in range(4)]
    r = Reference(v)
    expected = show([r(x) for x in xs])
    fill_parameters(net, v)
    plain = ensure_stateful(net)
    for again in ("filled", "filled, after reset"):
        tr.add("alike", way=again, a=show([plain(x) for x in xs]), b=expected, within=20)
        plain.reset()
    policy = Policy(net)
    exported = ensure_stateful(policy.to_torch_module(v))
    tr.add("alike", way="exported", a=show([exported(x) for x in xs]), b=expected, within=20)
    f = make_functional_module(net)
    ys, h = [], None
    for x in xs:
        out = f(v, x) if h is None else f(v, x, h)
        y, h = out if isinstance(out, tuple) else (out, None)
        ys.append(y)
    tr.add("alike", way="functional form", a=show(ys), b=expected, within=20)
    vs = torch.randn(3, n)
    policy.set_parameters(vs)
    refs = [Reference(w) for w in vs]
    for _ in range(4):
        for _ in range(2):
            x = torch.randn(3, a)
            tr.add("alike", way="together", a=show(list(policy(x))), b=show([q(z) for q, z in zip(refs, x)]), within=20)
        which = [rng.random() < 0.5 for _ in range(3)]
        policy.reset(torch.tensor(which))
        for q, no in zip(refs, which):
            if no:
                q.reset()


def run(ctx):
    ctx.mc("MCNetworks")
    cfg = "INIT GInit\nNEXT GNext\nCONSTANTS MaxLayers = 4\nMaxOps = 7\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    rng = ctx.rng("jobs")
    plans = ctx.gen("NetworksGen", cfg, num=ctx.pick(500, 4000), depth=40)
    traces = ctx.record(one, [(p, rng.randrange(1 << 40)) for p in plans], procs=6)
    ctx.validate("NetworksTrace", traces, canary_keys=("ys", "back", "ps", "lengths"), label="networks")
    clocks = []
    for _ in range(ctx.pick(40, 200)):
        i, o, n = (rng.randint(1, 3) for _ in range(3))
        layer = {"kind": "waves", "in": i, "out": o, "bias": rng.random() < 0.5, "n": n}
        clocks.append(({"net": [layer], "n": 2, "width": i, "ops": []}, rng.randrange(1 << 40)))
    traces = ctx.record(waves, clocks, procs=6)
    ctx.validate("NetworksTrace", traces, canary_keys=("ys",), label="clocks")
    traces = ctx.record(waves_together, clocks[:3], procs=3)
    ctx.validate("NetworksTrace", traces, canary_keys=("ys",), label="clocks together")
    traces = ctx.record(smooth, [rng.randrange(1 << 40) for _ in range(ctx.pick(60, 400))], procs=6)
    ctx.validate("NetworksTrace", traces, canary_keys=("a",), label="real numbers")
    ctx.assumptions += ["weights and inputs are small integers, for which the layers compute exactly; torch's own layers are trusted where numbers are real (compared within 0.0002)"]
