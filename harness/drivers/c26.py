"""C26: networks judged by minibatches, validated against Supervised.tla."""

import copy
import pickle
import random

import simray

sim = simray.install()

import torch  # noqa: E402
from common import encs  # noqa: E402
from evotorch import SolutionBatch  # noqa: E402
from evotorch.neuroevolution import SupervisedNE  # noqa: E402
from torch import nn  # noqa: E402
from torch.utils.data import DataLoader, Dataset  # noqa: E402

LOG = []


def where():
    return -1 if sim.current is None else sim.current.index


class Items(Dataset):
    def __init__(self, size):
        self.size = size

    def __len__(self):
        return self.size

    def __getitem__(self, i):
        return torch.tensor([float(i + 1)]), torch.tensor([2.0 * (i + 1) + 1])


class Line(nn.Module):
    """Writes down what it sees. Its slope is different in each network of a request."""

    def __init__(self):
        super().__init__()
        self.slope = nn.Parameter(torch.zeros(1))
        self.shift = nn.Parameter(torch.zeros(1))

    def forward(self, x):
        LOG.append({"op": "see", "at": where(), "slope": int(self.slope), "items": [int(v) for v in x.reshape(-1)]})
        return self.slope * x + self.shift


def difference(y_hat, y):
    return (y_hat - y).sum()


def difference_float(y_hat, y):
    return float((y_hat - y).sum())


class Judged(SupervisedNE):
    def _evaluate_batch(self, batch):
        LOG.append({"op": "piece", "at": where()})
        return super()._evaluate_batch(batch)


class Own(Judged):
    """With its own data loader and loss."""

    def __init__(self, *args, size, **kw):
        self.batch_size = size
        super().__init__(*args, **kw)

    def _make_dataloader(self):
        return DataLoader(self.dataset, shuffle=self.batch_size % 2 == 0, batch_size=self.batch_size)

    def _loss(self, y_hat, y):
        return (y_hat - y).sum()


def one(tr, job):
    plan, seed = job
    rng = random.Random(seed)
    torch.manual_seed(rng.randrange(1 << 30))
    sim.reset(simray.scheduler_from([], rng))
    LOG.clear()
    kw = {"num_minibatches": plan["k"]} if plan["k"] > 1 or rng.random() < 0.5 else {}
    if not plan["common"] or rng.random() < 0.5:
        kw["common_minibatch"] = plan["common"]
    if plan["w"]:
        kw["num_actors"] = plan["w"]
        if plan["pieces"] == 1:
            kw["num_subbatches"] = rng.randint(1, 4)
        elif plan["pieces"] == 2:
            kw["subbatch_size"] = rng.randint(1, 3)
    if plan["own"]:
        p = Own(Items(plan["size"]), Line, size=plan["m"], **kw)
    else:
        p = Judged(Items(plan["size"]), Line, rng.choice([difference, difference_float]), minibatch_size=plan["m"], **kw)
    keys = {}

    def key(slot, at):
        return keys.setdefault(("main", slot) if at < 0 else at, len(keys) + 1)

    slot = slots = 0
    problems = [p]

    def note(nets):
        pieces, order = {}, []
        for e in LOG:
            at = e["at"]
            if e["op"] == "piece":
                pieces[at] = {"which": [], "seen": []}
                order.append((at, pieces[at]))
            else:
                piece = pieces[at]
                i = 1 + [n[0] for n in nets].index(e["slope"])
                if not piece["which"] or piece["which"][-1] != i:
                    piece["which"].append(i)
                    piece["seen"].append([])
                piece["seen"][-1].append(e["items"])
        LOG.clear()
        for at, piece in order:
            tr.add("piece", key=key(slot, at), **piece)

    last = None
    for op in plan["ops"]:
        p = problems[slot]
        if op["op"] in ("evaluate", "again", "single"):
            n = 1 if op["op"] == "single" else op["n"]
            if op["op"] == "again" and last is not None and last[0] == slot:
                batch = last[1]
                nets = last[2]
                if rng.random() < 0.5:
                    batch.forget_evals()
            else:
                nets = [[i, rng.randint(-3, 3)] for i in rng.sample(range(-6, 7), n)]
                batch = SolutionBatch(p, n, empty=True)
                batch.set_values(torch.tensor(nets, dtype=torch.float32))
            tr.add("request", nets=nets)
            if op["op"] == "single" and not plan["w"]:
                s = batch[0]
                p.evaluate(s)
            else:
                p.evaluate(batch)
            note(nets)
            tr.add("losses", twelve=encs(batch.evals[:, 0], scale=12, exact=False))
            last = (slot, batch, nets)
        elif op["op"] == "draw":
            x, y = p.get_minibatch()
            tr.add("draw", key=key(slot, -1), batch=encs(x.reshape(-1)))
        else:
            q = pickle.loads(pickle.dumps(p)) if op["op"] == "pickle" else copy.deepcopy(p) if rng.random() < 0.5 else p.clone()
            problems.append(q)
            slots += 1
            slot = rng.choice([slot, slots])
    tr.cfg.update(size=plan["size"], m=plan["m"], k=plan["k"], common=plan["common"], keys=max(1, len(keys)))


def run(ctx):
    ctx.mc("MCSupervised")
    cfg = "INIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    rng = ctx.rng("jobs")
    plans = ctx.gen("SupervisedGen", cfg, num=ctx.pick(700, 4000), depth=12)
    traces = ctx.record(one, [(p, rng.randrange(1 << 40)) for p in plans], procs=6)
    ctx.validate("SupervisedTrace", traces, canary_keys=("twelve", "seen", "batch"), label="minibatches")
    ctx.assumptions += ["the workers live in this process behind a replacement of Ray's process layer; each worker draws its own minibatches, as documented"]
