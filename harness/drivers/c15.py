"""C15: operation sequences generated from Structures.tla, replayed into the batched containers."""

import torch

from common import Trace, encs
from evotorch.tools.structures import CBag, CDict, CList, CMemory


def make(c, rng):
    dts = {"float": [torch.float32, torch.float64], "int": [torch.int64, torch.int32], "bool": [torch.bool]}[c["dt"]]
    if c["kind"] == "bag":
        dts = [torch.int64, torch.int32, torch.int16]
    dtype = rng.choice(dts)
    kw = {"dtype": rng.choice([dtype, str(dtype).split(".")[1]]), "verify": c["verify"]}
    if c["batched"]:
        b = tuple(c["bshape"])
        if len(b) == 1 and rng.random() < 0.5:
            b = b[0]
        kw[rng.choice(["batch_size", "batch_shape"])] = b
    elif rng.random() < 0.3:
        kw["batch_size"] = None
    size = tuple(c["vshape"])
    if len(size) > 0 and rng.random() < 0.3:
        size = (size,)
    if c["kind"] == "list":
        return CList(*size, max_length=c["cap"], **kw), dtype
    if c["kind"] == "bag":
        if rng.random() < 0.5:
            kw["generator"] = torch.Generator().manual_seed(rng.randrange(1 << 30))
        if not (c["lo"] == 0 and c["hi"] == c["cap"] and rng.random() < 0.5):
            kw["value_range"] = (c["lo"], c["hi"])
        return CBag(max_length=c["cap"], **kw), dtype
    d, o = c["dims"], c["off"]
    kw["num_keys"] = d[0] if len(d) == 1 else rng.choice([tuple, list])(d)
    if any(o):
        if len(d) == 1:
            kw["key_offset"] = o[0]
        elif len(set(o)) == 1 and rng.random() < 0.5:
            kw["key_offset"] = o[0]
        else:
            kw["key_offset"] = tuple(o)
    if c["kind"] == "mem":
        return CMemory(*size, fill_with=c["fill"] / c["scale"] if c["dt"] == "float" else c["fill"], **kw), dtype
    return CDict(*size, **kw), dtype


class Args:
    """Turns the per-element arguments of the specification into one of the accepted forms of arguments."""

    def __init__(self, c, dtype, rng):
        self.c, self.dtype, self.rng = c, dtype, rng

    def key(self, keys, same):
        c = self.c
        multi = c["kind"] != "list" and len(c["dims"]) > 1
        ks = [k if multi else k[0] for k in keys]
        if all(k == ks[0] for k in ks) and (same or not c["batched"]):
            f = self.rng.choice(["plain", "tensor", "full"]) if c["batched"] else self.rng.choice(["plain", "tensor"])
            if f == "plain":
                return tuple(ks[0]) if multi else ks[0]
            if f == "tensor":
                return torch.tensor(ks[0])
        t = torch.tensor(ks).reshape(tuple(c["bshape"]) + ((len(c["dims"]),) if multi else ()))
        return t.tolist() if self.rng.random() < 0.2 else t

    def value(self, vals, dtype=None):
        c = self.c
        dt = self.dtype
        if c["dt"] == "float":
            t = torch.tensor(vals, dtype=torch.float64) / c["scale"]
        else:
            t = torch.tensor(vals)
        t = t.to(dt)
        flat = t.reshape(-1)
        forms = ["full"]
        if bool((flat == flat[0]).all()):
            forms += ["scalar", "pyscalar"]
        if bool((t == t[0]).all()):
            forms.append("one")
        f = self.rng.choice(forms)
        if f == "scalar":
            return flat[0].clone()
        if f == "pyscalar":
            return flat[0].item()
        if f == "one":
            return t[0].reshape(tuple(c["vshape"])).clone()
        return t.reshape(tuple(c["bshape"]) + tuple(c["vshape"]))

    def where(self, mask, sm):
        if all(mask) and sm != 1:
            return None
        t = torch.tensor(mask).reshape(tuple(self.c["bshape"]))
        return t.tolist() if self.rng.random() < 0.2 else t


def flat(c, t):
    """per element, flattened value"""
    return encs(t.reshape(c["n"], -1), c["scale"])


def observe(c, x):
    n = c["n"]
    sc = c["scale"]
    if c["kind"] == "mem":
        return {"val": encs(x.data.reshape(n, -1, c["vlen"]), sc)}
    if c["kind"] == "dict":
        import itertools

        has, val = [], []
        for idx in itertools.product(*[range(d) for d in c["dims"]]):
            key = [i + o for i, o in zip(idx, c["off"])]
            key = tuple(key) if len(key) > 1 else key[0]
            has.append([bool(b) for b in x.contains(key).reshape(n).tolist()])
            val.append(encs(x.get(key).reshape(n, -1), sc, exact=False))
        return {"has": [list(r) for r in zip(*has)], "val": [list(r) for r in zip(*val)]}
    lens = [int(k) for k in torch.as_tensor(x.length).reshape(n).tolist()]
    if c["kind"] == "bag":
        return {"len": lens}
    val = [[] for _ in range(n)]
    for k in range(max(lens)):
        r = flat(c, x.get(k, 0))
        for i in range(n):
            if k < lens[i]:
                val[i].append(r[i])
    return {"len": lens, "val": val}


def execute(tr, job):
    import random

    prog, seed = job
    rng = random.Random(seed)
    torch.manual_seed(rng.randrange(1 << 30))
    c = dict(prog["cfg"])
    tr.cfg = c
    x, dtype = make(c, rng)
    a = Args(c, dtype, rng)
    tr.add("info", batched=bool(x.is_batched), bshape=list(x.batch_shape), vshape=list(x.value_shape), obs=observe(c, x))
    for o in prog["ops"]:
        name = o["name"]
        key, val = a.key(o["keys"], o["same"]), a.value(o["vals"])
        where = a.where(o["mask"], o["sm"])
        kw = {} if where is None else {"where": where}
        e = {k: o[k] for k in ("keys", "vals", "mask", "mods", "hasdef")}
        e["exc"] = False
        e["res"] = []
        try:
            if name == "get":
                if c["kind"] != "mem" and o["hasdef"]:
                    r = x.get(key, val) if rng.random() < 0.5 else x.get(key, default=val)
                else:
                    e["hasdef"] = False
                    r = x[key] if rng.random() < 0.5 else x.get(key)
                e["res"] = flat(c, r)
            elif name == "contains":
                e["res"] = [bool(b) for b in x.contains(key).reshape(c["n"]).tolist()]
            elif name == "set":
                if where is None and rng.random() < 0.5:
                    x[key] = val
                else:
                    x.set_(key, val, **kw)
            elif name == "add":
                x.add_(key, val, **kw)
            elif name == "sub":
                x.subtract_(key, val, **kw)
            elif name == "mul":
                x.multiply_(key, val, **kw)
            elif name == "div":
                x.divide_(key, val, **kw)
            elif name == "circ":
                m = o["mods"][0][0]
                x.add_circular_(key, val, m / c["scale"] if c["dt"] == "float" else m, **kw)
            elif name == "append":
                (x.append_ if rng.random() < 0.5 else x.push_)(val, **kw)
            elif name == "push":
                x.push_(val, **kw)
            elif name == "appendleft":
                x.appendleft_(val, **kw)
            elif name == "pop":
                e["res"] = flat(c, x.pop_(**kw))
            elif name == "popleft":
                e["res"] = flat(c, x.popleft_(**kw))
            elif name == "clear":
                x.clear() if c["kind"] == "bag" else x.clear(**kw)
        except Exception as ex:
            e["exc"] = True
            e["err"] = type(ex).__name__
        e["obs"] = observe(c, x)
        tr.add(name, **e)


def drains(rng, n):
    """Bags that are filled and then emptied completely, so that the whole multiset is seen again."""
    for _ in range(n):
        bshape, items = rng.choice([([], 1), ([3], 3), ([2, 2], 4), ([2, 3], 6)])
        lo = rng.choice([-3, 0, 1, 2, 5])
        cap = rng.randint(1, 9)
        hi = lo + rng.randint(1, 12)
        c = {
            "kind": "bag", "n": items, "bshape": bshape, "batched": bool(bshape), "cap": cap, "dims": [cap], "off": [0],
            "dt": "int", "scale": 1, "fill": 0, "vlen": 1, "vshape": [], "verify": True, "lo": lo, "hi": hi,
        }
        ops = []
        fill = rng.randint(0, cap)
        for rep in range(2):
            for k in range(fill + fill + 1):
                name = "push" if k < fill else "pop"
                mask = [True] * items if rng.random() < 0.7 else [rng.random() < 0.5 for _ in range(items)]
                sm = 2 if all(mask) else 1
                ops.append({
                    "name": name, "keys": [[0]] * items, "vals": [[rng.randrange(lo, hi)] for _ in range(items)],
                    "mods": [[1]] * items, "mask": mask, "hasdef": False, "sm": sm, "same": True,
                })
            ops.append({
                "name": "clear", "keys": [[0]] * items, "vals": [[lo]] * items, "mods": [[1]] * items,
                "mask": [True] * items, "hasdef": False, "sm": 2, "same": True,
            })
        yield {"cfg": c, "ops": ops}


def deques(rng, n):
    """Longer lists that are filled and emptied from both ends, several times over."""
    for _ in range(n):
        bshape, items = rng.choice([([], 1), ([3], 3), ([2, 2], 4)])
        cap = rng.randint(5, 12)
        c = {
            "kind": "list", "n": items, "bshape": bshape, "batched": bool(bshape), "cap": cap, "dims": [cap], "off": [0],
            "dt": "int", "scale": 1, "fill": 0, "vlen": 1, "vshape": [], "verify": True, "lo": 0, "hi": 0,
        }
        ops = []
        for rep in range(3):
            for names in (["append", "append", "appendleft"], ["set", "add", "get"], ["pop", "popleft"]):
                side = rng.random() < 0.4
                for k in range(rng.randint(cap // 2, cap) if names[0] != "set" else 4):
                    name = names[0] if side and names[0] != "set" else rng.choice(names)
                    mask = [True] * items if name == "get" or rng.random() < 0.7 else [rng.random() < 0.5 for _ in range(items)]
                    key = [[rng.randint(-cap, cap - 1) if rng.random() < 0.5 else rng.randint(-2, 2)] for _ in range(items)]
                    ops.append({
                        "name": name, "keys": key, "vals": [[rng.randint(-9, 9)] for _ in range(items)],
                        "mods": [[1]] * items, "mask": mask, "hasdef": name == "get" and rng.random() < 0.5,
                        "sm": 2 if all(mask) else 1, "same": False,
                    })
        yield {"cfg": c, "ops": ops}


def shuffled(tr, job):
    """Equal bags, emptied: which item comes out first, and which last."""
    import random

    rng = random.Random(job)
    torch.manual_seed(rng.randrange(1 << 30))
    k = rng.choice([3, 4, 5])
    lanes = 800
    kw = {}
    if rng.random() < 0.5:
        kw["generator"] = torch.Generator().manual_seed(rng.randrange(1 << 30))
    bag = CBag(max_length=k + rng.choice([0, 2]), value_range=(0, k), batch_size=lanes, **kw)
    tr.cfg = {"kind": "shuffle", "k": k, "lanes": lanes}
    for i in rng.sample(range(k), k):
        bag.push_(i)
    drawn = [bag.pop_().tolist() for _ in range(k)]
    for when in range(k):
        tr.add("drawn", when=when + 1, counts=[drawn[when].count(i) for i in range(k)])


def run(ctx):
    ctx.mc("MCStructures")
    rng = ctx.rng()
    gcfg = "INIT Init\nNEXT Next\nCONSTANT Depth = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    progs = ctx.gen("StructuresGen", gcfg % 16, num=ctx.pick(1500, 12000), depth=17)
    progs += ctx.gen("StructuresGen", gcfg % 6, num=ctx.pick(500, 3000), depth=7)
    progs += list(drains(rng, ctx.pick(150, 1000)))
    progs += list(deques(rng, ctx.pick(100, 700)))
    jobs = [(p, rng.randrange(1 << 30)) for p in progs]
    traces = ctx.record(execute, jobs, procs=6)
    ctx.validate("StructuresTrace", traces, canary_keys=("obs", "res"))
    traces = ctx.record(shuffled, [rng.randrange(1 << 60) for _ in range(ctx.pick(12, 60))], procs=6)
    ctx.validate("BagShuffleTrace", traces, canary_keys=("counts",), label="shuffled")
    ctx.assumptions += ["values are small dyadic rationals, so float arithmetic is exact", "CPU tensors only"]
