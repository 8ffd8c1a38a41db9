"""C16: object arrays, immutable objects and read-only tensors, validated against ObjectStore.tla."""

import copy
import itertools
import pickle
import random
from collections.abc import Mapping, Set

import numpy as np
import torch

from drivers.c10 import refused
from evotorch import Problem
from evotorch.tools import ObjectArray, ReadOnlyTensor, as_read_only_tensor, read_only_tensor
from evotorch.tools.immutable import ImmutableContainer, mutable_copy


# ---------------------------------------------------------------- describing values
def is_atom(x):
    return x is None or isinstance(x, (bool, int, float, str))


def atom(x):
    return "None" if x is None else f"{type(x).__name__}:{x}"


def kind_of(x):
    if isinstance(x, torch.Tensor):
        return f"tensor {x.dtype} {tuple(x.shape)}"
    if isinstance(x, np.ndarray):
        return "objects" if x.dtype == object else f"numpy {x.dtype} {x.shape}"
    if isinstance(x, ObjectArray):
        return "array"
    if isinstance(x, Mapping):
        return "dict"
    if isinstance(x, (set, Set)):
        return "set"
    return "tuple" if isinstance(x, tuple) else "list"


def children(x):
    if isinstance(x, torch.Tensor):
        return [float(v) for v in x.as_subclass(torch.Tensor).flatten().tolist()]
    if isinstance(x, np.ndarray) and x.dtype != object:
        return [float(v) for v in x.flatten().tolist()]
    if isinstance(x, Mapping):
        return [y for k in sorted(x, key=lambda k: atom(k)) for y in (atom(k), x[k])]
    if isinstance(x, (set, Set)):
        return sorted(x, key=atom)
    return list(x)


def text(x):
    out, seen, stack, keep = [], {}, [x], []
    while stack:
        v = stack.pop()
        if is_atom(v):
            out.append(atom(v))
        elif id(v) in seen:
            out.append(f"#{seen[id(v)]}")
        else:
            keep.append(v)
            seen[id(v)] = len(seen) + 1
            c = children(v)
            out.append(f"{kind_of(v)}:{len(c)}")
            if kind_of(v) in ("array", "objects"):
                out += [t for y in c for t in text(y)]
            else:
                stack.extend(reversed(c))
    return out


def walk_objects(x):
    seen, stack, res = set(), [x], []
    while stack:
        v = stack.pop()
        if not is_atom(v) and id(v) not in seen:
            seen.add(id(v))
            res.append(v)
            stack.extend(reversed(children(v)))
    return res


def has_arrays(x):
    return any(kind_of(y) in ("array", "objects") for y in walk_objects(x))


# ---------------------------------------------------------------- histories of object arrays
class World:
    def __init__(self, tr, rng):
        self.tr, self.rng = tr, rng
        self.objs, self.uid, self.roots, self.arrs = {}, {}, [], []
        self.next = 0

    # -- user objects
    def register(self, x):
        self.next += 1
        self.objs[self.next] = x
        self.uid[id(x)] = self.next
        return self.next

    def child(self, v):
        return {"t": "a", "v": atom(v)} if is_atom(v) else {"t": "r", "v": self.uid[id(v)]}

    def desc(self, x):
        return [self.child(v) for v in children(x)]

    def value(self):
        r = self.rng
        if self.objs and r.random() < 0.5:
            return r.choice(list(self.objs.values()))
        return self.scalar()

    def acyclic(self, x):
        """A value to put into x; there may be cycles, but not through arrays of objects."""
        v = self.value()
        around = [v] if is_atom(v) else walk_objects(v)
        return self.scalar() if any(y is x for y in around) and any(has_arrays(y) for y in around + [x] if not is_atom(y)) else v

    def scalar(self):
        return self.rng.choice([None, True, 3, 7, 0.5, "foo", "bar"])

    def make(self):
        r = self.rng
        k = r.choice(["list", "list", "tuple", "dict", "dict", "set", "tensor", "numpy", "objects"])
        n = r.randint(1, 3)
        if k == "list":
            x = [self.value() for _ in range(r.randint(0, 3))]
        elif k == "tuple":
            x = tuple([self.value() for _ in range(n)] + [r.random()])
        elif k == "dict":
            x = {r.choice(["a", "b", 1, 2, ("p", 3)]): self.value() for _ in range(n)}
        elif k == "set":
            x = set(self.scalar() for _ in range(n))
        elif k == "tensor":
            x = torch.tensor([r.randint(0, 9) for _ in range(4)], dtype=r.choice([torch.float32, torch.int64]))
            x = x.reshape(r.choice([(4,), (2, 2), (1, 4)]))
        elif k == "numpy":
            x = np.array([r.randint(0, 9) for _ in range(2)], dtype=r.choice(["float32", "int64"]))
        else:
            x = np.empty(n, dtype=object)
            for i in range(n):
                x[i] = self.value()
        self.obj_event(x)

    def obj_event(self, x):
        c = self.desc(x)
        self.tr.add("object", id=self.register(x), k=kind_of(x), c=c)
        self.roots.append(x)

    def mutate(self):
        r = self.rng
        cands = [i for i, x in self.objs.items() if not isinstance(x, tuple)]
        if not cands:
            return self.make()
        i = r.choice(cands)
        x = self.objs[i]
        if isinstance(x, list):
            k = r.random()
            if k < 0.4 or not x:
                x.append(self.acyclic(x))
            elif k < 0.7:
                x[r.randrange(len(x))] = self.acyclic(x)
            else:
                del x[r.randrange(len(x))]
        elif isinstance(x, dict):
            x[r.choice(["a", "b", 1, "new"])] = self.acyclic(x)
        elif isinstance(x, set):
            x.add(self.scalar())
        elif isinstance(x, torch.Tensor):
            x[tuple(r.randrange(s) for s in x.shape)] = r.randint(0, 9)
        elif x.dtype == object:
            x[r.randrange(len(x))] = self.acyclic(x)
        else:
            x += 1
        self.tr.add("mutate", id=i, c=self.desc(x))
        self.see()

    # -- arrays
    def see(self):
        e = self.tr.ev[-1]
        e["arrs"] = [[text(v) for v in a] for a in self.arrs]
        e["ros"] = [bool(a.is_read_only) for a in self.arrs]
        e["roots"] = [text(x) for x in self.roots]
        e["tens"] = []

    def pick(self):
        i = self.rng.randrange(len(self.arrs))
        return i, self.arrs[i]

    def slice_(self, n):
        r = self.rng
        return r.choice([slice(None), Ellipsis, slice(r.randint(0, n), None), slice(None, r.randint(0, n)),
                         slice(r.randint(0, n), r.randint(0, n), r.choice([1, 2])), slice(None, None, 2), slice(-2, None)])

    @staticmethod
    def window(n, s):
        base = list(range(1, n + 1))
        return base if s is Ellipsis else base[s]

    def new_array(self):
        n = self.rng.randint(1, 4)
        self.arrs.append(ObjectArray(n if self.rng.random() < 0.7 else (n,)))
        self.tr.add("array", n=n)
        self.see()

    def put(self):
        r = self.rng
        i, a = self.pick()
        n = len(a)
        k = r.random()
        if k < 0.6 and n > 0:
            p = r.randrange(n)
            v = self.value()
            vs, ps = [v], [p + 1]
            key = p if r.random() < 0.7 else p - n

            def fn():
                a[key] = v
        else:
            s = self.slice_(n)
            ps = self.window(n, s)
            vs = [self.value() for _ in ps]
            form = r.choice(["list", "gen", "tuple", "objects", "same"])
            if form == "same" and vs and not is_atom(vs[0]):
                vs = [vs[0]] * len(vs)
            whole = {"list": list, "tuple": tuple, "gen": iter, "same": list}.get(form, self.as_objects)(vs)

            def fn():
                a[s] = whole
        desc = [self.child(v) for v in vs]
        self.tr.add("put", a=i + 1, ps=ps, vs=desc, refused=refused(fn))
        self.see()

    def put_stream(self):
        """Store an iterable which makes its items on the fly."""
        i, a = self.pick()
        if not len(a):
            return
        p = self.rng.randrange(len(a))
        rows = []
        for k in range(self.rng.randint(3, 6)):
            rows.append(self.rng.choice([lambda: (k, self.scalar()), lambda: {"a": k}, lambda: [k, k]])())
            self.obj_event(rows[-1])
        self.obj_event(rows)
        stream = (type(row)(list(row.items() if isinstance(row, dict) else row)) for row in rows)
        desc = [self.child(rows)]
        self.tr.add("put", a=i + 1, ps=[p + 1], vs=desc, refused=refused(lambda: a.__setitem__(p, stream)))
        self.see()

    @staticmethod
    def as_objects(vs):
        x = np.empty(len(vs), dtype=object)
        for i, v in enumerate(vs):
            x[i] = v
        return x

    def put_from(self):
        i, a = self.pick()
        j, b = self.pick()
        s, t = self.slice_(len(a)), self.slice_(len(b))
        if self.rng.random() < 0.5 and len(a) >= 2:
            # overlapping parts of one array
            k = self.rng.randint(1, len(a) - 1)
            j, b, s, t = i, a, slice(k, None), slice(0, len(a) - k)
            if self.rng.random() < 0.5:
                s, t = t, s
        ps, qs = self.window(len(a), s), self.window(len(b), t)
        if len(ps) != len(qs):
            if not len(a) or not len(b):
                return
            p, q = self.rng.randrange(len(a)), self.rng.randrange(len(b))
            ps, qs = [p + 1], [q + 1]

            def fn():
                a[p] = b[q]
        else:

            def fn():
                a[s] = b[t]
        self.tr.add("putfrom", a=i + 1, ps=ps, b=j + 1, qs=qs, refused=refused(fn))
        self.see()

    def put_array(self):
        i, a = self.pick()
        j, b = self.pick()
        # a read-only array is stored as it is, and nobody should nest an array into itself here
        if b.is_read_only or b._objects is a._objects or not len(a):
            return
        p = self.rng.randrange(len(a))
        self.tr.add("putarray", a=i + 1, p=p + 1, b=j + 1, refused=refused(lambda: a.__setitem__(p, b)))
        self.see()

    def view(self):
        if len(self.arrs) >= 6:
            return
        i, a = self.pick()
        s = self.slice_(len(a))
        ps, ro = self.window(len(a), s), False
        k = self.rng.random()
        if k < 0.5:
            x = a[s]
        elif k < 0.65:
            x = ObjectArray(slice_of=(a, s))
        else:
            ps, ro = self.window(len(a), Ellipsis), True
            x = a.get_read_only_view() if k < 0.85 else as_read_only_tensor(a)
        self.arrs.append(x)
        self.tr.add("view", a=i + 1, ps=ps, ro=ro)
        self.see()

    def copy(self):
        if len(self.arrs) >= 6:
            return
        r = self.rng
        i, a = self.pick()
        n = len(a)
        ps, keep = list(range(1, n + 1)), True
        how = r.choice(["list", "mask", "tensor", "copy", "deepcopy", "pickle", "clone", "repeat", "numpy", "rot"])
        if how in ("list", "tensor", "mask"):
            keep = False
            if how == "mask":
                m = [r.random() < 0.6 for _ in range(n)]
                ps = [k + 1 for k in range(n) if m[k]]
                x = a[torch.tensor(m, dtype=torch.bool)]
            else:
                ix = [r.randrange(n) for _ in range(r.randint(1, 3))] if n else []
                ps = [k + 1 for k in ix]
                x = a[ix] if (how == "list" and ix) else a[torch.tensor(ix, dtype=torch.int64)]
        elif how == "copy":
            x = copy.copy(a)
        elif how == "deepcopy":
            x = copy.deepcopy(a)
        elif how == "pickle":
            x = pickle.loads(pickle.dumps(a))
        elif how == "clone":
            x = a.clone(preserve_read_only=True)
        elif how == "repeat":
            if n == 0:
                return
            m = r.randint(1, 2)
            x, ps, keep = (a.repeat(m) if r.random() < 0.5 else a.repeat((m,))), ps * m, False
        elif how == "numpy":
            x, keep = ObjectArray.from_numpy(a.numpy()), False
        else:
            x, keep = read_only_tensor(a), False
        self.arrs.append(x)
        self.tr.add("copy", a=i + 1, ps=ps, keep=keep, ro=bool(x.is_read_only), how=how)
        self.see()

    def thaw(self):
        i, a = self.pick()
        if not len(a) or len(self.roots) > 14:
            return
        p = self.rng.randrange(len(a))
        k = self.rng.random()
        if k < 0.4:
            x = mutable_copy(a[p])
        elif k < 0.7:
            x = a.clone()[p]
        elif k < 0.85:
            x = a.numpy()[p]
        else:
            x = a[p].clone() if isinstance(a[p], (ImmutableContainer, torch.Tensor, ObjectArray)) else mutable_copy(a[p])
        if has_arrays(a[p]):
            self.tr.add("thawtext", a=i + 1, p=p + 1, text=[t.replace("objects:", "array:") for t in text(x)])
            return self.see()
        base = self.next
        for y in walk_objects(x):
            self.register(y)
        self.roots.append(x)
        self.tr.add("thaw", a=i + 1, p=p + 1, base=base)
        self.see()

    def attack(self):
        i, a = self.pick()
        nodes = [y for v in a for y in walk_objects(v)]
        if not nodes:
            return
        x = self.rng.choice(nodes)
        v = self.scalar()
        if isinstance(x, torch.Tensor):
            fns = [lambda: x.__setitem__(Ellipsis, 8), lambda: x.add_(1), lambda: torch.fill_(x, 8), lambda: exec("x += 1", {"x": x}),
                   lambda: x.numpy().__setitem__(Ellipsis, 8), lambda: x.data.fill_(8), lambda: setattr(x, "data", x.clone() + 1)]
        elif isinstance(x, np.ndarray):
            fns = [lambda: x.__setitem__(Ellipsis, 8), lambda: x.fill(8), lambda: np.add(x, 1, out=x), lambda: x.sort()]
        elif isinstance(x, ObjectArray):
            fns = [lambda: x.__setitem__(slice(None), [v] * len(x)), lambda: x[:].__setitem__(slice(None), [v] * len(x)),
                   lambda: x.set_item(slice(None), [v] * len(x))]
        elif isinstance(x, Mapping):
            fns = [lambda: x.__setitem__("a", v), lambda: x.update({"a": v}), lambda: x.pop("a"), lambda: x.clear(), lambda: x.__delitem__("a")]
        elif isinstance(x, Set):
            fns = [lambda: x.add(v), lambda: x.discard(v), lambda: x.clear(), lambda: x.update([v])]
        else:
            fns = [lambda: x.append(v), lambda: x.__setitem__(0, v), lambda: x.clear(), lambda: x.__delitem__(0), lambda: x.extend([v]), lambda: x.sort()]
        self.tr.add("attack", a=i + 1, refused=refused(self.rng.choice(fns)))
        self.see()


def arrays(tr, job):
    rng = random.Random(job)
    w = World(tr, rng)
    for _ in range(rng.randint(2, 4)):
        w.make()
    w.new_array()
    ops = [w.make, w.mutate, w.mutate, w.mutate, w.put, w.put, w.put, w.put_stream, w.put_from, w.put_array, w.view, w.view, w.copy, w.copy, w.thaw, w.attack]
    for _ in range(rng.randint(8, 16)):
        if len(w.arrs) < 4 and rng.random() < 0.05:
            w.new_array()
        rng.choice(ops)()


# ---------------------------------------------------------------- histories of read-only tensors
def derive(rng, shape):
    """A function producing a tensor from a tensor of the given shape."""
    nd = len(shape)
    n = shape[0] if nd else 1
    any_ = [lambda x: x[...], lambda x: x.detach(), lambda x: x.data, lambda x: x.unsqueeze(0), lambda x: x.reshape(-1),
            lambda x: x.flatten(), lambda x: x.view_as(x), lambda x: x.contiguous(), lambda x: x.squeeze(), lambda x: x[None],
            lambda x: x.expand_as(x), lambda x: x.real, lambda x: torch.reshape(x, (-1,)), lambda x: x.to(x.dtype),
            lambda x: torch.clone(x), lambda x: x + 0, lambda x: torch.as_tensor(x), lambda x: torch.atleast_1d(x),
            lambda x: x.reshape((1,) + tuple(x.shape)), lambda x: x.reshape(*x.shape, 1), lambda x: x.reshape([1] + list(x.shape)),
            lambda x: x.reshape(shape=(1, -1)), lambda x: x.view((1,) + tuple(x.shape)), lambda x: torch.unsqueeze(x, 0), lambda x: torch.squeeze(x),
            lambda x: torch.flatten(x), lambda x: torch.ravel(x), lambda x: x.as_strided(x.shape, x.stride(), x.storage_offset()), lambda x: x.view(x.dtype),
            lambda x: torch.detach(x), lambda x: torch.atleast_2d(x), lambda x: x.reshape(-1, 1), lambda x: x.resolve_conj(), lambda x: x.clone().reshape(-1)]
    if nd and all(shape) and (int(np.prod(shape)) % 2) == 0:
        any_ += [lambda x: x.reshape(2, -1), lambda x: x.reshape(-1, 2), lambda x: torch.reshape(x, (2, -1)), lambda x: x.reshape(2, 1, -1)]
    if nd >= 1 and n >= 1:
        i, j = rng.randrange(n), rng.randint(0, n)
        any_ += [lambda x: x[i], lambda x: x[j:], lambda x: x[:j], lambda x: x[::2], lambda x: x.narrow(0, i, 1), lambda x: x.select(0, i),
                 lambda x: torch.narrow(x, 0, i, 1), lambda x: x.unbind()[i], lambda x: list(x)[i], lambda x: x.chunk(2)[0],
                 lambda x: x.split(1)[i], lambda x: torch.split(x, 1)[i], lambda x: x[[i]], lambda x: x[torch.tensor([i, 0])], lambda x: x.unfold(0, 1, 1),
                 lambda x: torch.cat([x]), lambda x: x.index_select(0, torch.tensor([i])), lambda x: x.tensor_split(2)[0],
                 lambda x: torch.select(x, 0, i), lambda x: torch.unbind(x)[i], lambda x: x.unflatten(0, (1, n)), lambda x: next(iter(x)), lambda x: torch.chunk(x, 2)[0],
                 lambda x: x[i, ...], lambda x: x[i:i + 1, None], lambda x: torch.tensor_split(x, 2)[0], lambda x: x.movedim(0, -1), lambda x: x[torch.arange(n) >= i]]
    if nd == 2:
        k = rng.randrange(shape[1]) if shape[1] else 0
        any_ += [lambda x: x.T, lambda x: x.t(), lambda x: x.transpose(0, 1), lambda x: x.permute(1, 0), lambda x: x.diagonal(),
                 lambda x: torch.movedim(x, 0, 1), lambda x: x.swapaxes(0, 1), lambda x: x.mT, lambda x: torch.transpose(x, 0, 1), lambda x: x.ravel(),
                 lambda x: x.mH, lambda x: x.swapdims(0, 1), lambda x: torch.diagonal(x), lambda x: torch.permute(x, (1, 0)), lambda x: x.T.reshape(-1),
                 lambda x: x.vsplit(1)[0], lambda x: x.hsplit(1)[0], lambda x: x[:, None, :], lambda x: x.unsqueeze(-1)]
        if shape[1]:
            any_ += [lambda x: x[:, k], lambda x: x[:, k:], lambda x: x.select(1, k), lambda x: x[..., k], lambda x: x[:, [k]]]
    return rng.choice(any_)


def in_place(rng, x, idx, v):
    import torch.nn.functional as F

    if isinstance(x, np.ndarray):
        return rng.choice([lambda: x.__setitem__(idx, v), lambda: x.fill(v), lambda: np.copyto(x, v), lambda: exec("x *= 2", {"x": x}),
                           lambda: np.add(x, 1, out=x)])
    return rng.choice([
        lambda: x.__setitem__(idx, v), lambda: x.fill_(v), lambda: x.zero_(), lambda: exec("x += 1", {"x": x}), lambda: exec("x *= 2", {"x": x}),
        lambda: exec("x -= 1", {"x": x}), lambda: exec("x /= 2", {"x": x}), lambda: exec("x **= 2", {"x": x}), lambda: exec("x[i] += 1", {"x": x, "i": idx}),
        lambda: torch.fill_(x, v), lambda: torch.Tensor.add_(x, 1), lambda: torch.Tensor.__setitem__(x, idx, v),
        lambda: F.relu(x, inplace=True), lambda: torch.relu_(x), lambda: torch.add(x, 1, out=x), lambda: torch.mul(torch.ones_like(x), 2, out=x),
        lambda: torch.max(x.unsqueeze(0), 0, out=(x, torch.empty(x.shape, dtype=torch.int64))),
        lambda: x.data.fill_(v), lambda: x.detach().fill_(v), lambda: x.numpy().__setitem__(idx, v), lambda: np.asarray(x).__setitem__(idx, v),
        lambda: x.copy_(torch.zeros(x.shape)), lambda: x.clamp_(0, 1), lambda: torch.nn.init.constant_(x, v),
        lambda: setattr(x, "data", torch.ones(x.shape)), lambda: torch._foreach_add_([x], 1.0), lambda: x.view(x.shape).fill_(v),
        lambda: x.masked_fill_(x == x, v), lambda: x.reshape(x.shape).fill_(v), lambda: x.unsqueeze(0).fill_(v), lambda: x.uniform_(), lambda: x.normal_(),
        lambda: torch.Tensor.copy_(x, torch.zeros(x.shape)), lambda: x.apply_(lambda y: y), lambda: x.resize_(1), lambda: x.sort_() if hasattr(x, "sort_") else x.sub_(1),
    ])


def readonly(x):
    return not x.flags.writeable if isinstance(x, np.ndarray) else isinstance(x, ReadOnlyTensor)


def numbers(x):
    x = x.as_subclass(torch.Tensor) if isinstance(x, torch.Tensor) else x
    return [round(float(v)) for v in x.flatten().tolist()]


def tensors(tr, job):
    rng = random.Random(job)
    hs = []  # (value, index twin)

    def see():
        e = tr.ev[-1]
        e["arrs"], e["ros"], e["roots"] = [], [], []
        e["tens"] = [numbers(x) for x, _ in hs]

    def add(x):
        hs.append((x, torch.arange(x.numel() if isinstance(x, torch.Tensor) else x.size).reshape(tuple(x.shape))))

    shape = rng.choice([(4,), (2, 3), (3, 2), (1, 3)])
    if rng.random() < 0.3:
        b = Problem("min", solution_length=shape[-1], initial_bounds=(-1, 1)).generate_batch(shape[0] if len(shape) == 2 else 1)
        x = b.access_values(keep_evals=True)
        x[:] = torch.arange(float(x.numel())).reshape(x.shape)
        add(x)
        tr.add("tnew", vals=numbers(x))
        see()
        y = rng.choice([lambda: b.values, lambda: b[:].values, lambda: b[0:].values])()
        hs.append((y, hs[0][1][...]))
        tr.add("tview", t=1, ps=list(range(1, x.numel() + 1)), ro=readonly(y), wantro=True)
        see()
    else:
        x = torch.tensor([float(rng.randint(0, 9)) for _ in range(int(np.prod(shape)))]).reshape(shape)
        add(x)
        tr.add("tnew", vals=numbers(x))
        see()
    for _ in range(rng.randint(8, 18)):
        t = rng.randrange(len(hs))
        x, ix = hs[t]
        flat = ix.flatten().tolist()
        k = rng.random()
        if k < 0.45:
            if not flat:
                continue
            q = rng.randrange(len(flat))
            idx = tuple(int(v) for v in np.unravel_index(q, tuple(x.shape)))
            v = rng.randint(0, 9)
            if readonly(x):
                tr.add("twrite", t=t + 1, ps=[q + 1], vals=[v], refused=refused(in_place(rng, x, idx, v)))
            else:
                tr.add("twrite", t=t + 1, ps=[q + 1], vals=[v], refused=refused(lambda: x.__setitem__(idx, v)))
            see()
            continue
        if len(hs) >= 9:
            continue
        if k < 0.6:
            how = rng.choice(["as_ro", "as_ro", "ro", "clone", "copy", "deepcopy", "pickle", "numpy", "asarray", "clone_ro"])
            if isinstance(x, np.ndarray) and how in ("numpy", "asarray", "clone", "clone_ro"):
                continue
            must, want, share = False, False, how in ("as_ro", "numpy", "asarray")
            if how == "as_ro":
                if isinstance(x, np.ndarray) and not x.flags.writeable:
                    continue
                y, want = as_read_only_tensor(x), True
            elif how == "ro":
                if isinstance(x, np.ndarray) and not x.flags.writeable:
                    continue
                y, must, want = read_only_tensor(x), True, True
            elif how == "clone":
                y, must = x.clone(), True
            elif how == "clone_ro":
                y = x.clone(preserve_read_only=True) if isinstance(x, ReadOnlyTensor) else x.clone()
                must, want = True, readonly(x)
            elif how == "copy":
                y = copy.copy(x) if readonly(x) else copy.deepcopy(x)
            elif how == "deepcopy":
                y = copy.deepcopy(x)
            elif how == "pickle":
                y = pickle.loads(pickle.dumps(x))
            elif how == "numpy":
                y = x.numpy()
            else:
                y = np.asarray(x)
            ps = list(range(1, len(flat) + 1))
            if share:
                hs.append((y, ix[...]))
                tr.add("tview", t=t + 1, ps=ps, ro=readonly(y), wantro=want)
            else:
                add(y)
                tr.add("tcopy", t=t + 1, ps=ps, ro=readonly(y), wantro=want, must=must)
        else:
            if isinstance(x, np.ndarray):
                if x.ndim == 0 or not len(x):
                    continue
                i = rng.randrange(len(x))
                fn = rng.choice([lambda z: z[i:], lambda z: z[::2], lambda z: z.T, lambda z: z.reshape(z.shape)])
                y = fn(x)
                iy = torch.as_tensor(fn(ix.numpy()))
                share = True
            else:
                fn = derive(rng, tuple(x.shape))
                y, iy = fn(x), fn(ix)
                share = iy.numel() > 0 and iy.untyped_storage().data_ptr() == ix.untyped_storage().data_ptr()
            pos = {v: i + 1 for i, v in enumerate(flat)}
            ps = [pos[v] for v in iy.flatten().tolist()]
            if share:
                hs.append((y, iy))
                tr.add("tview", t=t + 1, ps=ps, ro=readonly(y), wantro=False)
            else:
                add(y)
                tr.add("tcopy", t=t + 1, ps=ps, ro=readonly(y), wantro=False, must=False)
        see()


def long_arrays(tr, job):
    """Arrays with more elements; every element is a matrix of numbers, or a list, that tells its number."""
    rng = random.Random(job)
    n = rng.randint(9, 30)
    fresh = itertools.count(1)

    def thing(v):
        if matrices:
            return np.full((2, 2), v) if v % 2 else np.full(3, v)
        return [v, [v]]

    def number(x):
        return int(x.reshape(-1)[0]) if isinstance(x, np.ndarray) else int(x[0])

    matrices = rng.random() < 0.5
    start = [next(fresh) for _ in range(n)]
    a = ObjectArray(n)
    a[:] = [thing(v) for v in start]
    tr.cfg = {"start": start}
    hs = [a]

    def show(op, **kw):
        fixed = not any(isinstance(x, np.ndarray) and x.flags.writeable for h in hs for x in h)
        tr.add(op, show=[[number(x) for x in h] for h in hs], fixed=fixed, **kw)

    for _ in range(rng.randint(4, 9)):
        k = rng.randrange(len(hs))
        h = hs[k]
        m = len(h)
        op = rng.choice(["slice", "slice", "index", "repeat", "copy", "write", "write", "fill"])
        if op == "slice" and m > 1:
            lo = rng.randrange(m - 1)
            hi = rng.randint(lo + 1, m)
            step = rng.choice([1, 1, 2])
            hs.append(h[lo:hi:step])
            show(op, h=k + 1, idx=[i + 1 for i in range(lo, hi, step)])
        elif op == "index":
            idx = [rng.randrange(m) for _ in range(rng.randint(1, m + 3))]
            hs.append(h[rng.choice([list, np.array, torch.tensor])(idx)])
            show(op, h=k + 1, idx=[i + 1 for i in idx])
        elif op == "repeat" and m < 20:
            times = rng.randint(1, 3)
            hs.append(h.repeat(times))
            show(op, h=k + 1, n=times)
        elif op == "copy":
            hs.append(rng.choice([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))])(h))
            show(op, h=k + 1)
        elif op == "write":
            i, v = rng.randrange(m), next(fresh)
            h[i - m if rng.random() < 0.3 else i] = thing(v)
            show(op, h=k + 1, i=i + 1, v=v)
        elif op == "fill":
            vs = [next(fresh) for _ in range(m)]
            h[:] = [thing(v) for v in vs]
            show(op, h=k + 1, vs=vs)


def run(ctx):
    with open(ctx.spec("MCObjectStore.cfg")) as f:
        cfg = f.read()
    ctx.mc("MCObjectStore", cfg if ctx.thorough else cfg.replace("MaxDepth = 7", "MaxDepth = 6"))
    cfg = cfg.replace("NextOnlyO", "NextOnlyT").replace("MaxTens = 1", "MaxTens = 3").replace("MaxDepth = 7", "MaxDepth = 12")
    ctx.mc("MCObjectStore", cfg.replace("PROPERTY Insulated", "PROPERTY TInsulated"))
    rng = ctx.rng("jobs")
    for fn, n in ((arrays, ctx.pick(700, 6000)), (tensors, ctx.pick(700, 6000))):
        traces = ctx.record(fn, [rng.randrange(1 << 60) for _ in range(n)], procs=6)
        ctx.validate("ObjectStoreTrace", traces, canary_keys=("ps", "refused", "ro", "vals", "tens", "ros"), label=fn.__name__)
    traces = ctx.record(long_arrays, [rng.randrange(1 << 60) for _ in range(ctx.pick(150, 1500))], procs=6)
    ctx.validate("LongArrayTrace", traces, canary_keys=("show", "fixed"), label="long arrays")
