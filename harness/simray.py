"""A deterministic stand-in for the process layer of Ray.

`install()` replaces the functions of the `ray` module through which worker processes are created and talked to.
Workers live in this process, but everything which crosses the border between the main process and a worker is
pickled (buffers of arrays come out read-only, as they do with Ray), each worker has its own global random states,
and each worker executes its calls one by one in the order in which they were sent to it. Which worker makes progress
next is decided by the installed scheduler, so that the completion order of concurrent work is an input of a run.
`ray.util.ActorPool` is Ray's own.
"""

import random

_sim = None


class SimRef:
    """Reference to the result of a remote call (or to an object which was put)."""

    def __init__(self, actor=None):
        self.actor = actor
        self.done = False
        self.packed = None
        self.error = None

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    def __reduce__(self):
        return (_ref_by_id, (_sim.keep(self),))


def _ref_by_id(i):
    return _sim.kept[i]


class SimActorDied(Exception):
    pass


class _Method:
    def __init__(self, handle, name):
        self._handle = handle
        self._name = name

    def remote(self, *args, **kwargs):
        return self._handle._sim_actor.send(self._name, args, kwargs)

    def options(self, **_):
        return self


class SimHandle:
    def __init__(self, actor):
        self._sim_actor = actor

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return _Method(self, name)


class SimActor:
    def __init__(self, sim, index, cls, args, kwargs):
        self.sim = sim
        self.index = index
        self.cls = cls
        self.queue = []
        self.alive = True
        self.obj = None
        self.rng = None
        self.failed = None
        self.send("__init__", args, kwargs)

    def send(self, name, args, kwargs):
        ref = SimRef(self)
        if not self.alive:
            ref.done = True
            ref.error = SimActorDied("the worker was shut down")
            return ref
        self.queue.append((ref, name, self.sim.pack((args, kwargs))))
        return ref

    def step(self):
        """Execute the earliest call which is still waiting."""
        ref, name, packed = self.queue.pop(0)
        sim = self.sim
        outer = sim.current
        saved = sim.save_rng()
        sim.current = self
        if self.rng is not None:
            sim.load_rng(self.rng)
        try:
            if self.failed is not None:
                raise self.failed
            args, kwargs = sim.unpack(packed)
            args = [sim.fetch(a) if isinstance(a, SimRef) else a for a in args]
            kwargs = {k: (sim.fetch(v) if isinstance(v, SimRef) else v) for k, v in kwargs.items()}
            if name == "__init__":
                self.obj = self.cls(*args, **kwargs)
                result = None
            else:
                result = getattr(self.obj, name)(*args, **kwargs)
            ref.packed = sim.pack(result)
        except Exception as ex:
            ref.error = ex
            if name == "__init__":
                self.failed = ex
        finally:
            self.rng = sim.save_rng()
            sim.load_rng(saved)
            sim.current = outer
            ref.done = True
        sim.steps.append((self.index, name))

    def kill(self):
        self.alive = False
        for ref, _, _ in self.queue:
            ref.done = True
            ref.error = SimActorDied("the worker was shut down")
        self.queue = []
        self.obj = None


class _Remote:
    """What the decorator `ray.remote` makes of a class."""

    def __init__(self, cls, options=None):
        self._cls = cls
        self._options = {} if options is None else options

    def options(self, **kw):
        return _Remote(self._cls, {**self._options, **kw})

    def remote(self, *args, **kwargs):
        return _sim.create(self._cls, args, kwargs)


class Sim:
    def __init__(self):
        self.reset(lambda choices: choices[0])

    def reset(self, scheduler, more=lambda: False):
        """Forget all workers; from now on, `scheduler` picks which of the given workers makes progress, and `more`
        tells whether further workers make progress while the main process looks for results."""
        self.actors = []
        self.kept = {}
        self.current = None
        self.steps = []
        self.scheduler = scheduler
        self.more = more

    # ---- packing
    def pack(self, x):
        from ray import cloudpickle

        buffers = []
        data = cloudpickle.dumps(x, protocol=5, buffer_callback=buffers.append)
        return data, [bytes(b.raw()) for b in buffers]

    def unpack(self, packed):
        from ray import cloudpickle

        data, buffers = packed
        return cloudpickle.loads(data, buffers=buffers)

    def keep(self, ref):
        self.kept[id(ref)] = ref
        return id(ref)

    # ---- random states
    def save_rng(self):
        import numpy as np
        import torch

        return random.getstate(), np.random.get_state(), torch.get_rng_state()

    def load_rng(self, state):
        import numpy as np
        import torch

        random.setstate(state[0])
        np.random.set_state(state[1])
        torch.set_rng_state(state[2])

    # ---- workers
    def create(self, cls, args, kwargs):
        actor = SimActor(self, len(self.actors), cls, args, kwargs)
        self.actors.append(actor)
        return SimHandle(actor)

    def busy(self):
        return [a for a in self.actors if a.queue and a is not self.current]

    def progress(self, among=None):
        """Let one worker finish one call."""
        busy = self.busy()
        if among is not None:
            wanted = [a for a in busy if any(r in among for r, _, _ in a.queue)]
            busy = wanted if wanted else busy
        if not busy:
            raise RuntimeError("nothing can make progress: the wait would never end")
        self.scheduler(busy).step()

    def fetch(self, ref):
        while not ref.done:
            self.progress([ref])
        if ref.error is not None:
            raise ref.error
        return self.unpack(ref.packed)

    # ---- replaced functions of ray
    def get(self, refs, *, timeout=None):
        if isinstance(refs, SimRef):
            return self.fetch(refs)
        refs = list(refs)
        while not all(r.done for r in refs):
            self.progress([r for r in refs if not r.done])
        return [self.fetch(r) for r in refs]

    def wait(self, refs, *, num_returns=1, timeout=None, fetch_local=True):
        refs = list(refs)
        while sum(r.done for r in refs) < num_returns:
            self.progress([r for r in refs if not r.done])
        # meanwhile, others may have finished as well
        while self.busy() and self.more():
            self.progress()
        done = [r for r in refs if r.done][:num_returns]
        return done, [r for r in refs if r not in done]

    def put(self, x):
        ref = SimRef()
        ref.packed = self.pack(x)
        ref.done = True
        return ref


def install(cpus=4):
    """Replace the process layer of Ray within this process; to be called before evotorch is imported."""
    global _sim
    if _sim is not None:
        return _sim

    import sys

    assert "evotorch" not in sys.modules, "the process layer must be replaced before the library is imported"

    import ray
    import ray._private.usage.usage_lib as usage

    _sim = Sim()

    def remote(*args, **options):
        if len(args) == 1 and not options:
            return _Remote(args[0])
        return lambda cls: _Remote(cls, options)

    ray.remote = remote
    ray.get = _sim.get
    ray.wait = _sim.wait
    ray.put = _sim.put
    ray.kill = lambda handle, **_: handle._sim_actor.kill()
    ray.init = lambda *_, **__: None
    ray.shutdown = lambda *_, **__: None
    ray.is_initialized = lambda: True
    ray.available_resources = lambda: {"CPU": float(cpus)}
    ray.cluster_resources = lambda: {"CPU": float(cpus)}
    ray.ObjectRef = SimRef
    usage.record_library_usage = lambda *_: None
    return _sim


def scheduler_from(schedule, rng):
    """Follow the given sequence of numbers (each picks among the workers which can progress), then the generator."""
    left = list(schedule)

    def choose(busy):
        k = left.pop(0) if left else rng.randrange(1 << 20)
        return busy[k % len(busy)]

    return choose
