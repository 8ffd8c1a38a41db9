"""Reinforcement-learning simulators which write down what happens to them.

`WORLD` configures the simulators made from now on, and `LOG` receives their resets and steps, wherever they run
(`simray` must have been installed by the caller if there are workers).
"""

import random
import sys

import gymnasium as gym
import numpy as np

LOG = []
WORLD = {}


def worker():
    simray = sys.modules.get("simray")
    current = None if simray is None or simray._sim is None else simray._sim.current
    return 0 if current is None else current.index % max(1, WORLD.get("workers", 1))


def fresh(**world):
    LOG.clear()
    WORLD.clear()
    WORLD.update(dict(seed=0, length=2, acts=3, bound=1000.0, discrete=False, values=2, longest=5, made=0, fixed=False, workers=1, dtype="float32", constant=False))
    WORLD.update(world)


def fixed_episode(policy, t):
    """Reward of the given policy at the given time, and whether it is the end (the same in all simulators)."""
    length = 1 + (policy * 5 + 3) % WORLD["longest"]
    return (policy * 7 + t * 3) % 11 - 5, t >= length


class Sim(gym.Env):
    metadata = {"render_modes": []}

    def __init__(self, **config):
        self.config = config
        self.no = WORLD["made"]
        WORLD["made"] += 1
        self.rng = random.Random(f"{WORLD['seed']}/{self.no}")
        self.observation_space = gym.spaces.Box(-1e6, 1e6, shape=(WORLD["length"],), dtype=WORLD["dtype"])
        if WORLD["discrete"]:
            self.action_space = gym.spaces.Discrete(WORLD["acts"])
        else:
            self.action_space = gym.spaces.Box(-WORLD["bound"], WORLD["bound"], shape=(WORLD["acts"],), dtype="float32")
        self.t = 0
        self.end = 0

    def look(self):
        v = WORLD["values"]
        self.obs = [1 if WORLD["constant"] else self.rng.randint(-v, v) for _ in range(WORLD["length"])]
        return np.array(self.obs, dtype=WORLD["dtype"])

    def reset(self, *, seed=None, options=None):
        self.t = 0
        self.end = self.rng.randint(1, WORLD["longest"])
        obs = self.look()
        LOG.append({"op": "reset", "w": worker(), "sim": self.no, "obs": self.obs})
        return obs, {}

    def step(self, action):
        seen = self.obs
        self.t += 1
        a = [int(action)] if WORLD["discrete"] else [float(x) for x in np.asarray(action)]
        if WORLD["fixed"]:
            reward, done = fixed_episode(int(round(a[0])), self.t)
        else:
            reward, done = self.rng.randint(-5, 5), self.t >= self.end
        truncated = done and self.rng.random() < 0.3
        obs = self.look()
        LOG.append({"op": "step", "w": worker(), "sim": self.no, "seen": seen, "a": a, "r": reward, "done": done, "obs": self.obs})
        return obs, float(reward), bool(done and not truncated), bool(truncated), {}


class Sims(gym.vector.VectorEnv):
    """Many simulators, which keep on playing."""

    metadata = {"autoreset_mode": gym.vector.AutoresetMode.SAME_STEP}

    def __init__(self, num_envs, **config):
        self.sims = [Sim(**config) for _ in range(num_envs)]
        self.num_envs = num_envs
        self.single_observation_space = self.sims[0].observation_space
        self.single_action_space = self.sims[0].action_space
        self.observation_space = gym.vector.utils.batch_space(self.single_observation_space, num_envs)
        self.action_space = gym.vector.utils.batch_space(self.single_action_space, num_envs)

    def reset(self, *, seed=None, options=None):
        return np.stack([s.reset()[0] for s in self.sims]), {}

    def step(self, actions):
        rows = []
        for s, a in zip(self.sims, actions):
            obs, reward, terminated, truncated, _ = s.step(a)
            if terminated or truncated:
                obs, _ = s.reset()
            rows.append((obs, reward, terminated, truncated))
        obs, rewards, terminated, truncated = zip(*rows)
        return np.stack(obs), np.array(rewards, dtype="float64"), np.array(terminated), np.array(truncated), {}

    def close(self, **_):
        pass


NAME = "VerifSim-v0"
if NAME not in gym.registry:
    gym.register(NAME, entry_point=Sim, disable_env_checker=True, order_enforce=False)


def logged():
    """What was logged since the last call, for each worker."""
    taken = list(LOG)
    LOG.clear()
    by = {}
    for e in taken:
        by.setdefault(e["w"], []).append(e)
    return by


def episodes(events):
    """Episodes played one after another: the observations, the steps and whether the end was reached."""
    out = []
    for e in events:
        if e["op"] == "reset":
            out.append([])
        else:
            out[-1].append(e)
    return [ep for ep in out if ep]


def runs(events):
    """Simulators driven together: for each run, the steps of each simulator (in the order of the simulators)."""
    out = []
    started = False  # whether the simulators of a run are being reset
    last = None
    for e in events:
        if e["op"] == "reset":
            again = last is not None and last["op"] == "step" and last["sim"] == e["sim"] and last["done"]
            if not again:
                if not started:
                    out.append({})
                    started = True
                out[-1][e["sim"]] = []
        else:
            started = False
            out[-1][e["sim"]].append(e)
        last = e
    return [list(r.values()) for r in out if any(r.values())]


def cut(steps):
    """Split the steps of a simulator into episodes (the last one is possibly incomplete)."""
    out = [[]]
    for e in steps:
        out[-1].append(e)
        if e["done"]:
            out.append([])
    return out if out[-1] else out[:-1]
