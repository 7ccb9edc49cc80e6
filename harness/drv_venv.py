"""Vector environments over deterministic counting environments."""
import multiprocessing
import os
import random
import time

import gym
import numpy as np

import dlib
from fakes import boolean
from pfrl.envs import MultiprocessVectorEnv, SerialVectorEnv

ASPACE = gym.spaces.Discrete(5)
OSPACE = gym.spaces.Box(low=np.zeros(3), high=np.ones(3))


class Env:
    """Answers by position, seed and number of calls received."""

    metadata = {}

    def __init__(self, i, dones, path, delays):
        self.i, self.dones, self.path, self.delays = i, dones, path, delays
        self.n = 0
        self.s = 0
        self.action_space = ASPACE
        self.observation_space = OSPACE
        self.spec = "spec-%d" % i

    def _obs(self):
        d = self.delays[self.n % len(self.delays)]
        if d:
            time.sleep(d / 1e4)
        return np.array([self.i, self.s, self.n])

    def reset(self):
        self.n += 1
        return self._obs()

    def step(self, a):
        self.n += 1
        info = {"needs_reset": True} if self.n % 3 == 0 else {}
        return (self._obs(), float(a * 10 + self.n % 7),
                bool(self.dones[(self.n - 1) % len(self.dones)]), info)

    def seed(self, s):
        self.s = s
        return [s]

    def close(self):
        with open(self.path, "a") as f:
            f.write("c")


def code(o):
    if o is None:
        return -1
    try:
        i, s, n = [int(x) for x in np.asarray(o).reshape(-1)]
        return i * 1000000 + (s % 100) * 10000 + n
    except Exception:
        return -777


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    n = cfg["n"]
    rng = random.Random(sc["seed"])
    os.makedirs(d)
    paths = [os.path.join(d, "c%d" % i) for i in range(n)]
    mk = [(lambda i=i: Env(i + 1, cfg["dones"][i], paths[i],
                           sc["delays"][i])) for i in range(n)]
    multi = sc["multi"]
    env = MultiprocessVectorEnv(mk) if multi else SerialVectorEnv([f() for f in mk])
    procs = multiprocessing.active_children() if multi else []

    def attrs():
        rec.ev("attrs", numenvs=int(env.num_envs),
               spaces=env.action_space == ASPACE and env.observation_space == OSPACE
               and env.unwrapped is env,
               spec=env.spec == "spec-1")

    for op in sc["ops"]:
        k = op["op"]
        if k == "reset":
            m = op["mask"]
            if not any(m) and rng.random() < .5:
                o = env.reset()
            else:
                mm = [boolean(rng, x) for x in m]
                o = env.reset(rng.choice([lambda x: x, tuple, lambda x: np.array(m),
                                          lambda x: np.array(m, dtype=float)])(mm))
            rec.ev("reset", mask=m, obs=[code(x) for x in o])
        elif k == "step":
            r = env.step(list(op["a"]))
            rec.ev("step", a=op["a"],
                   ans=[[code(o), dlib.as_int(rw), bool(dn), bool(i.get("needs_reset", False))]
                        for o, rw, dn, i in zip(*r)] if len(r) == 4 and
                   len(set(map(len, r))) == 1 else [])
        elif k == "seed":
            if multi and op["same"]:
                env.seed(op["seeds"][0])
                s = [op["seeds"][0]] * n
            else:
                s = op["seeds"]
                env.seed(list(s))
            rec.ev("seed", seeds=s)
        elif k == "badseed" and multi:
            try:
                env.seed([1] * (n + 1))
                ok = False
            except Exception:
                ok = True
            rec.ev("badseed", raised=ok)
        elif k == "attrs":
            attrs()
    env.close()
    for p in procs:
        p.join(5)
    rec.ev("close", closes=[os.path.getsize(p) if os.path.exists(p) else 0 for p in paths],
           alive=sum(p.is_alive() for p in procs))
    for p in procs:
        if p.is_alive():
            p.kill()
    if multi:
        for f in (env.reset, lambda: env.step([0] * n)):
            try:
                f()
                ok = False
            except Exception:
                ok = True
            rec.ev("afterclose", raised=ok)


if __name__ == "__main__":
    dlib.run(scenario)
