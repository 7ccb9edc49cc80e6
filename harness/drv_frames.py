"""Frame stacking wrappers over environments producing numbered frames."""
import random

import gym
import numpy as np

import dlib
import pfrl
from pfrl.wrappers.atari_wrappers import FrameStack, LazyFrames
from pfrl.wrappers.vector_frame_stack import VectorFrameStack


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    n, k, axis = cfg["n"], cfg["k"], sc["axis"]
    rng = random.Random(sc["seed"])
    shape = [2, 3, 4]
    shape[axis] = sc["chan"]
    dtype = np.dtype(sc["dtype"])
    cnt = [0]
    raw = [0] * n

    def new():
        cnt[0] += 1
        return cnt[0]

    def frame(i):
        a = np.zeros(shape, dtype=dtype)
        a[...] = i
        return a

    low = np.zeros(shape, dtype=dtype)
    high = np.full(shape, 255, dtype=dtype)
    low[tuple([0, 0, 0])] = 1
    high[tuple([x - 1 for x in shape])] = 7
    ospace = gym.spaces.Box(low=low, high=high, dtype=dtype)
    out = {}

    class VEnv(pfrl.env.VectorEnv):
        num_envs = n
        action_space = gym.spaces.Discrete(2)
        observation_space = ospace

        def reset(self, mask=None):
            m = [False] * n if mask is None else [bool(x) for x in mask]
            for i in range(n):
                if not m[i]:
                    raw[i] = new()
            return [frame(x) for x in raw]

        def step(self, a):
            for i in range(n):
                raw[i] = new()
            out["v"] = (tuple(float(rng.randrange(9)) for _ in range(n)),
                        tuple(rng.random() < .3 for _ in range(n)),
                        tuple({"x": rng.randrange(9)} for _ in range(n)))
            return (tuple(frame(x) for x in raw),) + out["v"]

        def seed(self, s):
            pass

        def close(self):
            pass

    class SEnv(gym.Env):
        action_space = gym.spaces.Discrete(2)
        observation_space = ospace

        def reset(self):
            raw[0] = new()
            return frame(raw[0])

        def step(self, a):
            raw[0] = new()
            out["v"] = (float(rng.randrange(9)), rng.random() < .3, {"x": rng.randrange(9)})
            return (frame(raw[0]),) + out["v"]

    def code(o):
        """The numbers of the frames making up an observation."""
        a = np.asarray(o)
        if a.dtype != dtype or a.shape[axis] != sc["chan"] * k or a.ndim != 3:
            return [-1]
        parts = np.split(a, k, axis=axis)
        res = []
        for p in parts:
            res.append(int(p.flat[0]) if list(p.shape) == shape and (p == p.flat[0]).all() else -2)
        return res

    single = sc["single"]
    if single:
        env = FrameStack(SEnv(), k, channel_order={0: "chw", 2: "hwc"}[axis])
    else:
        env = VectorFrameStack(VEnv(), k, stack_axis=axis)
    o = env.observation_space
    rec.ev("space", ok=bool(
        isinstance(o, gym.spaces.Box) and o.dtype == dtype
        and o.shape == tuple(s * (k if j == axis else 1) for j, s in enumerate(shape))
        and np.all(o.low.min() == ospace.low.min()) and np.all(o.high.max() == ospace.high.max())))
    held = []
    for op in sc["ops"]:
        if op["op"] == "reset":
            m = op["mask"]
            if single:
                obs = [env.reset()]
            elif not any(m) and rng.random() < .5:
                obs = env.reset()
            else:
                obs = env.reset(mask=np.array(m) if rng.random() < .5 else list(m))
            held.append(list(obs))
            rec.ev("reset", mask=m, raw=list(raw), obs=[code(x) for x in obs])
        elif op["op"] == "step":
            r = env.step(0 if single else [0] * n)
            obs = [r[0]] if single else r[0]
            held.append(list(obs))
            rec.ev("step", raw=list(raw), obs=[code(x) for x in obs],
                   rest=tuple(r[1:]) == out["v"])
        elif held:
            j = rng.randrange(len(held))
            rec.ev("reread", k=j + 1, obs=[code(x) for x in held[j]])
    for j in range(len(held)):
        rec.ev("reread", k=j + 1, obs=[code(x) for x in held[j]])


if __name__ == "__main__":
    dlib.run(scenario)
