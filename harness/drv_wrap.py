"""Wrappers over a scripted base environment."""
import random
import warnings

import gym
import numpy as np

import dlib
from fakes import boolean
from pfrl import wrappers
from pfrl.utils import env_modifiers as M
from pfrl.wrappers import atari_wrappers as A

warnings.simplefilter("ignore")


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    kind, p, q = cfg["kind"], cfg["p"], cfg["q"]
    rng = random.Random(sc["seed"])
    script = sc["script"]
    st = dict(k=0, id=0, lives=3, rend=0)
    box = kind == "normalize"
    cont = kind in ("cast",)
    shape = (30, 20, 3) if kind in ("warp", "chain") else (2, 2, 1)

    class Ale:
        def lives(self):
            return st["lives"]

    def code(a):
        if box:
            x, y = np.asarray(a).reshape(-1)
            return dlib.as_int(x * 128) if y == x + 1 else -778
        return dlib.as_int(a)

    def frame():
        st["id"] = st["id"] % 200 + 1
        if kind == "skip":
            # frames in no particular order, so that the maximum matters
            st["id"] = rng.randrange(1, 250)
        a = np.empty(shape, dtype=np.float64 if cont else np.uint8)
        a[...] = st["id"]
        return a

    class Base(gym.Env):
        metadata = {"render.modes": ["human"]}
        reward_range = (-9, 9)
        observation_space = gym.spaces.Box(low=np.zeros(shape), high=np.full(shape, 255.),
                                           dtype=np.uint8)
        action_space = (gym.spaces.Box(low=np.array([p / 8, p / 8 + 1], dtype=np.float32),
                                       high=np.array([q / 8, q / 8 + 1], dtype=np.float32)) if box
                        else gym.spaces.Discrete(q if kind == "randomize" else 6))
        ale = Ale()
        np_random = np.random.RandomState(sc["seed"])

        def get_action_meanings(self):
            return ["NOOP", "FIRE", "UP", "DOWN"]

        def reset(self, **kw):
            st["lives"] = 3
            o = frame()
            rec.ev("breset", a=0, obs=st["id"], lives=3)
            return o

        def step(self, a):
            o = script[st["k"]] if st["k"] < len(script) else \
                dict(r=1, done=st["k"] - len(script) > 60, need=False, lives=st["lives"])
            st["k"] += 1
            st["lives"] = o["lives"]
            f = frame()
            rec.ev("bstep", a=code(a), obs=st["id"], **o)
            info = {"needs_reset": boolean(rng, o["need"])} if o["need"] or rng.random() < .4 else {}
            return f, float(o["r"]), boolean(rng, o["done"]), info

        def seed(self, s=None):
            return [s]

        def render(self, *a, **k):
            st["rend"] += 1

        def close(self):
            pass

    base = Base()
    env = base
    if kind == "timelimit":
        env = wrappers.ContinuingTimeLimit(base, max_episode_steps=p)
    elif kind == "skip":
        env = A.MaxAndSkipEnv(base, skip=p)
    elif kind == "noop":
        env = A.NoopResetEnv(base, noop_max=p)
        if q:
            env.override_num_noops = q
    elif kind == "fire":
        env = A.FireResetEnv(base)
    elif kind == "life":
        env = A.EpisodicLifeEnv(base)
    elif kind == "clip":
        env = A.ClipRewardEnv(base)
    elif kind == "warp":
        env = A.WarpFrame(base, channel_order=rng.choice(["hwc", "chw"]))
    elif kind == "flicker":
        env = A.FlickerFrame(base)
    elif kind == "scaledfloat":
        env = A.ScaledFloatFrame(base)
    elif kind == "scale":
        env = wrappers.ScaleReward(base, p)
    elif kind == "cast":
        env = rng.choice([wrappers.CastObservationToFloat32,
                          lambda e: wrappers.CastObservation(e, np.float32)])(base)
    elif kind == "render":
        env = wrappers.Render(base)
    elif kind == "monitor":
        env = wrappers.Monitor(base, d, video_callable=False, force=True)
    elif kind == "normalize":
        env = wrappers.NormalizeActionSpace(base)
    elif kind == "randomize":
        env = wrappers.RandomizeAction(base, sc["frac"])
        env.seed(sc["seed"])
    elif kind == "tslimit":
        M.make_timestep_limited(env, p)
    elif kind == "repeat":
        M.make_action_repeated(env, p)
    elif kind == "afilter":
        M.make_action_filtered(env, lambda a: a + p)
    elif kind == "rfilter":
        M.make_reward_filtered(env, lambda r: r + p)
    elif kind == "rclip":
        M.make_reward_clipped(env, -p, q)
    elif kind == "mrender":
        M.make_rendered(env)
    elif kind == "chain":
        env = A.MaxAndSkipEnv(A.NoopResetEnv(base, noop_max=5), skip=4)
        env = A.wrap_deepmind(env, episode_life=True, clip_rewards=True,
                              frame_stack=rng.random() < .5, scale=rng.random() < .5,
                              fire_reset=rng.random() < .5,
                              channel_order=rng.choice(["hwc", "chw"]))

    def ocode(o):
        a = np.asarray(o)
        if kind == "chain":
            return 0
        if kind == "scaledfloat":
            if a.dtype != np.float32:
                return -3
            a = a * 255.
        if kind == "warp":
            if sorted(a.shape) != [1, 84, 84] or a.dtype != np.uint8 or \
                    a.shape != env.observation_space.shape:
                return -3
        elif a.shape != shape:
            return -4
        if kind == "cast" and a.dtype != np.float32:
            return -5
        if not np.all(a == a.flat[0]):
            return -2
        return dlib.as_int(round(float(a.flat[0]), 3))

    state = "end"
    n = 0
    for op in sc["ops"]:
        if state == "end" or op["reset"]:
            rec.ev("call", what="reset", a=0)
            o = env.reset()
            rec.ev("ret", obs=ocode(o))
            state = "run"
        else:
            a = op["a"]
            rec.ev("call", what="step", a=a)
            if box:
                user = np.array([a / 8, a / 8], dtype=np.float32)
                o, r, dn, info = env.step(user)
                if not np.all(user == a / 8):
                    rec.ev("argument-modified")
            else:
                o, r, dn, info = env.step(a)
            e = rec.ev("ret", obs=ocode(o), r=dlib.as_int(r), done=bool(dn),
                       need=bool(info.get("needs_reset", False)))
            n += 1
            if e["done"] or e["need"]:
                state = "end"
    if kind == "monitor":
        env.close()
        rec.ev("stats", eps=[[int(x), dlib.as_int(y)] for x, y in
                             zip(env.get_episode_lengths(), env.get_episode_rewards())])
    if kind == "render":
        assert st["rend"] == sum(e["op"] == "ret" for e in rec), "not rendered once per call"
    if kind == "randomize":
        # with a user action that is never drawn at random
        rec2 = list(rec)
        k, hist, N = 0, [0] * q, 20000
        for _ in range(N):
            x = env.action(-1)
            if x != -1:
                k += 1
                hist[int(x)] += 1
        del rec[:]
        rec.extend(rec2)
        sc_ = N // 100     # keep the squares within 32 bits
        rec.ev("counts", n=sc_, k=round(k / 100), pct=int(round(sc["frac"] * 100)),
               hist=[round(h / 100) for h in hist])


if __name__ == "__main__":
    dlib.run(scenario)
