import contextlib
import logging
import random

import numpy as np

import dlib
import pfrl
from fakes import boolean
from pfrl.experiments import evaluator as E

logging.disable(logging.CRITICAL)


def ints(xs):
    return [dlib.as_int(x) for x in xs]


def bools(xs):
    return [bool(x) for x in xs]


class Stop(Exception):
    pass


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    n = cfg["n"]
    serial = sc["serial"]
    rng = random.Random(sc["seed"])
    script = sc["script"]
    ids = [0]
    big = sc["seed"] % 7 == 0 and not sc.get("stats")  # returns beyond single precision

    def new():
        ids[0] += 1
        return ids[0]

    class Core:
        k = 0
        num_envs = n
        last = [0] * n

        def _reset(self, m):
            self.last = [o if b else new() for o, b in zip(self.last, m)]
            rec.ev("reset", mask=m, obs=list(self.last))

        def _step(self, a):
            if self.k > 1500:
                raise Stop("evaluation does not stop")
            done, need = script[self.k % len(script)]
            self.k += 1
            r = [rng.choice([1677721, -5, 1, 9]) if big else rng.randint(-5, 9) for _ in range(n)]
            if big and self.k == 1:
                r = [16777217] * n
            self.last = [new() for _ in range(n)]
            rec.ev("step", a=a, obs=list(self.last), r=r, done=done, need=need)
            infos = [{"needs_reset": boolean(rng, b)} if b or rng.random() < .4 else {}
                     for b in need]
            return list(self.last), r, [bool(x) for x in done], infos

    class VEnv(Core, pfrl.env.VectorEnv):
        def reset(self, mask=None):
            self._reset([False] * n if mask is None else bools(mask))
            return tuple(self.last)

        def step(self, a):
            o, r, dn, i = self._step(ints(a))
            return tuple(o), tuple(float(x) for x in r), tuple(dn), tuple(i)

        def seed(self, s):
            pass

        def close(self):
            pass

    class SEnv(Core):
        def reset(self):
            self._reset([False])
            return self.last[0]

        def step(self, a):
            o, r, dn, i = self._step(ints([a]))
            return o[0], rng.choice([int, float] if big else [int, float, np.float32])(r[0]), boolean(rng, dn[0]), i[0]

        def close(self):
            pass

    class Agent:
        training = True

        def batch_act(self, obs):
            e = rec.ev("act", obs=ints(obs), a=[1000 + new() for _ in range(n)],
                       evalmode=not self.training)
            return list(e["a"])

        def batch_observe(self, obs, reward, done, reset):
            rec.ev("observe", obs=ints(obs), r=ints(reward), done=bools(done),
                   reset=bools(reset), evalmode=not self.training)

        def act(self, obs):
            return self.batch_act([obs])[0]

        def observe(self, obs, r, done, reset):
            self.batch_observe([obs], [r], [done], [reset])

        @contextlib.contextmanager
        def eval_mode(self):
            old = self.training
            self.training = False
            try:
                yield
            finally:
                self.training = old

    agent = Agent()
    env = SEnv() if serial else VEnv()
    ns, ne = (cfg["k"], None) if cfg["mode"] == "steps" else (None, cfg["k"])
    kw = dict(max_episode_len=cfg["maxlen"] or None)
    if sc.get("stats"):
        st = E.eval_performance(env, agent, ns, ne, **kw)

        def conv(pre):
            m = st["episodes"]
            g = lambda k: float(st[pre + k])  # noqa
            return dict(episodes=m, sum=dlib.as_int(round(g("mean") * m, 6)),
                        med2=dlib.as_int(round(g("median") * 2, 6)), max=dlib.as_int(g("max")),
                        min=dlib.as_int(g("min")),
                        var=int(round(g("stdev") ** 2 * m * (m - 1))) if m > 1
                        else dlib.as_int(g("stdev")))
        rec.ev("stats", r=conv(""), l=conv("length_"))
        return
    f = E.run_evaluation_episodes if serial else E.batch_run_evaluation_episodes
    scores, lengths = f(env, agent, ns, ne, **kw)
    rec.ev("result", res=[[dlib.as_int(a), dlib.as_int(b)] for a, b in zip(scores, lengths)]
           if len(scores) == len(lengths) else [], restored=agent.training)


if __name__ == "__main__":
    dlib.run(scenario)
