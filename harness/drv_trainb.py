import logging
import random

import numpy as np

import dlib
from fakes import KINDS, Injector, boolean, parse_save
import pfrl
from pfrl.experiments.train_agent_batch import (train_agent_batch,
                                                train_agent_batch_with_evaluation)

logging.disable(logging.CRITICAL)


def ints(xs):
    return [dlib.as_int(x) for x in xs]


def bools(xs):
    return [bool(x) for x in xs]


def probe(sc, rec, d):
    """Evaluation without an environment of its own (eval_env=None)."""
    import contextlib
    import os
    os.makedirs(d, exist_ok=True)
    n = sc["cfg"]["n"]
    ids = [0]
    mode = dict(train=True)

    def new():
        ids[0] += 1
        return ids[0]

    class Env(pfrl.env.VectorEnv):
        num_envs = n
        last = [0] * n

        def reset(self, mask=None):
            m = [False] * n if mask is None else bools(mask)
            self.last = [o if b else new() for o, b in zip(self.last, m)]
            if mode["train"]:
                rec.ev("reset", mask=m, obs=list(self.last), fault=False, kind="")
            return list(self.last)

        def step(self, a):
            self.last = [new() for _ in range(n)]
            done = [not mode["train"]] * n
            if mode["train"]:
                rec.ev("step", a=ints(a), obs=list(self.last), r=[0] * n, done=done,
                       need=[False] * n, fault=False, kind="")
            return list(self.last), [0.0] * n, done, [{}] * n

        def seed(self, s):
            pass

        def close(self):
            pass

    class Agent:
        def batch_act(self, obs):
            if mode["train"]:
                rec.ev("act", obs=ints(obs), a=[1] * n, agent_t=sc["cfg"]["offset"], fault=False,
                       kind="")
            return [1] * n

        def batch_observe(self, obs, reward, done, reset):
            if mode["train"]:
                rec.ev("observe", obs=ints(obs), r=ints(reward), done=bools(done),
                       reset=bools(reset), fault=False, kind="")

        def get_statistics(self):
            return []

        def save(self, dirname):
            t, suf = parse_save(dirname)
            if suf != "best":
                rec.ev("save", t=t, suffix=suf, fault=False, kind="")

        @contextlib.contextmanager
        def eval_mode(self):
            mode["train"] = False
            try:
                yield
            finally:
                mode["train"] = True

    train_agent_batch_with_evaluation(Agent(), Env(), sc["cfg"]["steps"], None, 1, 4, d)
    rec.ev("end", kind="return", scores=[])


def scenario(sc, rec, d):
    if sc["cfg"].get("probe"):
        return probe(sc, rec, d)
    cfg = sc["cfg"]
    n = cfg["n"]
    inj = Injector(sc.get("fault_at", 0), sc.get("fault_kind", "Fault"))
    rng = random.Random(sc["seed"])
    script = sc["script"]
    ids = [0]

    def new():
        ids[0] += 1
        return ids[0]

    class Env:
        k = 0
        num_envs = n
        last = [0] * n

        def reset(self, mask=None):
            m = [False] * n if mask is None else bools(mask)
            e = rec.ev("reset", mask=m, obs=[0] * n, fault=False, kind="")
            inj.check(e)
            self.last = [o if b else new() for o, b in zip(self.last, m)]
            e["obs"] = list(self.last)
            return tuple(self.last) if rng.random() < .5 else list(self.last)

        def step(self, a):
            e = rec.ev("step", a=ints(a), obs=[0] * n, r=[0] * n, done=[False] * n,
                       need=[False] * n, fault=False, kind="")
            inj.check(e)
            done, need = script[self.k % len(script)]
            self.k += 1
            r = [rng.randint(-5, 5) for _ in range(n)]
            self.last = [new() for _ in range(n)]
            e.update(obs=list(self.last), r=r, done=done, need=need)
            infos = []
            for b in need:
                info = {}
                if b or rng.random() < 0.4:
                    info["needs_reset"] = boolean(rng, b)
                infos.append(info)
            k = rng.choice([list, tuple, tuple])
            return k(self.last), k(r), k([bool(x) for x in done]), k(infos)

        def close(self):
            if sc.get("closefails") and inj.at and inj.n >= inj.at:
                raise KINDS[inj.kind]("closing a broken environment")

    class Agent:
        def batch_act(self, obs):
            e = rec.ev("act", obs=ints(obs), a=[0] * n,
                       agent_t=getattr(self, "t", cfg["offset"]), fault=False, kind="")
            inj.check(e)
            e["a"] = [1000 + new() for _ in range(n)]
            return list(e["a"]) if rng.random() < .5 else np.asarray(e["a"])

        def batch_observe(self, obs, reward, done, reset):
            e = rec.ev("observe", obs=ints(obs), r=ints(reward), done=bools(done),
                       reset=bools(reset), fault=False, kind="")
            inj.check(e)

        def get_statistics(self):
            return [("x", 1)]

        def save(self, dirname):
            t, suf = parse_save(dirname)
            e = rec.ev("save", t=t, suffix=suf, fault=False, kind="")
            if suf == "_checkpoint":
                inj.check(e)

    agent = Agent()
    if sc.get("has_t", True):
        agent.t = 999

    def hook(i):
        def f(env, agent, t):
            e = rec.ev("hook", i=i, t=dlib.as_int(t), fault=False, kind="")
            inj.check(e)
        return f

    class EEnv:
        def close(self):
            pass

    class Evaluator:
        max_score = float("-inf")
        k = 0
        env = EEnv()

        def evaluate_if_necessary(self, t, episodes):
            e = rec.ev("eval", t=dlib.as_int(t), episodes=dlib.as_int(episodes), score=-1, best=-1,
                       fault=False, kind="")
            inj.check(e)
            sq = sc["scores"]
            s = sq[self.k % len(sq)]
            self.k += 1
            if s >= 0:
                e["score"] = s
                self.max_score = max(self.max_score, s)
            e["best"] = int(self.max_score) if self.max_score >= 0 else -1
            return None if s < 0 else float(s)

    kw = {}
    if cfg["eval"]:
        kw["evaluator"] = Evaluator()
    if cfg["succ"] >= 0:
        kw["successful_score"] = cfg["succ"]
    if cfg["ckpt"]:
        kw["checkpoint_freq"] = cfg["ckpt"]
    if cfg["maxlen"]:
        kw["max_episode_len"] = cfg["maxlen"]
    if sc.get("log"):
        kw["log_interval"] = sc["log"]
    end = dict(kind="return", scores=[])
    try:
        h = train_agent_batch(agent, Env(), cfg["steps"], d, step_offset=cfg["offset"],
                              step_hooks=[hook(i + 1) for i in range(cfg["hooks"])], **kw)
        end["scores"] = [dlib.as_int(x.get("eval_score")) for x in (h or [])]
    except (Exception, KeyboardInterrupt) as e:
        end["kind"] = type(e).__name__
        end["msg"] = str(e)[:200]
    rec.ev("end", **end)


if __name__ == "__main__":
    dlib.run(scenario)
