import contextlib
import logging
import os
import random

import dlib
import pfrl
from pfrl.experiments import (train_agent_batch_with_evaluation, train_agent_with_evaluation)
from pfrl.experiments.evaluation_hooks import EvaluationHook
from pfrl.experiments.evaluator import AsyncEvaluator, Evaluator

logging.disable(logging.CRITICAL)
U = 8


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    os.makedirs(d, exist_ok=True)
    rng = random.Random(sc["seed"])
    mode = sc["mode"]
    k = cfg["k"]
    returns = list(sc["returns"])
    elens = list(sc.get("elens") or [1])
    evals = []
    st = dict(rets=[], nats=[], lens=[], t=cfg["offset"], epi=0, calls=0, nret=0)
    nenvs = sc.get("n", 1)

    def flush():
        if st["rets"]:
            rec.ev("evaluated", rets=st["rets"][:], stats=stats(), nats=st["nats"][:], lens=st["lens"][:])
            evals.append(st["rets"])
            st["rets"], st["nats"], st["lens"] = [], [], []

    def stats():
        x = [st["calls"]]
        if sc["envstats"]:
            x.append(st["nret"])
        return x

    def ret():
        v = returns[st["nret"] % len(returns)]
        st["nret"] += 1
        st["rets"].append(v)
        return v / U

    class EvalEnv:
        k = 0

        def reset(self):
            self.k = 0
            return 0

        def step(self, a):
            # the whole return comes with the first step
            self.k += 1
            r = 0.0
            if self.k == 1:
                r = ret()
                st["nats"].append(elens[st["nret"] % len(elens)])
                st["lens"].append(0)
            st["lens"][-1] += 1
            return 0, r, self.k >= st["nats"][-1], {}

        def close(self):
            pass

    if sc["envstats"]:
        EvalEnv.get_statistics = lambda self: [("es", st["nret"])]
        EvalEnv.clear_statistics = lambda self: None

    class Agent:
        training = True

        def act(self, obs):
            return 0

        def batch_act(self, obs):
            return [0] * len(obs)

        def observe(self, obs, r, done, reset):
            if not self.training:
                return
            flush()
            st["t"] += 1
            end = bool(done or reset or st["t"] == sc["steps"])
            st["epi"] += end
            st["calls"] += 1
            rec.ev("train", t=st["t"], epi=st["epi"], point=bool(end or sc["during"]))

        def batch_observe(self, obs, r, done, reset):
            if not self.training:
                return
            flush()
            st["t"] += nenvs
            st["epi"] += sum(bool(a or b) for a, b in zip(done, reset))
            st["calls"] += 1
            rec.ev("train", t=st["t"], epi=st["epi"], point=True)

        def get_statistics(self):
            return [("as", st["calls"])]

        def save(self, dirname):
            b = os.path.basename(os.path.normpath(dirname))
            if b == "best":
                flush()
                rec.ev("best")

        @contextlib.contextmanager
        def eval_mode(self):
            self.training = False
            try:
                yield
            finally:
                self.training = True

    class EH(EvaluationHook):
        support_train_agent = support_train_agent_batch = support_train_agent_async = True

        def __init__(self, i):
            self.i = i

        def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
            flush()
            rec.ev("hook", i=self.i, t=dlib.as_int(step), sum=dlib.fx(eval_stats["mean"] * k, U),
                   episodes=dlib.as_int(eval_stats["episodes"]), med2=dlib.fx(eval_stats["median"] * 2, U),
                   max=dlib.fx(eval_stats["max"], U), min=dlib.fx(eval_stats["min"], U),
                   lsum=dlib.fx(eval_stats["length_mean"] * k, 1), lmed2=dlib.as_int(eval_stats["length_median"] * 2),
                   lmax=dlib.as_int(eval_stats["length_max"]), lmin=dlib.as_int(eval_stats["length_min"]),
                   stats=[dlib.as_int(v) for _, v in agent_stats + env_stats])

    class TrainEnv:
        k = 0

        def reset(self):
            return 0

        def step(self, a):
            done, need = sc["script"][self.k % len(sc["script"])]
            self.k += 1
            return 0, 0.0, done, {"needs_reset": need}

        def close(self):
            pass

    class VTrainEnv(pfrl.env.VectorEnv):
        k = 0
        num_envs = nenvs

        def reset(self, mask=None):
            return [0] * nenvs

        def step(self, a):
            x = [sc["script"][(self.k + 3 * i) % len(sc["script"])] for i in range(nenvs)]
            self.k += 1
            return ([0] * nenvs, [0.0] * nenvs, [b[0] for b in x],
                    [{"needs_reset": b[1]} for b in x])

        def seed(self, s):
            pass

        def close(self):
            pass

    agent = Agent()
    env = EvalEnv()
    hooks = [EH(i + 1) for i in range(cfg["hooks"])]
    common = dict(eval_interval=cfg["interval"], outdir=d, step_offset=cfg["offset"],
                  evaluation_hooks=hooks, save_best_so_far_agent=cfg["best"])
    own = {} if not sc.get("evmax") else dict(eval_max_episode_len=sc["evmax"])
    if mode in ("direct", "async"):
        if mode == "direct":
            e = Evaluator(agent=agent, env=env, n_steps=None, n_episodes=k,
                          max_episode_len=sc.get("evmax") or None, **common)
        else:
            e = AsyncEvaluator(n_steps=None, n_episodes=k,
                          max_episode_len=sc.get("evmax") or None, **common)
        for t in sc["ts"]:
            st["t"] = t
            st["epi"] += rng.randint(0, 3)
            st["calls"] += 1
            rec.ev("train", t=t, epi=st["epi"], point=True)
            if mode == "direct":
                r = e.evaluate_if_necessary(t=t, episodes=st["epi"])
            else:
                r = e.evaluate_if_necessary(t=t, episodes=st["epi"], env=env, agent=agent)
            flush()
            m = float(e.max_score)
            has = m > -1e30
            rec.ev("returned", some=r is not None, sum=dlib.fx(r * k, U) if r is not None else 0,
                   hasmax=has, max=dlib.fx(m * k, U) if has else 0)
    else:
        kw = dict(common)
        if cfg["succ"] != -1000000:
            kw["successful_score"] = cfg["succ"] / U
        if mode == "serial":
            train_agent_with_evaluation(
                agent=agent, env=TrainEnv(), steps=sc["steps"], eval_n_steps=None,
                eval_n_episodes=k, eval_env=env, eval_during_episode=sc["during"],
                train_max_episode_len=sc["maxlen"] or None, **own, **kw)
        else:
            train_agent_batch_with_evaluation(
                agent=agent, env=VTrainEnv(), steps=sc["steps"], eval_n_steps=None,
                eval_n_episodes=k, eval_env=env, max_episode_len=sc["maxlen"] or None, **own, **kw)
        flush()
    rows, header = [], 0
    with open(os.path.join(d, "scores.txt")) as f:
        for line in f:
            c = line.rstrip("\n").split("\t")
            if c[0] == "steps":
                header = len(c)
                if rows:
                    header = -1
                continue
            i = len(rows)
            big = i >= len(evals) or any(abs(v) > 2000 for v in evals[i])
            rows.append(dict(var=-1 if big else round(float(c[5]) ** 2 * k * (k - 1) * U * U),
                             med2=dlib.fx(float(c[4]) * 2, U), t=dlib.as_int(c[0]), epi=dlib.as_int(c[1]),
                             sum=dlib.fx(float(c[3]) * k, U), max=dlib.fx(c[6], U),
                             min=dlib.fx(c[7], U), stats=[dlib.as_int(x) for x in c[8:]]))
    if mode == "async" and not rows:
        header = 8 + cfg["ncols"]
    rec.ev("final", rows=rows, header=header)


if __name__ == "__main__":
    dlib.run(scenario)
