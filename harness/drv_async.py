import contextlib
import json
import logging
import os
import random
import sys
import warnings

REAL = "--real" in sys.argv
import torch  # noqa

import sched  # harness/sched.py
if not REAL:
    sched.install()
import dlib  # noqa
from fakes import KINDS, boolean, parse_save  # noqa
from pfrl.experiments.train_agent_async import train_agent_async  # noqa
from pfrl.experiments.evaluation_hooks import EvaluationHook  # noqa
import pfrl.experiments.evaluator as evmod  # noqa

logging.disable(logging.CRITICAL)
S = sched.S
SCALE = 8


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    os.makedirs(d, exist_ok=True)
    S.reset(sc.get("sched", []), sc["seed"], sc.get("p", 0.3))
    if sc.get("forced") is not None:
        S.forced = {int(k): v for k, v in sc["forced"].items()}
    faults = {(f[0], f[1]): f[2] for f in sc.get("faults", [])}  # (worker, call number): kind
    counts = {}
    cur = {"w": 1}

    def wid():
        t = S.cur
        return t.idx + 1 if t is not None else 0

    def ev(op, **kw):
        e = rec.ev(op, **kw)
        return e

    def inj(e, w):
        counts[w] = counts.get(w, 0) + 1
        k = faults.get((w, counts[w]))
        if k:
            e["fault"] = True
            raise KINDS[k]("injected")

    ids = [0]

    def new():
        ids[0] += 1
        return ids[0]

    class Env:
        def __init__(self, idx):
            self.w = idx + 1
            self.k = 0
            self.script = sc["scripts"][idx]
            self.rng = random.Random(sc["seed"] * 31 + idx)

        def reset(self):
            S.point()
            e = ev("reset", w=self.w, obs=0, fault=False)
            inj(e, self.w)
            e["obs"] = new()
            return e["obs"]

        def step(self, a):
            S.point()
            e = ev("step", w=self.w, a=dlib.as_int(a), obs=0, r=0, done=False, need=False,
                   fault=False)
            inj(e, self.w)
            done, need = self.script[self.k % len(self.script)]
            self.k += 1
            r = self.rng.randint(-5, 5)
            e.update(obs=new(), r=r, done=done, need=need)
            return e["obs"], r, done, ({"needs_reset": need} if need else {})

        def close(self):
            pass

    class EvalEnv:
        """One-step episodes whose return is scripted."""
        k = 0

        def __init__(self, idx):
            self.w = idx + 1

        def reset(self):
            S.point()
            if cur.get(self.w) is None:
                cur[self.w] = "eval"
                ev("evalstart", w=self.w)
            return 0

        def step(self, a):
            S.point()
            m = sc["means"][self.w - 1]
            v = m[self.k % len(m)]
            self.k += 1
            return 0, v / SCALE, True, {}

        def close(self):
            pass

    class Agent:
        shared_attributes = ()
        evaluating = False

        def __init__(self, idx):
            self.w = idx + 1
            self.process_idx = None

        def act(self, obs):
            if self.evaluating:
                return 0
            S.point()
            e = ev("act", w=self.w, obs=dlib.as_int(obs), a=0, fault=False)
            inj(e, self.w)
            e["a"] = 1000 + new()
            return e["a"]

        def observe(self, obs, r, done, reset):
            if self.evaluating:
                return
            S.point()
            e = ev("observe", w=self.w, obs=dlib.as_int(obs), r=dlib.as_int(r), done=bool(done),
                   reset=bool(reset), fault=False)
            inj(e, self.w)

        @contextlib.contextmanager
        def eval_mode(self):
            self.evaluating = True
            try:
                yield
            finally:
                self.evaluating = False

        def get_statistics(self):
            return [("x", 0)]

        def save(self, dirname):
            S.point()
            t, suf = parse_save(dirname)
            if t == -1:
                t = 0
            ev("save", w=wid(), t=t, suffix=suf)
            S.point()

    def hook(i):
        def f(env, agent, t):
            S.point()
            w = wid()
            e = ev("hook", w=w, i=i, t=dlib.as_int(t), fault=False)
            inj(e, w)
            if i == cfg["hooks"]:
                cur[w] = None
                if sc.get("stop_at") and t == sc["stop_at"]:
                    ev("stopreq")
                    stop_event.set()
                    ev("stopset")
                if sc.get("exc_at") and t == sc["exc_at"]:
                    exception_event.set()
                    ev("excset")
        return f

    best = {}

    class EH(EvaluationHook):
        support_train_agent = True
        support_train_agent_batch = True
        support_train_agent_async = True

        def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
            best["ev"] = evaluator
            S.point()
            ev("evald", w=wid(), t=dlib.as_int(step), mean=dlib.fx(eval_stats["mean"], SCALE))

    stop_event = sched.Event()
    exception_event = sched.Event()

    def on_exit(idx, code, why):
        ev("exit", w=idx + 1, code=code, why=why)

    sched.on_exit[0] = on_exit
    real_killpg = os.killpg

    def killpg(pgid, sig):
        ev("killall", w=wid())
        S.killed = True
        if S.cur is not None:
            S.cur.dying = True

    os.killpg = killpg
    kw = {}
    if cfg["interval"]:
        kw.update(eval_interval=cfg["interval"], eval_n_episodes=sc.get("neval", 1),
                  evaluation_hooks=[EH()])
    else:
        kw.update(eval_interval=None)
    if cfg["succ"] >= 0:
        kw["successful_score"] = cfg["succ"] / SCALE
    if cfg["maxlen"]:
        kw["max_episode_len"] = cfg["maxlen"]
    err = None
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            train_agent_async(
                outdir=d, processes=cfg["w"],
                make_env=lambda i, test: (EvalEnv if test else Env)(i),
                make_agent=Agent, steps=cfg["steps"], step_offset=cfg["offset"],
                global_step_hooks=[hook(i + 1) for i in range(cfg["hooks"])],
                stop_event=stop_event, exception_event=exception_event,
                use_shared_memory=sc.get("shm", True), **kw)
    except Exception as e:
        err = e
        raise
    finally:
        os.killpg = real_killpg
        if err is None:
            n = sum(1 for w in ws if w.category.__name__ == "AbnormalExitWarning")
            m = dlib.fx(best["ev"].max_score, SCALE) if best else -1
            ev("final", deadlock=S.deadlocked, warn=n, max=m)


if __name__ == "__main__":
    dlib.run(scenario)
