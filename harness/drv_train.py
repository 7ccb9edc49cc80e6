import logging
import random

import dlib
from fakes import Injector, boolean, parse_save
from pfrl.experiments.train_agent import train_agent

logging.disable(logging.CRITICAL)


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    inj = Injector(sc.get("fault_at", 0), sc.get("fault_kind", "Fault"))
    rng = random.Random(sc["seed"])
    script = sc["script"]
    ids = [0]

    def new():
        ids[0] += 1
        return ids[0]

    class Env:
        k = 0

        def reset(self, *a, **k):
            e = rec.ev("reset", obs=0, fault=False, kind="")
            inj.check(e)
            e["obs"] = new()
            return e["obs"]

        def step(self, a):
            e = rec.ev("step", a=dlib.as_int(a), obs=0, r=0, done=False, need=False, fault=False,
                       kind="")
            inj.check(e)
            done, need = script[self.k % len(script)] if script else (False, False)
            self.k += 1
            r = rng.randint(-5, 5)
            e.update(obs=new(), r=r, done=done, need=need)
            info = {}
            if need or rng.random() < 0.4:
                info["needs_reset"] = boolean(rng, need)
            return e["obs"], rng.choice([int, float])(r), boolean(rng, done), info

        def close(self):
            pass

        def render(self, *a, **k):
            pass

    class Agent:
        def act(self, obs):
            e = rec.ev("act", obs=dlib.as_int(obs), a=0,
                       agent_t=getattr(self, "t", cfg["offset"]), fault=False, kind="")
            inj.check(e)
            e["a"] = 1000 + new()
            return e["a"]

        def observe(self, obs, reward, done, reset):
            e = rec.ev("observe", obs=dlib.as_int(obs), r=dlib.as_int(reward), done=bool(done),
                       reset=bool(reset), fault=False, kind="")
            if hasattr(self, "t"):
                self.t += 1
            inj.check(e)

        def get_statistics(self):
            return [("x", 1)]

        def save(self, dirname):
            t, suf = parse_save(dirname)
            e = rec.ev("save", t=t, suffix=suf, fault=False, kind="")
            if suf == "_checkpoint":
                inj.check(e)

    agent = Agent()
    if sc.get("has_t", True):
        agent.t = 999

    def hook(i):
        def f(env, agent, t):
            e = rec.ev("hook", i=i, t=dlib.as_int(t), fault=False, kind="")
            inj.check(e)
        return f

    class Evaluator:
        max_score = float("-inf")
        k = 0
        env = None

        def evaluate_if_necessary(self, t, episodes):
            e = rec.ev("eval", t=dlib.as_int(t), episodes=dlib.as_int(episodes), score=-1, best=-1,
                       fault=False, kind="")
            inj.check(e)
            sq = sc["scores"]
            s = sq[self.k % len(sq)]
            self.k += 1
            if s >= 0:
                e["score"] = s
                self.max_score = max(self.max_score, s)
            e["best"] = int(self.max_score) if self.max_score >= 0 else -1
            return None if s < 0 else float(s)

    kw = {}
    if cfg["eval"]:
        kw["evaluator"] = Evaluator()
        kw["eval_during_episode"] = cfg["evalDuring"]
    if cfg["succ"] >= 0:
        kw["successful_score"] = cfg["succ"]
    if cfg["ckpt"]:
        kw["checkpoint_freq"] = cfg["ckpt"]
    if cfg["maxlen"]:
        kw["max_episode_len"] = cfg["maxlen"]
    end = dict(kind="return", scores=[])
    try:
        h = train_agent(agent, Env(), cfg["steps"], d, step_offset=cfg["offset"],
                        step_hooks=[hook(i + 1) for i in range(cfg["hooks"])], **kw)
        end["scores"] = [dlib.as_int(x.get("eval_score")) for x in (h or [])]
    except (Exception, KeyboardInterrupt) as e:
        end["kind"] = type(e).__name__
        if not inj.at or inj.n < inj.at:
            end["msg"] = str(e)[:200]
    rec.ev("end", **end)


if __name__ == "__main__":
    dlib.run(scenario)
