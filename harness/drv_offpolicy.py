"""Replay agents under scripted interaction with recording collaborators."""
import logging
import random

import numpy as np
import torch

import agents
import dlib
from fakes import boolean
from pfrl import replay_buffers

logging.disable(logging.CRITICAL)


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    n = cfg["n"]
    kind = sc["kind"]
    rng = random.Random(sc["seed"])
    cont = kind in ("DDPG", "TD3", "SAC")
    h = [None]
    last = {}
    busy = [False]

    def acode(a):
        return dlib.fx(np.asarray(a).reshape(-1)[0], 1 << 12) if cont else dlib.as_int(a)

    def record_buffer(base):
        class Buf(base):
            def append(self, state, action, reward, next_state=None, next_action=None,
                       is_state_terminal=False, env_id=0, **kw):
                busy[0] = True
                r = super().append(state, action, reward, next_state=next_state,
                                   next_action=next_action,
                                   is_state_terminal=is_state_terminal, env_id=env_id, **kw)
                busy[0] = False
                rec.ev("append", env=dlib.as_int(env_id), state=agents.obs_id(state),
                       a=acode(action), r=dlib.as_int(reward), next=agents.obs_id(next_state),
                       term=bool(is_state_terminal), blen=len(self),
                       neps=int(getattr(self, "n_episodes", 0)))
                return r

            def stop_current_episode(self, env_id=0):
                r = super().stop_current_episode(env_id=env_id)
                if not busy[0]:
                    rec.ev("stop", env=dlib.as_int(env_id), blen=len(self),
                           neps=int(getattr(self, "n_episodes", 0)))
                return r

            def sample(self, n):
                rec.ev("sample", size=int(n), m=h[0].m(), tg=h[0].tg())
                last["nets"] = h[0].by_name()
                return super().sample(n)

            def sample_episodes(self, n_episodes, max_len=None):
                rec.ev("sample", size=int(n_episodes), m=h[0].m(), tg=h[0].tg())
                last["nets"] = h[0].by_name()
                return super().sample_episodes(n_episodes, max_len)
        return Buf

    buf = record_buffer(getattr(replay_buffers, sc["buffer"]))(**sc["bufkw"])

    class Explorer:
        calls = []

        def select_action(self, t, greedy_action_func, action_value=None):
            self.calls.append(dlib.as_int(t))
            g = greedy_action_func()
            if rng.random() < .5:
                return g
            return np.array([rng.uniform(-1, 1)], dtype=np.float32) if cont \
                else rng.randrange(agents.NACT)

    ex = Explorer()
    burn = [0]

    def burnin():
        burn[0] += 1
        return np.array([rng.uniform(-1, 1)], dtype=np.float32)

    def report(name):
        now = h[0].by_name()
        ch = [k for k in now if now[k] != last["nets"][k]]
        last["nets"] = now
        rec.ev("opt", name=name, changed=ch, m=h[0].m())

    kw = dict(replay_start_size=cfg["start"], minibatch_size=cfg["batch"],
              update_interval=cfg["ui"], **sc["kw"])
    tau = cfg["num"] / cfg["den"]
    if cfg["fam"] in ("dqn", "ddpg"):
        kw.update(target_update_interval=cfg["tui"], soft_update_tau=tau,
                  target_update_method="soft" if cfg["soft"] else "hard",
                  n_times_update=cfg["ntimes"])
    else:
        kw.update(soft_update_tau=tau)
        if kind == "TD3":
            kw.update(policy_update_delay=cfg["delay"], n_times_update=cfg["ntimes"])
    h[0] = agents.make(kind, buf, ex, report=report, rec=sc.get("rec"),
                       counter=sc.get("counter", False), lr=sc.get("lr", .05),
                       burnin=burnin if cfg["burnin"] else None, **kw)
    ag = h[0].agent
    rec.ev("start", m=h[0].m(), tg=h[0].tg(), ints=h[0].ints())
    ids = [0]

    def new():
        ids[0] += 1
        return ids[0]

    def act(obs, single):
        ex.calls = []
        burn[0] = 0
        o = [agents.obs_of(i) for i in obs]
        a = [ag.act(o[0])] if single else list(ag.batch_act(o))
        rec.ev("act", obs=list(obs), a=[acode(x) for x in a], explored=ex.calls,
               burnt=burn[0], m=h[0].m(), tg=h[0].tg())

    def observe(obs, r, done, reset, single):
        rec.ev("observe", obs=list(obs), r=r, done=done, reset=reset)
        o = [agents.obs_of(i) for i in obs]
        dn = [boolean(rng, x) for x in done]
        rs = [boolean(rng, x) for x in reset]
        rr = [rng.choice([float, int, np.float32])(x) for x in r]
        if single:
            ag.observe(o[0], rr[0], dn[0], rs[0])
        else:
            ag.batch_observe(o, rr, dn, rs)
        rec.ev("end", m=h[0].m(), tg=h[0].tg())

    def evaluate(steps):
        single = w == 1 and rng.random() < .5
        rec.ev("mode", mode="eval")
        fail = rng.random() < .3
        try:
            with ag.eval_mode():
                for _ in range(steps):
                    obs = [new() for _ in range(w)]
                    act(obs, single)
                    observe([new() for _ in range(w)], [rng.randint(-3, 3) for _ in range(w)],
                            [rng.random() < .3 for _ in range(w)],
                            [rng.random() < .2 for _ in range(w)], single)
                # parallel evaluation ends all episodes
                observe([new() for _ in range(w)], [0] * w, [False] * w, [True] * w, single)
                if fail:
                    raise KeyError("evaluation failed")
        except KeyError:
            pass
        rec.ev("mode", mode="train")
        rec.ev("restored", ok=ag.training is True)

    w = rng.choice([1, n, 2])
    cur = [new() for _ in range(n)]
    single = n == 1 and rng.random() < .7
    for st in sc["script"]:
        if st["eval"] == 1:
            evaluate(st["esteps"])
        act(cur, single)
        if st["eval"] == 2:
            evaluate(st["esteps"])
        nxt = [new() for _ in range(n)]
        observe(nxt, st["r"], st["done"], st["reset"], single)
        cur = [new() if st["done"][i] or st["reset"][i] else nxt[i] for i in range(n)]


if __name__ == "__main__":
    dlib.run(scenario)
