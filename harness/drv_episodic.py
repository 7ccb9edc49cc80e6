import os
import random

import dlib
from drv_replay import proj, put
from pfrl import replay_buffers


def mk(cfg, d):
    kind, cap = cfg["kind"], cfg["cap"] or None
    if kind == "plain":
        return replay_buffers.EpisodicReplayBuffer(capacity=cap)
    if kind == "prio":
        f = None
        if cfg.get("defprio"):
            def f(ep):
                return 1.0 + len(ep)
        return replay_buffers.PrioritizedEpisodicReplayBuffer(
            capacity=cap, betasteps=10, uniform_ratio=cfg.get("ur", 0),
            wait_priority_after_sampling=cfg.get("wait", True),
            return_sample_weights=cfg.get("weights", True), default_priority_func=f)
    if kind == "persistent":
        return replay_buffers.PersistentEpisodicReplayBuffer(d, cap or 1000)
    raise ValueError(kind)


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    rb = mk(cfg, d)
    nid = 0

    def ids(i):
        return [None, 0, "", (), -1.5][i % 5] if cfg.get("names") == "odd" else i

    for op in sc["ops"]:
        o = op["op"]
        if o == "append":
            nid += 1
            t = put(rb, nid, op, ids(op["env"]), cfg.get("style", "int"))
            rec.ev("append", env=op["env"], t=t, len=len(rb), neps=rb.n_episodes)
        elif o == "stop":
            rb.stop_current_episode(env_id=ids(op["env"]))
            rec.ev("stop", env=op["env"], len=len(rb), neps=rb.n_episodes)
        elif o == "reload":
            if cfg["kind"] == "persistent":
                rb.memory.close()
                rb.episodic_memory.close()
                rb = mk(cfg, d)
            else:
                os.makedirs(d, exist_ok=True)
                f = os.path.join(d, "rb.pkl")
                rb.save(f)
                rb = mk(cfg, d)
                rb.load(f)
            rec.ev("reload", len=len(rb), neps=rb.n_episodes)
        elif o in ("sample", "all"):
            k = len(rb) if o == "all" else random.randint(0, len(rb))
            if k:
                res = rb.sample(k)
                rec.ev("sample", k=k, res=[[proj(t) for t in e] for e in res])
        elif o == "parts":
            # everything that can be drawn shows up eventually
            if 0 < rb.n_episodes <= 3 and len(rb) <= 12 and cfg["kind"] == "plain":
                limit, seen = random.choice([1, 2, 3]), []
                for _ in range(600):
                    e = [proj(t) for t in rb.sample_episodes(1, max_len=limit)[0]]
                    if e not in seen:
                        seen.append(e)
                rec.ev("parts", limit=limit, res=seen)
        elif o in ("episodes", "alleps"):
            n = rb.n_episodes
            if n == 0:
                continue
            k = n if o == "alleps" else random.randint(1, n)
            limit = random.choice([-1, -1, 1, 2, 3, 5])
            r = rb.sample_episodes(k, max_len=None if limit < 0 else limit)
            if cfg["kind"] == "prio" and cfg.get("weights", True):
                r = r[0]
            if cfg["kind"] == "prio" and (cfg.get("wait", True) or random.random() < 0.5):
                rb.update_errors([random.random() * 3 for _ in range(k)])
            rec.ev("episodes", k=k, limit=limit, res=[[proj(t) for t in e] for e in r])


if __name__ == "__main__":
    dlib.run(scenario)
