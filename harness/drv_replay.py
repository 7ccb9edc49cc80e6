"""Replay buffers: operations in, observable behaviour out."""
import os
import random

import numpy as np

import dlib
from pfrl import replay_buffers


def mk(cfg, d):
    kind, n, cap = cfg["kind"], cfg["n"], cfg["cap"] or None
    if kind == "plain":
        return replay_buffers.ReplayBuffer(capacity=cap, num_steps=n)
    if kind == "prio":
        return replay_buffers.PrioritizedReplayBuffer(
            capacity=cap, num_steps=n, betasteps=10)
    if kind == "persistent":
        assert n == 1
        return replay_buffers.PersistentReplayBuffer(d, cap or 1000)
    raise ValueError(kind)


def sample(cfg, rb, k):
    res = rb.sample(k)
    if cfg["kind"] == "prio":
        rb.update_errors([random.random() for _ in range(k)])
    return res


MISSING = object()


def enc(code, style, num=False):
    """a field value of varying type that stands for the integer code"""
    if style == "int":
        return code
    k = (code * 7 + code // 1000) % (4 if num else 9)
    return [code, float(code), 0, np.float32(code), None, np.array([code, 1]), ("t", code),
            {"v": code}, False][k]


def dec(v):
    if v is MISSING:
        return -2
    if v is None:
        return -1
    if isinstance(v, np.ndarray) and v.ndim:
        return dlib.as_int(v[0]) if v.shape == (2,) and v[1] == 1 else -777777777
    if isinstance(v, tuple):
        return dlib.as_int(v[1]) if len(v) == 2 and v[0] == "t" else -777777777
    if isinstance(v, dict):
        return dlib.as_int(v.get("v"))
    return dlib.as_int(v)


def proj(t):
    return dict(st=dec(t["state"]), ac=dec(t["action"]), rw=dec(t["reward"]), ns=dec(t["next_state"]),
                na=dec(t["next_action"]), term=bool(t["is_state_terminal"]), x=dec(t.get("x", MISSING)))


def put(rb, nid, op, env_id, style):
    """append transition number nid; returns what has to come back"""
    v = dict(state=enc(nid, "int" if nid % 3 else style, num=True), action=enc(1000 + nid, style),
             reward=enc(2000 + nid, style, num=True), next_state=enc(3000 + nid, style),
             next_action=enc(4000 + nid, style), is_state_terminal=bool(op["term"]))
    if dec(v["state"]) != nid:
        v["state"] = nid
    if style == "int" or nid % 5:
        v["x"] = enc(5000 + nid, style)
    t = proj(v)
    if style != "int" and v["next_action"] is None and nid % 2:
        del v["next_action"]          # the documented default
    rb.append(env_id=env_id, **v)
    return t


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    rb = mk(cfg, d)
    names = cfg.get("names", "int")
    ids = {"int": lambda i: i, "str": lambda i: "env-%d" % i,
           "tuple": lambda i: ("w", i), "odd": lambda i: [None, 0, "", (), -1.5][i % 5]}[names]
    nid = 0
    saved = 0
    for op in sc["ops"]:
        o = op["op"]
        if o == "append":
            nid += 1
            t = put(rb, nid, op, ids(op["env"]), cfg.get("style", "int"))
            rec.ev("append", env=op["env"], t=t, len=len(rb))
        elif o == "stop":
            rb.stop_current_episode(env_id=ids(op["env"]))
            rec.ev("stop", env=op["env"], len=len(rb))
        elif o == "reload":
            if cfg["kind"] == "persistent":
                rb.memory.close()
                rb = mk(cfg, d)
            else:
                os.makedirs(d, exist_ok=True)
                saved += 1
                f = os.path.join(d, "rb%d.pkl" % saved)
                rb.save(f)
                n0 = len(rb)
                rb = mk(cfg, d)
                rb.load(f)
            rec.ev("reload", len=len(rb))
        elif o == "sample" or o == "all":
            k = len(rb) if o == "all" else random.randint(0, len(rb))
            if k:
                res = sample(cfg, rb, k)
                rec.ev("sample", k=k, res=[[proj(t) for t in e] for e in res])
        elif o == "freq":
            # empirical frequency of each stored entry over many draws
            n = len(rb)
            if n >= 2:
                k = random.randint(1, n - 1)
                draws = op["draws"]
                cnt = {}
                for _ in range(draws):
                    for e in rb.sample(k):
                        key = dec(e[0]["state"])
                        cnt[key] = cnt.get(key, 0) + 1
                rec.ev("freq", k=k, draws=draws,
                       cnt=[dict(st=a, n=b) for a, b in sorted(cnt.items())])
    return {}


if __name__ == "__main__":
    dlib.run(scenario)
