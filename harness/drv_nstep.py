import random

import numpy as np
import torch

import dlib
from pfrl.replay_buffer import batch_experiences, batch_recurrent_experiences


def tr(t, vec=False):
    def act(a):
        return np.asarray([a, -a - 1], dtype=np.float32) if vec else a
    return dict(state=np.asarray([t["st"], 0], dtype=np.float32), action=act(t["ac"]),
                reward=t["rw"] if random.random() < .5 else float(t["rw"]),
                next_state=np.asarray([t["ns"], 0], dtype=np.float32),
                next_action=None if t["na"] < 0 else act(t["na"]), is_state_terminal=t["term"])


def phi(x):
    return x * 2  # must be applied to both states


def ints(x):
    return [dlib.as_int(v) for v in x]


def acts(x, vec):
    """Actions; a vector has to be whole."""
    if not vec:
        return ints(x)
    return [dlib.as_int(v[0]) if len(v) == 2 and dlib.as_int(v[1]) == -dlib.as_int(v[0]) - 1 else -99 for v in x]


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    g = cfg["g"]
    unit = cfg["unit"]
    vec = sc.get("vec", False)
    for ent in sc["batches"]:
        if sc.get("recurrent"):
            eps = []
            for e in ent:
                ep = []
                for t in e:
                    x = tr(t, vec)
                    x["recurrent_state"] = None if t["rs"] < 0 else np.asarray([[t["rs"]]], dtype=np.float32)
                    x["next_recurrent_state"] = None if t["nrs"] < 0 else np.asarray(
                        [[t["nrs"]]], dtype=np.float32)
                    ep.append(x)
                eps.append(ep)
            b = batch_recurrent_experiences(eps, torch.device("cpu"), phi, 1 / g)
            rs, nrs = b["recurrent_state"], b["next_recurrent_state"]
            rec.ev("rbatch", entries=ent, hasna="next_action" in b, nors=rs is None, nonrs=nrs is None, out=dict(
                na=acts(b["next_action"], vec) if "next_action" in b else [], ac=acts(b["action"], vec), rw=[dlib.fx(v, unit) for v in b["reward"]],
                term=ints(b["is_state_terminal"]), disc=[dlib.fx(v, unit) for v in b["discount"]],
                st=[[dlib.fx(v[0], .5) for v in s] for s in b["state"]],
                ns=[[dlib.fx(v[0], .5) for v in s] for s in b["next_state"]],
                rs=[] if rs is None else ints(rs.reshape(-1)),
                nrs=[] if nrs is None else ints(nrs.reshape(-1))))
            continue
        b = batch_experiences([[tr(t, vec) for t in e] for e in ent], torch.device("cpu"), phi, 1 / g)
        rec.ev("batch", entries=ent, hasna="next_action" in b, out=dict(
            st=[dlib.fx(v[0], .5) for v in b["state"]], ac=acts(b["action"], vec),
            rw=[dlib.fx(v, unit) for v in b["reward"]],
            ns=[dlib.fx(v[0], .5) for v in b["next_state"]],
            term=ints(b["is_state_terminal"]),
            disc=[dlib.fx(v, unit) for v in b["discount"]],
            na=acts(b["next_action"], vec) if "next_action" in b else []))


if __name__ == "__main__":
    dlib.run(scenario)
