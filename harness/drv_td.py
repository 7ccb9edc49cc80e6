"""One update of a value-based agent with a tabular value function."""
import logging
import random

import numpy as np
import torch
from torch import nn

import dlib
import pfrl
from pfrl import agents as A
from pfrl import explorers, replay_buffers
from pfrl.action_value import DiscreteActionValue

logging.disable(logging.CRITICAL)
torch.set_num_threads(1)
S = 1 << 14
NS, NA = 4, 3


def fx(x):
    return dlib.fx(x, S)


class Tab(nn.Module):
    def __init__(self, q):
        super().__init__()
        self.q = nn.Parameter(torch.tensor(q, dtype=torch.float32))

    def forward(self, x):
        return DiscreteActionValue(self.q[x[:, 0].long()])


class TabRec(pfrl.nn.Recurrent, nn.Module):
    """A table over (observation, parity of the previous observation)."""

    def __init__(self, q):
        super().__init__()
        self.q = nn.Parameter(torch.tensor(q, dtype=torch.float32))

    def forward(self, packed, h):
        seqs, lens = nn.utils.rnn.pad_packed_sequence(packed)   # (T, B, 1)
        T, B = seqs.shape[:2]
        if h is None:
            h = torch.zeros(1, B, 1)
        assert tuple(h.shape) == (1, B, 1)
        h = h[0, :, 0]
        out, hs = [], []
        for t in range(T):
            x = seqs[t, :, 0]
            out.append(self.q[(x + NS * h).long()])
            h = torch.remainder(x, 2)
            hs.append(h)
        hs = torch.stack(hs)
        last = hs[lens - 1, torch.arange(B)]
        y = nn.utils.rnn.pack_padded_sequence(torch.stack(out), lens, enforce_sorted=False)
        return y, last[None, :, None].clone()


def phi(o):
    return np.asarray(o, dtype=np.float32) - 100


def obs(s):
    return np.array([s + 100], dtype=np.float32)


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    recurrent = sc["recurrent"]
    rows = NS * 2 if recurrent else NS
    q0 = np.array(sc["q"], dtype=np.float64)[:rows] / 8
    tq0 = np.array(sc["tq"], dtype=np.float64)[:rows] / 8
    if recurrent:
        model = pfrl.nn.RecurrentSequential(TabRec(q0), pfrl.q_functions.DiscreteActionValueHead())
    else:
        model = Tab(q0)
    extra = {}
    if cfg["kind"] in ("AL", "PAL", "DoublePAL"):
        extra["alpha"] = cfg["an"] / cfg["ad"]
    if cfg["kind"] in ("DPP", "DPPL"):
        extra["eta"] = float(cfg["eta"])
    cls = getattr(A.dpp, cfg["kind"]) if cfg["kind"].startswith("DPP") else getattr(A, cfg["kind"])
    rng = random.Random(sc["seed"])
    errs = []
    batch = []        # as the specification sees it
    samples = []
    gn, gd = cfg["gn"], cfg["gd"]
    boolean = rng.choice([bool, np.bool_])

    if recurrent:
        class Buf(replay_buffers.EpisodicReplayBuffer):
            n_episodes = 100

            def __len__(self):
                return 100

            def sample_episodes(self, n, max_len=None):
                return samples
        buf = Buf()
        for ep in sc["episodes"]:
            tr = []
            h, hn = ep["h"], ep["s0"] % 2
            s = ep["s0"]
            for i, st in enumerate(ep["steps"]):
                tr.append(dict(
                    state=obs(s), action=st["a"], reward=st["r"] / 2, next_state=obs(st["s2"]),
                    next_action=None, is_state_terminal=boolean(st["term"]),
                    recurrent_state=(np.array([[h]], dtype=np.float32),)
                    if not (h == 0 and sc["nones"]) else None,
                    next_recurrent_state=(np.array([[hn]], dtype=np.float32),)))
                batch.append(dict(s=s + NS * h + 1, a=st["a"] + 1, rs=[fx(st["r"] / 2)],
                                  s2=st["s2"] + NS * hn + 1, terms=[st["term"]], w=S))
                h, hn, s = hn, st["s2"] % 2, st["s2"]
            samples.append(tr)
    else:
        base = replay_buffers.PrioritizedReplayBuffer if sc["weighted"] else \
            replay_buffers.ReplayBuffer

        class Buf(base):
            def __len__(self):
                return 100

            def append(self, *a, **k):
                pass

            def sample(self, n):
                return samples

            def update_errors(self, e):
                errs.append([fx(np.asarray(x).reshape(-1)[0]) for x in e])
        buf = Buf(capacity=10)
        for e in sc["batch"]:
            tr = []
            n = len(e["rs"])
            for i in range(n):
                tr.append(dict(state=obs(e["s"] if i == 0 else rng.randrange(NS)),
                               action=e["a"] if i == 0 else rng.randrange(NA),
                               reward=e["rs"][i] / 2, next_action=None,
                               next_state=obs(e["s2"] if i == n - 1 else rng.randrange(NS)),
                               is_state_terminal=boolean(e["terms"][i])))
            if sc["weighted"]:
                for t in tr[:1] if rng.random() < .5 else tr:
                    t["weight"] = e["w"] / 4
            samples.append(tr)
            batch.append(dict(s=e["s"] + 1, a=e["a"] + 1, rs=[fx(r / 2) for r in e["rs"]],
                              s2=e["s2"] + 1, terms=e["terms"],
                              w=fx(e["w"] / 4) if sc["weighted"] else S))
    opt = torch.optim.SGD(model.parameters(), lr=cfg["ln"] / cfg["ld"])
    ag = cls(model, opt, buf, gn / gd, explorers.Greedy(), replay_start_size=1,
             minibatch_size=1, update_interval=1, target_update_interval=1000,
             clip_delta=cfg["clip"], phi=phi, recurrent=recurrent,
             batch_accumulator="mean" if cfg["mean"] else "sum", **extra)
    with torch.no_grad():
        for p in ag.target_model.parameters():
            p.copy_(torch.tensor(tq0, dtype=torch.float32))

    def tab(m):
        p = list(m.parameters())[0].detach()
        return [[fx(x) for x in row] for row in p.tolist()]
    q, tq = tab(ag.model), tab(ag.target_model)
    ag.act(obs(0))
    ag.observe(obs(1), 0., False, False)
    rec.ev("update", q=q, tq=tq, qa=tab(ag.model), tqa=tab(ag.target_model), batch=batch,
           haserr=bool(sc.get("weighted")) and not recurrent,
           errs=errs[0] if len(errs) == 1 else [])


if __name__ == "__main__":
    dlib.run(scenario)
