"""ACER over tables; the optimizer reports the gradient and replaces the tables."""
import logging
import random
import warnings

import numpy as np
import torch
from torch import nn

import dlib
import pfrl
from pfrl.agents import acer
from pfrl.replay_buffers import EpisodicReplayBuffer

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
torch.set_num_threads(1)
S = 16384


class Logits(nn.Module):
    def __init__(self, t):
        super().__init__()
        self.t = nn.Parameter(t)

    def forward(self, x):
        return torch.distributions.Categorical(logits=self.t[x[:, 0].long() - 1])


class Values(nn.Module):
    def __init__(self, t):
        super().__init__()
        self.t = nn.Parameter(t)

    def forward(self, x):
        return pfrl.action_value.DiscreteActionValue(self.t[x[:, 0].long() - 1])


def scenario(sc, rec, d):
    c = sc["cfg"]
    rng = random.Random(sc["seed"])
    ns, na = c["ns"], c["na"]

    def tables():
        return ([[rng.randint(1, 4) for _ in range(na)] for _ in range(ns)],
                [[rng.randint(-12, 12) * S // 4 for _ in range(na)] for _ in range(ns)])

    def logits(w):
        return torch.log(torch.tensor(w, dtype=torch.float32)) + sc["shift"]

    pi0, q0 = tables()
    model = acer.ACERDiscreteActionHead(pi=Logits(logits(pi0)), q=Values(torch.tensor(q0) / float(S)))
    model.share_memory()

    class Opt(torch.optim.SGD):
        def step(self, closure=None):
            pi, q = tables()
            if rng.random() < sc["still"]:
                pi = live["pi"]
            live["pi"] = pi
            ps = self.param_groups[0]["params"]

            def fx(g):
                if g is None:
                    return [[0] * na for _ in range(ns)]
                return [[dlib.fx(x, S) for x in row] for row in g.tolist()]
            rec.ev("upd", gp=fx(ps[0].grad), gq=fx(ps[1].grad), pi=pi, q=q)
            ps[0].data.copy_(logits(pi))
            ps[1].data.copy_(torch.tensor(q) / float(S))

    live = dict(pi=pi0)

    class Buf(EpisodicReplayBuffer):
        def sample_episodes(self, *a, **kw):
            eps = super().sample_episodes(*a, **kw)
            rec.ev("sample", ids=[int(t["state"][1]) for t in eps[0]])
            return eps

    agent = acer.ACER(
        model, Opt([model.pi.t, model.q.t], lr=0.1), t_max=c["tmax"], gamma=c["g"] / 4,
        replay_buffer=Buf() if c["replay"] else None, beta=c["beta"] / 16,
        phi=lambda x: np.asarray(x, dtype=np.float32), pi_loss_coef=c["pc"] / 4,
        Q_loss_coef=c["qc"] / 4, use_trust_region=c["tr"], trust_region_alpha=c["alpha"],
        trust_region_delta=c["delta"] / S, truncation_threshold=c["trunc"] / 4 if c["trunc"] else None,
        disable_online_update=not c["online"], n_times_replay=c["nrep"], replay_start_size=c["rs"],
        normalize_loss_by_steps=c["norm"], use_Q_opc=c["opc"])
    n = [0]

    def obs():
        n[0] += 1
        return np.array([rng.randint(1, ns), n[0]], dtype=np.float32)

    o = obs()
    o[1] = 1
    n[0] = 1
    for k, (done, reset) in enumerate(sc["script"]):
        a = agent.act(o)
        rec.ev("act", s=int(o[0]), a=dlib.as_int(a) + 1)
        nx = obs()
        nx[1] = k + 2
        r = rng.randint(-8, 8) * S // 4
        rec.ev("obs", r=r, nx=int(nx[0]), d=bool(done), reset=bool(reset))
        agent.observe(nx, r / float(S), done, reset)
        o = nx
        if done or reset:
            o = obs()
            o[1] = k + 2
        if rng.random() < sc["evals"]:
            with agent.eval_mode():
                agent.act(obs())
    rec.ev("end")
    return dict(pi0=pi0, q0=q0)


if __name__ == "__main__":
    dlib.run(scenario)
