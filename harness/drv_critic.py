"""One update of DDPG, TD3 or SAC with tabular critics and policies."""
import logging
import random

import numpy as np
import torch
from torch import nn

import dlib
from drv_td import S, fx, obs, phi
from pfrl import agents as A
from pfrl import explorers, replay_buffers

logging.disable(logging.CRITICAL)
NS = 3


class Crit(nn.Module):
    def __init__(self, u, v):
        super().__init__()
        self.u = nn.Parameter(torch.tensor(u, dtype=torch.float32))
        self.v = nn.Parameter(torch.tensor(v, dtype=torch.float32))

    def forward(self, x):
        s, a = x
        i = s[:, 0].long()
        return (self.u[i] + self.v[i] * a[:, 0])[:, None]


class D:
    """What the agents use of a distribution."""

    def __init__(self, a, lp):
        self.a, self.lp = a, lp

    def sample(self):
        return self.a.detach().clone()

    def rsample(self):
        return self.a

    def log_prob(self, a):
        # the density does not depend on the action, but the shapes are checked
        return self.lp + 0 * a.detach()[:, 0]

    def entropy(self):
        raise NotImplementedError

    @property
    def mean(self):
        return self.a


class Pol(nn.Module):
    def __init__(self, m, lp, noise):
        super().__init__()
        self.m = nn.Parameter(torch.tensor(m, dtype=torch.float32))
        self.lp = nn.Parameter(torch.tensor(lp, dtype=torch.float32))
        self.noise = noise

    def forward(self, x):
        i = x[:, 0].long()
        return D((self.m[i] + self.noise)[:, None], self.lp[i])


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    fam = cfg["fam"]
    rng = random.Random(sc["seed"])

    def val(k):
        return [x / 4 for x in sc["tab"][k]]
    lr = cfg["ln"] / cfg["ld"]
    noise = cfg["noise"] / S if fam == "sac" else 0.
    pol = Pol(val("m"), val("lp"), noise)
    q1, q2 = Crit(val("u1"), val("v1")), Crit(val("u2"), val("v2"))
    samples, batch = [], []
    for e in sc["batch"]:
        tr = []
        n = len(e["rs"])
        for i in range(n):
            tr.append(dict(
                state=obs(e["s"] if i == 0 else rng.randrange(NS)),
                action=np.array([e["a"] / 2 if i == 0 else rng.uniform(-1, 1)], dtype=np.float32),
                reward=e["rs"][i] / 2, next_action=None,
                next_state=obs(e["s2"] if i == n - 1 else rng.randrange(NS)),
                is_state_terminal=e["terms"][i]))
        samples.append(tr)
        batch.append(dict(s=e["s"] + 1, a=fx(e["a"] / 2), rs=[fx(r / 2) for r in e["rs"]],
                          s2=e["s2"] + 1, terms=e["terms"]))

    class Buf(replay_buffers.ReplayBuffer):
        def __len__(self):
            return 100

        def append(self, *a, **k):
            pass

        def sample(self, n):
            return samples
    buf = Buf(10)

    def opt(m):
        return torch.optim.SGD(m.parameters(), lr=lr)
    kw = dict(replay_start_size=1, minibatch_size=1, update_interval=1, phi=phi)
    g = cfg["gn"] / cfg["gd"]
    if fam == "ddpg":
        ag = A.DDPG(pol, q1, opt(pol), opt(q1), buf, g, explorers.Greedy(),
                    target_update_interval=1000, **kw)
        tq = [ag.target_q_function]
        tp = ag.target_policy
    elif fam == "td3":
        ag = A.TD3(pol, q1, q2, opt(pol), opt(q1), opt(q2), buf, g, explorers.Greedy(),
                   policy_update_delay=1, soft_update_tau=.25,
                   target_policy_smoothing_func=lambda a: a + cfg["shift"] / S, **kw)
        tq = [ag.target_q_func1, ag.target_q_func2]
        tp = ag.target_policy
    else:
        ag = A.SoftActorCritic(
            pol, q1, q2, opt(pol), opt(q1), opt(q2), buf, g, soft_update_tau=.25,
            initial_temperature=cfg["temp"] / S,
            entropy_target=cfg["htarget"] / S if cfg["adapt"] else None,
            temperature_optimizer_lr=.1, **kw)
        tq = [ag.target_q_func1, ag.target_q_func2]
        tp = None
    with torch.no_grad():
        for i, t in enumerate(tq):
            t.u.copy_(torch.tensor(val("tu%d" % (i + 1))))
            t.v.copy_(torch.tensor(val("tv%d" % (i + 1))))
        if tp is not None:
            tp.m.copy_(torch.tensor(val("tm")))

    def state():
        f = {}
        for i, q in enumerate([q1, q2]):
            f["u%d" % (i + 1)] = [fx(x) for x in q.u.tolist()]
            f["v%d" % (i + 1)] = [fx(x) for x in q.v.tolist()]
        for i in range(2):
            t = tq[i] if i < len(tq) else tq[0]
            f["tu%d" % (i + 1)] = [fx(x) for x in t.u.tolist()]
            f["tv%d" % (i + 1)] = [fx(x) for x in t.v.tolist()]
        f["m"] = [fx(x) for x in pol.m.tolist()]
        f["lp"] = [fx(x) for x in pol.lp.tolist()]
        f["tm"] = [fx(x) for x in (tp or pol).m.tolist()]
        return f

    def temp():
        return fx(ag.temperature) if fam == "sac" else 0
    b, t0 = state(), temp()
    ag.act(obs(0))
    ag.observe(obs(1), 0., False, False)
    rec.ev("update", b=b, a=state(), batch=batch, temp0=t0, temp1=temp())


if __name__ == "__main__":
    dlib.run(scenario)
