"""Agents built from small networks and recording collaborators."""
import numpy as np
import torch
from torch import nn

import dlib
import pfrl
from pfrl import agents as A
from pfrl import explorers, replay_buffers
from pfrl.action_value import DiscreteActionValue
from pfrl.nn import RecurrentSequential
from pfrl.policies import DeterministicHead

torch.set_num_threads(1)
FEAT = 2
NACT = 3


def phi(x):
    """Observations are [id, features...]; the networks see the features only."""
    return np.asarray(x, dtype=np.float32)[1:]


def obs_of(i):
    r = np.random.RandomState(i % (2**31))
    return np.concatenate([[i], r.uniform(-1, 1, FEAT)]).astype(np.float32)


def obs_id(o):
    try:
        return int(np.asarray(o).reshape(-1)[0])
    except Exception:
        return -777


class SGD(torch.optim.SGD):
    """Stochastic gradient descent reporting each step."""

    def __init__(self, params, lr, name="q", report=None, momentum=0.):
        super().__init__(params, lr=lr, momentum=momentum)
        self.name, self.report = name, report

    def step(self, *a, **k):
        r = super().step(*a, **k)
        if self.report is not None:
            self.report(self.name)
        return r


class Counter(nn.Module):
    """A buffer which is not a float, as in batch normalization."""

    def __init__(self):
        super().__init__()
        self.register_buffer("n", torch.zeros((), dtype=torch.long))

    def forward(self, x):
        if self.training:
            self.n.add_(1)
        return x


class Emb(nn.Module):
    def forward(self, x):
        return x


def q_module(kind, rec, counter=False):
    """A Q-function for the DQN family."""
    head = nn.Linear(FEAT, NACT)
    if kind in ("CategoricalDQN", "CategoricalDoubleDQN"):
        return pfrl.q_functions.DistributionalFCStateQFunctionWithDiscreteAction(
            FEAT, NACT, 5, -2., 2., n_hidden_channels=3, n_hidden_layers=0)
    if kind in ("IQN", "DoubleIQN"):
        mod = A.iqn.RecurrentImplicitQuantileQFunction if rec else \
            A.iqn.ImplicitQuantileQFunction
        psi = RecurrentSequential(nn.LSTM(FEAT, 4)) if rec else nn.Linear(FEAT, 4)
        return mod(psi=psi, phi=A.iqn.CosineBasisLinear(4, 4), f=nn.Linear(4, NACT))
    if rec:
        return RecurrentSequential(
            nn.LSTM(FEAT, 3) if rec == "lstm" else nn.GRU(FEAT, 3), nn.Linear(3, NACT),
            pfrl.q_functions.DiscreteActionValueHead())
    return nn.Sequential(*([Counter()] if counter else []), head,
                         pfrl.q_functions.DiscreteActionValueHead())


class SAQ(nn.Module):
    """A critic over (state, action) pairs."""

    def __init__(self, counter=False):
        super().__init__()
        self.c = Counter() if counter else nn.Identity()
        self.l1 = nn.Linear(FEAT + 1, 4)
        self.l2 = nn.Linear(4, 1)

    def forward(self, x):
        s, a = x
        return self.l2(torch.tanh(self.l1(self.c(torch.cat((s, a), dim=-1)))))


def gauss_policy():
    return nn.Sequential(
        nn.Linear(FEAT, 2), pfrl.policies.GaussianHeadWithDiagonalCovariance())


def det_policy():
    return nn.Sequential(nn.Linear(FEAT, 1), nn.Tanh(), DeterministicHead())


DQNS = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "CategoricalDQN",
        "CategoricalDoubleDQN", "IQN"]


def flat(mods):
    """All parameters and buffers as fixed-point integers."""
    res = []
    for m in mods:
        for v in m.state_dict().values():
            res += [dlib.fx(x, 1 << 16) for x in v.detach().reshape(-1).tolist()]
    return res


class Handle:
    """An agent together with views on its parts."""

    def __init__(self, agent, nets, targets, others, cont):
        self.agent, self.nets, self.targets, self.others, self.cont = \
            agent, nets, targets, others, cont

    def m(self):
        return flat(self.nets)

    def tg(self):
        return flat(self.targets)

    def by_name(self):
        return {k: [dlib.fx(x, 1 << 16) for p in v.parameters()
                    for x in p.detach().reshape(-1).tolist()] for k, v in self.others.items()}

    def ints(self):
        """Positions (from 1) in m() which are not floating point."""
        res = []
        for m in self.nets:
            for v in m.state_dict().values():
                res += [not v.dtype.is_floating_point] * v.numel()
        return [i + 1 for i, b in enumerate(res) if b]


def make(kind, buf, explorer, report=None, rec=None, lr=0.05, counter=False, burnin=None,
         momentum=0., gamma=0.75, **kw):
    """kw: replay_start_size, minibatch_size, update_interval, ..."""
    def opt(m, name):
        return SGD(m.parameters(), lr, name, report, momentum)

    if kind in DQNS:
        q = q_module(kind, rec, counter)
        cls = getattr(A, kind)
        extra = {}
        if kind in ("IQN", "DoubleIQN"):
            extra = dict(quantile_thresholds_N=3, quantile_thresholds_N_prime=3,
                         quantile_thresholds_K=3)
        if kind in ("AL", "PAL", "DoublePAL"):
            extra["alpha"] = .5
        ag = cls(q, opt(q, "q"), buf, gamma, explorer, phi=phi, recurrent=bool(rec),
                 **extra, **kw)
        return Handle(ag, [ag.model], [ag.target_model], dict(q=ag.model), False)
    if kind == "DDPG":
        p, q = det_policy(), SAQ(counter)
        ag = A.DDPG(p, q, opt(p, "policy"), opt(q, "q"), buf, gamma, explorer, phi=phi,
                    burnin_action_func=burnin, **kw)
        return Handle(ag, [ag.policy, ag.q_function],
                      [ag.target_policy, ag.target_q_function],
                      dict(policy=ag.policy, q=ag.q_function), True)
    if kind == "TD3":
        p, q1, q2 = det_policy(), SAQ(counter), SAQ()
        ag = A.TD3(p, q1, q2, opt(p, "policy"), opt(q1, "q1"), opt(q2, "q2"), buf, gamma,
                   explorer, phi=phi, burnin_action_func=burnin, **kw)
        return Handle(ag, [ag.policy, ag.q_func1, ag.q_func2],
                      [ag.target_policy, ag.target_q_func1, ag.target_q_func2],
                      dict(policy=ag.policy, q1=ag.q_func1, q2=ag.q_func2), True)
    if kind == "SAC":
        p, q1, q2 = gauss_policy(), SAQ(counter), SAQ()
        ag = A.SoftActorCritic(
            p, q1, q2, opt(p, "policy"), opt(q1, "q1"), opt(q2, "q2"), buf, gamma, phi=phi,
            burnin_action_func=burnin, **kw)
        return Handle(ag, [ag.q_func1, ag.q_func2], [ag.target_q_func1, ag.target_q_func2],
                      dict(policy=ag.policy, q1=ag.q_func1, q2=ag.q_func2), True)
    raise ValueError(kind)
