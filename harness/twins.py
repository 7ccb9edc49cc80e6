"""Twin agents: built from the same seeds, driven with the same inputs, every call made under a
reseeded random state, so that two of them behave alike unless something else differs."""
import hashlib
import random
import warnings

import numpy as np
import torch
from torch import nn

import dlib  # noqa: F401
import pfrl
from pfrl import agents as A
from pfrl import explorers, replay_buffers
from pfrl.nn import EmpiricalNormalization, RecurrentSequential
from pfrl.policies import DeterministicHead, GaussianHeadWithDiagonalCovariance, SoftmaxCategoricalHead

warnings.simplefilter("ignore")
torch.set_num_threads(1)
NF, NA = 2, 3

VALUE = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "CategoricalDQN",
         "CategoricalDoubleDQN", "IQN"]
CONT = ["DDPG", "TD3", "SAC"]
ONPOL = ["PPO", "TRPO", "A2C", "REINFORCE", "A3C", "ACER"]
KINDS = VALUE + CONT + ONPOL
SINGLE = ["REINFORCE", "A3C", "ACER"]          # these take one environment only


def seed_all(s):
    s %= 2**31
    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


def phi(x):
    return np.asarray(x, dtype=np.float32)


class Tick(nn.Module):
    """A module with state of its own which changes in training mode (as batch normalization)."""

    def __init__(self, on):
        super().__init__()
        self.on = on
        self.register_buffer("n", torch.zeros(()))

    def forward(self, x):
        if self.on and self.training:
            self.n.add_(1.)
        return x * (1. + .05 * torch.sin(self.n)) if self.on else x


class Drop(nn.Module):
    """Dropout of a fixed unit: tells the modes apart without any randomness."""

    def forward(self, x):
        return x * .8 if self.training else x


class SA(nn.Module):
    def __init__(self):
        super().__init__()
        self.f = nn.Sequential(nn.Linear(NF + 1, 4), Drop(), nn.Tanh(), nn.Linear(4, 1))

    def forward(self, x):
        return self.f(torch.cat(x, dim=-1))


class Twin:
    def __init__(self, kind, k, seed):
        """k: options (opt, tick, rec, norm, nstep, prio, ui, mb, rss, dp, ...)."""
        seed_all(seed)
        self.kind, self.k, self.mods, self.opts = kind, k, [], []
        self.agent = self.build()
        self.share()

    def share(self):
        """As train_agent_async does before forking."""
        if self.kind in ("A3C", "ACER"):
            for o in self.opts:
                for st in o.state_dict()["state"].values():
                    for v in st.values():
                        if isinstance(v, torch.Tensor):
                            v.share_memory_()

    # -- construction ---------------------------------------------------
    def opt(self, mod):
        name = self.k["opt"]
        if name == "adam":
            o = torch.optim.Adam(mod.parameters(), lr=.03)
        elif name == "rms":
            o = pfrl.optimizers.RMSpropEpsInsideSqrt(mod.parameters(), lr=.02, momentum=.3)
        elif name == "shared":
            o = pfrl.optimizers.SharedRMSpropEpsInsideSqrt(mod.parameters(), lr=.02)
        else:
            o = torch.optim.SGD(mod.parameters(), lr=.05, momentum=.7)
        self.opts.append(o)
        return o

    def own(self, mod):
        self.mods.append(mod)
        return nn.DataParallel(mod) if self.k.get("dp") else mod

    def body(self):
        return [Tick(self.k["tick"]), nn.Linear(NF, 4), Drop(), nn.Tanh()]

    def buf(self):
        if self.k["rec"] or self.kind == "ACER":
            return replay_buffers.EpisodicReplayBuffer(200)
        if self.k["prio"]:
            return replay_buffers.PrioritizedReplayBuffer(200, beta0=1., num_steps=self.k["nstep"])
        return replay_buffers.ReplayBuffer(200, num_steps=self.k["nstep"])

    def build(self):
        kind, k = self.kind, self.k
        rec = k["rec"]
        Seq = RecurrentSequential if rec else nn.Sequential
        body = [nn.GRU(NF, 4) if rec == "gru" else nn.LSTM(NF, 4)] + [Drop()] if rec else self.body()
        norm = EmpiricalNormalization(NF, clip_threshold=5) if k["norm"] else None
        if norm is not None:
            self.mods.append(norm)
        if kind in VALUE:
            extra = {}
            if "IQN" in kind:
                cls = A.iqn.RecurrentImplicitQuantileQFunction if rec else A.iqn.ImplicitQuantileQFunction
                q = cls(psi=Seq(*body), phi=A.iqn.CosineBasisLinear(4, 4), f=nn.Linear(4, NA))
                extra = dict(quantile_thresholds_N=3, quantile_thresholds_N_prime=3, quantile_thresholds_K=3)
            elif kind.startswith("Cat"):
                q = Seq(*body, pfrl.q_functions.DistributionalFCStateQFunctionWithDiscreteAction(
                    4, NA, 5, -2., 2., n_hidden_channels=3, n_hidden_layers=0))
            else:
                q = Seq(*body, nn.Linear(4, NA), pfrl.q_functions.DiscreteActionValueHead())
            if k["noisy"] and not rec and not kind.startswith("Cat") and "IQN" not in kind:
                pfrl.nn.to_factorized_noisy(q)
                ex = explorers.Greedy()
            else:
                ex = explorers.LinearDecayEpsilonGreedy(.6, .1, 25, lambda: np.random.randint(NA))
            o = self.opt(q)
            return getattr(A, kind)(
                self.own(q), o, self.buf(), .9, ex, phi=phi, recurrent=bool(rec),
                replay_start_size=k["rss"], minibatch_size=k["mb"], update_interval=k["ui"],
                target_update_interval=k["tui"], n_times_update=k["ntu"],
                target_update_method=k["tum"], soft_update_tau=.3, **extra)
        kw = dict(replay_start_size=k["rss"], minibatch_size=k["mb"], update_interval=k["ui"], phi=phi)
        if kind in CONT:
            if kind == "SAC":
                p = nn.Sequential(*self.body(), nn.Linear(4, 2), GaussianHeadWithDiagonalCovariance())
            else:
                p = nn.Sequential(*self.body(), nn.Linear(4, 1), nn.Tanh(), DeterministicHead())
            q1, q2 = SA(), SA()
            ops = [self.opt(p), self.opt(q1), self.opt(q2)]
            ex = explorers.AdditiveGaussian(.2, low=-1, high=1)
            if kind == "DDPG":
                return A.DDPG(self.own(p), self.own(q1), ops[0], ops[1], self.buf(), .9, ex,
                              target_update_interval=k["tui"], target_update_method=k["tum"],
                              soft_update_tau=.3, n_times_update=k["ntu"], **kw)
            if kind == "TD3":
                return A.TD3(self.own(p), self.own(q1), self.own(q2), *ops, self.buf(), .9, ex,
                             soft_update_tau=.3, policy_update_delay=k["delay"], **kw)
            return A.SoftActorCritic(
                self.own(p), self.own(q1), self.own(q2), *ops, self.buf(), .9, soft_update_tau=.3,
                entropy_target=-1. if k["temp"] else None, initial_temperature=.7,
                temperature_optimizer_lr=.05 if k["temp"] else None, **kw)

        def pi():
            return nn.Sequential(nn.Linear(4, NA), SoftmaxCategoricalHead())
        if kind == "TRPO":
            body2 = [nn.GRU(NF, 4)] if rec else self.body()
            p, v = Seq(*body, *pi()), Seq(*body2, nn.Linear(4, 1))
            o = self.opt(v)
            return A.TRPO(self.own(p), self.own(v), o, obs_normalizer=norm, phi=phi,
                          update_interval=k["ui"] * 4, vf_batch_size=k["mb"], vf_epochs=2,
                          recurrent=bool(rec), conjugate_gradient_max_iter=3)
        if kind == "REINFORCE":
            m = Seq(*body, *pi())
            o = self.opt(m)
            return A.REINFORCE(self.own(m), o, phi=phi, batchsize=k["mb"], recurrent=bool(rec), beta=.1,
                               backward_separately=k["sep"])
        if kind == "ACER":
            m = Seq(*body, A.acer.ACERDiscreteActionHead(
                pi(), nn.Sequential(nn.Linear(4, NA), pfrl.q_functions.DiscreteActionValueHead())))
            m.share_memory()
            o = self.opt(m)
            self.mods.append(m)
            return A.ACER(m, o, k["ui"] + 2, .9, self.buf(), phi=phi, recurrent=bool(rec),
                          n_times_replay=k["ntu"], replay_start_size=k["rss"], trust_region_alpha=.8,
                          trust_region_delta=.02)
        m = Seq(*body, pfrl.nn.Branched(pi(), nn.Linear(4, 1)))
        if kind == "PPO":
            o = self.opt(m)
            return A.PPO(self.own(m), o, obs_normalizer=norm, phi=phi, update_interval=k["ui"] * 4,
                         minibatch_size=k["mb"], epochs=2, recurrent=bool(rec))
        if kind == "A2C":
            o = self.opt(m)
            return A.A2C(self.own(m), o, .9, k["n"], phi=phi, update_steps=k["ui"] + 1,
                         use_gae=k["sep"], tau=.9)
        if kind == "A3C":
            m.share_memory()
            o = self.opt(m)
            self.mods.append(m)
            return A.A3C(m, o, k["ui"] + 2, .9, phi=phi, recurrent=bool(rec))
        raise ValueError(kind)

    # -- views ------------------------------------------------------------
    def fp(self):
        """A fingerprint of the parameters, buffers and optimizer state handed to the agent."""
        h = hashlib.sha1()
        for m in self.mods:
            for n, v in m.state_dict().items():
                h.update(n.encode() + v.detach().cpu().numpy().tobytes())
        for o in self.opts:
            for p, st in sorted(o.state_dict()["state"].items(), key=lambda x: str(x[0])):
                for n, v in sorted(st.items()):
                    if isinstance(v, (int, float, torch.Tensor)):
                        h.update(n.encode() + np.asarray(v, dtype=np.float64).tobytes())
        return h.hexdigest()[:12]

    def params_fp(self):
        h = hashlib.sha1()
        for m in self.mods:
            for n, v in m.state_dict().items():
                h.update(n.encode() + v.detach().cpu().numpy().tobytes())
        return h.hexdigest()[:12]

    # -- driving --------------------------------------------------------------
    def single(self):
        return self.kind in SINGLE or (self.k["n"] == 1 and self.k["one"])

    def act(self, obs, seed):
        seed_all(seed)
        a = [self.agent.act(obs[0])] if self.single() else self.agent.batch_act(obs)
        return hashlib.sha1(np.asarray([np.asarray(x, dtype=np.float64) for x in a]).tobytes()).hexdigest()[:12]

    def observe(self, obs, r, done, reset, seed):
        seed_all(seed)
        if self.single():
            self.agent.observe(obs[0], r[0], done[0], reset[0])
        else:
            self.agent.batch_observe(obs, r, done, reset)


def options(rng, kind, n=1):
    """A random configuration for this kind of agent."""
    rec = None
    if kind in VALUE + ["PPO", "TRPO", "A3C", "ACER", "REINFORCE"] and rng.random() < .3:
        rec = rng.choice(["gru", "lstm"])
    mb = rng.randint(1, 4)
    k = dict(n=n, rec=rec, one=rng.random() < .5, opt=rng.choice(["adam", "rms", "sgd"]),
             tick=rng.random() < .5 and kind not in ("A2C", "ACER", "REINFORCE"),
             norm=kind in ("PPO", "TRPO") and rng.random() < .6, nstep=rng.choice([1, 1, 2, 3]),
             prio=kind in VALUE and not rec and rng.random() < .4, noisy=kind in VALUE and rng.random() < .2,
             ui=rng.choice([1, 1, 2, 3]), mb=mb, rss=max(mb, rng.randint(1, 6)), tui=rng.choice([1, 2, 3]),
             ntu=rng.choice([1, 1, 2]), tum=rng.choice(["hard", "soft"]), delay=rng.choice([1, 2]),
             temp=rng.random() < .6, sep=rng.random() < .5, dp=False)
    if kind in ("A3C", "ACER"):
        k["opt"] = "shared"
    k["tui"] *= k["ui"]
    return k
