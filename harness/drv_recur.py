"""Recurrent agents over a module whose state is the previous observation."""
import logging
import random
import warnings

import numpy as np
import torch
from torch import nn

import dlib
import pfrl
from pfrl import agents as A
from pfrl import explorers, replay_buffers
from pfrl.nn import Branched, RecurrentSequential
from pfrl.policies import SoftmaxCategoricalHead

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
torch.set_num_threads(1)
NA = 2


class Log:
    def __init__(self, rec):
        self.rec = rec

    def __deepcopy__(self, memo):
        return self


class Hist(pfrl.nn.Recurrent, nn.Module):
    """The recurrent state is the observation seen last (0: none)."""

    def __init__(self, log, form):
        super().__init__()
        self.log, self.form = log, form

    def forward(self, x, h):
        data, sizes = x.data, [int(b) for b in x.batch_sizes]
        if h is None:
            cur = torch.zeros(sizes[0])
            other = cur.clone()
        elif self.form == "tuple":
            cur, other = h[0][0, :, 0].clone(), h[1][0, :, 0].clone()
        else:
            cur = h[0, :, 0].clone()
            other = cur.clone()
        assert cur.shape[0] == sizes[0], "recurrent state of another width"
        pairs, off = [], 0
        for b in sizes:
            for k in range(b):
                i = int(data[off + k, 0])
                hh = dlib.as_int(cur[k]) if bool(cur[k] == other[k]) else -5
                pairs.append(dict(id=i, h=hh))
                cur[k] = other[k] = float(i)
            off += b
        self.log.rec.ev("fwd", p=pairs)
        st = cur.detach()[None, :, None]
        return x, ((st, st.clone()) if self.form == "tuple" else st)


class Scale(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.ones(1))

    def forward(self, x):
        return x * 0.01 * self.w


class Opt(torch.optim.SGD):
    def __init__(self, m):
        super().__init__(m.parameters(), lr=1e-3)


class Pipe:
    def __init__(self, rec):
        self.rec = rec

    def send(self, msg):
        cmd, tr = msg
        if cmd == "transition":
            def one(h):
                if h is None:
                    return 0
                while isinstance(h, tuple):
                    h = h[0]
                return dlib.as_int(np.asarray(h).reshape(-1)[0])
            self.rec.ev("stored", id=int(tr["state"][0]), h=one(tr["recurrent_state"]),
                        nid=int(tr["next_state"][0]), nh=one(tr["next_recurrent_state"]))

    def recv(self):
        return None


def phi(x):
    return x


class LogBuf(replay_buffers.EpisodicReplayBuffer):
    def __init__(self, rec, *a):
        super().__init__(*a)
        self.rec = rec

    def sample_episodes(self, *a, **kw):
        eps = super().sample_episodes(*a, **kw)
        self.rec.ev("sample", heads=[int(e[0]["state"][0]) for e in eps])
        return eps


def build(sc, rec):
    k, rng = sc["kind"], random.Random(sc["seed"])
    log = Log(rec)

    def hist():
        return Hist(log, sc["form"])

    def pi():
        return nn.Sequential(Scale(), nn.Linear(1, NA), SoftmaxCategoricalHead())

    def qhead():
        return nn.Sequential(Scale(), nn.Linear(1, NA), pfrl.q_functions.DiscreteActionValueHead())
    if k in ("DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "CategoricalDQN", "CategoricalDoubleDQN",
             "IQN"):
        extra = {}
        if k == "IQN":
            q = A.iqn.RecurrentImplicitQuantileQFunction(
                psi=RecurrentSequential(hist(), nn.Linear(1, 4)),
                phi=A.iqn.CosineBasisLinear(4, 4), f=nn.Linear(4, NA))
            extra = dict(quantile_thresholds_N=2, quantile_thresholds_N_prime=2, quantile_thresholds_K=2)
        elif k.startswith("Cat"):
            q = RecurrentSequential(hist(), Scale(),
                                    pfrl.q_functions.DistributionalFCStateQFunctionWithDiscreteAction(
                                        1, NA, 5, -2., 2., n_hidden_channels=3, n_hidden_layers=0))
        else:
            q = RecurrentSequential(hist(), qhead())
        buf = replay_buffers.EpisodicReplayBuffer(200)
        return getattr(A, k)(
            q, Opt(q), buf, 0.9, explorers.ConstantEpsilonGreedy(.3, lambda: rng.randrange(NA)),
            replay_start_size=sc["rss"], minibatch_size=sc["mb"], update_interval=sc["ui"],
            target_update_interval=4, recurrent=True, phi=phi, episodic_update_len=sc["maxlen"], **extra)
    if k == "PPO":
        m = RecurrentSequential(hist(), Branched(pi(), nn.Sequential(Scale(), nn.Linear(1, 1))))
        return A.PPO(m, Opt(m), phi=phi, update_interval=sc["rss"] + 2, minibatch_size=sc["mb"], epochs=2,
                     recurrent=True, max_recurrent_sequence_len=sc["maxlen"])
    if k == "TRPO":
        p = RecurrentSequential(hist(), *pi())
        v = RecurrentSequential(hist(), Scale(), nn.Linear(1, 1))
        return A.TRPO(p, v, Opt(v), phi=phi, update_interval=sc["rss"] + 2, vf_batch_size=sc["mb"],
                      vf_epochs=2, recurrent=True, max_recurrent_sequence_len=sc["maxlen"],
                      conjugate_gradient_max_iter=2)
    if k == "A3C":
        m = RecurrentSequential(hist(), Branched(pi(), nn.Sequential(Scale(), nn.Linear(1, 1))))
        m.share_memory()
        return A.A3C(m, Opt(m), sc["rss"] + 1, 0.9, phi=phi, recurrent=True)
    if k == "ACER":
        m = RecurrentSequential(hist(), A.acer.ACERDiscreteActionHead(pi(), qhead()))
        m.share_memory()
        return A.ACER(m, Opt(m), sc["rss"] + 1, 0.9, LogBuf(rec, 200),
                      phi=phi, recurrent=True, n_times_replay=sc["mb"], replay_start_size=sc["rss"])
    if k == "REINFORCE":
        m = RecurrentSequential(hist(), *pi())
        return A.REINFORCE(m, Opt(m), phi=phi, batchsize=sc["mb"], recurrent=True,
                           backward_separately=sc["sep"])
    if k == "actor":
        m = RecurrentSequential(hist(), qhead())
        return A.StateQFunctionActor(Pipe(rec), m, explorers.ConstantEpsilonGreedy(.3, lambda: rng.randrange(NA)),
                                     phi=phi, recurrent=True)
    raise ValueError(k)


def scenario(sc, rec, d):
    rng = random.Random(sc["seed"] + 1)
    ag = build(sc, rec)
    n, single = sc["n"], sc["single"]
    cnt = [0]

    def fresh():
        cnt[0] += 1
        return np.array([cnt[0]], dtype=np.float32)
    obs = dict(train=None, eval=None)
    for st in sc["steps"]:
        m = st["m"]
        if m == "eval" and sc["kind"] == "actor" and obs["eval"] is None and rng.random() < .2:
            continue
        if obs[m] is None:
            obs[m] = [fresh() for _ in range(n)]
        o = obs[m]
        nxt = [fresh() for _ in range(n)]
        done = [e in (1, 3) for e in st["ends"]]
        reset = [e in (2, 3) for e in st["ends"]]
        r = [rng.uniform(-1, 1) for _ in range(n)]

        def go():
            rec.ev("act", m=m, obs=[int(x[0]) for x in o])
            if single:
                ag.act(o[0])
            else:
                ag.batch_act(o)
            rec.ev("acted")
            rec.ev("observe", m=m, nobs=[int(x[0]) for x in nxt],
                   ended=[a or b for a, b in zip(done, reset)])
            if single:
                ag.observe(nxt[0], r[0], done[0], reset[0])
            else:
                ag.batch_observe(nxt, r, done, reset)
            rec.ev("observed")
        if m == "eval":
            with ag.eval_mode():
                go()
        else:
            go()
        obs[m] = [fresh() if done[i] or reset[i] else nxt[i] for i in range(n)]
        if m == "eval" and all(a or b for a, b in zip(done, reset)):
            obs[m] = None


if __name__ == "__main__":
    dlib.run(scenario)
