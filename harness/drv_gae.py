"""PPO and TRPO with a tabular model and an optimizer which records gradients."""
import logging
import math
import random

import numpy as np
import torch
from torch import nn

import dlib
import pfrl
from pfrl import agents as A

logging.disable(logging.CRITICAL)
S = 1 << 14


def fx(x):
    return dlib.fx(x, S)


class Ob:
    """An observation which is a number without structure."""

    def __init__(self, i):
        self.i = i


def phi(o):
    return np.array([o.i], dtype=np.float32)


def marked_batch_states(states, device, phi):
    return torch.tensor([[float(phi(s)[0]), 7.] for s in states], device=device)


class Tab:
    """Shared state of the tabular modules."""

    def __init__(self, cfg, marked):
        self.cfg, self.marked = cfg, marked
        self.lk = self.dv = 0
        self.seen = []        # grad-enabled value forwards since the last step

    def ids(self, x):
        if isinstance(x, nn.utils.rnn.PackedSequence):
            x = x.data
        assert x.shape[1] == (2 if self.marked else 1), "observation did not pass batch_states"
        return x[:, 0].long() - 1


class Dist:
    """What the agents use of a distribution."""

    def __init__(self, lp, ent, base):
        self.lp, self.ent, self.base = lp, ent, base

    def sample(self):
        return torch.distributions.Categorical(logits=self.base).sample()

    def log_prob(self, a):
        assert a.shape == self.lp.shape[:1]
        return self.lp.gather(1, a.long()[:, None])[:, 0]

    def entropy(self):
        return self.ent


class PpoModel(nn.Module):
    def __init__(self, tab, V, lp):
        super().__init__()
        self.tab = tab
        self.V = nn.Parameter(torch.tensor(V))
        self.lp = nn.Parameter(torch.tensor(lp))
        self.ent = nn.Parameter(torch.zeros(len(V)))

    def forward(self, x, h=None):
        i = self.tab.ids(x)
        out = (Dist(self.lp[i] + self.tab.lk * math.log(2), self.ent[i], self.lp[i].detach()),
               (self.V[i] + self.tab.dv / S)[:, None])
        if isinstance(x, nn.utils.rnn.PackedSequence):
            n = int(x.batch_sizes[0])
            return out, torch.zeros(1, n, 1) if h is None else h
        return out


class RecPpoModel(PpoModel, pfrl.nn.Recurrent):
    pass


class Policy(nn.Module):
    def __init__(self, tab, lp):
        super().__init__()
        self.tab = tab
        self.lp = nn.Parameter(torch.tensor(lp))

    def forward(self, x, h=None):
        i = self.tab.ids(x)
        out = torch.distributions.Categorical(logits=self.lp[i])
        if isinstance(x, nn.utils.rnn.PackedSequence):
            return out, torch.zeros(1, int(x.batch_sizes[0]), 1) if h is None else h
        return out


class Vf(nn.Module):
    def __init__(self, tab, V):
        super().__init__()
        self.tab = tab
        self.V = nn.Parameter(torch.tensor(V))

    def forward(self, x, h=None):
        i = self.tab.ids(x)
        if torch.is_grad_enabled():
            self.tab.seen.extend(int(k) for k in i)
        out = (self.V[i] + self.tab.dv / S)[:, None]
        if isinstance(x, nn.utils.rnn.PackedSequence):
            return out, torch.zeros(1, int(x.batch_sizes[0]), 1) if h is None else h
        return out


class RecPolicy(Policy, pfrl.nn.Recurrent):
    pass


class RecVf(Vf, pfrl.nn.Recurrent):
    pass


class Norm(nn.Module):
    """Identity which records when it is told about observations."""

    def __init__(self, rec):
        super().__init__()
        self.rec = rec

    def experience(self, x):
        self.rec.ev("norm", ids=[int(i) for i in x[:, 0]])

    def forward(self, x, update=True):
        if update:
            self.experience(x)
        return x

    def inverse(self, x):
        return x


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    rng = random.Random(sc["seed"])
    n, ppo = cfg["n"], cfg["algo"] == "ppo"
    tab = Tab(cfg, sc["marked"])
    V = [x / S for x in cfg["V"]]
    N = len(V)
    na = sc["na"]
    lp = [[rng.randint(-4, 4) / 4 for _ in range(na)] for _ in range(N)]
    mb = cfg["mb"]
    ecoef = 0.25

    class Opt(torch.optim.SGD):
        def step(self, closure=None):
            m = model if ppo else vf
            gV = m.V.grad if m.V.grad is not None else torch.zeros(N)
            if ppo:
                gL = m.lp.grad if m.lp.grad is not None else torch.zeros(N, na)
                gE = m.ent.grad if m.ent.grad is not None else torch.zeros(N)
                mult = [-float(g) * mb / ecoef for g in gE]
            else:
                gL = torch.zeros(N, na)
                mult = [float(tab.seen.count(i)) for i in range(N)]
                del tab.seen[:]
            items, stray = [], False
            for i in range(N):
                k = int(round(mult[i]))
                if abs(mult[i] - k) > 1e-3:
                    k = -1
                if k == 0:
                    stray = stray or bool(gV[i] != 0) or bool((gL[i] != 0).any())
                else:
                    items.append(dict(id=i + 1, mult=k, gv=fx(float(gV[i]) * mb),
                                      gl=[fx(float(g) * mb) for g in gL[i]]))
            rec.ev("step", items=items, stray=stray, lk=tab.lk, dv=tab.dv)
            if ppo:
                tab.lk = rng.choice([0, 0, 1, -1])
            tab.dv = rng.choice([0, 0, 1, -1, 3, -3]) * S // 8 if sc["shift"] else 0

    norm = Norm(rec) if cfg["norm"] else None
    kw = dict(obs_normalizer=norm, gamma=cfg["gn"] / cfg["gd"], lambd=cfg["ln"] / cfg["ld"], phi=phi,
              update_interval=cfg["ui"], standardize_advantages=cfg["std"], recurrent=cfg["rec"],
              max_recurrent_sequence_len=sc["maxlen"])
    if sc["marked"]:
        kw["batch_states"] = marked_batch_states
    if ppo:
        model = (RecPpoModel if cfg["rec"] else PpoModel)(tab, V, lp)
        ag = A.PPO(model, Opt(model.parameters(), lr=1.), value_func_coef=cfg["vn"] / cfg["vd"],
                   entropy_coef=ecoef, minibatch_size=mb, epochs=cfg["epochs"],
                   clip_eps=cfg["eps"] / S, clip_eps_vf=cfg["veps"] / S if cfg["veps"] else None, **kw)
    else:
        pol = (RecPolicy if cfg["rec"] else Policy)(tab, lp)
        vf = (RecVf if cfg["rec"] else Vf)(tab, V)
        ag = A.TRPO(pol, vf, Opt(vf.parameters(), lr=1.), entropy_coef=0., max_kl=cfg["maxkl"] / S,
                    vf_epochs=cfg["epochs"], vf_batch_size=mb, **kw)
    cnt = [0]

    def fresh():
        cnt[0] += 1
        return Ob(cnt[0])
    obs = [fresh() for _ in range(n)]
    single = sc["single"] and n == 1

    def table():
        return [[fx(p) for p in row] for row in torch.softmax(pol.lp.detach(), 1).tolist()]
    for st in sc["steps"]:
        del tab.seen[:]
        if not ppo:
            before = table()
        if st.get("eval"):
            # an evaluation in between leaves no trace in the data set
            with ag.eval_mode():
                e = [Ob(1 + rng.randrange(N)) for _ in range(n)]
                ag.batch_act(e)
                ag.batch_observe(e, [1.] * n, [True] * n, [False] * n)
        acts = [ag.act(obs[0])] if single else ag.batch_act(obs)
        rec.ev("act", obs=[o.i for o in obs], a=[dlib.as_int(a) for a in acts])
        nxt = [fresh() for _ in range(n)]
        r = [rng.randint(-16, 16) / 8 for _ in range(n)]
        done = [e in (1, 3) for e in st["ends"]]
        reset = [e in (2, 3) for e in st["ends"]]
        rec.ev("observe", nobs=[o.i for o in nxt], r=[fx(x) for x in r], done=done, reset=reset)
        k = len(rec)
        if single:
            ag.observe(nxt[0], r[0], done[0], reset[0])
        else:
            ag.batch_observe(nxt, r, done, reset)
        if not ppo:
            after = table()
            if after != before or len(rec) > k:
                rec.ev("kl", p=before, q=after)
        tab.lk = tab.dv = 0
        rec.ev("end")
        obs = [fresh() if done[i] or reset[i] else nxt[i] for i in range(n)]


if __name__ == "__main__":
    dlib.run(scenario)
