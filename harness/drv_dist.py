"""One update of a distributional agent with a tabular model; the projection itself."""
import logging
import random

import numpy as np
import torch
from torch import nn

import dlib
import pfrl
from drv_td import NA, NS, S, TabRec, fx, obs, phi
from pfrl import agents as A
from pfrl import explorers, replay_buffers
from pfrl.action_value import DistributionalDiscreteActionValue, QuantileDiscreteActionValue

logging.disable(logging.CRITICAL)


class Cat(nn.Module):
    def __init__(self, p, z):
        super().__init__()
        self.p = nn.Parameter(torch.tensor(p, dtype=torch.float32))
        self.register_buffer("z", torch.tensor(z, dtype=torch.float32))

    def forward(self, x):
        return DistributionalDiscreteActionValue(self.p[x[:, 0].long()], self.z)


class CatHead(nn.Module):
    def __init__(self, z):
        super().__init__()
        self.register_buffer("z", torch.tensor(z, dtype=torch.float32))

    def forward(self, x):
        return DistributionalDiscreteActionValue(x, self.z)


class Quant(nn.Module):
    log = []

    def __init__(self, p):
        super().__init__()
        self.p = nn.Parameter(torch.tensor(p, dtype=torch.float32))

    def at(self, rows):
        def f(taus):
            Quant.log.append([[fx(t) for t in row] for row in taus.tolist()])
            b = (taus >= .5).long()                    # (B, N)
            v = rows.gather(2, b[:, None, :].expand(-1, rows.shape[1], -1))   # (B, A, N)
            return QuantileDiscreteActionValue(v.transpose(1, 2))
        return f

    def forward(self, x):
        return self.at(self.p[x[:, 0].long()])         # (B, A, 2)


class QuantRec(pfrl.nn.Recurrent, nn.Module):
    def __init__(self, p):
        super().__init__()
        self.t = TabRec(p)
        self.at = Quant.at.__get__(self)

    def __deepcopy__(self, memo):
        return QuantRec(self.t.q.detach().numpy().copy())

    def forward(self, packed, h):
        y, h = self.t(packed, h)
        return self.at(y.data), h


def project(sc, rec):
    from pfrl.agents import categorical_dqn
    f = getattr(categorical_dqn, "_apply_categorical_projection", None)
    if f is None:
        return
    for e in sc["project"]:
        y, py = torch.tensor([e["y"]]) / S, torch.tensor([e["py"]]) / S
        z = torch.tensor([(e["vmin"] + k * e["dz"]) / S for k in range(e["n"])])
        pad = e["n"] - len(e["y"])
        y = torch.nn.functional.pad(y, (0, pad))
        py = torch.nn.functional.pad(py, (0, pad))
        other = torch.rand(1, e["n"])
        out = f(torch.cat([other * 3, y]), torch.cat([other, py]), z)[1]
        rec.ev("project", y=e["y"], py=e["py"], vmin=e["vmin"], dz=e["dz"], n=e["n"],
               out=[fx(x) for x in out.tolist()])


def scenario(sc, rec, d):
    if "project" in sc:
        return project(sc, rec)
    cfg = sc["cfg"]
    recurrent = sc["recurrent"]
    cat = cfg["fam"] == "cat"
    den = 16 if cat else 8
    rows = NS * 2 if recurrent else NS
    q0 = np.array(sc["q"], dtype=np.float64)[:rows] / den
    tq0 = np.array(sc["tq"], dtype=np.float64)[:rows] / den
    if cat:
        z = [(cfg["vmin"] + k * cfg["dz"]) / S for k in range(cfg["atoms"])]
        model = pfrl.nn.RecurrentSequential(TabRec(q0), CatHead(z)) if recurrent else Cat(q0, z)
        cls = A.CategoricalDoubleDQN if cfg["double"] else A.CategoricalDQN
        extra = {}
    else:
        model = QuantRec(q0) if recurrent else Quant(q0)
        cls = A.IQN
        extra = dict(quantile_thresholds_N=2, quantile_thresholds_N_prime=3,
                     quantile_thresholds_K=5)
    rng = random.Random(sc["seed"])
    errs, batch, samples = [], [], []

    if recurrent:
        class Buf(replay_buffers.EpisodicReplayBuffer):
            n_episodes = 100

            def __len__(self):
                return 100

            def sample_episodes(self, n, max_len=None):
                Quant.log.clear()
                return samples
        buf = Buf()
        eps = []
        for ep in sc["episodes"]:
            tr, es = [], []
            h, hn = ep["h"], ep["s0"] % 2
            s = ep["s0"]
            for i, st in enumerate(ep["steps"]):
                tr.append(dict(
                    state=obs(s), action=st["a"], reward=st["r"] / 2, next_state=obs(st["s2"]),
                    next_action=None, is_state_terminal=st["term"],
                    recurrent_state=(np.array([[h]], dtype=np.float32),) if cat
                    else np.array([[h]], dtype=np.float32),
                    next_recurrent_state=(np.array([[hn]], dtype=np.float32),) if cat
                    else np.array([[hn]], dtype=np.float32)))
                es.append(dict(s=s + NS * h + 1, a=st["a"] + 1, rs=[fx(st["r"] / 2)],
                               s2=st["s2"] + NS * hn + 1, terms=[st["term"]], w=S))
                h, hn, s = hn, st["s2"] % 2, st["s2"]
            samples.append(tr)
            eps.append(es)
        # the order in which thresholds are drawn: time first over episodes, longest first
        eps.sort(key=len, reverse=True)
        for t in range(len(eps[0])):
            batch += [e[t] for e in eps if len(e) > t]
    else:
        base = replay_buffers.PrioritizedReplayBuffer if sc["weighted"] else \
            replay_buffers.ReplayBuffer

        class Buf(base):
            def __len__(self):
                return 100

            def append(self, *a, **k):
                pass

            def sample(self, n):
                Quant.log.clear()
                return samples

            def update_errors(self, e):
                errs.append([fx(np.asarray(x).reshape(-1)[0]) for x in e])
        buf = Buf(capacity=10)
        for e in sc["batch"]:
            tr = []
            n = len(e["rs"])
            for i in range(n):
                tr.append(dict(state=obs(e["s"] if i == 0 else rng.randrange(NS)),
                               action=e["a"] if i == 0 else rng.randrange(NA),
                               reward=e["rs"][i] / 2, next_action=None,
                               next_state=obs(e["s2"] if i == n - 1 else rng.randrange(NS)),
                               is_state_terminal=e["terms"][i]))
            if sc["weighted"]:
                for t in tr:
                    t["weight"] = e["w"] / 4
            samples.append(tr)
            batch.append(dict(s=e["s"] + 1, a=e["a"] + 1, rs=[fx(r / 2) for r in e["rs"]],
                              s2=e["s2"] + 1, terms=e["terms"],
                              w=fx(e["w"] / 4) if sc["weighted"] else S))
    opt = torch.optim.SGD(model.parameters(), lr=cfg["ln"] / cfg["ld"])
    ag = cls(model, opt, buf, cfg["gn"] / cfg["gd"], explorers.Greedy(), replay_start_size=1,
             minibatch_size=1, update_interval=1, target_update_interval=1000,
             phi=phi, recurrent=recurrent,
             batch_accumulator="mean" if cfg["mean"] else "sum", **extra)
    with torch.no_grad():
        list(ag.target_model.parameters())[0].copy_(torch.tensor(tq0, dtype=torch.float32))

    def tab(m):
        p = list(m.parameters())[0].detach()
        return [[[fx(x) for x in r2] for r2 in row] for row in p.tolist()]
    q, tq = tab(ag.model), tab(ag.target_model)
    ag.act(obs(0))
    ag.observe(obs(1), 0., False, False)
    by = {len(x[0]): x for x in Quant.log} if not cat else {}
    rec.ev("update", q=q, tq=tq, qa=tab(ag.model), tqa=tab(ag.target_model), batch=batch,
           tk=by.get(5, []), tp=by.get(3, []), tn=by.get(2, []),
           haserr=bool(sc.get("weighted")) and not recurrent,
           errs=errs[0] if len(errs) == 1 else [])


if __name__ == "__main__":
    dlib.run(scenario)
