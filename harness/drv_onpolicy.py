"""A2C, A3C and REINFORCE with a tabular model and a recording optimizer."""
import logging
import random
import warnings

import torch
from torch import nn

import dlib
import pfrl
from drv_gae import S, Dist, Ob, Tab, PpoModel, RecPpoModel, fx, marked_batch_states, phi
from pfrl import agents as A

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


class RfModel(nn.Module):
    def __init__(self, tab, lp):
        super().__init__()
        self.tab = tab
        self.lp = nn.Parameter(torch.tensor(lp))
        self.ent = nn.Parameter(torch.zeros(len(lp)))

    def forward(self, x, h=None):
        i = self.tab.ids(x)
        out = Dist(self.lp[i], self.ent[i], self.lp[i].detach())
        if isinstance(x, nn.utils.rnn.PackedSequence):
            return out, torch.zeros(1, int(x.batch_sizes[0]), 1) if h is None else h
        return out


class RecRfModel(RfModel, pfrl.nn.Recurrent):
    pass


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    algo = cfg["algo"]
    rng = random.Random(sc["seed"])
    n = cfg["n"]
    tab = Tab(cfg, sc["marked"])
    V = [x / S for x in cfg["V"]]
    N, na = len(V), sc["na"]
    lp = [[rng.randint(-4, 4) / 4 for _ in range(na)] for _ in range(N)]
    T = cfg["T"]
    scale = {"a2c": T * n, "a3c": 1, "reinforce": T}[algo]
    if algo == "reinforce":
        model = (RecRfModel if sc["rec"] else RfModel)(tab, lp)
    else:
        model = (RecPpoModel if sc["rec"] and algo == "a3c" else PpoModel)(tab, V, lp)
    if algo == "a3c":
        model.share_memory()

    class Opt(torch.optim.SGD):
        def step(self, closure=None):
            def g(p, shape):
                return p.grad if p.grad is not None else torch.zeros(*shape)
            gl, ge = g(model.lp, (N, na)), g(model.ent, (N,))
            gv = g(model.V, (N,)) if algo != "reinforce" else torch.zeros(N)
            items = []
            for i in range(N):
                if bool(ge[i] != 0) or bool(gv[i] != 0) or bool((gl[i] != 0).any()):
                    items.append(dict(id=i + 1, gl=[fx(float(x) * scale) for x in gl[i]],
                                      gv=fx(float(gv[i]) * scale), ge=fx(float(ge[i]) * scale)))
            dv = 0
            if algo != "reinforce":
                dv = rng.choice([0, 1, -1]) * S // 8
                with torch.no_grad():
                    model.V.add_(dv / S)
            rec.ev("step", items=items, dv=dv)

    opt = Opt(model.parameters(), lr=1.)
    kw = dict(phi=phi)
    if sc["marked"]:
        kw["batch_states"] = marked_batch_states
    pi, vc, ent = cfg["pn"] / cfg["pd"], cfg["vn"] / cfg["vd"], cfg["ent"] / S
    gamma = cfg["gn"] / cfg["gd"]
    if algo == "a2c":
        ag = A.A2C(model, opt, gamma, n, update_steps=T, pi_loss_coef=pi, v_loss_coef=vc,
                   entropy_coeff=ent, use_gae=cfg["gae"], tau=cfg["ln"] / cfg["ld"], **kw)
    elif algo == "a3c":
        ag = A.A3C(model, opt, T, gamma, beta=ent, pi_loss_coef=pi, v_loss_coef=vc,
                   keep_loss_scale_same=cfg["keep"], normalize_grad_by_t_max=cfg["bymax"],
                   recurrent=sc["rec"], **kw)
    else:
        ag = A.REINFORCE(model, opt, beta=ent, batchsize=T, backward_separately=sc["sep"],
                         recurrent=sc["rec"], **kw)
    batch = algo == "a2c"
    cnt = [0]

    def fresh():
        cnt[0] += 1
        return Ob(cnt[0])
    obs = [fresh() for _ in range(n)]
    for st in sc["steps"]:
        if st.get("eval"):
            # an evaluation in between leaves no trace in what is learned
            with ag.eval_mode():
                e = [Ob(1 + rng.randrange(N)) for _ in range(n)]
                if batch:
                    ag.batch_act(e)
                    ag.batch_observe(e, [1.] * n, [True] * n, [False] * n)
                else:
                    ag.act(e[0])
                    ag.observe(e[0], 1., True, False)
        acts = ag.batch_act(obs) if batch else [ag.act(obs[0])]
        rec.ev("act", obs=[o.i for o in obs], a=[dlib.as_int(a) for a in acts])
        nxt = [fresh() for _ in range(n)]
        r = [rng.randint(-16, 16) / 8 for _ in range(n)]
        done = [e in (1, 3) for e in st["ends"]]
        reset = [e in (2, 3) for e in st["ends"]]
        rec.ev("observe", nobs=[o.i for o in nxt], r=[fx(x) for x in r], done=done, reset=reset)
        if batch:
            ag.batch_observe(nxt, r, done, reset)
        else:
            ag.observe(nxt[0], r[0], done[0], reset[0])
        rec.ev("end")
        obs = [fresh() if done[i] or reset[i] else nxt[i] for i in range(n)]


if __name__ == "__main__":
    dlib.run(scenario)
