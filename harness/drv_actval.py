"""P32: action values and the heads which produce them."""
import copy
import random

import dlib
import gym
import numpy as np
import torch
from dlib import as_int, fx
from pfrl import action_value as av
from pfrl import policies, q_functions
from pfrl import nn as pnn
from pfrl.distributions import Delta
from pfrl.functions.bound_by_tanh import bound_by_tanh
from pfrl.functions.lower_triangular_matrix import lower_triangular_matrix
from pfrl.utils.mode_of_distribution import mode_of_distribution
from torch import distributions as D
from torch import nn

K = 64


def build(c):
    rows = c["rows"]

    def t(f):
        return torch.tensor([f(r) for r in rows], dtype=torch.float32)
    if c["kind"] == "disc":
        return av.DiscreteActionValue(t(lambda r: r["q"]))
    if c["kind"] == "dist":
        return av.DistributionalDiscreteActionValue(t(lambda r: r["p"]) / 16, torch.tensor(c["z"], dtype=torch.float32))
    if c["kind"] == "quant":
        return av.QuantileDiscreteActionValue(t(lambda r: r["t"]))
    def bound(x):
        if not x:
            return None
        if len(x) == 1 and c["scalar"]:
            return x[0]
        return np.asarray(x, dtype=np.float32)
    v = t(lambda r: [r["v"]]) if c["column"] else t(lambda r: r["v"])
    return av.QuadraticActionValue(t(lambda r: r["mu"]), t(lambda r: r["m"]), v, min_action=bound(c["lo"]),
                                   max_action=bound(c["hi"]))


def nums(x, u):
    return [fx(v, u) for v in x.detach().reshape(-1)]


def mat(x, u):
    return [[fx(v, u) for v in r] for r in x.detach().reshape(x.shape[0], -1)]


def queries(sc, rec):
    c = sc["cfg"]
    quad = c["kind"] == "quad"
    objs, sizes = [build(c)], [len(c["rows"])]
    rec.ev("make")

    def act(a):
        return torch.tensor(a, dtype=torch.float32) if quad else torch.tensor(a, dtype=torch.long)
    for st in sc["steps"]:
        o = st["obj"] - 1
        q = objs[o]
        if st["k"] == "slice":
            idx = st["idx"]
            py = [i - 1 for i in idx]
            how = st.get("how", "list")
            if how == "slice":
                x = slice(py[0], py[-1] + 1)
            elif how == "mask":
                x = torch.tensor([i in py for i in range(sizes[o])])
            elif how == "tensor":
                x = torch.tensor(py)
            else:
                x = py
            objs.append(q[x])
            sizes.append(len(idx))
            rec.ev("slice", obj=st["obj"], idx=idx)
            continue
        w, a, b = st["what"], st.get("a"), st.get("b")
        if w == "greedy":
            g = q.greedy_actions
            res = [[as_int(v) for v in r] for r in g] if quad else [as_int(v) for v in g]
        elif w == "max":
            res = nums(q.max, K)
        elif w == "eval":
            res = nums(q.evaluate_actions(act(a)), K)
        elif w == "adv":
            res = nums(q.compute_advantage(act(a)), K)
        elif w == "dadv":
            res = nums(q.compute_double_advantage(act(a), act(b)), K)
        elif w == "mean":
            res = nums(q.compute_expectation(0.), K)
        elif w == "maxdist":
            res = [[as_int(v * 16) for v in r] for r in q.max_as_distribution]
        elif w == "evaldist":
            res = [[as_int(v * 16) for v in r] for r in q.evaluate_actions_as_distribution(act(a))]
        elif w == "quantiles":
            res = [[as_int(v) for v in r] for r in q.evaluate_actions_as_quantiles(act(a))]
        kw = {k: st[k] for k in ("a", "b") if k in st}
        rec.ev("query", obj=st["obj"], what=w, res=res, **kw)


U = 4096


def saq(name, do, da, h, nl):
    C = getattr(q_functions, name)
    if name == "SingleModelStateActionQFunction":
        class M(nn.Module):
            def __init__(self):
                super().__init__()
                self.l = nn.Linear(do + da, 1)

            def forward(self, x, a):
                return self.l(torch.cat([x, a], 1))
        return C(M())
    return C(do, da, h, nl)


def heads(sc, rec):
    k = sc["head"]
    n, do, da = sc["n"], sc["do"], sc["da"]
    if k == "saq":
        m = saq(sc["name"], do, da, 5, sc["nl"])
        m.train()
        for _ in range(2):
            m(torch.randn(4, do), torch.randn(4, da))  # the statistics of the normalization, if any
        m.eval()
        x, a = torch.randn(n, do), torch.randn(n, da)
        y = m(x, a)
        # an action has to matter
        rec.ev("head", what="rows", tol=4, all=mat(y, U),
               alone=[nums(m(x[i:i + 1], a[i:i + 1]), U) for i in range(n)])
        return
    if k == "stateq":
        kind = sc["name"]
        if kind == "FC":
            m = q_functions.FCStateQFunctionWithDiscreteAction(do, da, 5, sc["nl"])
            x = torch.randn(n, do)
        elif kind == "dist":
            m = q_functions.DistributionalFCStateQFunctionWithDiscreteAction(
                do, da, sc["atoms"], sc["vmin"], sc["vmax"], 5, sc["nl"])
            x = torch.randn(n, do) * 3
        elif kind == "quad":
            hi = np.asarray(sc["hi"][:da], dtype=np.float32)
            sp = gym.spaces.Box(low=hi - np.asarray(sc["span"][:da], dtype=np.float32), high=hi)
            m = q_functions.FCQuadraticStateQFunction(do, da, 5, max(1, sc["nl"]), sp, scale_mu=sc["scale"])
            x = torch.randn(n, do) * 2
        elif kind == "single":
            m = q_functions.SingleModelStateQFunctionWithDiscreteAction(nn.Linear(do, da))
            x = torch.randn(n, do)
        elif kind == "dueling":
            m = q_functions.DuelingDQN(da, n_input_channels=1)
            x = torch.randn(n, 1, 84, 84)
        else:
            m = q_functions.DistributionalDuelingDQN(da, sc["atoms"], sc["vmin"], sc["vmax"], n_input_channels=1)
            x = torch.randn(n, 1, 84, 84)
        got = {}
        for s in ("a_stream", "v_stream"):
            if hasattr(m, s):
                getattr(m, s).register_forward_hook(lambda mod, i, o, s=s: got.__setitem__(s, o.detach().clone()))
        with torch.no_grad():
            q = m(x)
            streams = dict(got)
            alone = [m(x[i:i + 1]) for i in range(n)]

            def flat(v):
                if kind == "quad":
                    return mat(torch.cat([v.mu, v.v.reshape(-1, 1)], 1), U)
                return mat(v.q_values, U)
            rec.ev("head", what="rows", tol=8, all=flat(q), alone=[flat(v)[0] for v in alone])
            if kind in ("dist", "ddueling"):
                rec.ev("head", what="probs", n=sc["atoms"], vmin=sc["vmin"] * U, vmax=sc["vmax"] * U, tol=sc["atoms"] + 4,
                       p=[[[fx(z, U) for z in a] for a in r] for r in q.q_dist], z=nums(q.z_values, U))
            if kind == "dueling" and len(streams) == 2:
                rec.ev("head", what="dueling", q=mat(q.q_values, U), a=mat(streams["a_stream"], U),
                       v=nums(streams["v_stream"], U), tol=8)

            def scale(v):
                return max(1., float(v.abs().max()))
            mx, ag = q.max, q.evaluate_actions(q.greedy_actions)
            if kind == "quad":
                lo, hi = torch.as_tensor(sp.low), torch.as_tensor(sp.high)
                others = [lo + (hi - lo) * torch.rand(n, da) for _ in range(12)]
                d = torch.randn(n, da) * .1
                p, mi = q.evaluate_actions(q.mu + d), q.evaluate_actions(q.mu - d)
                s = scale(torch.cat([p, mi]))
                rec.ev("head", what="sym", plus=nums(p / s, U), minus=nums(mi / s, U), tol=8)
                if sc["scale"]:
                    rec.ev("head", what="within", y=mat(q.mu, U), lo=nums(lo, U), hi=nums(hi, U), tol=4)
                inside = bool(((q.mu >= lo) & (q.mu <= hi)).all())
                others = [q.evaluate_actions(o) for o in others] if inside else []
            else:
                others = [q.evaluate_actions(torch.full((n,), a, dtype=torch.long)) for a in range(da)]
            s = scale(torch.cat([mx] + others))
            rec.ev("head", what="best", max=nums(mx / s, U), atgreedy=nums(ag / s, U),
                   others=[nums(o / s, U) for o in others], tol=8)
        return
    if k == "fun":
        functions(sc, rec)
        return
    # policies
    loc = torch.tensor([[random.randint(-8, 8) / 4 for _ in range(da)] for _ in range(n)], dtype=torch.float32)
    name = sc["name"]
    if name == "softmax":
        lo = loc * 1.5
        dist = policies.SoftmaxCategoricalHead()(lo)
        e = np.exp(lo.numpy().astype(np.float64))
        rec.ev("head", what="softmax", p=mat(dist.probs, U), tol=8,
               want=[[fx(v, U) for v in r] for r in e / e.sum(1, keepdims=True)],
               mode=[as_int(v) for v in mode_of_distribution(dist)])
        return
    if name == "delta":
        dist = policies.DeterministicHead()(loc)
        rec.ev("head", what="delta", loc=mat(loc, U), samples=[mat(dist.sample(), U), mat(dist.rsample(), U),
               mat(dist.mean, U), mat(Delta(loc).sample((2,))[1], U), mat(D.Independent(Delta(loc), 1).expand((n,)).sample(), U)],
               spread=nums(dist.variance, U) + nums(dist.stddev, U))
        return

    def sq(x):
        return x * x
    if name == "fixed":
        s = random.choice([.5, 1, 2, 3])
        dist = policies.GaussianHeadWithFixedCovariance(s)(loc)
        want = torch.full((n, da), float(s * s))
    elif name == "diag":
        pre = torch.tensor([[random.randint(1, 6) / 2 for _ in range(da)] for _ in range(n)])
        f = random.choice([sq, None])
        head = policies.GaussianHeadWithDiagonalCovariance(*([f] if f else []))
        dist = head(torch.cat([loc, pre], 1))
        want = sq(pre) if f else torch.log1p(torch.exp(pre))
    else:
        typ = random.choice(["spherical", "diagonal"])
        init = random.choice([1.5, 2, 0]) if typ == "spherical" or random.random() < .5 else \
            [random.randint(1, 6) / 2 for _ in range(da)]
        f = random.choice([sq, None]) if init != 0 else None
        head = policies.GaussianHeadWithStateIndependentCovariance(
            da, var_type=typ, var_param_init=init, **(dict(var_func=f) if f else {}))
        dist = head(loc)
        if typ == "spherical":
            # whatever was learned about one coordinate holds for all of them
            w = torch.randn(n, da)
            trained = copy.deepcopy(head)
            opt = torch.optim.SGD(trained.parameters(), lr=.1)
            (trained(loc).variance * w).sum().backward()
            opt.step()
            rec.ev("head", what="sphere", var=mat(trained(loc).variance, U))
        i = torch.as_tensor(init, dtype=torch.float32).expand(da)
        want = (sq(i) if f else torch.log1p(torch.exp(i))).expand(n, da)
    mode = mode_of_distribution(dist)
    if sc["transform"]:
        # an affine change of the action: the mode goes along
        m2 = mode_of_distribution(D.TransformedDistribution(
            dist, [D.AffineTransform(1., 2.), D.AffineTransform(-1., .5)]))
        mode = m2 + .5
    rec.ev("head", what="policy", loc=mat(loc, U), mean=mat(dist.mean, U), mode=mat(mode, U), var=mat(dist.variance, U),
           wantvar=mat(want, U), tol=4, joint=len(dist.log_prob(loc)))


def functions(sc, rec):
    n, da = sc["n"], sc["da"]
    hi = sc["hi"][:da]
    lo = [h - s for h, s in zip(hi, sc["span"])]
    scalar = len(set(hi)) == len(set(lo)) == 1 and sc["transform"]
    a, b = (lo[0], hi[0]) if scalar else (np.asarray(lo, dtype=np.float32), np.asarray(hi, dtype=np.float32))
    f = pnn.BoundByTanh(a, b) if sc["scale"] else (lambda x: bound_by_tanh(x, a, b))
    pos = sorted(random.choice([.25, .5, 1, 2, 3]) for _ in range(n))
    x = [-40.] + [-v for v in reversed(pos)] + [0.] + pos + [40.]
    rec.ev("head", what="bound", y=mat(f(torch.tensor([[v] * da for v in x])), U), lo=[v * U for v in lo],
           hi=[v * U for v in hi], tol=4)
    m = da * (da - 1) // 2
    ints = random.sample(range(-50, 50), n * (da + m))
    diag = [ints[i * da:(i + 1) * da] for i in range(n)]
    off = [ints[n * da + i * m:n * da + (i + 1) * m] for i in range(n)]
    t = lower_triangular_matrix(torch.tensor(diag, dtype=torch.float32), torch.tensor(off, dtype=torch.float32).reshape(n, m))
    rec.ev("head", what="tri", n=da, diag=diag, off=off, m=[[[as_int(v) for v in r] for r in q] for q in t])


def scenario(sc, rec, d):
    return heads(sc, rec) if "head" in sc else queries(sc, rec)


if __name__ == "__main__":
    dlib.run(scenario)
