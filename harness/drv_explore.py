"""P25: explorers and the interpolation hook."""
import copy

import dlib
import numpy as np
import torch
from dlib import as_int, fx
from pfrl import explorers
from pfrl.action_value import DiscreteActionValue
from pfrl.experiments import LinearInterpolationHook


class Mark:
    """An action which only identity can tell apart."""


def eps_greedy(sc, rec):
    c = sc["cfg"]
    R, G = Mark(), Mark()
    st, sp = c["start"] / 1e6, c["stop"] / 1e6
    cls = dict(constant="ConstantEpsilonGreedy", linear="LinearDecayEpsilonGreedy",
               exp="ExponentialDecayEpsilonGreedy", greedy="Greedy")[c["kind"]]
    cls = getattr(explorers, cls)
    if c["kind"] == "constant":
        ex = cls(st, lambda: R)
    elif c["kind"] == "linear":
        ex = cls(st, sp, c["steps"], lambda: R)
    elif c["kind"] == "exp":
        ex = cls(st, sp, c["dn"] / c["dd"], lambda: R)
    else:
        ex = cls()
    for t in sc["ts"]:
        k = f = 0
        for _ in range(sc["n"]):
            a = ex.select_action(t, lambda: G, action_value=None)
            k += a is R
            f += a is not R and a is not G
        if hasattr(ex, "epsilon"):
            rec.ev("eps", t=t, e=fx(ex.epsilon, 10**6))
        rec.ev("freq", t=t, n=sc["n"], k=k, foreign=f)


def hook(sc, rec):
    c = sc["cfg"]
    env, ag, calls = object(), object(), []
    h = LinearInterpolationHook(c["steps"], c["start"] / 1024, c["stop"] / 1024,
                                lambda *a: calls.append(a))
    for s in sc["ts"]:
        del calls[:]
        h(env, ag, s)
        rec.ev("hook", step=s, calls=len(calls), v=fx(calls[0][2]) if calls else -1,
               args=bool(calls) and calls[0][0] is env and calls[0][1] is ag)


def gauss(sc, rec):
    c = sc["cfg"]
    d = len(c["scale"])
    arr = [x / 1024 for x in c["scale"]]
    scale = arr[0] if sc["scalar"] else np.asarray(arr)

    def bound(name):
        if not c["has" + name]:
            return None
        v = [x / 1024 for x in c[name]]
        return v[0] if sc["scalarb"] else np.asarray(v, dtype=np.float32)
    free = explorers.AdditiveGaussian(scale)
    ex = explorers.AdditiveGaussian(scale, low=bound("low"), high=bound("high"))
    a = np.asarray([x / 1024 for x in sc["a"]], dtype=np.float32)
    b = a.copy()
    xs = []
    for _ in range(sc["n"]):
        xs.append(np.asarray(free.select_action(0, lambda: a)) - a)
    xs = np.asarray(xs, dtype=np.float64).reshape(sc["n"], d)
    rec.ev("noise", n=sc["n"], mean=[fx(v) for v in xs.mean(0)], var=[fx(v, 1 << 20) for v in xs.var(0)])
    for i in range(25):
        np.random.seed(i)
        x = free.select_action(i, lambda: a)
        np.random.seed(i)
        o = ex.select_action(i, lambda: a)
        rec.ev("noisy", free=[fx(v) for v in x], o=[fx(v) for v in o])
    rec.ev("same", ok=bool(np.array_equal(a, b)))


def ou(sc, rec):
    c = sc["cfg"]
    d = len(c["scale"])
    th, mu = c["dn"] / c["dd"], c["mu"] / 1024
    arr = [x / 1024 for x in c["scale"]]
    sigma = arr[0] if sc["scalar"] else np.asarray(arr)
    a = np.asarray([x / 1024 for x in sc["a"]], dtype=np.float32)
    b = a.copy()
    # without noise from some point on: the process itself
    ex = explorers.AdditiveOU(mu=mu, theta=th, sigma=sigma, start_with_mu=c["atmu"])
    first = np.asarray(ex.select_action(0, lambda: a))
    keep = first.copy()
    outs = [first]
    for t in range(1, sc["n"]):
        outs.append(np.asarray(ex.select_action(t, lambda: a)))
    x = np.asarray(outs, dtype=np.float64) - a
    res = x[1:] - x[:-1] - th * (mu - x[:-1])
    rec.ev("noise", n=len(res), mean=[fx(v) for v in res.mean(0)], var=[fx(v, 1 << 20) for v in res.var(0)])
    rec.ev("same", ok=bool(np.array_equal(a, b) and np.array_equal(keep, first)))
    ex = explorers.AdditiveOU(mu=mu, theta=th, sigma=0. if c["atmu"] else sigma, start_with_mu=c["atmu"])
    seq = [np.asarray(ex.select_action(0, lambda: a)) - a]
    ex.sigma = 0.
    for t in range(12):
        seq.append(np.asarray(ex.select_action(t, lambda: a)) - a)
    for j in range(d):
        rec.ev("ou", x=[fx(s[j]) for s in seq])


def boltz(sc, rec):
    T = sc["T"]
    for q in sc["qs"]:
        av = DiscreteActionValue(torch.tensor([[x * T / 8. for x in q]]))
        before = copy.deepcopy(av.q_values)
        ex = explorers.Boltzmann(T=T)
        cnt = [0] * len(q)
        for _ in range(sc["n"]):
            i = as_int(ex.select_action(0, lambda: None, action_value=av))
            if 0 <= i < len(q):
                cnt[i] += 1
        rec.ev("boltz", q=q, n=sc["n"], counts=cnt)
        rec.ev("same", ok=bool(torch.equal(before, av.q_values)))


def scenario(sc, rec, d):
    k = sc["cfg"]["kind"]
    dict(hook=hook, gauss=gauss, ou=ou, boltz=boltz).get(k, eps_greedy)(sc, rec)


if __name__ == "__main__":
    dlib.run(scenario)
