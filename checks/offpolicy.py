"""Scenarios for the replay agents, shared by P15, P16, P18 and P27."""

MODELS = ["OffPolicyMC.cfg", "OffPolicyMCTd3.cfg", "OffPolicyMCDdpg.cfg"]
DQNS = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "CategoricalDQN",
        "CategoricalDoubleDQN", "IQN"]


def fam(kind):
    return {"DDPG": "ddpg", "TD3": "td3", "SAC": "sac"}.get(kind, "dqn")


def config(rng, kind, n, updates=True):
    f = fam(kind)
    rec = None
    if f == "dqn" and not kind.startswith("Cat") and kind != "DPP" and rng.random() < .25:
        rec = rng.choice(["lstm", "gru"])
    ui = rng.choice([1, 1, 2, 3, 4])
    batch = rng.choice([1, 2, 3])
    start = rng.choice([batch, batch + 1, 5, 8]) if updates else 1000
    start = max(start, batch)
    num, den = rng.choice([(1, 2), (1, 4), (1, 8), (1, 1), (3, 4)])
    cfg = dict(n=n, fam=f, start=start, batch=batch, ui=ui,
               ntimes=1 if f == "sac" else rng.choice([1, 1, 2, 3]),
               tui=ui * rng.choice([1, 2, 3]) if f == "dqn" else rng.choice([1, 2, 3, 5, 7]),
               soft=f in ("td3", "sac") or rng.random() < .5, num=num, den=den,
               delay=rng.choice([1, 2, 3]), episodic=bool(rec),
               burnin=f != "dqn" and rng.random() < .4)
    kw = {}
    if f == "dqn" and rng.random() < .3:
        kw["batch_accumulator"] = "sum"
    if f in ("td3", "sac", "dqn") and rng.random() < .2:
        kw["max_grad_norm"] = .5
    if f == "sac" and rng.random() < .5:
        kw["entropy_target"] = -1.
    if rec:
        buf, bkw = "EpisodicReplayBuffer", dict(capacity=rng.choice([None, 1000]))
        if rng.random() < .5:
            kw["episodic_update_len"] = 2
    elif f == "dqn" and not kind.startswith("Cat") and rng.random() < .25:
        buf, bkw = "PrioritizedReplayBuffer", dict(capacity=1000)
    else:
        buf, bkw = "ReplayBuffer", dict(capacity=None if rng.random() < .5 else 1000)
        if kind in ("DQN", "DoubleDQN", "TD3", "SAC", "DDPG") and rng.random() < .3:
            bkw["num_steps"] = rng.choice([2, 3])
    return dict(cfg=cfg, kind=kind, rec=rec, kw=kw, buffer=buf, bufkw=bkw,
                counter=rng.random() < .5, lr=rng.choice([.05, .2]))


def script(rng, n, length, pd=None, pr=None, pe=.06):
    pd = rng.choice([.05, .2, .5]) if pd is None else pd
    pr = rng.choice([0, .1, .3]) if pr is None else pr
    return [dict(r=[rng.randint(-3, 3) for _ in range(n)],
                 done=[rng.random() < pd for _ in range(n)],
                 reset=[rng.random() < pr for _ in range(n)],
                 eval=rng.choice([1, 1, 2]) if rng.random() < pe else 0,
                 esteps=rng.choice([1, 2, 4])) for _ in range(length)]


def scenarios(ctx, rng, count, updates, kinds=None, length=14, gen=True):
    kinds = kinds or DQNS + ["DDPG", "TD3", "SAC"] * 3
    scs = []
    if gen:
        g = ctx.behaviours("OffPolicyMC", "OffPolicyMCGen.cfg")
        rng.shuffle(g)
        for i, h in enumerate(g[:ctx.pick(400, 4000)]):
            sc = config(rng, kinds[i % len(kinds)], 2, updates)
            sc["script"] = [dict(r=[rng.randint(-3, 3)] * 2, done=s["done"], reset=s["reset"],
                                 eval=0, esteps=0) for s in h]
            scs.append(sc)
    for i in range(count):
        n = rng.choice([1, 1, 2, 3])
        sc = config(rng, kinds[i % len(kinds)], n, updates)
        sc["script"] = script(rng, n, rng.randrange(length // 2, 2 * length))
        scs.append(sc)
    for i, s in enumerate(scs):
        s["seed"] = i
    return scs
