"""P18: critic and policy updates of DDPG, TD3 and SAC."""
S = 1 << 14
NS = 3
KEYS = ["u1", "v1", "u2", "v2", "tu1", "tv1", "tu2", "tv2", "m", "tm", "lp"]


def config(rng, fam):
    gn, gd = rng.choice([(1, 2), (1, 2), (1, 1), (1, 4), (3, 4)])
    return dict(fam=fam, gn=gn, gd=gd, ln=1, ld=rng.choice([2, 4, 8]),
                shift=rng.choice([0, 1, -2]) * S // 4, noise=rng.choice([0, 1, -1]) * S // 2,
                temp=rng.choice([1, 2, 4]) * S // 4, adapt=fam == "sac" and rng.random() < .4,
                htarget=rng.choice([-1, 0, 1]) * S)


def check(ctx):
    for m in ["CriticMC.cfg", "CriticMCTd3.cfg", "CriticMCDdpg.cfg"] + ([] if ctx.quick else ["CriticMCBig.cfg"]):
        ctx.model_check("CriticMC", m)
    for b in (1, 2, 3, 4, 5):
        ctx.expect_violation("CriticMC", "CriticMCBad%d.cfg" % b)
    rng = ctx.rng
    fams = ["ddpg", "td3", "sac"]
    scs = []
    g = ctx.behaviours("CriticMC", "CriticMCGen.cfg")
    rng.shuffle(g)
    for i, b in enumerate(g[:ctx.pick(900, 5000)]):
        scs.append(dict(cfg=config(rng, fams[i % 3]), batch=[
            dict(s=e["s"] - 1, a=e["a"] * 2 // S, s2=e["s2"] - 1,
                 rs=[rng.randint(-4, 4) for _ in range(e["n"])],
                 terms=[False] * (e["n"] - 1) + [e["term"]]) for e in b]))
    for i in range(ctx.pick(1500, 15000)):
        batch = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            n = rng.choice([1, 1, 2, 3])
            batch.append(dict(s=rng.randrange(NS), a=rng.randint(-2, 2), s2=rng.randrange(NS),
                              rs=[rng.randint(-4, 4) for _ in range(n)],
                              terms=[False] * (n - 1) + [rng.random() < .4]))
        scs.append(dict(cfg=config(rng, fams[i % 3]), batch=batch))
    for i, s in enumerate(scs):
        s["seed"] = i
        s["tab"] = {k: [rng.randint(-8, 8) for _ in range(NS)] for k in KEYS}
    ctx.validate("CriticTrace", ctx.drive("drv_critic.py", scs, nproc=8))
    return ["critics are linear in the action and tabular in the state with dyadic entries, optimizers "
            "are plain SGD; the learned temperature is judged by the direction of its change",
            "SAC policy updates are not judged where both critics agree (the minimum has no gradient)"]
