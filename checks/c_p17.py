"""P17: the regression target of value-based agents."""
KINDS = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "DPPL", "DPPGreedy"]
NS, NA = 4, 3


def tables(rng, rows):
    """Rows of distinct eighths within [-2, 2]."""
    return [[2 * x for x in rng.sample(range(-8, 9), NA)] for _ in range(rows)]


def config(rng, kind):
    gn, gd = rng.choice([(1, 2), (1, 2), (1, 1), (1, 4), (3, 4)])
    an, ad = rng.choice([(1, 2), (1, 4), (0, 1), (3, 4)])
    return dict(kind=kind, gn=gn, gd=gd, an=an, ad=ad, eta=rng.choice([1, 2]),
                clip=rng.random() < .5, mean=rng.random() < .5, ln=1,
                ld=rng.choice([1, 2, 4]))


def check(ctx):
    ctx.model_check("TDMC", "TDMC.cfg")
    if not ctx.quick:
        ctx.model_check("TDMC", "TDMCBig.cfg", timeout=2500)
    for b in (1, 2, 3, 4):
        ctx.expect_violation("TDMC", "TDMCBad%d.cfg" % b)
    rng = ctx.rng
    scs = []
    g = ctx.behaviours("TDMC", "TDMCGen.cfg")
    rng.shuffle(g)
    for i, b in enumerate(g[:ctx.pick(800, 10000)]):
        cfg = config(rng, KINDS[i % len(KINDS)])
        cfg["clip"], cfg["mean"] = b["clip"], b["mean"]
        scs.append(dict(cfg=cfg, recurrent=False, weighted=any(e["w"] != 1 << 14 for e in b["batch"]),
                        batch=[dict(s=e["s"] - 1, a=e["a"] - 1, s2=e["s2"] - 1,
                                    rs=[rng.randint(-4, 4) for _ in range(e["n"])],
                                    terms=[False] * (e["n"] - 1) + [e["term"]],
                                    w=e["w"] * 4 >> 14) for e in b["batch"]]))
    for i in range(ctx.pick(1600, 16000)):
        cfg = config(rng, KINDS[i % len(KINDS)])
        if rng.random() < .3:
            eps = []
            for _ in range(rng.choice([1, 2, 3])):
                n = rng.choice([1, 2, 3, 4])
                eps.append(dict(h=rng.choice([0, 1]), s0=rng.randrange(NS), steps=[
                    dict(a=rng.randrange(NA), r=rng.randint(-4, 4), s2=rng.randrange(NS),
                         term=k == n - 1 and rng.random() < .5) for k in range(n)]))
            scs.append(dict(cfg=cfg, recurrent=True, episodes=eps, nones=rng.random() < .5))
        else:
            weighted = rng.random() < .5
            batch = []
            for _ in range(rng.choice([1, 2, 3, 4, 8])):
                n = rng.choice([1, 1, 2, 3])
                batch.append(dict(s=rng.randrange(NS), a=rng.randrange(NA), s2=rng.randrange(NS),
                                  rs=[rng.randint(-4, 4) for _ in range(n)],
                                  terms=[False] * (n - 1) + [rng.random() < .4],
                                  w=rng.choice([1, 2, 4, 8])))
            scs.append(dict(cfg=cfg, recurrent=False, weighted=weighted, batch=batch))
    for i, s in enumerate(scs):
        s["seed"] = i
        s["q"], s["tq"] = tables(rng, 2 * NS), tables(rng, 2 * NS)
    ctx.validate("TDTrace", ctx.drive("drv_td.py", scs, nproc=8))
    return ["value functions are tables with dyadic entries, so that an update by plain SGD can be "
            "predicted; softmax and log-sum-exp operators (DPP) are compared within 2^-9",
            "PAL variants: the advantage at the next state enters also after a terminal transition, "
            "as implemented (the paper leaves it undefined)"]
