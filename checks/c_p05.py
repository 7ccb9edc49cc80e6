"""P05: prioritized replay."""


def check(ctx):
    ctx.model_check("PrioritizedMC", "PrioritizedMC.cfg")
    if not ctx.quick:
        ctx.model_check("PrioritizedMC", "PrioritizedMCBig.cfg")
    beh = ctx.behaviours("PrioritizedMC", "PrioritizedGen.cfg")
    rng = ctx.rng
    scs = []
    rng.shuffle(beh)
    for i, h in enumerate(beh[: ctx.pick(5000, 60000)]):
        cfg = dict(level="core", cap=3, wait=True, p0=2, u=0, scale=1 << 16)
        scs.append(dict(cfg=cfg, ops=h + [dict(op="set"), dict(op="all")]))

    def ops(n, explicit=False):
        res = []
        for _ in range(n):
            r = rng.random()
            if r < 0.45:
                res.append(dict(op="append", p=rng.randint(1, 16) if explicit and rng.random() < .5
                                else 0))
            elif r < 0.55:
                res.append(dict(op="pop"))
            elif r < 0.78:
                res.append(dict(op="sample"))
            else:
                res.append(dict(op="set"))
        return res + [dict(op="set"), dict(op="all")]

    for i in range(ctx.pick(800, 8000)):
        cfg = dict(level="core", cap=rng.choice([0, 2, 3, 5, 8, 12]), wait=rng.random() < 0.6,
                   p0=rng.choice([8, 8, 2]), u=rng.choice([0, 0, 0, 1, 4, 8]), scale=1 << 14)
        n = rng.randint(6, 50) if cfg["cap"] else rng.randint(6, 24)
        scs.append(dict(cfg=cfg, ops=ops(n, explicit=rng.random() < 0.4)))
    for i in range(ctx.pick(800, 8000)):
        level = rng.choice(["replay", "replay", "episodic"])
        alpha = rng.choice([1, 1, 2, 0])
        b0, badd = rng.choice([(0, 0), (2, 0), (4, 0), (0, 2), (0, 1), (2, 1), (2, 2), (0, 4)])
        cfg = dict(level=level, cap=rng.choice([0, 3, 5, 8, 10]), wait=True, alpha=alpha,
                   p0={1: 8, 2: 64, 0: 1}[alpha], b0=b0, badd=badd, eps=1,
                   clip=rng.random() < 0.6, emin=rng.choice([0, 2]), emax=rng.choice([8, 6]),
                   norm=rng.choice(["batch", "memory", "none"]), scale=1,
                   u=rng.choice([0, 0, 4]) if level == "episodic" and alpha == 1 else 0)
        if level == "episodic" and rng.random() < 0.3:
            cfg["wait"] = False
        scs.append(dict(cfg=cfg, ops=ops(rng.randint(8, 45) if cfg["cap"] else 22)))
    for i in range(ctx.pick(40, 300)):
        # draw frequencies after a history of evictions and updates
        cfg = dict(level="core", cap=rng.choice([3, 4, 5]), wait=False, p0=8,
                   u=rng.choice([0, 0, 0, 4]), scale=1 << 14)
        o = []
        for _ in range(rng.randint(6, 14)):
            o.append(dict(op="append", p=rng.randint(1, 9)))
            if rng.random() < 0.5:
                o += [dict(op="sample"), dict(op="set")]
        o += [dict(op="freq1", draws=700)]
        if cfg["u"] == 0:
            o += [dict(op="freq2", draws=700)]
        scs.append(dict(cfg=cfg, ops=o))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_prio.py", scs, nproc=6)
    ctx.validate("PrioritizedTrace", traces)
    return ["priorities and exponents are dyadic so that expected values are exact",
            "draw frequencies are decided at about 7 sigma"]
