"""P25: exploration schedules."""


def check(ctx):
    ctx.model_check("ExploreMC", "ExploreMC.cfg" if ctx.quick else "ExploreMCBig.cfg")
    for b in range(1, 4):
        ctx.expect_violation("ExploreMC", "ExploreMCBad%d.cfg" % b)
    rng = ctx.rng
    scs = []

    def add(cfg, **kw):
        scs.append(dict(cfg=cfg, seed=len(scs), **kw))
    n = ctx.pick(700, 4000)
    for c in ctx.behaviours("ExploreMC", "ExploreMCGen.cfg"):
        ts = {0, 1, 2, max(0, c["steps"] - 1), c["steps"], c["steps"] + 1, rng.randint(0, 40), 10**7}
        ts |= {rng.randint(0, c["steps"]) for _ in range(3)}
        ts = [t for t in ts if t < 100 or c["kind"] != "exp"]
        rng.shuffle(ts)
        add(c, ts=ts, n=rng.choice([1, 3, n]) if c["kind"] != "constant" else n)
    add(dict(kind="greedy", start=0, stop=0), ts=[0, 5, 1000], n=50)
    for _ in range(ctx.pick(60, 1000)):
        st, sp = rng.randint(0, 10**6), rng.randint(0, 10**6)
        k = rng.choice(["linear", "exp"])
        if k == "exp":
            st, sp = max(st, sp), min(st, sp)
        steps = rng.choice([rng.randint(0, 30), rng.randint(30, 1000), 40000])
        dd = rng.randint(2, 40)
        add(dict(kind=k, start=st, stop=sp, steps=steps, dn=rng.randint(1, dd - 1), dd=dd),
            ts=[rng.randint(0, 2 * steps if k == "linear" else 60) for _ in range(4)], n=n)
    for _ in range(ctx.pick(120, 2000)):
        steps = rng.choice([2, 3, 5, 10, 100, 40000])
        add(dict(kind="hook", start=rng.randint(-4096, 4096), stop=rng.randint(-4096, 4096), steps=steps),
            ts=sorted({1, 2, steps - 1, steps, steps + 1, 2 * steps} | {rng.randint(1, steps) for _ in range(4)}))
    for _ in range(ctx.pick(60, 1000)):
        d = rng.randint(1, 3)
        scalar = rng.random() < .5
        scale = [rng.choice([0, 100, 512, 1024, 2048]) for _ in range(d)]
        if scalar:
            scale = [scale[0]] * d
        scalarb = rng.random() < .5
        low = [rng.randint(-2048, 0) for _ in range(d)]
        high = [rng.randint(1, 2048) for _ in range(d)]
        if scalarb:
            low, high = [low[0]] * d, [high[0]] * d
        add(dict(kind="gauss", scale=scale, low=low, high=high, haslow=rng.random() < .6, hashigh=rng.random() < .6),
            n=ctx.pick(1500, 5000), scalar=scalar, scalarb=scalarb, a=[rng.randint(-2000, 2000) for _ in range(d)])
        dd = rng.randint(3, 20)
        scale = [rng.choice([100, 300, 1024]) for _ in range(d)]
        if scalar:
            scale = [scale[0]] * d
        add(dict(kind="ou", scale=scale, mu=rng.choice([0, 0, 512, -1024]), dn=rng.randint(1, dd - 1), dd=dd,
                 atmu=rng.random() < .5), n=ctx.pick(1500, 5000), scalar=scalar,
            a=[rng.randint(-2000, 2000) for _ in range(d)])
    for _ in range(ctx.pick(12, 100)):
        add(dict(kind="boltz"), T=rng.choice([.1, .5, 1., 2., 10.]), n=ctx.pick(1500, 4000),
            qs=[[rng.randint(-16, 16) for _ in range(rng.randint(1, 4))] for _ in range(3)])
    ctx.validate("ExploreTrace", ctx.drive("drv_explore.py", scs, nproc=8), timeout=600)
    return ["rates and noise scales are judged from samples with tolerances of at least five standard deviations; "
            "scheduled values exactly"]
