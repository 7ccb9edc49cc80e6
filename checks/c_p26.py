"""P26: running normalization."""


def check(ctx):
    for c in (("", "Lim") if ctx.quick else ("", "Lim", "Big")):
        ctx.model_check("NormMC", "NormMC%s.cfg" % c)
    for b in range(1, 5):
        ctx.expect_violation("NormMC", "NormMCBad%d.cfg" % b)
    rng = ctx.rng
    scs = []

    def add(steps_of, d=None):
        shape = rng.choice([[1], [2], [3], [2, 2], [1, 2]])
        if d == 1:
            shape = rng.choice([[1], [1, 1]])
        n = 1
        for x in shape:
            n *= x
        cfg = dict(d=n, until=rng.choice([0, 0, 0, 1, 3, 5, 10]), eps=rng.choice([256, 1024, 4096]),
                   clip=rng.choice([0, 0, 512, 1024, 2048]))
        scs.append(dict(cfg=cfg, shape=shape, axis=rng.choice([0, 0, rng.randint(0, len(shape))]),
                        dtype=rng.choice(["float32", "float32", "float64"]), intshape=rng.random() < .5,
                        seed=len(scs), steps=steps_of(n)))
    hs = ctx.behaviours("NormMC", "NormMCGen.cfg")
    rng.shuffle(hs)
    for h in hs[:ctx.pick(500, 2744)]:
        add(lambda n, h=h: [dict(k="fwd", upd=x["upd"], xs=[[v] for v in x["xs"]]) for x in h], d=1)

    def rand(n):
        steps, total = [], 0
        lim = rng.choice([2, 4, 6])
        for _ in range(rng.randint(2, 10)):
            k = rng.choice(["exp", "exp", "fwd", "fwd", "inv", "clone"])
            b = rng.choice([0, 1, 1, 2, 3, 5, 8])
            if k in ("exp", "fwd") and total + b > 45:
                continue
            xs = [[rng.randint(-lim, lim) for _ in range(n)] for _ in range(b)]
            upd = rng.random() < .6
            if k == "exp" or k == "fwd" and upd:
                total += b
            steps.append(dict(k=k, xs=xs, upd=upd,
                              how=rng.choice(["deepcopy", "pickle", "state", "used", "nested"])))
        return steps
    for _ in range(ctx.pick(900, 20000)):
        add(rand)
    ctx.validate("NormTrace", ctx.drive("drv_norm.py", scs, nproc=8), timeout=600)
    return ["values of moderate size, for which single precision is exact to the tolerances used "
            "(mean 0.0015, variance 0.5%, outputs 1.5%)"]
