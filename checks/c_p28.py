"""P28: distributional targets (categorical projection, quantile regression)."""
S = 1 << 14
NS, NA = 4, 3


def config(rng):
    gn, gd = rng.choice([(1, 2), (1, 2), (1, 1), (1, 4), (3, 4)])
    fam = rng.choice(["cat", "cat", "quant"])
    return dict(fam=fam, double=rng.random() < .5, gn=gn, gd=gd, mean=rng.random() < .5, ln=1,
                ld=rng.choice([16, 32]) if fam == "cat" else rng.choice([1, 2, 4]),
                vmin=rng.choice([-2, -1, 0, -3]) * S // 2, dz=rng.choice([1, 2]) * S // 2,
                atoms=rng.choice([3, 4, 5]))


def table(rng, cfg):
    def cell():
        if cfg["fam"] == "quant":
            return [2 * rng.randint(-8, 8) for _ in range(2)]
        p = {3: [8, 4, 4], 4: [8, 4, 2, 2], 5: [8, 4, 2, 1, 1]}[cfg["atoms"]]
        p = list(p)
        rng.shuffle(p)
        return p
    return [[cell() for _ in range(NA)] for _ in range(2 * NS)]


def check(ctx):
    ctx.model_check("DistMC", "DistMC.cfg")
    if not ctx.quick:
        ctx.model_check("DistMC", "DistMCBig.cfg")
    for b in (1, 2):
        ctx.expect_violation("DistMC", "DistMCBad%d.cfg" % b)
    rng = ctx.rng
    scs = []
    g = ctx.behaviours("DistMC", "DistMCGen.cfg")
    es = [dict(y=b["y"], py=b["py"], vmin=-S, dz=S, n=3) for b in g]
    for _ in range(ctx.pick(3000, 40000)):
        n = rng.choice([2, 3, 4, 5, 8])
        vmin, dz = rng.randint(-20, 5) * S // 10, rng.choice([1, 2, 3, 7, 10]) * S // 10
        m = rng.randint(1, n)
        es.append(dict(vmin=vmin, dz=dz, n=n, py=[rng.choice([0, S, rng.randrange(S)]) for _ in range(m)],
                       y=[rng.choice([vmin + rng.randint(-1, n) * dz, vmin + rng.randint(-dz, n * dz)])
                          for _ in range(m)]))
    for i in range(0, len(es), 20):
        scs.append(dict(cfg=dict(fam="cat"), project=es[i:i + 20]))
    for i in range(ctx.pick(1600, 16000)):
        cfg = config(rng)
        sc = dict(cfg=cfg, q=table(rng, cfg), tq=table(rng, cfg), recurrent=rng.random() < .25)
        if sc["recurrent"]:
            eps = []
            for _ in range(rng.choice([1, 2, 3])):
                n = rng.choice([1, 2, 3, 4])
                eps.append(dict(h=rng.choice([0, 1]), s0=rng.randrange(NS), steps=[
                    dict(a=rng.randrange(NA), r=rng.randint(-4, 4), s2=rng.randrange(NS),
                         term=k == n - 1 and rng.random() < .5) for k in range(n)]))
            sc["episodes"] = eps
        else:
            sc["weighted"] = rng.random() < .5
            sc["batch"] = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                n = rng.choice([1, 1, 2, 3])
                sc["batch"].append(dict(
                    s=rng.randrange(NS), a=rng.randrange(NA), s2=rng.randrange(NS),
                    rs=[rng.randint(-4, 4) for _ in range(n)],
                    terms=[False] * (n - 1) + [rng.random() < .4], w=rng.choice([1, 2, 4, 8])))
        scs.append(sc)
    for i, s in enumerate(scs):
        s["seed"] = i
    ctx.validate("DistTrace", ctx.drive("drv_dist.py", scs, nproc=8))
    return ["models are tables whose probabilities are powers of two, so that an update by plain "
            "SGD reveals the target distribution; comparison within 24 * 2^-14 per entry",
            "batches in which the greedy action is tied are not judged"]
