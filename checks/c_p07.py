"""P07: batches of n-step entries."""


def check(ctx):
    ents = ctx.behaviours("NStepMC", "NStepMC.cfg")
    rng = ctx.rng
    scs = []
    rng.shuffle(ents)
    for g in (1, 2, 4):
        batches = [ents[i: i + 7] for i in range(0, len(ents), 7)]
        for k in range(0, len(batches), 10):
            scs.append(dict(cfg=dict(g=g, unit=g ** 4), batches=batches[k: k + 10]))

    def entry(n, na, none=0):
        b = rng.randint(1, 1000)
        return [dict(st=b + i, ac=rng.randint(0, 50), rw=rng.randint(-9, 9), ns=2000 + b + i,
                     na=rng.randint(0, 9) if (rng.random() < .7 if na == "mixed" else na) else -1,
                     term=rng.random() < (0.3 if i == n - 1 else 0.1),
                     rs=-1 if rng.random() < none else b + i,
                     nrs=-1 if rng.random() < none / 2 else b + i + 1) for i in range(n)]

    for i in range(ctx.pick(300, 3000)):
        g = rng.choice([1, 2, 4])
        na = rng.choice([True, True, "mixed", None])
        batches = [[entry(rng.randint(1, 6), rng.random() < .9 if na is None else na)
                    for _ in range(rng.randint(1, 9) if na is True else rng.randint(1, 3))] for _ in range(4)]
        scs.append(dict(cfg=dict(g=g, unit=g ** 6), batches=batches, vec=rng.random() < .3))
    for i in range(ctx.pick(200, 1500)):
        g = rng.choice([1, 2, 4])
        na, none = rng.choice([True, True, "mixed"]), rng.choice([0, .3, 1])
        batches = [sorted([entry(rng.randint(1, 5), na, none) for _ in range(rng.randint(1, 6))],
                          key=len, reverse=True) for _ in range(4)]
        scs.append(dict(cfg=dict(g=g, unit=g ** 2), batches=batches, recurrent=True,
                        vec=rng.random() < .3))
    traces = ctx.drive("drv_nstep.py", scs, nproc=4)
    ctx.validate("NStepTrace", traces)
    return ["discounts are powers of 1/2 so that all expected values are exact in float32"]
