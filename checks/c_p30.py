"""P30: ACER."""


def check(ctx):
    ctx.model_check("AcerMC", "AcerMC.cfg")
    if not ctx.quick:
        ctx.model_check("AcerMC", "AcerMCBig.cfg")
    for b in range(1, 7):
        ctx.expect_violation("AcerMC", "AcerMCBad%d.cfg" % b)
    rng = ctx.rng
    scs = []
    for i in range(ctx.pick(1200, 12000)):
        c = dict(na=rng.choice([2, 2, 3]), ns=rng.choice([1, 2, 3]), g=rng.choice([0, 2, 3, 4]),
                 tmax=rng.choice([1, 2, 3, 4]), nrep=rng.choice([0, 1, 1, 2, 3]), rs=rng.choice([1, 3, 6]),
                 trunc=rng.choice([0, 1, 2, 4, 6, 40]), tr=rng.random() < .6,
                 delta=rng.choice([0, 4096, 16384, 1 << 16]), pc=rng.choice([4, 4, 2, 6]),
                 qc=rng.choice([2, 2, 4]), norm=rng.random() < .6, opc=rng.random() < .4,
                 beta=rng.choice([0, 0, 1, 8]), online=rng.random() < .7, replay=rng.random() < .85,
                 alpha=rng.choice([0, 1]))
        pd, pr = rng.choice([.05, .2, .5]), rng.choice([0, .1, .3])
        scs.append(dict(cfg=c, seed=i, shift=rng.choice([0, 0, 1.5, -2.]), still=rng.choice([0, .3, 1]),
                        evals=rng.choice([0, .2]),
                        script=[[rng.random() < pd, rng.random() < pr] for _ in range(rng.randint(4, 24))]))
    traces = ctx.drive("drv_acer.py", scs, nproc=8)
    ctx.validate("AcerTrace", traces)
    return [
        "discrete action head over tabular policy and value models; the continuous head's sampled "
        "bias correction is not covered",
        "the average model is observed at decay 0 and 1 only",
        "gradients are compared in fixed point (2^-14) within 80 units plus 1/256 of their size",
        "one process; the asynchronous loop is P10's subject",
    ]
