"""P11: evaluation rollouts."""


def check(ctx):
    for i in (1, 2, 3):
        ctx.model_check("EvalMC", "EvalMC%d.cfg" % i)
    rng = ctx.rng
    scs = []
    for mode, k, g in (("episodes", 3, "EvalGen.cfg"), ("steps", 4, "EvalGen2.cfg")):
        for i, s in enumerate(ctx.behaviours("EvalMC", g)):
            for st in (False, True):
                scs.append(dict(cfg=dict(n=2, mode=mode, k=k, maxlen=0), script=s + [[[True] * 2, [False] * 2]],
                                serial=False, stats=st))
    for i in range(ctx.pick(2500, 25000)):
        serial = rng.random() < .35
        n = 1 if serial else rng.choice([1, 2, 2, 3, 4, 6])
        pd = [rng.choice([.05, .2, .5, .9]) for _ in range(n)]
        pn = rng.choice([0, 0, .1, .3])
        scs.append(dict(
            cfg=dict(n=n, mode=rng.choice(["episodes", "steps"]),
                     k=rng.choice([1, 2, 3, 4, 5, 7, 10, 15]),
                     maxlen=rng.choice([0, 0, 1, 2, 3, 6])),
            script=[[[rng.random() < p for p in pd], [rng.random() < pn for _ in range(n)]]
                    for _ in range(40)] + [[[True] * n, [False] * n]],
            serial=serial, stats=rng.random() < .4))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_eval.py", scs, nproc=6)
    ctx.validate("EvalTrace", traces)
    return ["environments and agent are scripted stand-ins; returns are integers"]
