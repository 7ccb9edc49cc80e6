"""P13: vector environments."""


def check(ctx):
    ctx.model_check("VectorEnvMC", "VectorEnvMC.cfg")
    if not ctx.quick:
        ctx.model_check("VectorEnvMC", "VectorEnvMCBig.cfg")
    ctx.expect_violation("VectorEnvMC", "VectorEnvMCBad.cfg")
    rng = ctx.rng
    scs = []
    gen = ctx.behaviours("VectorEnvMC", "VectorEnvMCGen.cfg")
    rng.shuffle(gen)
    gen = gen[:ctx.pick(150, 2000)]
    for i, h in enumerate(gen):
        scs.append(dict(cfg=dict(n=2, dones=[[False, False, False], [False, True, False]]),
                        multi=i % 2 == 0, ops=h,
                        delays=[[rng.choice([0, 0, 5, 20])] for _ in range(2)]))
    for i in range(ctx.pick(160, 2000)):
        n = rng.choice([1, 2, 3, 4, 6])
        ops = []
        if rng.random() < .5:
            ops.append(dict(op="seed", same=rng.random() < .3,
                            seeds=[rng.randrange(100) for _ in range(n)]))
        if rng.random() < .9:
            ops.append(dict(op="reset", mask=[False] * n))
        for _ in range(rng.randrange(3, 25)):
            r = rng.random()
            if r < .35:
                p = rng.choice([.1, .5, .9])
                ops.append(dict(op="reset", mask=[rng.random() < p for _ in range(n)]))
            elif r < .85:
                ops.append(dict(op="step", a=[rng.randrange(5) for _ in range(n)]))
            elif r < .92:
                ops.append(dict(op="seed", same=rng.random() < .3,
                                seeds=[rng.randrange(100) for _ in range(n)]))
            elif r < .96:
                ops.append(dict(op="attrs"))
            else:
                ops.append(dict(op="badseed"))
        scs.append(dict(
            cfg=dict(n=n, dones=[[rng.random() < .3 for _ in range(5)] for _ in range(n)]),
            multi=rng.random() < .5, ops=ops,
            delays=[[rng.choice([0, 0, 0, 3, 10, 30]) for _ in range(3)] for _ in range(n)]))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_venv.py", scs, nproc=6)
    ctx.validate("VectorEnvTrace", traces)
    return ["environments are deterministic counting stand-ins; worker speeds are varied by "
            "sleeping, the pipes' own delivery is assumed"]
