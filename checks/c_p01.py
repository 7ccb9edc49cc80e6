"""P01: n-step replay storage."""


def random_ops(rng, envs, length, extra=("all",)):
    ops = []
    for _ in range(length):
        r = rng.random()
        e = rng.randrange(envs)
        if r < 0.62:
            ops.append(dict(op="append", env=e, term=False))
        elif r < 0.76:
            ops.append(dict(op="append", env=e, term=True))
        elif r < 0.88:
            ops.append(dict(op="stop", env=e))
        else:
            ops.append(dict(op=rng.choice(extra)))
    return ops


def check(ctx):
    ctx.model_check("ReplayBufferMC", "ReplayBufferMC.cfg")
    ctx.model_check("ReplayBufferMC", "ReplayBufferMC3.cfg")
    if not ctx.quick:
        ctx.model_check("ReplayBufferMC", "ReplayBufferMCBig.cfg")
    beh = ctx.behaviours("ReplayBufferMC", "ReplayBufferGen.cfg")
    scs = []
    rng = ctx.rng
    kinds = [("plain", 1), ("plain", 2), ("plain", 3), ("prio", 2), ("prio", 3)]
    for i, h in enumerate(beh):
        for j, (kind, n) in enumerate(kinds):
            if ctx.quick and (i + j) % 5:
                continue
            cap = [0, 0, 1, 2, 4][(i // 5) % 5]
            scs.append(dict(cfg=dict(kind=kind, n=n, cap=cap, envs=2),
                            ops=h + [dict(op="all"), dict(op="stop", env=0),
                                     dict(op="stop", env=1), dict(op="all")]))
    for i in range(ctx.pick(600, 6000)):
        envs = rng.randint(1, 4)
        kind = rng.choice(["plain", "plain", "prio"])
        n = rng.randint(1, 6)
        cap = rng.choice([0, 0, 0, 1, 2, 3, 5, 8])
        scs.append(dict(cfg=dict(kind=kind, n=n, cap=cap, envs=envs,
                                 names=rng.choice(["int", "str", "tuple", "odd"]),
                                 style=rng.choice(["int", "mixed"])),
                        ops=random_ops(rng, envs, rng.randint(5, 40))))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_replay.py", scs, nproc=4)
    ctx.validate("ReplayBufferTrace", traces)
    return ["entries are read back through sample(len(buffer)); the driver gives every "
            "transition distinct field values"]
