"""P14: frame stacking."""


def check(ctx):
    ctx.model_check("FrameStackMC", "FrameStackMC.cfg")
    if not ctx.quick:
        ctx.model_check("FrameStackMC", "FrameStackMCBig.cfg")
    ctx.expect_violation("FrameStackMC", "FrameStackMCBad.cfg")
    rng = ctx.rng
    scs = []

    def add(n, k, ops, single):
        ax = rng.choice([0, 2] if single else [0, 1, 2])
        scs.append(dict(cfg=dict(n=n, k=k), single=single, axis=ax,
                        chan=rng.choice([1, 1, 3]), ops=ops,
                        dtype=rng.choice(["uint8", "float32"])))

    for h in ctx.behaviours("FrameStackMC", "FrameStackMCGen.cfg"):
        add(2, 3, [dict(op="reset", mask=m) if m else dict(op="step") for m in h], False)
    for i in range(ctx.pick(1200, 8000)):
        single = rng.random() < .3
        n = 1 if single else rng.choice([1, 2, 3, 5])
        ops = [dict(op="reset", mask=[False] * n)]
        for _ in range(rng.randrange(3, 40)):
            r = rng.random()
            if r < .3:
                p = rng.choice([.1, .5, .9])
                ops.append(dict(op="reset", mask=[not single and rng.random() < p
                                                  for _ in range(n)]))
            elif r < .85:
                ops.append(dict(op="step"))
            else:
                ops.append(dict(op="reread"))
        add(n, rng.choice([1, 2, 3, 4, 6]), ops, single)
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_frames.py", scs, nproc=6)
    ctx.validate("FrameStackTrace", traces)
    return ["frames are constant-valued arrays; the wrapped environment returns a fresh array "
            "for every frame"]
