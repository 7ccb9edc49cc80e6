"""P03: random access queue == bounded list."""


def check(ctx):
    ctx.model_check("QueueMC", "QueueMC.cfg")
    beh = ctx.behaviours("QueueMC", "QueueGen.cfg")
    rng = ctx.rng
    scs = []
    mls = [-1, 0, 1, 2, 3]
    for i, h in enumerate(beh):
        for ml in (mls if not ctx.quick else [mls[i % 5]]):
            scs.append(dict(cfg=dict(maxlen=ml, init=[1, 2, 3, 4][: (i // 5) % 5]), ops=h))
    for i in range(ctx.pick(500, 5000)):
        ops = []
        # phases of growth and of draining, so that both internal halves matter
        for _ in range(rng.randint(2, 5)):
            pp = rng.choice([0.1, 0.5, 0.8])
            for _ in range(rng.randint(2, 12)):
                r = rng.random()
                if r < pp:
                    ops.append(dict(op="pop"))
                elif r < pp + (1 - pp) * 0.5:
                    ops.append(dict(op="append"))
                elif r < pp + (1 - pp) * 0.7:
                    ops.append(dict(op="extend", k=rng.randint(0, 5), gen=rng.random() < 0.3))
                elif r < pp + (1 - pp) * 0.85:
                    ops.append(dict(op="set", i=rng.randint(-6, 6)))
                else:
                    ops.append(dict(op="sample"))
        init = list(range(1, rng.randint(0, 8) + 1))
        scs.append(dict(cfg=dict(maxlen=rng.choice([-1, -1, 0, 1, 2, 3, 5, 8]), init=init),
                        ops=ops))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_queue.py", scs, nproc=4)
    ctx.validate("QueueTrace", traces)
    return []
