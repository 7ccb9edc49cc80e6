"""P24: environment wrappers."""

KINDS = {
    # kind: (choices of p, choices of q)
    "timelimit": ([1, 2, 3, 5, 8], [0]), "skip": ([1, 2, 3, 4, 5], [0]),
    "noop": ([1, 2, 3, 6], [0]), "fire": ([0], [0]), "life": ([0], [0]),
    "clip": ([0], [0]), "warp": ([0], [0]), "flicker": ([0], [0]),
    "scaledfloat": ([0], [0]), "scale": ([2, 3, -2], [0]), "cast": ([0], [0]),
    "render": ([0], [0]), "monitor": ([0], [0]),
    "normalize": ([-24, -16, 0, 8], [24, 40, 56]), "randomize": ([0], [3, 5]),
    "tslimit": ([1, 2, 4, 7], [0]), "repeat": ([1, 2, 3, 4], [0]),
    "afilter": ([1, 2], [0]), "rfilter": ([1, 4], [0]), "rclip": ([0, 1, 3], [0, 2]),
    "mrender": ([0], [0]), "chain": ([0], [0]),
}


def check(ctx):
    ctx.model_check("WrappersMC", "WrappersMC.cfg")
    if not ctx.quick:
        ctx.model_check("WrappersMC", "WrappersMCBig.cfg")
    rng = ctx.rng
    scs = []
    gen = ctx.behaviours("WrappersMC", "WrappersMCGen.cfg")
    if ctx.quick:
        rng.shuffle(gen)
        gen = gen[:1500]
    for h in gen:
        p = 2
        scs.append(dict(cfg=dict(kind=h["kind"], p=p, q=0), script=h["script"],
                        ops=[dict(reset=rng.random() < .1, a=1) for _ in range(8)]))
    for i in range(ctx.pick(2200, 20000)):
        kind = sorted(KINDS)[i % len(KINDS)]
        ps, qs = KINDS[kind]
        p, q = rng.choice(ps), rng.choice(qs)
        if kind == "noop" and rng.random() < .3:
            q = rng.choice([1, 2, 5])
        pd, pn, pl = rng.choice([.02, .1, .4]), rng.choice([0, 0, .1, .3]), rng.choice([0, .1, .4])
        lives, script = 3, []
        for _ in range(120):
            if rng.random() < pl:
                lives = rng.randrange(0, 5)
            script.append(dict(r=rng.randint(-4, 6), done=rng.random() < pd,
                               need=rng.random() < pn, lives=lives))
        fr = rng.choice([0, .1, .25, .5, 1.])
        acts = range(-8, 9) if kind == "normalize" else \
            range(q) if kind == "randomize" else range(6)
        scs.append(dict(cfg=dict(kind=kind, p=p, q=q), script=script, frac=fr,
                        ops=[dict(reset=rng.random() < .08, a=rng.choice(list(acts)))
                             for _ in range(rng.randrange(4, 50))]))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_wrap.py", scs, nproc=6)
    ctx.validate("WrappersTrace", traces)
    return ["the wrapped environment is a scripted stand-in with constant-valued frames",
            "the replacement rate of RandomizeAction is judged on 20000 seeded draws within six "
            "standard deviations (of the hundredth part of the sample)"]
