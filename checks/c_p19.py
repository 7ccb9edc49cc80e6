"""P19: data sets, advantages and updates of PPO and TRPO."""
S = 1 << 14
CODE = {"no": 0, "done": 1, "reset": 2}


def config(rng, i, n, total):
    algo = ["ppo", "ppo", "trpo"][i % 3]
    rec = rng.random() < .4
    ui = rng.randint(2, 9)
    mb = rng.randint(1, 6)
    if rec:
        mb = min(mb, ui)
    gn, gd = rng.choice([(1, 2), (1, 1), (3, 4), (0, 1)])
    ln, ld = rng.choice([(1, 2), (1, 1), (3, 4), (0, 1)])
    ppo = algo == "ppo"
    return dict(
        algo=algo, n=n, ui=ui, mb=mb, epochs=rng.randint(1, 3), rec=rec, gn=gn, gd=gd, ln=ln, ld=ld,
        V=[rng.randint(-16, 16) * S // 8 for _ in range(total)], std=rng.random() < .5,
        vn=rng.choice([1, 2]) if ppo else 1, vd=rng.choice([1, 2]) if ppo else 1, eps=S // 4,
        veps=rng.choice([0, S // 4]) if ppo else 0, norm=rng.random() < .4,
        maxkl=rng.choice([1, 4, 16]) * S // 128)


def check(ctx):
    ctx.model_check("GaeMC", "GaeMC.cfg" if ctx.quick else "GaeMCBig.cfg")
    for b in range(1, 7):
        ctx.expect_violation("GaeMC", "GaeMCBad%d.cfg" % b)
    rng = ctx.rng
    scs = []

    def add(hist, n, i):
        cfg = config(rng, i, n, n * (2 * len(hist) + 2))
        scs.append(dict(cfg=cfg, marked=rng.random() < .3, na=rng.choice([2, 3]), shift=rng.random() < .5,
                        maxlen=rng.choice([None, 1, 2, 3]) if cfg["rec"] else None,
                        single=rng.random() < .5, seed=len(scs),
                        steps=[dict(ends=h, eval=rng.random() < .1) for h in hist]))
    g = ctx.behaviours("GaeMC", "GaeMCGen.cfg")
    for i, h in enumerate(g[:ctx.pick(300, 729)]):
        add([[CODE[x] for x in r] for r in h], 2, i)
    for i in range(ctx.pick(700, 6000)):
        n = rng.choice([1, 1, 2, 3])
        T = rng.randint(3, 12 if n < 3 else 6)
        w = rng.choice([[6, 1, 1, 1], [2, 1, 1, 1], [12, 1, 1, 0]])
        add([[rng.choices([0, 1, 2, 3], w)[0] for _ in range(n)] for _ in range(T)], n, i)
    ctx.validate("GaeTrace", ctx.drive("drv_gae.py", scs, nproc=8), timeout=600)
    return ["tabular models with dyadic entries; observations are pairwise different",
            "standardized advantages are judged where their standard deviation exceeds 1/8"]
