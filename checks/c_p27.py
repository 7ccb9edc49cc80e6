"""P27: evaluation mode never disturbs training."""

VALUE = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "CategoricalDQN", "CategoricalDoubleDQN", "IQN"]
KINDS = VALUE + ["DDPG", "TD3", "SAC", "PPO", "TRPO", "A2C", "REINFORCE", "A3C", "ACER",
                 "DQN", "DDPG", "TD3", "SAC", "PPO", "TRPO", "A2C", "REINFORCE", "A3C", "ACER"]
SINGLE = ["REINFORCE", "A3C", "ACER"]


def options(rng, kind, n):
    rec = None
    if kind in VALUE + ["PPO", "TRPO", "A3C", "ACER", "REINFORCE"] and rng.random() < .35:
        rec = rng.choice(["gru", "lstm"])
    mb = rng.randint(1, 4)
    ui = rng.choice([1, 1, 2, 3])
    k = dict(n=n, rec=rec, one=rng.random() < .5, opt=rng.choice(["adam", "rms", "sgd"]),
             tick=rng.random() < .5 and kind not in ("A2C", "ACER", "REINFORCE"),
             norm=kind in ("PPO", "TRPO") and rng.random() < .6, nstep=rng.choice([1, 1, 2, 3]),
             prio=kind in VALUE and not rec and rng.random() < .4, noisy=kind in VALUE and rng.random() < .2,
             ui=ui, mb=mb, rss=max(mb, rng.randint(1, 6)), tui=ui * rng.choice([1, 2, 3]),
             ntu=rng.choice([1, 1, 2]), tum=rng.choice(["hard", "soft"]), delay=rng.choice([1, 2]),
             temp=rng.random() < .6, sep=rng.random() < .5, dp=rng.random() < .1)
    if kind in ("A3C", "ACER"):
        k.update(opt="shared", dp=False)
    return k


def check(ctx):
    ctx.model_check("EvalModeMC", "EvalModeMC.cfg" if ctx.quick else "EvalModeMCBig.cfg")
    for b in range(1, 7):
        ctx.expect_violation("EvalModeMC", "EvalModeMCBad%d.cfg" % b)
    rng = ctx.rng
    hs = ctx.behaviours("EvalModeMC", "EvalModeMCGen.cfg")
    rng.shuffle(hs)
    scs = []

    def add(kind, blocks):
        """blocks: per block, phases before acting and before observing."""
        n = 1 if kind in SINGLE else rng.choice([1, 1, 2, 3])
        k = options(rng, kind, n)
        p = rng.choice([.1, .25, .5])
        steps = []
        for pre, mid in blocks:
            ln = rng.randint(3, 7)
            at = (rng.randrange(ln), rng.randrange(ln))
            for j in range(ln):
                steps.append(dict(pre=pre if j == at[0] else [], mid=mid if j == at[1] else [],
                                  ends=[rng.choice([1, 1, 2, 3]) if rng.random() < p else 0 for _ in range(n)]))
        scs.append(dict(cfg=dict(n=len(steps), kind=kind), kind=kind, k=k, steps=steps, seed=len(scs),
                        how=rng.choice(["steps", "steps", "lib"]), stats=rng.random() < .5,
                        noobs=rng.random() < .1 and not k["rec"], recurrent_batch=bool(k["rec"]) and n > 1))
    for i, h in enumerate(hs[:ctx.pick(500, 1555)]):
        blocks = [([], []) for _ in range(4)]
        for x in h:
            blocks[min(x["at"][1], 4) - 1][0 if x["at"][0] == "act" else 1].append(x["k"])
        add(KINDS[i % len(KINDS)], blocks)
    for i in range(ctx.pick(250, 4000)):
        blocks = []
        for _ in range(rng.randint(2, 6)):
            b = []
            for _ in range(2):
                b.append([] if rng.random() < .6 else
                         ["in"] + ["step"] * rng.randint(1, 3) + [rng.choice(["out", "out", "raise"])])
            blocks.append(tuple(b))
        add(KINDS[i % len(KINDS)], blocks)
    ctx.validate("EvalModeTrace", ctx.drive("drv_evalmode.py", scs, nproc=8), timeout=600)
    return ["random number generators are reseeded before every training call, so that the random "
            "numbers consumed by evaluations do not count as a disturbance",
            "evaluation phases of recurrent agents use as many environments as training does",
            "modules with state of their own (as batch normalization) are not used with A2C, ACER and "
            "REINFORCE, which do not switch their models to evaluation mode"]
