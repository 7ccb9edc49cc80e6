"""P21: whose recurrent state is used."""
BATCH = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "CategoricalDQN", "CategoricalDoubleDQN", "IQN",
         "PPO", "PPO", "TRPO", "TRPO", "DQN", "DoubleDQN"]
SINGLE = ["A3C", "ACER", "REINFORCE", "actor"]


def check(ctx):
    ctx.model_check("RecurMC", "RecurMC.cfg" if ctx.quick else "RecurMCBig.cfg")
    for b in range(1, 5):
        ctx.expect_violation("RecurMC", "RecurMCBad%d.cfg" % b)
    rng = ctx.rng
    scs = []

    def add(kind, n, steps):
        ui = rng.choice([1, 1, 2])
        mb = rng.randint(1, 4)
        rss = rng.randint(1, 5)
        if kind in BATCH[:9]:
            rss = max(rss, mb)
        scs.append(dict(cfg=dict(kind=kind, N=n * (3 * len(steps) + 4), freshok=kind == "ACER"), kind=kind, n=n, steps=steps, form=rng.choice(["tensor", "tuple"]),
                        rss=rss, mb=mb, ui=ui, maxlen=rng.choice([None, 1, 2, 3]), sep=rng.random() < .3,
                        single=n == 1 and (kind in SINGLE or rng.random() < .5), seed=len(scs)))

    def ends(flags):
        return [rng.choice([1, 1, 2, 3]) if f else 0 for f in flags]
    g2 = ctx.behaviours("RecurMC", "RecurMCGen.cfg")
    g1 = ctx.behaviours("RecurMC", "RecurMCGen1.cfg")
    rng.shuffle(g1)
    rng.shuffle(g2)
    for i, h in enumerate(g2[:ctx.pick(200, 2000)]):
        # long enough that training happens: the history is repeated
        add(BATCH[i % len(BATCH)], 2, [dict(m=x["m"], ends=ends(x["ends"])) for x in h + h + h])
    for i, h in enumerate(g1[:ctx.pick(260, 3000)]):
        k = SINGLE[i % 4] if i % 3 else BATCH[i % len(BATCH)]
        add(k, 1, [dict(m=x["m"], ends=ends(x["ends"])) for x in h + h])
    for i in range(ctx.pick(400, 4000)):
        k = (BATCH + SINGLE)[i % 19]
        n = 1 if k in SINGLE else rng.choice([1, 2, 3])
        p = rng.choice([.15, .3, .6])
        steps, m = [], "train"
        for _ in range(rng.randint(6, 18 if n < 3 else 10)):
            e = [rng.random() < p for _ in range(n)]
            if m == "eval":
                e = [e[0]] * n if rng.random() < .7 else e
            steps.append(dict(m=m, ends=ends(e)))
            if m == "eval":
                m = "train" if all(e) else "eval"
            elif rng.random() < .15:
                m = "eval"
        add(k, n, steps)
    ctx.validate("RecurTrace", ctx.drive("drv_recur.py", scs, nproc=8), timeout=600)
    return ["the recurrent module under test has its previous input as its state, so that every state "
            "identifies the observation which produced it",
            "ACER replays sampled sequences from a fresh state (as it documents no stored states)",
            "evaluation phases run to the end of their episodes, with the same number of environments"]
