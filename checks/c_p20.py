"""P20: returns used by A2C, A3C and REINFORCE."""
S = 1 << 14
CODE = {"no": 0, "done": 1, "reset": 2}


def config(rng, algo, n, total):
    gn, gd = (1, 1) if algo == "reinforce" else rng.choice([(1, 2), (1, 1), (3, 4), (0, 1)])
    ln, ld = rng.choice([(1, 2), (1, 1), (3, 4), (0, 1)])
    ac = algo != "reinforce"
    return dict(
        algo=algo, n=n, T=rng.choice([1, 2, 3, 4, 5]) if ac else rng.choice([1, 1, 2, 3]),
        gn=gn, gd=gd, ln=ln, ld=ld, gae=algo == "a2c" and rng.random() < .5,
        V=[rng.randint(-16, 16) * S // 8 for _ in range(total)],
        pn=rng.choice([1, 2]) if ac else 1, pd=1, vn=rng.choice([1, 1, 2]), vd=rng.choice([1, 2]),
        ent=rng.choice([1, 2]) * S // 4, keep=algo == "a3c" and rng.random() < .4,
        bymax=algo == "a3c" and rng.random() < .4)


def check(ctx):
    for m in ["", "A3c", "Rf"] if ctx.quick else ["", "A3c", "Rf", "BigA2c", "BigA3c", "BigRf"]:
        ctx.model_check("OnPolicyMC", "OnPolicyMC%s.cfg" % m)
    for b in range(1, 7):
        ctx.expect_violation("OnPolicyMC", "OnPolicyMCBad%d.cfg" % b)
    rng = ctx.rng
    scs = []

    def add(hist, n, algo):
        scs.append(dict(cfg=config(rng, algo, n, n * (2 * len(hist) + 2)), marked=rng.random() < .3,
                        na=rng.choice([2, 3]), rec=rng.random() < .3, sep=rng.random() < .5,
                        seed=len(scs), steps=[dict(ends=h, eval=rng.random() < .1) for h in hist]))
    for h in ctx.behaviours("OnPolicyMC", "OnPolicyMCGen.cfg")[:ctx.pick(300, 729)]:
        add([[CODE[x] for x in r] for r in h], 2, "a2c")
    g = ctx.behaviours("OnPolicyMC", "OnPolicyMCGen1.cfg")
    rng.shuffle(g)
    for h in g[:ctx.pick(200, 729)]:
        for algo in ("a3c", "reinforce"):
            add([[CODE[x] for x in r] for r in h], 1, algo)
    for i in range(ctx.pick(900, 9000)):
        algo = ["a2c", "a3c", "reinforce"][i % 3]
        n = rng.choice([1, 2, 3]) if algo == "a2c" else 1
        T = rng.randint(3, 14 if n < 3 else 8)
        w = rng.choice([[6, 1, 1, 1], [2, 1, 1, 1], [12, 1, 1, 0]])
        add([[rng.choices([0, 1, 2, 3], w)[0] for _ in range(n)] for _ in range(T)], n, algo)
    ctx.validate("OnPolicyTrace", ctx.drive("drv_onpolicy.py", scs, nproc=8))
    return ["tabular models with dyadic entries; observations are pairwise different",
            "A2C documents that it treats an interruption as the end of an episode"]
