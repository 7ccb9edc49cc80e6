"""P32: action values and heads."""
QUERIES = dict(disc=["greedy", "max", "eval", "adv", "dadv", "mean"],
               dist=["greedy", "max", "eval", "adv", "dadv", "mean", "maxdist", "evaldist"],
               quant=["greedy", "max", "eval", "adv", "dadv", "mean", "quantiles"],
               quad=["greedy", "max", "eval", "adv", "dadv"])


def config(rng, kind, b):
    na = rng.choice([1, 2, 2, 3, 4])
    hi = rng.choice([1, 2, 9])
    if kind == "disc":
        rows = [dict(q=[rng.randint(-hi, hi) for _ in range(na)]) for _ in range(b)]
        return dict(kind=kind, rows=rows), na
    if kind == "dist":
        z = rng.choice([[-1, 0, 1], [0, 2], [-4, -2, 0, 2], [-3, 5]])

        def probs():
            cut = sorted(rng.randint(0, 16) for _ in range(len(z) - 1))
            return [y - x for x, y in zip([0] + cut, cut + [16])]
        return dict(kind=kind, z=z, rows=[dict(p=[probs() for _ in range(na)]) for _ in range(b)]), na
    if kind == "quant":
        nt = rng.choice([1, 2, 4])
        return dict(kind=kind, rows=[dict(t=[[rng.randint(-hi, hi) for _ in range(na)] for _ in range(nt)])
                                     for _ in range(b)]), na
    d = rng.choice([1, 2, 3])

    def mat():
        l = [[rng.randint(-1, 2) if j < i else rng.randint(1, 2) if i == j else 0 for j in range(d)] for i in range(d)]
        return [[sum(l[i][k] * l[j][k] for k in range(d)) for j in range(d)] for i in range(d)]
    lo = [rng.randint(-3, 0) for _ in range(d)]
    up = [rng.randint(0, 3) for _ in range(d)]
    return dict(kind=kind, lo=rng.choice([[], lo]), hi=rng.choice([[], up]), scalar=rng.random() < .5,
                column=rng.random() < .5,
                rows=[dict(mu=[rng.randint(-5, 5) for _ in range(d)], m=mat(), v=rng.randint(-4, 4)) for _ in range(b)]), d


def steps_of(rng, kind, b, na, given=None):
    sizes, steps = [b], []

    def acts(n):
        return [[rng.randint(-4, 4) for _ in range(na)] if kind == "quad" else rng.randrange(na) for _ in range(n)]
    for g in given if given is not None else range(rng.randint(3, 12)):
        o = g["obj"] if given is not None else rng.randint(1, len(sizes))
        n = sizes[o - 1]
        if given is not None and g["k"] == "slice":
            steps.append(dict(g, how="list"))
            sizes.append(len(g["idx"]))
        elif given is None and rng.random() < .25:
            how = rng.choice(["list", "slice", "mask", "tensor"])
            if how in ("list", "tensor"):
                idx = [rng.randint(1, n) for _ in range(rng.choice([1, 2, 3]))]
            elif how == "slice":
                i = rng.randint(1, n)
                idx = list(range(i, rng.randint(i, n) + 1))
            else:
                idx = sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))
            steps.append(dict(k="slice", obj=o, idx=idx, how=how))
            sizes.append(len(idx))
        else:
            w = g["what"] if given is not None else rng.choice(QUERIES[kind])
            st = dict(k="query", obj=o, what=w)
            if w in ("eval", "adv", "dadv", "evaldist", "quantiles"):
                st["a"] = acts(n)
            if w == "dadv":
                st["b"] = acts(n)
            steps.append(st)
    return steps


def check(ctx):
    for c in (("", "Quad") if ctx.quick else ("", "Quad", "Big")):
        ctx.model_check("ActValMC", "ActValMC%s.cfg" % c)
    for b in range(1, 5):
        ctx.expect_violation("ActValMC", "ActValMCBad%d.cfg" % b)
    rng = ctx.rng
    scs = []
    gen = ctx.behaviours("ActValMC", "ActValMCGen.cfg")
    for i, h in enumerate(gen):
        kind = rng.choice(list(QUERIES))
        cfg, na = config(rng, kind, 2)
        scs.append(dict(cfg=cfg, steps=steps_of(rng, kind, 2, na, h)))
    for _ in range(ctx.pick(2500, 40000)):
        kind, b = rng.choice(list(QUERIES)), rng.choice([1, 2, 3, 5])
        cfg, na = config(rng, kind, b)
        scs.append(dict(cfg=cfg, steps=steps_of(rng, kind, b, na)))
    for i in range(ctx.pick(500, 6000)):
        sc = dict(cfg=dict(kind="head"), head=rng.choice(["saq", "stateq", "stateq", "policy", "policy", "fun"]), n=rng.choice([1, 2, 3, 5]),
                  do=rng.choice([1, 2, 3]), da=rng.choice([1, 2, 3]), nl=rng.choice([0, 1, 2]),
                  atoms=rng.choice([2, 3, 5]), vmin=rng.choice([-2, 0]), vmax=rng.choice([1, 4]),
                  hi=[rng.choice([1, 2, 5]) for _ in range(3)], span=[rng.choice([1, 3, 6]) for _ in range(3)],
                  scale=rng.random() < .7, transform=rng.random() < .4)
        if sc["head"] == "saq":
            sc["name"] = rng.choice(["FCSAQFunction", "FCBNSAQFunction", "FCBNLateActionSAQFunction",
                                     "FCLateActionSAQFunction", "SingleModelStateActionQFunction"])
            if "Late" in sc["name"]:
                sc["nl"] = max(1, sc["nl"])
        elif sc["head"] == "fun":
            sc["da"] = rng.choice([1, 2, 3, 3, 4])
            sc["hi"], sc["span"] = sc["hi"] + [3], sc["span"] + [2]
        elif sc["head"] == "stateq":
            sc["name"] = rng.choice(["FC", "dist", "quad", "quad", "single"] * 4 + ["dueling", "ddueling"])
        else:
            sc["name"] = rng.choice(["softmax", "delta", "fixed", "diag", "indep"])
        scs.append(sc)
    for i, s in enumerate(scs):
        s["seed"] = i
    ctx.validate("ActValTrace", ctx.drive("drv_actval.py", scs, nproc=8), timeout=600)
    return ["action values hold small integers and powers of two, so that comparisons are exact; networks with random "
            "weights are compared within 8/4096 of their scale",
            "the value and advantage streams of the dueling network are read through forward hooks"]
