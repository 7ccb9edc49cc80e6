"""P12: when evaluation happens, what it logs, which agent is kept."""


def check(ctx):
    ctx.model_check("EvaluatorMC", "EvaluatorMC.cfg")
    hists = ctx.behaviours("EvaluatorMC", "EvaluatorGen.cfg")
    rng = ctx.rng
    rng.shuffle(hists)
    scs = []

    def cfg(**kw):
        c = dict(interval=3, offset=0, k=1, succ=-1000000, best=True, hooks=1, ncols=1, evmax=0)
        c.update(kw)
        return c

    for h in hists[:ctx.pick(700, 8000)]:
        scs.append(dict(cfg=cfg(offset=1), mode="direct", ts=[x[0] for x in h],
                        returns=[x[1] for x in h] or [0], envstats=False))

    def rets():
        pool = rng.choice([[0, 1, 2, 3], [-7, -3, -1], [5], [-20, 0, 20, 33], [2, 2, 2, 4],
                           [-100000000, 100000000, 16777217, 16777218]])
        return [rng.choice(pool) for _ in range(rng.randint(1, 12))]

    for i in range(ctx.pick(1500, 15000)):
        mode = rng.choice(["direct", "async", "serial", "serial", "batch"])
        iv = rng.choice([1, 2, 3, 5, 8])
        off = rng.choice([0, 0, rng.randint(0, 20)])
        es = rng.random() < .4
        c = cfg(interval=iv, offset=off, k=rng.choice([1, 1, 2, 3, 4]), best=rng.random() < .8,
                hooks=rng.choice([0, 1, 2]), ncols=1 + es)
        s = dict(cfg=c, mode=mode, returns=rets(), envstats=es)
        if mode in ("direct", "async"):
            t, ts = off, []
            for _ in range(rng.randint(0, 12)):
                t += rng.randint(1, iv if mode == "async" else 2 * iv + 2)
                ts.append(t)
            s["ts"] = ts
        else:
            s["steps"] = off + rng.randint(1, 40)
            s["during"] = mode == "serial" and rng.random() < .4
            s["maxlen"] = rng.choice([0, 0, 2, 5])
            s["n"] = rng.choice([1, 2, 3])
            pd = rng.choice([.1, .4, .8])
            s["script"] = [[rng.random() < pd, rng.random() < .1] for _ in range(40)]
            if rng.random() < .5:
                c["succ"] = rng.choice([-1, 0, 2, 3, 20])
        s["elens"] = rng.choice([[1], [1, 2, 4, 7], [3, 6, 1]])
        s["evmax"] = rng.choice([0, 0, 1, 3, 5])
        # without a limit of its own, evaluation has the one of training
        c["evmax"] = s["evmax"] or s.get("maxlen", 0)
        scs.append(s)
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_evaluator.py", scs, nproc=6)
    ctx.validate("EvaluatorTrace", traces)
    return ["evaluation episodes have scripted lengths and returns (rollouts are P11)",
            "AsyncEvaluator is driven here from one thread with at most one crossed interval per "
            "check (P10 covers the rest)"]
