"""P09: the synchronous parallel training loop against its collaborators."""


def cfg(n, steps, offset=0, maxlen=0, ckpt=0, hooks=1, eval=False, succ=-1):
    return dict(n=n, steps=steps, offset=offset, maxlen=maxlen, ckpt=ckpt, hooks=hooks, eval=eval,
                succ=succ)


def check(ctx):
    ctx.model_check("TrainBatchMC", "TrainBatchMC.cfg")
    ctx.model_check("TrainBatchMC", "TrainBatchMC2.cfg")
    scripts = ctx.behaviours("TrainBatchMC", "TrainBatchGen.cfg")
    rng = ctx.rng
    if ctx.quick:
        rng.shuffle(scripts)
        scripts = scripts[:1500]
    scs = []
    for i, s in enumerate(scripts):
        scs.append(dict(cfg=cfg(2, 5, maxlen=i % 4, ckpt=(i // 4) % 4, hooks=i % 3,
                                eval=i % 2 == 0), script=s,
                        scores=[-1, 1, -1, 0, 2], has_t=i % 3 > 0))

    def rand(n):
        n = rng.choice([1, 1, 2, 2, 3, 4, 7])
        steps = rng.choice([1, 2, 3, 5, 8, 13, 20, 31])
        off = rng.choice([0, 0, 0, rng.randint(0, steps - 1)])
        pd, pn = rng.choice([0, .1, .3, .7]), rng.choice([0, 0, .1, .4])
        ev = rng.random() < .6
        return dict(
            cfg=cfg(n, steps, off, rng.choice([0, 0, 1, 2, 3, 5, 30]),
                    rng.choice([0, 1, 2, 3, 4, 7]),
                    rng.randint(0, 3), ev, rng.choice([-1, 0, 2, 3]) if ev else -1),
            script=[[[rng.random() < pd for _ in range(n)], [rng.random() < pn for _ in range(n)]]
                    for _ in range(steps)],
            scores=[rng.choice([-1, -1, 0, 1, 2, 3]) for _ in range(rng.randint(1, 6))],
            has_t=rng.random() < .7, log=rng.choice([0, 1, 5]))

    for i in range(ctx.pick(1200, 12000)):
        scs.append(rand(i))
    for i in range(ctx.pick(40, 400)):
        b = rand(i)
        c = b["cfg"]
        for k in range(1, 60 if ctx.quick else 100):
            s = dict(b)
            s["fault_at"] = k
            s["fault_kind"] = ["Fault", "KeyboardInterrupt", "ValueError"][k % 3]
            s["closefails"] = k % 2 == 0
            scs.append(s)
            if k > (6 + c["n"] * c["hooks"]) * (1 + (c["steps"] - c["offset"]) // c["n"]) + 3:
                break
    # the one listed finding: evaluation on the training environments
    c = cfg(2, 8, hooks=0)
    c["probe"] = "eval_env=None"
    scs.append(dict(cfg=c))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_trainb.py", scs, nproc=4)
    ctx.validate("TrainBatchTrace", traces)
    return ["the vector environment, agent, hooks and evaluator are scripted stand-ins",
            "evaluation uses an environment of its own (as the evaluator stand-in does)"]
