"""P08: the serial training loop against its collaborators."""


def cfg(steps, offset=0, maxlen=0, ckpt=0, hooks=1, eval=False, evalDuring=False, succ=-1):
    return dict(steps=steps, offset=offset, maxlen=maxlen, ckpt=ckpt, hooks=hooks, eval=eval,
                evalDuring=evalDuring, succ=succ)


def check(ctx):
    ctx.model_check("TrainLoopMC", "TrainLoopMC.cfg")
    ctx.model_check("TrainLoopMC", "TrainLoopMC2.cfg")
    scripts = ctx.behaviours("TrainLoopMC", "TrainLoopGen.cfg")
    rng = ctx.rng
    scs = []
    # every environment history the model has, under several settings
    for i, s in enumerate(scripts):
        scs.append(dict(cfg=cfg(5, maxlen=i % 4, ckpt=(i // 4) % 4, hooks=i % 3,
                                eval=i % 2 == 0, evalDuring=i % 4 == 0), script=s,
                        scores=[-1, 1, -1, 0, 2], has_t=i % 3 > 0))

    def rand(n):
        steps = rng.choice([0, 1, 2, 3, 5, 8, 13, 20])
        off = rng.choice([0, 0, 0, 1, 3, steps, steps + 2])
        pd, pn = rng.choice([0, .1, .3, .7]), rng.choice([0, 0, .1, .4])
        ev = rng.random() < .6
        return dict(
            cfg=cfg(steps, off, rng.choice([0, 0, 1, 2, 3, 5, 30]), rng.choice([0, 1, 2, 3, 4, 7]),
                    rng.randint(0, 3), ev, ev and rng.random() < .5,
                    rng.choice([-1, 0, 2, 3]) if ev else -1),
            script=[[rng.random() < pd, rng.random() < pn] for _ in range(max(1, steps))],
            scores=[rng.choice([-1, -1, 0, 1, 2, 3]) for _ in range(rng.randint(1, 6))],
            has_t=rng.random() < .7)

    for i in range(ctx.pick(1200, 12000)):
        scs.append(rand(i))
    # a failure at every call of a run
    for i in range(ctx.pick(40, 400)):
        b = rand(i)
        for k in range(1, 60 if ctx.quick else 100):
            s = dict(b)
            s["fault_at"] = k
            s["fault_kind"] = ["Fault", "KeyboardInterrupt", "ValueError"][k % 3]
            scs.append(s)
            if k > 6 * max(1, b["cfg"]["steps"] - b["cfg"]["offset"]) + 3:
                break
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_train.py", scs, nproc=4)
    ctx.validate("TrainLoopTrace", traces)
    return ["the environment, agent, hooks and evaluator are scripted stand-ins; the evaluator's "
            "own schedule is P12",
            "a checkpoint due at the very last step may be left to the final save"]
