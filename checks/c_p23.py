"""P23: actor-learner training under controlled schedules."""


def check(ctx):
    ctx.model_check("ActorLearnerMC", "ActorLearnerMC.cfg")
    ctx.model_check("ActorLearnerMC", "ActorLearnerMC2.cfg")
    ctx.model_check("ActorLearnerMC", "ActorLearnerMCLive.cfg")
    if not ctx.quick:
        ctx.model_check("ActorLearnerMC", "ActorLearnerMCBig.cfg", timeout=3000, heap="12g")
    for b in (1, 2, 3, 4, 5):
        ctx.expect_violation("ActorLearnerMC", "ActorLearnerMCBad%d.cfg" % b)
    scheds = ctx.behaviours("ActorLearnerMC", "ActorLearnerMCGen.cfg",
                            simulate=ctx.pick(400, 4000), depth=200)
    rng = ctx.rng
    scs = []

    def prog(loads, evals):
        p = []
        pd, pr = rng.choice([0, .1, .4, .8]), rng.choice([0, .1, .4])
        for _ in range(rng.randint(1, 12)):
            x = rng.random()
            if x < .75:
                p.append(["step", rng.random() < pd, rng.random() < pr])
            elif x < .82:
                p.append(["stats"])
            elif x < .88:
                p.append(["save"])
            elif x < .92 and loads:
                p.append(["load", 0])
            elif evals:
                p.append(["eval", rng.randint(1, 3)])
        if rng.random() < .8:
            p.append(rng.choice([["stats"], ["save"]]))
        return p

    for i in range(ctx.pick(1500, 15000)):
        n = rng.choice([1, 2, 2, 3, 4])
        buf = rng.choice(["flat", "flat", "per", "epi"])
        ui = rng.choice([1, 1, 2, 3])
        c = dict(n=n, buf=buf, iv=rng.choice([1, 1, 2, 3]), ui=ui, ti=ui * rng.choice([1, 2, 3]),
                 rs=rng.choice([1, 2, 4]), nu=rng.choice([0, 0, 1, 2, 5]), m0=40)
        mb = rng.randint(1, min(2, c["rs"]))
        s = dict(cfg=c, mode="program", kind=rng.choice(["DQN", "DoubleDQN", "PAL"]), mb=mb,
                 cap=rng.choice([max(4, c["rs"]), 8, None]), p=rng.choice([.05, .2, .5, .9]),
                 eul=rng.choice([None, 1, 3]))
        if rng.random() < .25:
            s["mode"] = "train"
            s["steps"] = rng.randint(1, 15)
            s["shm"] = rng.random() < .5
            s["scripts"] = [[[rng.random() < .3, rng.random() < .1] for _ in range(12)]
                            for _ in range(n)]
        else:
            s["progs"] = [prog(rng.random() < .3, rng.random() < .5) for _ in range(n)]
            # all requested updates are awaited where they must happen
            if c["nu"] and buf == "flat" and sum(
                    1 for p in s["progs"] for x in p if x[0] == "step") >= c["rs"] and all(
                    p and p[-1][0] != "step" for p in s["progs"]):
                s["wait"] = True
        if i < len(scheds):
            # a schedule of the model: the poller is 0, the learner 1, actors follow
            k = rng.choice([1, 2, 3, 5])
            s["sched"] = [x for x in scheds[i] for _ in range(k)]
        x = rng.random()
        if s["mode"] == "program" and x > .92:
            # a request which has to fail
            s["soft"] = True
            p = rng.choice(s["progs"])
            p.insert(rng.randint(0, len(p)), ["load", 99])
        if x < .2:
            s["faults"] = {rng.choice(["update", "hook", "ohook", "append", "stop", "sample"]):
                           rng.randint(1, 4)}
        scs.append(s)
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_actor.py", scs, nproc=8)
    ctx.validate("ActorLearnerTrace", traces)
    return ["poller, learner and actors run as threads of which one runs at a time, switched at every "
            "operation on a pipe, lock, event, counter, buffer or hook; the model is switched "
            "atomically between such points",
            "the pipes are in-order channels which copy what is sent",
            "saving and loading while the learner is in the middle of an optimizer step is not "
            "explored (the optimizer step is one atomic operation)"]
