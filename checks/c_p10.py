"""P10: asynchronous training under controlled schedules."""
import vlib


def check(ctx):
    ctx.model_check("AsyncMC", "AsyncMC.cfg")
    ctx.model_check("AsyncMC", "AsyncMC2.cfg")
    if not ctx.quick:
        ctx.model_check("AsyncMC", "AsyncMCBig.cfg", timeout=3000, heap="12g")
    ctx.expect_violation("AsyncMC", "AsyncMCBad.cfg")
    scheds = ctx.behaviours("AsyncMC", "AsyncGen.cfg", simulate=ctx.pick(400, 3000), depth=200)
    rng = ctx.rng
    scs = []

    def scn(w, steps, **kw):
        pd, pn = rng.choice([0, .2, .5, 1]), rng.choice([0, 0, .2])
        succ = kw.pop("succ", -1)
        c = dict(w=w, steps=steps, offset=kw.pop("offset", 0), maxlen=kw.pop("maxlen", 0),
                 hooks=kw.pop("hooks", 1), interval=kw.pop("interval", 0), succ=succ)
        d = dict(cfg=c, scripts=[[[rng.random() < pd, rng.random() < pn] for _ in range(steps + 3)]
                                 for _ in range(w)],
                 means=[[rng.choice([0, 2, 6, 6, 14, 14, 22, 33554434, 33554436]) for _ in range(5)]
                        for _ in range(w)])
        d.update(kw)
        return d

    # schedules of the model
    for s in scheds:
        scs.append(scn(2, 3, interval=2, sched=[x - 1 for x in s for _ in (0, 1)]))
    # every placement of up to two context switches in a small run
    for a in range(1, ctx.pick(60, 120)):
        scs.append(scn(2, 3, interval=1, forced={str(a): 1, str(a + 14): 0}, maxlen=1))
        for b in range(a + 1, a + ctx.pick(8, 40)):
            scs.append(scn(2, 2, interval=1, maxlen=1,
                           forced={str(a): 1, str(b): 0}))
    for i in range(ctx.pick(900, 9000)):
        w = rng.choice([1, 2, 2, 3, 4])
        steps = rng.choice([1, 2, 3, 5, 8, 12, 20])
        off = rng.choice([0, 0, 0, rng.randint(0, steps - 1)])
        iv = rng.choice([0, 1, 2, 3, 5, 10])
        kw = dict(offset=off, interval=iv, maxlen=rng.choice([0, 0, 1, 2, 3]),
                  hooks=rng.choice([1, 1, 2]), p=rng.choice([.05, .2, .5, .9]),
                  shm=rng.random() < .7, neval=rng.choice([1, 1, 2]))
        if iv and rng.random() < .4:
            kw["succ"] = rng.choice([6, 14, 22])
        x = rng.random()
        if x < .15:
            kw["stop_at"] = rng.randint(off + 1, steps)
        elif x < .25:
            kw["exc_at"] = rng.randint(off + 1, steps)
        elif x < .45:
            kw["faults"] = [[rng.randint(1, w), rng.randint(1, 25),
                             rng.choice(["Fault", "KeyboardInterrupt"])]
                            for _ in range(rng.choice([1, 1, 2]))]
        scs.append(scn(w, steps, **kw))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_async.py", scs, nproc=8)
    ctx.validate("AsyncTrace", traces)
    return ["workers run as threads of which one runs at a time, switched at every operation on "
            "shared values, locks, events and at every call of a collaborator; reads and writes of "
            "shared values are atomic",
            "the kill of the process group is replaced by a recorder"]
