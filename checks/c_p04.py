"""P04: episodic replay."""
from c_p01 import random_ops


def check(ctx):
    ctx.model_check("EpisodicBufferMC", "EpisodicBufferMC.cfg")
    if not ctx.quick:
        ctx.model_check("EpisodicBufferMC", "EpisodicBufferMCBig.cfg")
    beh = ctx.behaviours("EpisodicBufferMC", "EpisodicBufferGen.cfg")
    rng = ctx.rng
    scs = []
    for i, h in enumerate(beh):
        for kind in ("plain", "prio"):
            if ctx.quick and (i % 4 != (0 if kind == "plain" else 2)):
                continue
            scs.append(dict(cfg=dict(kind=kind, cap=[0, 1, 2, 3][(i // 4) % 4], envs=2),
                            ops=h + [dict(op="all"), dict(op="alleps"), dict(op="parts")]))
    for i in range(ctx.pick(900, 8000)):
        kind = rng.choice(["plain", "prio", "prio"])
        cfg = dict(kind=kind, cap=rng.choice([0, 1, 3, 5, 8, 12]), envs=rng.randint(1, 3),
                   names=rng.choice(["int", "odd"]), style=rng.choice(["int", "mixed"]))
        if kind == "prio":
            cfg.update(ur=rng.choice([0, 0, 0.3, 1.0]), wait=rng.random() < 0.6,
                       weights=rng.random() < 0.5, defprio=rng.random() < 0.5)
        ops = random_ops(rng, cfg["envs"], rng.randint(5, 60),
                         extra=("all", "sample", "episodes", "episodes", "alleps", "reload"))
        scs.append(dict(cfg=cfg, ops=ops + [dict(op="all"), dict(op="alleps"), dict(op="parts")]))
    for i in range(ctx.pick(60, 400)):
        cfg = dict(kind="persistent", cap=200, envs=rng.randint(1, 3))
        ops = random_ops(rng, cfg["envs"], rng.randint(5, 40),
                         extra=("all", "episodes", "alleps", "reload"))
        scs.append(dict(cfg=cfg, ops=ops + [dict(op="all"), dict(op="alleps")]))
    # known finding: the persistent variant does not drop whole episodes
    scs.append(dict(cfg=dict(kind="persistent", cap=3, envs=1, probe="overflow"),
                    ops=[dict(op="append", env=0, term=False), dict(op="append", env=0, term=True)] * 2))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_episodic.py", scs, nproc=6)
    ctx.validate("EpisodicBufferTrace", traces)
    return []
