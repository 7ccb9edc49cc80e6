"""P02: capacity, sampling, save/load of replay buffers."""
from c_p01 import random_ops


def check(ctx):
    ctx.model_check("ReplayBufferMC", "ReplayBufferMC.cfg")
    if not ctx.quick:
        ctx.model_check("ReplayBufferMC", "ReplayBufferMCBig.cfg")
    rng = ctx.rng
    scs = []
    for i in range(ctx.pick(1200, 8000)):
        kind = rng.choice(["plain", "plain", "plain", "prio", "persistent"])
        envs = rng.randint(1, 3)
        n = 1 if kind == "persistent" else rng.choice([1, 1, 2, 3])
        cap = rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 17])
        if kind == "persistent" and cap == 0:
            cap = 5
        ops = random_ops(rng, envs, rng.randint(5, 45),
                         extra=("all", "sample", "sample", "reload"))
        scs.append(dict(cfg=dict(kind=kind, n=n, cap=cap, envs=envs, style=rng.choice(["int", "mixed"])),
                        ops=ops + [dict(op="all")]))
    # uniformity: many draws at several fill levels
    for i in range(ctx.pick(40, 300)):
        cap = rng.choice([0, 3, 8])
        fill = rng.randint(2, 14)
        ops = [dict(op="append", env=0, term=rng.random() < 0.2) for _ in range(fill)]
        ops += [dict(op="freq", draws=600), dict(op="append", env=0, term=False),
                dict(op="freq", draws=600)]
        scs.append(dict(cfg=dict(kind="plain", n=rng.choice([1, 1, 3]), cap=cap, envs=1), ops=ops))
    # large buffers: sampling few out of many takes another path than many out of few
    for i in range(ctx.pick(12, 60)):
        cap = rng.choice([0, 60, 64, 100])
        ops = [dict(op="append", env=0, term=False) for _ in range(rng.randint(30, 130))]
        ops += [dict(op="sample")] * 6 + [dict(op="reload"), dict(op="all")]
        scs.append(dict(cfg=dict(kind="plain", n=1, cap=cap, envs=1), ops=ops))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_replay.py", scs, nproc=6)
    ctx.validate("ReplayBufferTrace", traces)
    return ["uniformity is decided at 6 sigma on seeded draws"]
