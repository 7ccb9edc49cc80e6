"""P06: crash safety and lineage of persistent replay."""
import os
import subprocess

import vlib

LEVEL = "model_checking"


def check(ctx):
    ctx.model_check("PersistentMC", "PersistentMC.cfg")
    if not ctx.quick:
        ctx.model_check("PersistentMC", "PersistentMCBig.cfg")
    shim = os.path.join(ctx.workdir, "crashshim.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", shim,
                        os.path.join(vlib.HARNESS, "crashshim.c"), "-ldl"],
                       capture_output=True)
    if r.returncode:
        raise vlib.MachineryError("shim: %s" % r.stderr)
    rng = ctx.rng
    scs = []
    ids = [0]

    def ops(kind, n):
        res = []
        for _ in range(n):
            if kind == "queue" and rng.random() < 0.3:
                k = rng.randint(0, 4)
                res.append(dict(op="extend", xs=[ids[0] + j + 1 for j in range(k)],
                                it=rng.random() < 0.5))
                ids[0] += k
            else:
                ids[0] += 1
                res.append(dict(op="append", xs=[ids[0]]))
        return res

    def session(kind, d, anc, cap, n, end=None):
        return dict(d=d, anc=anc, cap=cap, ops=ops(kind, n), end=end or rng.choice(["close", "exit"]))

    # every crash point of a session, then reopen, go on, reopen again
    for i in range(ctx.pick(14, 120)):
        ids[0] = 0
        kind = ["queue", "rb"][i % 2]
        cap = rng.choice([0, 1, 2, 3, 5, 50])
        chunk = rng.choice([0, 1, 60, 120]) if kind == "queue" else rng.choice([0, 1, 300])
        pre = [session(kind, 1, 0, cap, rng.randint(1, 4)) for _ in range(i % 3)]
        ss = pre + [session(kind, 1, 0, cap, rng.randint(2, 5)),
                    session(kind, 1, 0, cap, 2), session(kind, 1, 0, cap, 0)]
        scs.append(dict(cfg=dict(kind=kind, chunk=chunk, ndirs=1), sessions=ss,
                        sweep=len(pre) + 1, modes=[0, 1, 2]))
    # lineage: a chain of directories, each with the previous one as ancestor
    for i in range(ctx.pick(150, 1200)):
        ids[0] = 0
        kind = rng.choice(["queue", "rb", "rb", "ep"])
        nd = rng.randint(2, 4)
        ss = []
        for d in range(1, nd + 1):
            cap = rng.choice([0, 1, 2, 3, 4, 6, 9, 50]) if kind != "ep" else rng.choice([0, 50])
            anc = d - 1 if rng.random() < 0.85 else 0
            for _ in range(rng.choice([1, 1, 1, 2])):
                ss.append(session(kind, d, anc, cap, rng.randint(0, 5)))
        scs.append(dict(cfg=dict(kind=kind, ndirs=nd, chunk=rng.choice([0, 0, 1, 60, 400])),
                        sessions=ss, arms=[None] * len(ss)))
    # several crashes in one history
    for i in range(ctx.pick(80, 800)):
        ids[0] = 0
        kind = rng.choice(["queue", "rb"])
        cap = rng.choice([0, 2, 4, 50])
        ss = [session(kind, 1, 0, cap, rng.randint(1, 4)) for _ in range(rng.randint(3, 6))]
        scs.append(dict(cfg=dict(kind=kind, ndirs=1, chunk=rng.choice([0, 1, 60])), sessions=ss,
                        arms=[[rng.randint(1, 16), rng.choice([0, 1, 2])]
                              if rng.random() < 0.7 else None for _ in ss]))
    # damaged bytes
    for i in range(ctx.pick(80, 600)):
        ids[0] = 0
        kind = rng.choice(["queue", "rb"])
        ss = [session(kind, 1, 0, rng.choice([0, 5]), rng.randint(1, 5))]
        scs.append(dict(cfg=dict(kind=kind, ndirs=1, chunk=rng.choice([0, 60])), sessions=ss,
                        arms=[None], damage=True))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_persistent.py", scs, nproc=8, extra_env={"LD_PRELOAD": shim})
    ctx.notes["crashes_injected"] = sum(
        1 for t in traces for e in t["events"] if e["op"] == "crash")
    ctx.validate("PersistentTrace", traces)
    return ["a crash is the end of the process at a system call (before it, or after part of "
            "the bytes of a write); the operating system keeps completed calls",
            "chunk rotation is provoked by overriding the public chunk_size property"]
