"""P29: output directories."""
import os
import subprocess

import vlib


def check(ctx):
    ctx.model_check("OutDirMC", "OutDirMC.cfg")
    if not ctx.quick:
        ctx.model_check("OutDirMC", "OutDirMCBig.cfg")
    for b in (1, 2, 3):
        ctx.expect_violation("OutDirMC", "OutDirMCBad%d.cfg" % b)
    hists = ctx.behaviours("OutDirMC", "OutDirMCGen.cfg")
    shim = os.path.join(ctx.workdir, "crashshim.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", shim,
                        os.path.join(vlib.HARNESS, "crashshim.c"), "-ldl"],
                       capture_output=True)
    if r.returncode:
        raise vlib.MachineryError("shim: %s" % r.stderr)
    rng = ctx.rng
    rng.shuffle(hists)
    scs = []
    files = {10: "scores.txt", 11: "5_finish/model.pt"}

    def prep(exp, bk=True, cut=0):
        return ["prep", exp, rng.randint(0, 2), bk, rng.choice(["argv", "sys", "dict"]), cut]

    for h in hists[:ctx.pick(300, 1152)]:
        scs.append(dict(cfg=dict(git=False), base=rng.choice(["none", "rel", "abs"]), ops=[
            prep("e%d" % x[1], x[2]) if x[0] == "prep" else
            ["result", "e%d" % x[1], files[x[2]], "r%d" % i, False] for i, x in enumerate(h)]))

    def result(e):
        return ["result", e, rng.choice(["scores.txt", "5_finish/model.pt", "best/a/b", "start.txt.1", ".hid"]),
                "x" * rng.randint(0, 40), rng.random() < .3]

    for i in range(ctx.pick(150, 1500)):
        git = rng.random() < .5
        auto = rng.random() < .4
        ops = []
        for _ in range(rng.randint(2, 10)):
            x = rng.random()
            if x < .5:
                ops.append(prep(None if auto and rng.random() < .7 else rng.choice(["e1", "e2", "a b"]),
                                rng.random() < .8))
            elif x < .9:
                ops.append(result(rng.choice(["e1", "e2", "a b"])))
            elif git:
                ops.append(["edit"])
        scs.append(dict(cfg=dict(git=git), base=rng.choice(["rel", "abs"] if git else ["none", "rel", "abs"]),
                        ops=ops))
    # cut off at every file operation, then prepared again
    for cut in range(1, ctx.pick(40, 60)):
        for bk in (True, False):
            scs.append(dict(cfg=dict(git=False), base="abs", ops=[
                prep("e1"), result("e1"), ["result", "e1", "scores.txt", "abc", False], prep("e2"),
                ["result", "e2", "scores.txt", "def", False],
                prep("e1", bk, cut), prep("e1"), result("e1"), prep("e1", True, rng.randint(1, 30)), prep("e1")]))
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_outdir.py", scs, nproc=8, extra_env=dict(LD_PRELOAD=shim))
    ctx.notes["interrupted"] = sum(1 for t in traces for e in t["events"]
                                   if e["op"] == "crash" and e["status"] == 77)
    ctx.validate("OutDirTrace", traces)
    return ["preparations are at least a microsecond apart and the time format is the default",
            "under version control there is at least one commit",
            "an interruption ends the process at a file-modifying call"]
