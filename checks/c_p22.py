"""P22: a saved agent loads back to the same agent."""
from c_p27 import KINDS, SINGLE, VALUE, options


def history(rng, kind, k, n, blocks, quiet, points):
    """Episode ends of a training history of several blocks; quiet: nothing is pending at its end.
    Returns it with the steps at which the blocks (save points) end."""
    hist, at = [], [0]
    for b in range(blocks):
        if kind in ("PPO", "TRPO"):
            ln = k["ui"] * 4 // n * rng.choice([1, 1, 2])
        elif kind == "A2C":
            ln = (k["ui"] + 1) * rng.randint(1, 3)
        elif kind == "REINFORCE":
            ln = None
        else:
            ln = rng.randint(3, 7)
        if ln is None:
            blk = []
            for _ in range(k["mb"]):
                blk += [[0]] * rng.randint(0, 3) + [[1]]
        else:
            p = rng.choice([.1, .3])
            blk = [[rng.choice([1, 1, 2]) if rng.random() < p else 0 for _ in range(n)] for _ in range(ln)]
            blk[-1] = [1 if kind == "A2C" else rng.choice([1, 1, 2]) for _ in range(n)]
        hist += blk
        at.append(len(hist))
    if not quiet and kind != "REINFORCE":
        hist += [[0] * n] * rng.randint(1, 3)
        at[-1] = len(hist)
    return hist, [at[min(x, blocks)] for x in points]


def check(ctx):
    for c in (("", "Odd") if ctx.quick else ("", "Odd", "Big")):
        ctx.model_check("PersistMC", "PersistMC%s.cfg" % c)
    for b in range(1, 6):
        ctx.expect_violation("PersistMC", "PersistMCBad%d.cfg" % b)
    rng = ctx.rng
    hs = ctx.behaviours("PersistMC", "PersistMCGen.cfg") + ctx.behaviours("PersistMC", "PersistMCGen1.cfg")
    scs = []
    for i in range(ctx.pick(620, 8000)):
        h = hs[i % len(hs)]
        kind = KINDS[i % len(KINDS)]
        n = 1 if kind in SINGLE else rng.choice([1, 1, 2])
        k = options(rng, kind, n)
        k["delay"] = 1
        if kind == "A3C":
            k["tick"] = False          # buffers of the local model are overwritten at every synchronization
        quiet = h["n"] % 2 == 0
        hist, saves = history(rng, kind, k, n, h["n"], quiet, h["saves"])
        if kind in ("A2C", "REINFORCE"):
            # A2C keeps its rollout storage, REINFORCE the end of its history is always quiet
            quiet = kind == "REINFORCE"
        other, _ = history(rng, kind, k, n, rng.randint(1, 3), True, [])
        more, _ = history(rng, kind, k, n, rng.randint(1, 3), rng.random() < .5, [])
        snap = kind in VALUE and rng.random() < .4
        e = rng.randint(1, 4)
        dpok = kind not in ("A3C", "ACER", "DDPG")
        scs.append(dict(cfg=dict(n=len(hist), e=e, m=len(more), quiet=quiet, kind=kind), kind=kind, k=k, hist=hist,
                        saves=saves, other=other, more=more, snap=snap, seed=len(scs),
                        samedir=rng.random() < .4, used=quiet and rng.random() < .6,
                        sett=kind not in ("A3C", "ACER") and (rng.random() < .7 or quiet),
                        dp={w: rng.random() < .15 if dpok else k["dp"] for w in "BC"}))
    ctx.validate("PersistTrace", ctx.drive("drv_persist.py", scs, nproc=8), timeout=600)
    return ["networks wrapped by DataParallel may be loaded into bare ones and vice versa, except with DDPG, "
            "which saves its networks as one module",
            "counters of steps are handed over as train_agent(step_offset=...) does, replay contents with "
            "the buffers' own save and load (DQN family also by save_snapshot and load_snapshot); counters of "
            "updates (delayed policy updates, burn-in) and the annealing of beta start anew",
            "the saving agent is compared in training where nothing was pending when it was saved; elsewhere "
            "two agents which loaded the same save are compared with each other"]
