"""P15: transitions stored by the replay agents."""
import offpolicy


def check(ctx):
    for m in offpolicy.MODELS + ([] if ctx.quick else ["OffPolicyMCBig.cfg", "OffPolicyMCSac.cfg"]):
        ctx.model_check("OffPolicyMC", m)
    for b in (1, 2):
        ctx.expect_violation("OffPolicyMC", "OffPolicyMCBad%d.cfg" % b)
    scs = offpolicy.scenarios(ctx, ctx.rng, ctx.pick(700, 6000), updates=False)
    scs += offpolicy.scenarios(ctx, ctx.rng, ctx.pick(150, 1500), updates=True, gen=False)
    for i, s in enumerate(scs):
        s["seed"] = i
    traces = ctx.drive("drv_offpolicy.py", scs, nproc=8)
    ctx.validate("OffPolicyTrace", traces)
    return ["agents run on the CPU with small networks; the replay buffer is the real one with "
            "its calls recorded"]
