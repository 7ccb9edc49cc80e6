"""P16: update and synchronization schedules of the replay agents."""
import offpolicy


def check(ctx):
    for m in offpolicy.MODELS + ([] if ctx.quick else ["OffPolicyMCBig.cfg", "OffPolicyMCSac.cfg"]):
        ctx.model_check("OffPolicyMC", m)
    for b in (3, 4):
        ctx.expect_violation("OffPolicyMC", "OffPolicyMCBad%d.cfg" % b)
    scs = offpolicy.scenarios(ctx, ctx.rng, ctx.pick(700, 6000), updates=True)
    traces = ctx.drive("drv_offpolicy.py", scs, nproc=8)
    ctx.validate("OffPolicyTrace", traces)
    return ["agents run on the CPU with small networks; optimizers are plain SGD",
            "soft synchronization is compared in fixed point (2^-16) within a few units"]
