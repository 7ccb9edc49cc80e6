"""P31: recurrent containers and batched recurrent states."""


def leaf(rng):
    if rng.random() < .6:
        return dict(t="rnn", w=[dict(a=rng.choice([0, 1, 1, 2, -1]), b=rng.choice([1, 2, 3, -1]),
                                     k=rng.choice([0, 0, 1, 2])) for _ in range(rng.choice([1, 1, 2]))])
    return dict(t="cell", a=rng.choice([0, 1, 2]), b=rng.choice([1, 2, -1]), k=rng.choice([0, 1]))


def net(rng, depth, tup=0):
    """A network; with tup, its input is a tuple of that many numbers."""
    if tup:
        mix = dict(t="mix", w=[rng.choice([1, 2, -1]) for _ in range(tup)])
        rest = [dict(t="seq", kids=body(rng, depth)), None][rng.random() < .5]
        return dict(t="seq", kids=[mix] + ([rest] if rest else body(rng, depth)))
    if depth == 0 or rng.random() < .2:
        return leaf(rng)
    if rng.random() < .35:
        return dict(t="br", kids=[net(rng, depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))])
    return dict(t="seq", kids=body(rng, depth))


def arity(n):
    """Number of outputs in the tuple, 0 for a number, -1 for nested tuples."""
    if n["t"] == "br":
        return len(n["kids"]) if all(arity(k) == 0 for k in n["kids"]) else -1
    if n["t"] == "seq":
        return arity(n["kids"][-1]) if n["kids"] else 0
    return 0


def body(rng, depth):
    ks = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        k = dict(t="lin", a=rng.choice([1, 2, -1]), k=rng.choice([0, 1, -1])) if rng.random() < .35 \
            else net(rng, max(0, depth - 1))
        ks.append(k)
        a = arity(k)
        if a > 0 and rng.random() < .9:
            ks.append(dict(t="mix", w=[rng.choice([1, 2, -1]) for _ in range(a)]))
        elif a:
            break
    return ks


def reach(n, m, steps):
    """A bound on the absolute value inside."""
    if n["t"] == "rnn":
        for w in n["w"]:
            h = 0
            for _ in range(steps):
                h = abs(w["a"]) * h + abs(w["b"]) * m + abs(w["k"])
            m = h
        return m
    if n["t"] == "cell":
        h = c = 0
        for _ in range(steps):
            c = abs(n["a"]) * c + m
            h = abs(n["b"]) * c + h + n["k"]
        return max(h, c)
    if n["t"] == "lin":
        return abs(n["a"]) * m + abs(n["k"])
    if n["t"] == "mix":
        return sum(map(abs, n["w"])) * m
    if n["t"] == "br":
        return max(reach(k, m, steps) for k in n["kids"])
    for k in n["kids"]:
        m = max(m, reach(k, m, steps))
    return m


def recurrent(n):
    return n["t"] in ("rnn", "cell", "seq", "br")


def steps_of(rng, tup):
    def item():
        return [rng.randint(-3, 4) for _ in range(tup)] if tup else rng.randint(-3, 4)
    steps, b, total = [], None, 0
    for _ in range(rng.randint(2, 9)):
        op = rng.choice(["forward", "forward", "forward", "mask", "mask", "pick", "pick", "take", "detach", "numpy"])
        if op == "forward":
            k = b or rng.choice([1, 2, 3, 4])
            how = rng.choice(["one", "one", "pack", "direct"])
            ls = [1 if how == "one" else rng.choice([1, 1, 2, 3]) for _ in range(k)]
            srt = how == "pack" or rng.random() < .5
            if srt:
                ls.sort(reverse=True)
            if total + max(ls) > 10:
                continue
            total += max(ls)
            steps.append(dict(op=op, how=how, sorted=srt, xs=[[item() for _ in range(n)] for n in ls]))
            b = k
        elif b is None and op in ("pick", "take"):
            if op == "pick":
                steps.append(dict(op="pick", idx=[0] * rng.choice([1, 2]), detach=False, np=rng.random() < .5))
        elif op == "mask":
            k = b or 2
            idx = sorted(rng.sample(range(1, k + 1), rng.randint(0, k)))
            if rng.random() < .3:
                rng.shuffle(idx)
            steps.append(dict(op=op, idx=idx, how=rng.choice(["int", "list", "array", "tensor"])))
        elif op == "pick":
            idx = [rng.randint(0 if rng.random() < .5 else 1, b) for _ in range(rng.choice([1, 2, 3, 4]))]
            steps.append(dict(op=op, idx=idx, detach=rng.random() < .5, np=rng.random() < .4))
            b = None if all(i == 0 for i in idx) else len(idx)
        elif op == "take":
            idx = [rng.randint(1, b) for _ in range(rng.choice([1, 2, 3]))]
            steps.append(dict(op=op, idx=idx, detach=rng.random() < .5))
            b = len(idx)
        else:
            steps.append(dict(op=op))
    return steps


def check(ctx):
    for c in (("",) if ctx.quick else ("", "Big")):
        ctx.model_check("SeqnetMC", "SeqnetMC%s.cfg" % c)
    for b in range(1, 7):
        ctx.expect_violation("SeqnetMC", "SeqnetMCBad%d.cfg" % b)
    rng = ctx.rng
    scs = []
    gen = ctx.behaviours("SeqnetMC", "SeqnetMCGen.cfg")
    rng.shuffle(gen)
    for g in gen[:ctx.pick(1000, 100000)]:
        n = net(rng, 2)
        if n["t"] in ("lin", "mix") or reach(n, 4, 10) > 10**8:
            continue
        scs.append(dict(cfg=dict(net=n), tuple=0, steps=g))
    while len(scs) < ctx.pick(3500, 60000):
        tup = rng.choice([0, 0, 0, 2, 3])
        n = net(rng, rng.choice([0, 1, 2, 3]), tup)
        if reach(n, 4 * (tup or 1), 10) > 10**8:
            continue
        steps = steps_of(rng, tup)
        if steps:
            scs.append(dict(cfg=dict(net=n), tuple=tup, steps=steps))
    for i, s in enumerate(scs):
        s["seed"] = i
    ctx.validate("SeqnetTrace", ctx.drive("drv_seqnet.py", scs, nproc=8), timeout=600)
    return ["modules compute with integers (rectified linear recurrences of width one), so that every "
            "comparison is exact"]
