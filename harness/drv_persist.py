"""P22: an agent saved and loaded into others, which then go on like it."""
import os
import random
import shutil

import dlib
import numpy as np
import twins
from twins import Twin


def scenario(sc, rec, d):
    kind, k, n, seed = sc["kind"], sc["k"], sc["k"]["n"], sc["seed"]
    os.makedirs(d)

    def ob(r):
        return np.asarray([r.uniform(-1, 1) for _ in range(twins.NF)], dtype=np.float32)

    def train(tw, ends, rng, base, report, after=lambda i: None):
        """One training history; its last step may leave the episodes open."""
        o = [ob(rng) for _ in range(n)]
        after(0)
        for i, e in enumerate(ends, 1):
            a = tw.act(o, base + 2 * i)
            o = [ob(rng) for _ in range(n)]
            done = [x in (1, 3) for x in e]
            reset = [x in (2, 3) for x in e]
            tw.observe(o, [rng.uniform(-1, 1) for _ in range(n)], done, reset, base + 2 * i + 1)
            report(i, a + tw.fp())
            after(i)
            o = [ob(rng) if done[j] or reset[j] else o[j] for j in range(n)]

    def path(i):
        return os.path.join(d, "deep", "same" if sc["samedir"] else "s%d" % i)

    ref = Twin(kind, k, seed)
    train(ref, sc["hist"], random.Random(seed), 1000,
          lambda i, f: rec.ev("train", who="ref", i=i, f=f))
    A = Twin(kind, k, seed)

    def save(i):
        if i in sc["saves"]:
            p = A.fp()
            (A.agent.save_snapshot if sc["snap"] else A.agent.save)(path(i))
            rec.ev("save", p=p, q=A.fp())
    train(A, sc["hist"], random.Random(seed), 1000,
          lambda i, f: rec.ev("train", who="A", i=i, f=f), save)
    last = path(len(sc["hist"]))
    buf = getattr(A.agent, "replay_buffer", None)
    if buf is not None:
        buf.save(os.path.join(d, "buf"))
    t = getattr(A.agent, "t", None)
    for who in ("A", "B", "C"):
        kk = dict(k)
        if who != "A":
            kk["dp"] = sc["dp"][who]
        tw = A if who == "A" else Twin(kind, kk, seed + ord(who))
        if who != "A":
            if who == "C" and sc["used"]:
                train(tw, sc["other"], random.Random(seed + 5), 5000, lambda i, f: None)
            (tw.agent.load_snapshot if sc["snap"] else tw.agent.load)(last)
            tw.share()
            rec.ev("load", who=who, p=tw.fp())
            if not sc["snap"]:
                # as when training is resumed with step_offset
                if buf is not None:
                    tw.agent.replay_buffer.load(os.path.join(d, "buf"))
                if t is not None and sc["sett"]:
                    tw.agent.t = t
        with tw.agent.eval_mode():
            rng = random.Random(seed + 9)
            for i in range(1, sc["cfg"]["e"] + 1):
                o = [ob(rng) for _ in range(n)]
                f = tw.act(o, 7000 + i)
                rec.ev("eval", who=who, i=i, f=f)
                end = [i == sc["cfg"]["e"]] * n
                tw.observe([ob(rng) for _ in range(n)], [0.] * n, end, [False] * n, 7500 + i)
        train(tw, sc["more"], random.Random(seed + 3), 9000,
              lambda i, f: rec.ev("cont", who=who, i=i, f=f))
    rec.ev("stop")
    shutil.rmtree(d)


if __name__ == "__main__":
    dlib.run(scenario)
