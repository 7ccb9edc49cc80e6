"""P27: the same training twice, once with evaluation phases in between."""
import contextlib
import random

import dlib
import numpy as np
import twins
from twins import Twin


class Boom(Exception):
    pass


class Env:
    """A small environment for the library's own evaluation functions."""

    def __init__(self, rng, fail):
        self.rng, self.fail, self.t = rng, fail, 0

    def obs(self):
        return np.asarray([self.rng.uniform(-1, 1) for _ in range(twins.NF)], dtype=np.float32)

    def reset(self):
        self.t = 0
        return self.obs()

    def step(self, a):
        self.t += 1
        if self.fail:
            raise Boom()
        return self.obs(), self.rng.uniform(-1, 1), self.t >= 3, {}

    def close(self):
        pass


def scenario(sc, rec, d):
    import pfrl.experiments.evaluator as ev

    kind, k, n = sc["kind"], sc["k"], sc["k"]["n"]
    for run in (0, 1):
        rec.ev("run", k=run)
        rng, erng = random.Random(sc["seed"]), random.Random(sc["seed"] + 1)

        def ob(r):
            return np.asarray([r.uniform(-1, 1) for _ in range(twins.NF)], dtype=np.float32)
        tw = Twin(kind, k, sc["seed"])
        ag = tw.agent
        eo = [None]

        def evaluate(toks):
            """Follow the tokens; returns the number consumed."""
            i = 0
            while i < len(toks):
                t = toks[i]
                if t == "in":
                    rec.ev("evalin", mode=bool(ag.training), p=tw.fp())
                    got = [0]
                    try:
                        with ag.eval_mode():
                            got[0] = inside(toks[i + 1:])
                    except Boom as e:
                        got[0] = e.args[0]
                    rec.ev("evalout", mode=bool(ag.training), p=tw.fp())
                    i += 1 + got[0]
                else:
                    raise AssertionError(t)
            return i

        def inside(toks):
            i = 0
            while True:
                t = toks[i]
                if t == "step":
                    one()
                    i += 1
                elif t == "in":
                    j = match(toks, i)
                    evaluate(toks[i:j])
                    i = j
                elif t == "out":
                    return i + 1
                else:
                    raise Boom(i + 1)

        def match(toks, i):
            dep = 0
            for j in range(i, len(toks)):
                dep += {"in": 1, "out": -1, "raise": -1}.get(toks[j], 0)
                if dep == 0:
                    return j + 1

        def one():
            rec.ev("within", mode=bool(ag.training))
            if sc["how"] == "lib" and not sc["recurrent_batch"]:
                # the library's evaluation loop; it may raise inside
                env = Env(erng, erng.random() < .3)
                with contextlib.suppress(Boom):
                    ev.run_evaluation_episodes(env, ag, n_steps=None, n_episodes=1)
                rec.ev("within", mode=bool(ag.training))
                return
            for _ in range(erng.randint(1, 3)):
                if eo[0] is None:
                    eo[0] = [ob(erng) for _ in range(n)]
                tw.act(eo[0], erng.randrange(10**6))
                eo[0] = [ob(erng) for _ in range(n)]
                e = [erng.choice([0, 0, 1, 2]) for _ in range(n)]
                if not sc["noobs"]:
                    tw.observe(eo[0], [erng.uniform(-1, 1) for _ in range(n)],
                               [x == 1 for x in e], [x == 2 for x in e], erng.randrange(10**6))
            if sc["stats"] and hasattr(ag, "stop_episode"):
                ag.stop_episode()
                eo[0] = None
            if sc["stats"]:
                ag.get_statistics()
        o = [ob(rng) for _ in range(n)]
        for i, st in enumerate(sc["steps"], 1):
            for ph in (st["pre"], st["mid"]):
                if run and ph:
                    evaluate(ph)
                if ph is st["pre"]:
                    a = tw.act(o, sc["seed"] * 1000 + 2 * i)
                    rec.ev("act", i=i, a=a, mode=bool(ag.training))
            o = [ob(rng) for _ in range(n)]
            done = [e in (1, 3) for e in st["ends"]]
            reset = [e in (2, 3) for e in st["ends"]]
            tw.observe(o, [rng.uniform(-1, 1) for _ in range(n)], done, reset, sc["seed"] * 1000 + 2 * i + 1)
            rec.ev("observed", i=i, p=tw.fp(), mode=bool(ag.training))
            o = [ob(rng) if done[j] or reset[j] else o[j] for j in range(n)]
    rec.ev("stop")


if __name__ == "__main__":
    dlib.run(scenario)
