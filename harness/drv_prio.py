import random

import dlib
from pfrl import replay_buffers
from pfrl.collections.prioritized import PrioritizedBuffer


class Core:
    def __init__(self, cfg):
        self.cfg = cfg
        self.b = PrioritizedBuffer(
            capacity=cfg["cap"] or None, wait_priority_after_sampling=cfg["wait"],
            initial_max_priority=cfg["p0"] / 8)

    def append(self, v, p):
        if p:
            self.b.append(v, priority=p / 8)
        else:
            self.b.append(v)

    def pop(self):
        return self.b.popleft()

    def sample(self, k):
        vals, probs, mp = self.b.sample(k, uniform_ratio=self.cfg["u"] / 8)
        sc = self.cfg["scale"]
        return dict(vals=[dlib.as_int(v) for v in vals], probs=[dlib.fx(p, sc) for p in probs],
                    minp=dlib.fx(mp, sc), weights=[])

    def set(self, rec, k, ps=None):
        ps = ps or [random.randint(1, 16) for _ in range(k)]
        self.b.set_last_priority([p / 8 for p in ps])
        rec.ev("set", ps=list(ps))

    def __len__(self):
        return len(self.b)


def norm(x):
    return {"batch": random.choice([True, "batch"]), "memory": "memory", "none": False}[x]


class Replay:
    episodic = False

    def __init__(self, cfg):
        self.cfg = cfg
        kw = dict(
            capacity=cfg["cap"] or None, alpha=cfg["alpha"], beta0=cfg["b0"] / 4,
            betasteps=None if cfg["badd"] == 0 else (4 - cfg["b0"]) / cfg["badd"],
            eps=cfg["eps"] / 8, normalize_by_max=norm(cfg["norm"]))
        if cfg["clip"]:
            kw.update(error_min=cfg["emin"] / 8, error_max=cfg["emax"] / 8)
        else:
            kw.update(error_min=None, error_max=None)
        self.b = self.build(kw)

    def build(self, kw):
        return replay_buffers.PrioritizedReplayBuffer(**kw)

    def append(self, v, p):
        self.b.append(state=v, action=0, reward=0.0, next_state=v, is_state_terminal=True)

    def sample(self, k):
        r = self.b.sample(k)
        return dict(vals=[dlib.as_int(e[0]["state"]) for e in r], probs=[], minp=0,
                    weights=[dlib.fx(e[0]["weight"], 512) for e in r])

    def set(self, rec, k, ps=None):
        errs = [random.randint(0, 12) for _ in range(k)]
        self.b.update_errors([e / 8 for e in errs])
        rec.ev("set", errs=errs)

    def __len__(self):
        return len(self.b)


class Episodic(Replay):
    def build(self, kw):
        return replay_buffers.PrioritizedEpisodicReplayBuffer(
            uniform_ratio=self.cfg["u"] / 8, wait_priority_after_sampling=self.cfg["wait"],
            **kw)

    def sample(self, k):
        eps, w = self.b.sample_episodes(k)
        return dict(vals=[dlib.as_int(e[0]["state"]) for e in eps], probs=[], minp=0,
                    weights=[dlib.fx(x, 512) for x in w])

    def __len__(self):
        return self.b.n_episodes


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    o = {"core": Core, "replay": Replay, "episodic": Episodic}[cfg["level"]](cfg)
    v = 0
    pending = 0
    for op in sc["ops"]:
        k = op["op"]
        if k == "append":
            v += 1
            o.append(v, op.get("p", 0))
            rec.ev("append", v=v, p=op.get("p", 0), len=len(o))
        elif k == "pop":
            if cfg["level"] == "core" and len(o):
                r = o.pop()
                rec.ev("pop", ret=dlib.as_int(r), len=len(o))
        elif k in ("sample", "all"):
            if not len(o) or (pending and cfg["wait"]):
                continue
            n = len(o) if k == "all" else min(op.get("k") or random.randint(1, len(o)), len(o))
            r = o.sample(n)
            rec.ev("sample", k=n, **r)
            pending = n
        elif k == "set":
            if pending:
                o.set(rec, pending, op.get("ps") if len(op.get("ps") or ()) == pending else None)
                pending = 0
        elif k == "freq1":
            cnt = {}
            for _ in range(op["draws"]):
                x = o.sample(1)["vals"][0]
                cnt[x] = cnt.get(x, 0) + 1
            rec.ev("freq1", draws=op["draws"], cnt=[dict(v=a, n=b) for a, b in cnt.items()])
        elif k == "freq2":
            cnt = {}
            for _ in range(op["draws"]):
                x = tuple(sorted(o.sample(2)["vals"]))
                cnt[x] = cnt.get(x, 0) + 1
            rec.ev("freq2", draws=op["draws"],
                   cnt=[dict(a=a[0], b=a[1], n=b) for a, b in cnt.items()])


if __name__ == "__main__":
    dlib.run(scenario)
