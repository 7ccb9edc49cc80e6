"""P26: pfrl.nn.EmpiricalNormalization fed with integers."""
import copy
import io
import pickle
import random

import dlib
import numpy as np
import torch
from dlib import fx
from pfrl.nn import EmpiricalNormalization


def scenario(sc, rec, d):
    shape, ax, dt = tuple(sc["shape"]), sc["axis"], np.dtype(sc["dtype"])
    rng = random.Random(sc["seed"])
    sh = shape[0] if len(shape) == 1 and sc["intshape"] else shape

    def make():
        return EmpiricalNormalization(
            sh, batch_axis=ax, eps=sc["cfg"]["eps"] / 4096, dtype=dt, until=sc["cfg"]["until"] or None,
            clip_threshold=sc["cfg"]["clip"] / 1024 or None)

    def tens(xs, scale=1.):
        a = np.asarray(xs, dtype=dt).reshape((len(xs),) + shape) * scale
        return torch.as_tensor(np.moveaxis(a, 0, ax).astype(dt))

    def flat(t, u):
        a = np.moveaxis(t.detach().numpy(), ax, 0)
        return [[fx(v, u) for v in row.reshape(-1)] for row in a]
    m = make()

    def stats():
        rec.ev("stats", n=int(m.count), mean=[fx(v, 1 << 14) for v in m.mean.reshape(-1)],
               std=[fx(v, 1 << 10) for v in m.std.reshape(-1)])
    stats()
    for st in sc["steps"]:
        k = st["k"]
        if k == "exp":
            m.experience(tens(st["xs"]))
            rec.ev("experience", xs=st["xs"])
        elif k == "fwd":
            x = tens(st["xs"])
            if st["upd"] and rng.random() < .5:
                y = m(x)
            else:
                y = m(x, update=st["upd"])
            rec.ev("forward", xs=st["xs"], upd=st["upd"], y=flat(y, 1 << 10), back=flat(m.inverse(y), 1 << 10))
        elif k == "inv":
            rec.ev("inverse", y=st["xs"], z=flat(m.inverse(tens(st["xs"], .25)), 1 << 10))
        elif k == "clone":
            old = m
            if st["how"] == "deepcopy":
                m = copy.deepcopy(m)
            elif st["how"] == "pickle":
                m = pickle.loads(pickle.dumps(m))
            elif st["how"] == "nested":
                # as part of a larger module
                a, b = torch.nn.ModuleList([m]), torch.nn.ModuleList([make()])
                b[0](tens([[1] * sc["cfg"]["d"], [3] * sc["cfg"]["d"]]))
                b.load_state_dict(a.state_dict())
                m = b[0]
            else:
                f = io.BytesIO()
                torch.save(m.state_dict(), f)
                f.seek(0)
                m = make()
                if st["how"] == "used":
                    m(tens([[1] * sc["cfg"]["d"], [3] * sc["cfg"]["d"]]))
                m.load_state_dict(torch.load(f))
            # the original goes its own way
            old.experience(tens([[5] * sc["cfg"]["d"]]))
            rec.ev("clone", how=st["how"])
        stats()


if __name__ == "__main__":
    dlib.run(scenario)
