"""Common part of the drivers which exercise the real code under /repo."""
import json
import os
import random
import sys
import traceback

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))


def fx(x, scale=1 << 10):
    """A number as a fixed-point integer; total (a non-number maps far away)."""
    try:
        v = float(x)
    except Exception:
        return -777777777
    if v != v or v in (float("inf"), float("-inf")):
        return -777777776
    r = round(v * scale)
    if abs(r) > 700000000:
        return 700000000 if r > 0 else -700000000
    return int(r)


def as_int(x):
    try:
        if isinstance(x, bool):
            return int(x)
        v = float(x)
        if v == int(v) and abs(v) < 1e9:
            return int(v)
        return -777777777
    except Exception:
        return -777777777


class Rec(list):
    def ev(self, op, **kw):
        kw["op"] = op
        self.append(kw)
        return kw


def run(scenario_fn):
    """scenario_fn(scenario, rec, env) -> cfg dict; exceptions become events."""
    import numpy as np

    with open(sys.argv[1]) as f:
        inp = json.load(f)
    out = open(sys.argv[2], "w")
    cur = sys.argv[2] + ".cur"
    try:
        import torch
    except ImportError:
        torch = None
    for i, sc in enumerate(inp["scenarios"]):
        with open(cur, "w") as f:
            json.dump(sc, f)
        rec = Rec()
        seed = (inp["seed"] * 1000003 + int(sc.get("seed", i))) % (2**31)
        random.seed(seed)
        np.random.seed(seed)
        if torch is not None:
            torch.manual_seed(seed)
        cfg = dict(sc.get("cfg", {}))
        d = os.path.join(inp["scratch"], "s%d" % i)
        try:
            r = scenario_fn(sc, rec, d)
            if isinstance(r, dict):
                cfg.update(r)
        except Exception as e:
            rec.ev("raised", what=type(e).__name__ + ": " + str(e)[:200],
                   tb=traceback.format_exc()[-1500:])
        out.write(json.dumps(dict(cfg=cfg, events=list(rec))) + "\n")
        out.flush()
    out.close()
    os.unlink(cur)
