import ctypes
import json
import os
import random
import shutil
import sys
import traceback

import dlib
from pfrl import replay_buffers
from pfrl.collections import persistent_collections as pc

SHIM = ctypes.CDLL(os.environ["LD_PRELOAD"])


def pad(x):
    return "p" * (20000 if x % 9 == 8 else x % 7)


class Session:
    """The queue or the replay buffer built on it, with small chunks."""

    def __init__(self, kind, d, cap, anc, chunk):
        self.kind = kind
        if chunk:
            pc.PersistentRandomAccessQueue.chunk_size = property(lambda self: chunk)
        if kind == "queue":
            self.q = pc.PersistentRandomAccessQueue(d, cap or None, ancestor=anc)
        elif kind == "ep":
            self.rb = replay_buffers.PersistentEpisodicReplayBuffer(d, cap or None, ancestor=anc)
        else:
            self.rb = replay_buffers.PersistentReplayBuffer(d, cap or None, ancestor=anc)

    def append(self, x):
        if self.kind == "queue":
            self.q.append((x, pad(x)))
        elif self.kind == "ep":
            self.rb.append(x, 0, 0.0, next_state=x, is_state_terminal=x % 3 != 0)
            if x % 3 == 0:
                self.rb.stop_current_episode()
        else:
            self.rb.append(x, 0, 0.0, next_state=x, is_state_terminal=x % 5 == 0)

    def extend(self, xs, it):
        v = [(x, pad(x)) for x in xs]
        self.q.extend(iter(v) if it else v)

    def read(self):
        if self.kind == "queue":
            return [dlib.as_int(v[0]) for v in self.q]
        res = sorted(dlib.as_int(e[0]["state"]) for e in self.rb.sample(len(self.rb)))
        if self.kind == "ep":
            eps = self.rb.sample_episodes(self.rb.n_episodes)
            if sorted(dlib.as_int(t["state"]) for e in eps for t in e) != res:
                return [-1]
        return res

    def close(self):
        (self.q if self.kind == "queue" else self.rb.memory).close()
        if self.kind == "ep":
            self.rb.episodic_memory.close()


def run_session(kind, base, s, arm, chunk):
    """Run one session in a forked child. Returns (messages, crashed)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)

            def tell(**kw):
                os.write(w, (json.dumps(kw) + "\n").encode())

            root = os.path.join(base, "r")
            SHIM.shim_arm(root.encode(), arm[0] if arm else -1, arm[1] if arm else 0)
            try:
                anc = os.path.join(root, "d%d" % s["anc"]) if s["anc"] else None
                o = Session(kind, os.path.join(root, "d%d" % s["d"]), s["cap"], anc, chunk)
                tell(ev="opened", got=o.read())
                for op in s["ops"]:
                    tell(ev="begin", xs=op["xs"])
                    if op["op"] == "append":
                        o.append(op["xs"][0])
                    else:
                        o.extend(op["xs"], op.get("it"))
                    tell(ev=op["op"], xs=op["xs"], got=o.read())
                if s["end"] == "close":
                    o.close()
                    tell(ev="closed")
                tell(ev="count", n=SHIM.shim_count())
            except Exception as e:
                tell(ev="raised", what=type(e).__name__ + ": " + str(e)[:200],
                     tb=traceback.format_exc()[-1200:])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    msgs = [json.loads(x) for x in data.decode().splitlines()]
    return msgs, (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77), st


def play(rec, kind, base, sessions, arms, chunk):
    """Returns the number of file operations of the last session."""
    n = 0
    for s, arm in zip(sessions, arms):
        msgs, crashed, st = run_session(kind, base, s, arm, chunk)
        pending = []
        opened = False
        done = False
        for m in msgs:
            e = m["ev"]
            if e == "opened":
                opened = True
                rec.ev("open", d=s["d"], anc=s["anc"], cap=s["cap"], got=m["got"])
            elif e == "begin":
                pending = m["xs"]
            elif e in ("append", "extend"):
                pending = []
                if e == "append":
                    rec.ev("append", x=m["xs"][0], cap=s["cap"], got=m["got"])
                else:
                    rec.ev("extend", xs=m["xs"], cap=s["cap"], got=m["got"])
            elif e == "raised":
                rec.ev("raised", what=m["what"], tb=m["tb"])
                return None
            elif e == "count":
                n = m["n"]
                done = True
        if crashed:
            rec.ev("crash", d=s["d"], anc=s["anc"], made=opened, xs=pending)
        elif not done:
            rec.ev("raised", what="process ended with status %r" % st)
            return None
        else:
            rec.ev("close")
    return n


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    os.makedirs(d)
    kind, chunk = cfg["kind"], cfg["chunk"]
    sess = sc["sessions"]
    arms = [tuple(a) if a else None for a in sc["arms"]]
    n = play(rec, kind, d, sess, arms, chunk)
    if sc.get("damage") and n is not None:
        root = os.path.join(d, "r", "d%d" % sess[-1]["d"])
        files = []
        for p, _, fs in os.walk(root):
            files += [os.path.join(p, f) for f in fs if "meta" not in f]
        files = [f for f in sorted(files) if os.path.getsize(f) > 0]
        if files:
            f = random.choice(files)
            b = bytearray(open(f, "rb").read())
            i = random.randrange(len(b))
            b[i] ^= 1 << random.randrange(8)
            with open(f, "wb") as fp:
                fp.write(b)
            msgs, crashed, st = run_session(
                kind, d, dict(d=sess[-1]["d"], anc=0, cap=sess[-1]["cap"], ops=[], end="close"),
                None, chunk)
            got = [m for m in msgs if m["ev"] == "opened"]
            rec.ev("damaged", d=sess[-1]["d"], refused=not got,
                   got=got[0]["got"] if got else [])
    shutil.rmtree(d, ignore_errors=True)
    return dict(nops=n if n is not None else -1)


def expand(inp):
    """Scenarios with crash == "all" become one scenario per crash point."""
    res = []
    for i, sc in enumerate(inp["scenarios"]):
        if not sc.get("sweep"):
            res.append(sc)
            continue
        k = sc["sweep"] - 1   # index of the session to crash
        d = os.path.join(inp["scratch"], "probe%d" % i)
        os.makedirs(d)
        n = play(dlib.Rec(), sc["cfg"]["kind"], d, sc["sessions"][: k + 1],
                 [None] * (k + 1), sc["cfg"]["chunk"])
        shutil.rmtree(d, ignore_errors=True)
        for p in range(1, (n or 0) + 1):
            for mode in sc["modes"]:
                arms = [None] * len(sc["sessions"])
                arms[k] = (p, mode)
                x = dict(sc, arms=arms)
                x["cfg"] = dict(sc["cfg"], crash_at=p, mode=mode)
                del x["sweep"]
                res.append(x)
        if not n:
            res.append(dict(sc, arms=[None] * len(sc["sessions"])))
    return res


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        inp = json.load(f)
    inp["scenarios"] = expand(inp)
    with open(sys.argv[1], "w") as f:
        json.dump(inp, f)
    dlib.run(scenario)
