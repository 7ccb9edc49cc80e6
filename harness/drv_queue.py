import random

import dlib
from pfrl.collections.random_access_queue import RandomAccessQueue


def read(q):
    n = len(q)
    idx = []
    for i in range(-(n + 2), n + 2):
        try:
            v = dlib.as_int(q[i])
        except IndexError:
            v = -1
        idx.append(dict(i=i, v=v))
    return dict(len=n, iter=[dlib.as_int(x) for x in q], idx=idx)


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    ml = cfg["maxlen"]
    kw = {} if ml < 0 else dict(maxlen=ml)
    if cfg["init"]:
        q = RandomAccessQueue(cfg["init"], **kw)
    else:
        q = RandomAccessQueue(**kw)
    n = len(cfg["init"])
    rec.ev("new", o=read(q))
    for op in sc["ops"]:
        o = op["op"]
        if o == "append":
            n += 1
            q.append(n)
            rec.ev("append", x=n, o=read(q))
        elif o == "extend":
            xs = list(range(n + 1, n + 1 + op["k"]))
            n += op["k"]
            q.extend(iter(xs) if op.get("gen") else xs)
            rec.ev("extend", xs=xs, o=read(q))
        elif o == "pop":
            try:
                r = dlib.as_int(q.popleft())
            except IndexError:
                r = -1
            rec.ev("pop", ret=r, o=read(q))
        elif o == "set":
            n += 1
            try:
                q[op["i"]] = n
                ok = True
            except IndexError:
                ok = False
            rec.ev("set", i=op["i"], x=n, ok=ok, o=read(q))
        elif o == "sample":
            k = random.randint(0, len(q))
            res = [dlib.as_int(x) for x in q.sample(k)]
            rec.ev("sample", k=k, res=res, o=read(q))


if __name__ == "__main__":
    dlib.run(scenario)
