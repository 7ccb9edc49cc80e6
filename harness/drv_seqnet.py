"""P31: recurrent containers and batched recurrent states, over integer-valued modules."""
import dlib
import numpy as np
import torch
from pfrl.nn import Lambda, Recurrent, RecurrentBranched, RecurrentSequential
from pfrl.utils.recurrent import (concatenate_recurrent_states, detach_recurrent_state,
                                  flatten_sequences_time_first, get_recurrent_state_at,
                                  mask_recurrent_state_at, one_step_forward, pack_and_forward,
                                  recurrent_state_as_numpy, recurrent_state_from_numpy)
from torch import nn
from torch.nn.utils import rnn as R

as_int = dlib.as_int


class Cell(Recurrent, nn.Module):
    """A user's recurrent module with a pair as its state."""

    def __init__(self, a, b, k):
        super().__init__()
        self.w = nn.Parameter(torch.tensor([a, b, k], dtype=torch.float64))

    def forward(self, packed, state):
        x, lens = R.pad_packed_sequence(packed)  # T, B, 1
        bsz = x.shape[1]
        if state is None:
            z = torch.zeros((1, bsz, 1), dtype=torch.float64)
            state = (z, z)
        h, c = [q[0] for q in state]
        ys = []
        for t in range(x.shape[0]):
            on = (lens > t)[:, None]
            c1 = self.w[0] * c + x[t]
            h1 = self.w[1] * c1 + h + self.w[2]
            c, h = torch.where(on, c1, c), torch.where(on, h1, h)
            ys.append(h)
        y = R.pack_padded_sequence(torch.stack(ys), lens, enforce_sorted=packed.sorted_indices is None)
        return y, (h[None], c[None])


def build(n):
    t = n["t"]
    if t == "rnn":
        m = nn.RNN(1, 1, num_layers=len(n["w"]), nonlinearity="relu")
        with torch.no_grad():
            for i, w in enumerate(n["w"]):
                getattr(m, "weight_ih_l%d" % i).fill_(w["b"])
                getattr(m, "weight_hh_l%d" % i).fill_(w["a"])
                getattr(m, "bias_ih_l%d" % i).fill_(w["k"])
                getattr(m, "bias_hh_l%d" % i).zero_()
        return m.double()
    if t == "cell":
        return Cell(n["a"], n["b"], n["k"])
    if t == "lin":
        m = nn.Linear(1, 1)
        with torch.no_grad():
            m.weight.fill_(n["a"])
            m.bias.fill_(n["k"])
        return m.double()
    if t == "mix":
        ws = n["w"]
        return Lambda(lambda xs: sum(w * x for w, x in zip(ws, xs)))
    kids = [build(k) for k in n["kids"]]
    return RecurrentSequential(*kids) if t == "seq" else RecurrentBranched(*kids)


def slots(state, k):
    """The states of the single slots, read without the library."""
    def at(s, i):
        if isinstance(s, tuple):
            return [at(q, i) for q in s]
        return [as_int(v) for v in np.asarray(s.detach() if torch.is_tensor(s) else s)[:, i].reshape(-1)]
    return [at(state, i) for i in range(k)]


def width(state):
    if isinstance(state, tuple):
        for s in state:
            w = width(s)
            if w is not None:
                return w
        return None
    return state.shape[1]


def grads(state):
    if isinstance(state, tuple):
        return [g for s in state for g in grads(s)]
    return [bool(torch.is_tensor(state) and state.requires_grad)]


def out(y, f):
    """Apply f to the packed or plain tensors of an output tree."""
    return tuple(out(q, f) for q in y) if isinstance(y, tuple) and not isinstance(y, R.PackedSequence) else f(y)


def rows(y):
    """[item] of an output tree whose leaves are lists of equal length."""
    if isinstance(y, tuple):
        return [list(z) for z in zip(*[rows(q) for q in y])]
    return y


def scenario(sc, rec, d):
    net = build(sc["cfg"]["net"])
    tup = sc["tuple"]
    cur = [None, 0]

    def tens(seq):
        if tup:
            return tuple(torch.tensor([[x[j]] for x in seq], dtype=torch.float64) for j in range(tup))
        return torch.tensor([[x] for x in seq], dtype=torch.float64)

    def done(op, new, k, **kw):
        old, ok = cur
        none = new is None
        if not none:
            w = width(new)
            k = w if w is not None else k
        gs = [] if none else grads(new)
        rec.ev(op, none=none, state=[] if none else slots(new, k),
               before=[] if old is None else slots(old, ok),
               grad=0 if not any(gs) else 1 if all(gs) else 2, **kw)
        cur[0], cur[1] = new, k
    for st in sc["steps"]:
        op, state = st["op"], cur[0]
        if op == "forward":
            xs, how = st["xs"], st["how"]
            k = len(xs)
            seqs = [tens(x) for x in xs]
            if how == "one":
                b = tuple(torch.cat([q[j] for q in seqs]) for j in range(tup)) if tup else torch.cat(seqs)
                y, new = one_step_forward(net, b, state)
                ys = rows(out(y, lambda v: [as_int(q) for q in v.reshape(-1)]))
                kw = dict(ys=[[y] for y in ys])
            elif how == "pack":
                y, new = pack_and_forward(net, seqs, state)
                kw = dict(flaty=rows(out(y, lambda v: [as_int(q) for q in v.reshape(-1)])),
                          flatx=flatten_sequences_time_first(xs))
            else:
                srt = st["sorted"]
                if tup:
                    p = tuple(R.pack_sequence([q[j] for q in seqs], enforce_sorted=srt) for j in range(tup))
                else:
                    p = R.pack_sequence(seqs, enforce_sorted=srt)
                y, new = net(p, state)

                def per(v):
                    pad, lens = R.pad_packed_sequence(v, batch_first=True)
                    return [[as_int(q) for q in pad[i, :n].reshape(-1)] for i, n in enumerate(lens)]

                def join(y):
                    if isinstance(y, tuple):
                        parts = [join(q) for q in y]
                        return [[list(z) for z in zip(*[q[i] for q in parts])] for i in range(len(parts[0]))]
                    return y
                kw = dict(ys=join(out(y, per)))
            done("forward", new, k, xs=xs, how=how, **kw)
        elif op == "mask":
            idx = [i - 1 for i in st["idx"]]
            arg = {"int": idx[0] if len(idx) == 1 else idx, "list": idx, "array": np.asarray(idx, dtype=np.int64),
                   "tensor": torch.tensor(idx, dtype=torch.long)}[st["how"]]
            done("mask", mask_recurrent_state_at(state, arg), cur[1], idx=st["idx"])
        elif op == "pick":
            parts = [None if i == 0 else get_recurrent_state_at(state, i - 1, detach=st["detach"])
                     for i in st["idx"]]
            if st["np"]:
                parts = [recurrent_state_as_numpy(p) for p in parts]
            new = concatenate_recurrent_states(parts)
            if st["np"]:
                new = recurrent_state_from_numpy(new, torch.device("cpu"))
            done("pick", new, len(parts), idx=st["idx"], detach=st["detach"] or st["np"])
        elif op == "take":
            idx = [i - 1 for i in st["idx"]]
            done("take", get_recurrent_state_at(state, idx, detach=st["detach"]), len(idx), idx=st["idx"],
                 detach=st["detach"])
        elif op == "detach":
            done("detach", detach_recurrent_state(state), cur[1])
        elif op == "numpy":
            new = recurrent_state_from_numpy(recurrent_state_as_numpy(state), torch.device("cpu"))
            done("numpy", new, cur[1])


if __name__ == "__main__":
    dlib.run(scenario)
