"""Scripted collaborators for the training and evaluation loops."""
import numpy as np


class Fault(Exception):
    pass


KINDS = {"Fault": Fault, "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError,
         "StopIteration": StopIteration}


class Injector:
    """Counts calls; the k-th one raises."""

    def __init__(self, at, kind):
        self.n = 0
        self.at = at
        self.kind = kind

    def check(self, e):
        self.n += 1
        if self.at and self.n == self.at:
            e["fault"] = True
            e["kind"] = self.kind
            raise KINDS[self.kind]("injected")


def boolean(rng, b):
    return np.bool_(b) if rng.random() < 0.3 else bool(b)


def parse_save(dirname):
    import os
    b = os.path.basename(os.path.normpath(dirname))
    if "_" in b:
        t, suf = b.split("_", 1)
        suf = "_" + suf
    else:
        t, suf = b, ""
    try:
        return int(t), suf
    except ValueError:
        return -1, b
