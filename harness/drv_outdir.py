"""Preparing output directories, in a scratch directory, whole or cut off at a system call."""
import argparse
import ctypes
import json
import logging
import os
import subprocess
import sys

import dlib
from pfrl.experiments import prepare_output_dir

logging.disable(logging.CRITICAL)
SHIM = ctypes.CDLL(None)
INFO = {"start.txt": 1, "args.txt": 2, "environ.txt": 3, "command.txt": 4, "git-head.txt": 5,
        "git-status.txt": 6, "git-log.txt": 7, "git-diff.txt": 8}
GIT = ["git-head.txt", "git-status.txt", "git-log.txt", "git-diff.txt"]


def sh(*a):
    return subprocess.run(a, check=True, capture_output=True).stdout


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    os.makedirs(d, exist_ok=True)
    os.environ.update(GIT_CEILING_DIRECTORIES=d, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b",
                      GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b", GIT_CONFIG_NOSYSTEM="1",
                      VERIF_MARK="m%d" % sc["seed"])
    work = os.path.join(d, "work")
    os.makedirs(work)
    old, oldargv = os.getcwd(), sys.argv
    os.chdir(work)
    names, contents = {}, {}
    try:
        if cfg["git"]:
            sh("git", "init", "-q")
            open("src.py", "w").write("0")
            sh("git", "add", "src.py")
            sh("git", "commit", "-qm", "c")
        edits = 0
        base = {"none": ".", "rel": "out", "abs": os.path.join(d, "abs", "deep")}[sc["base"]]
        skip = set(os.listdir(base)) if os.path.isdir(base) else set()

        def fid(f):
            return INFO.get(f) or 10 + contents.setdefault(("f", f), len(contents))

        def tree():
            res = []
            if not os.path.isdir(base):
                return res
            for n in sorted(os.listdir(base)):
                if n in skip or n == "src.py":
                    continue
                p, files = os.path.join(base, n), []
                for r, _, fs in os.walk(p):
                    for f in sorted(fs):
                        q = os.path.join(r, f)
                        with open(q, "rb") as g:
                            b = g.read()
                        files.append(dict(f=fid(os.path.relpath(q, p)),
                                          c=contents.setdefault(b, len(contents))))
                res.append(dict(d=names.setdefault(n, len(names)), files=files))
            return res

        def lines(path):
            try:
                with open(os.path.join(path, "start.txt")) as f:
                    return len(f.read().splitlines())
            except OSError:
                return 0

        for op in sc["ops"]:
            if op[0] == "edit":
                edits += 1
                open("src.py", "w").write(str(edits))
                continue
            if op[0] == "result":
                p = os.path.join(base, op[1], op[2])
                if not os.path.isdir(os.path.join(base, op[1])):
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "ab" if op[4] else "wb") as f:
                    f.write(os.urandom(1) + op[3].encode())
                rec.ev("result", after=tree())
                continue
            # prep
            _, exp, k, bk, style, cut = op
            argv = ["prog", "--k=%d" % k]
            args = dict(k=k, s="a\u00e9\"x", n=None, l=[1, 2.5])
            kw = dict(basedir=None if sc["base"] == "none" else base, make_backup=bk)
            if style == "argv":
                kw["argv"] = argv
            else:
                sys.argv = list(argv)
            if exp:
                kw["exp_id"] = exp
            a = argparse.Namespace(**args) if style != "dict" else args
            if cut:
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        SHIM.shim_arm(os.path.abspath(base).encode(), cut, 0)
                        prepare_output_dir(a, **kw)
                        code = 0
                    finally:
                        os._exit(code)
                _, st = os.waitpid(pid, 0)
                out = os.path.join(base, exp)
                rec.ev("crash", out=names.setdefault(exp, len(names)), starts=lines(out),
                       status=os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1, after=tree())
                continue
            before = set(os.listdir(base)) if os.path.isdir(base) else set()
            e = dict(ok=True, out=-1, exp="named" if exp else ("keyed" if cfg["git"] else "fresh"),
                     placed=True, key=contents.setdefault(("key", k, edits), len(contents)), bk=bk,
                     baknamed=True, info=False, starts=0, why="")
            try:
                out = prepare_output_dir(a, **kw)
            except Exception as x:
                e.update(ok=False, why=repr(x)[:300])
                rec.ev("prep", after=tree(), **e)
                return
            n = os.path.relpath(out, base)
            e["out"] = names.setdefault(n, len(names))
            e["starts"] = lines(out)
            if exp:
                e["placed"] = os.path.abspath(out) == os.path.abspath(os.path.join(base, exp))
            new = [x for x in os.listdir(base) if x not in before and x != n]
            e["baknamed"] = all(x.startswith(n) and "backup" in x for x in new)
            why = []
            try:
                def rd(f):
                    with open(os.path.join(out, f), "rb") as g:
                        return g.read()
                if json.loads(rd("args.txt")) != args:
                    why.append("args")
                if rd("command.txt").decode() != " ".join(argv):
                    why.append("command")
                env = json.loads(rd("environ.txt"))
                if env != dict(os.environ):
                    why.append("environ")
                for f in GIT:
                    if os.path.exists(os.path.join(out, f)) != cfg["git"]:
                        why.append(f)
                if cfg["git"] and not why:
                    if rd("git-head.txt") != sh("git", "rev-parse", "HEAD"):
                        why.append("head")
                    if rd("git-diff.txt") != sh("git", "diff", "HEAD"):
                        why.append("diff")
                    if rd("git-log.txt") != sh("git", "log"):
                        why.append("log")
            except Exception as x:
                why.append(repr(x)[:200])
            e.update(info=not why, why=",".join(why))
            rec.ev("prep", after=tree(), **e)
    finally:
        os.chdir(old)
        sys.argv = oldargv


if __name__ == "__main__":
    dlib.run(scenario)
