"""Machinery shared by every check: running TLC, running drivers, evidence.

Exit codes of a check: 0 held, 1 violation (with a VIOLATION line), 2 machinery
failure.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)


class MachineryError(Exception):
    pass


def _tlc_cmd(module, cfg, meta, workers, extra, heap):
    return [
        "java",
        "-XX:+UseParallelGC",
        "-Xmx%s" % heap,
        "-Xss16m",
        "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet"
        if False
        else "-Dvp=1",
        "-cp",
        JARS,
        "tlc2.TLC",
        "-noGenerateSpecTE",
        "-metadir",
        meta,
        "-workers",
        str(workers),
        "-config",
        cfg,
    ] + list(extra) + [module]


def run_tlc(workdir, module, cfg, workers=8, extra=(), env=None, timeout=800, heap="6g"):
    """Run TLC in a private copy of the spec directory."""
    spec = os.path.join(workdir, "spec")
    if not os.path.isdir(spec):
        shutil.copytree(SPEC, spec)
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cmd = _tlc_cmd(module + ".tla", cfg, meta, workers, extra, heap)
    t0 = time.time()
    try:
        p = subprocess.run(
            cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timed out: %s %s" % (module, cfg)) from ex
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    states = trans = 0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        trans = int(m[-1][0].replace(",", ""))
        states = int(m[-1][1].replace(",", ""))
    return dict(rc=p.returncode, out=out, states=states, transitions=trans,
                wall=time.time() - t0)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(seed * 7919 + sum(map(ord, pid)))
        self.workdir = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.violations = []  # dicts: clause, trace
        self.t0 = time.time()
        self.quick = tier == "quick"

    def close(self):
        shutil.rmtree(self.workdir, ignore_errors=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- 1. the specification itself ------------------------------------
    def model_check(self, module, cfg, workers=8, timeout=800, min_states=2, heap="8g"):
        r = run_tlc(self.workdir, module, cfg, workers=workers, timeout=timeout, heap=heap)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise MachineryError(
                "model check of %s/%s failed:\n%s" % (module, cfg, r["out"][-4000:])
            )
        if r["states"] < min_states:
            raise MachineryError("vacuous model %s %s" % (module, cfg))
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.notes.setdefault("model_runs", []).append(
            "%s/%s: %d distinct states, %d transitions, %.1fs"
            % (module, cfg, r["states"], r["transitions"], r["wall"])
        )
        return r

    def expect_violation(self, module, cfg, workers=4):
        """A deliberately broken model: the rules have to reject it (non-vacuity)."""
        r = run_tlc(self.workdir, module, cfg, workers=workers)
        if "is violated" not in r["out"]:
            raise MachineryError("%s/%s: expected violation not found:\n%s"
                                 % (module, cfg, r["out"][-2000:]))
        self.notes.setdefault("rejected_broken_models", []).append("%s/%s" % (module, cfg))

    # -- 2. behaviours out of the specification -------------------------
    def behaviours(self, module, cfg, simulate=None, depth=None, timeout=600, env=None,
                   workers=1):
        """Run a generator configuration; every line printed as
        "@@<json>" by the spec is one behaviour."""
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100),
                     "-seed", str(self.seed + 17), "-aril", "0"]
        r = run_tlc(self.workdir, module, cfg, workers=workers, extra=extra,
                    timeout=timeout, env=env)
        bad = r["rc"] != 0 and not (simulate and "simulation" in r["out"].lower())
        if bad or "Error:" in r["out"]:
            raise MachineryError("generator %s/%s failed:\n%s"
                                 % (module, cfg, r["out"][-4000:]))
        res = []
        seen = set()
        for line in r["out"].splitlines():
            if line.startswith('"@@'):
                if line in seen:
                    continue
                seen.add(line)
                res.append(json.loads(json.loads(line)[2:]))
        if not res:
            raise MachineryError("generator %s/%s produced nothing:\n%s"
                                 % (module, cfg, r["out"][-2000:]))
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.notes.setdefault("generated_behaviours", {})["%s/%s" % (module, cfg)] = len(res)
        return res

    # -- 3. the real code ------------------------------------------------
    def drive(self, script, spec_input, timeout=600, nproc=1, hang_is_violation=True,
              extra_env=None):
        """Run a driver on the real code; returns its traces.

        ``spec_input`` is a list of scenarios; with nproc > 1 they are divided
        over that many driver processes."""
        chunks = [spec_input[i::nproc] for i in range(nproc)]
        procs = []
        for i, ch in enumerate(chunks):
            if not ch:
                continue
            fin = tempfile.mktemp(prefix="in", suffix=".json", dir=self.workdir)
            fout = fin + ".out"
            scratch = tempfile.mkdtemp(prefix="scratch", dir=self.workdir)
            with open(fin, "w") as f:
                json.dump(dict(seed=self.seed, tier=self.tier, scenarios=ch,
                               scratch=scratch), f)
            env = dict(os.environ)
            env.update(
                PYTHONPATH=REPO + ":" + HARNESS, PYTHONDONTWRITEBYTECODE="1",
                PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="",
                ATEN_CPU_CAPABILITY="default", MKL_CBWR="COMPATIBLE",
                ONEDNN_MAX_CPU_ISA="SSE41", PYTHONWARNINGS="ignore",
                TMPDIR=scratch, HOME=scratch,
            )
            env.update(extra_env or {})
            log = open(fin + ".log", "wb")
            p = subprocess.Popen(
                [PY, os.path.join(HARNESS, script), fin, fout],
                cwd=scratch, env=env, stdout=log, stderr=subprocess.STDOUT,
                stdin=subprocess.DEVNULL, start_new_session=True,
            )
            procs.append((p, fin, fout, scratch, log))
        traces = []
        deadline = time.time() + timeout
        for p, fin, fout, scratch, log in procs:
            hung = False
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                hung = True
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            log.close()
            with open(fin + ".log", "rb") as f:
                tail = f.read()[-3000:].decode("utf-8", "replace")
            if os.path.exists(fout):
                with open(fout) as f:
                    for line in f:
                        if line.endswith("\n"):
                            traces.append(json.loads(line))
            if hung or p.returncode != 0:
                partial = None
                if os.path.exists(fout + ".cur"):
                    with open(fout + ".cur") as f:
                        partial = f.read()
                if hung and hang_is_violation:
                    self.violations.append(dict(
                        clause="hang", trace=dict(script=script, scenario=partial, log=tail)))
                elif partial is not None and not hung:
                    # the interpreter died inside the code under test
                    self.violations.append(dict(
                        clause="process-died", trace=dict(script=script, scenario=partial,
                                                          rc=p.returncode, log=tail)))
                else:
                    raise MachineryError("driver %s failed rc=%s hung=%s\n%s"
                                         % (script, p.returncode, hung, tail))
        return traces

    # -- 4. conformance ---------------------------------------------------
    def validate(self, module, traces, cfg="Trace.cfg", workers=8, timeout=300, heap="8g"):
        """Check recorded traces against the specification with TLC."""
        if not traces:
            raise MachineryError("no traces for %s" % module)
        path = tempfile.mktemp(prefix="traces", suffix=".ndjson", dir=self.workdir)
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        r = run_tlc(self.workdir, module, cfg, workers=workers, extra=["-continue"],
                    env={"VTRACE": path}, timeout=timeout, heap=heap)
        os.unlink(path)
        out = r["out"]
        bad = {}
        for m in re.finditer(r'<<"MISMATCH", (\d+), (\d+), (.*?)>>\s*$', out, re.M):
            bad.setdefault(int(m.group(1)), (int(m.group(2)), m.group(3).strip('"')))
        nev = sum(len(t["events"]) for t in traces)
        evalerr = None
        if not bad:
            if "No error has been found" not in out:
                # an event which the specification cannot even interpret
                m = re.findall(r"/\\ l = (\d+)", out)
                t = re.findall(r"/\\ tid = (\d+)", out)
                if m and t and ("evaluat" in out or "Attempted" in out):
                    evalerr = (int(t[-1]), int(m[-1]))
                    bad[evalerr[0]] = (evalerr[1], "uninterpretable-event")
                    self.notes["evalerr"] = out[-1500:]
                else:
                    raise MachineryError("trace validation %s failed:\n%s"
                                         % (module, out[-5000:]))
            elif r["states"] != nev + len(traces):
                raise MachineryError(
                    "trace validation %s incomplete: %d states for %d events, %d traces\n%s"
                    % (module, r["states"], nev, len(traces), out[-2000:]))
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.traces += len(traces)
        self.events += nev
        self.notes.setdefault("validated", {})
        self.notes["validated"][module] = self.notes["validated"].get(module, 0) + len(traces)
        for tid, (line, clause) in sorted(bad.items()):
            tr = traces[tid - 1]
            self.violations.append(dict(
                clause=clause, line=line, module=module,
                event=tr["events"][line - 1] if line - 1 < len(tr["events"]) else None,
                trace=tr))
        if len(self.samples) < 3:
            t = traces[len(traces) // 2]
            self.samples.append(json.loads(json.dumps(
                dict(cfg=t.get("cfg"), events=t["events"][:6]), default=str)))
        return r


def load_known():
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def main(pid, fn, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        assumptions = fn(ctx) or []
        rc = finish(ctx, level, assumptions)
    except MachineryError as e:
        if ctx.violations:
            # what was already established stands
            sys.stderr.write("machinery also failed: %s\n" % str(e)[:2000])
            rc = finish(ctx, level, [])
        else:
            sys.stdout.write("ERROR machinery: %s\n" % e)
            rc = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    return rc


def finish(ctx, level, assumptions):
    known = [k for k in load_known() if k["property"] == ctx.pid and k.get("status") == "open"]
    fresh = []
    hit = {}
    for v in ctx.violations:
        for k in known:
            if v["clause"] == k["match"]["clause"] and all(
                (v["trace"].get("cfg") or {}).get(a) == b
                for a, b in k["match"].get("cfg", {}).items()
            ) and all(
                (v.get("event") or {}).get(a) == b
                for a, b in k["match"].get("event", {}).items()
            ):
                hit[k["id"]] = k
                break
        else:
            fresh.append(v)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"]))
    ev = dict(
        property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level,
        coverage=dict(
            states=ctx.states, transitions=ctx.transitions,
            traces_validated_against_impl=ctx.traces,
            events_validated=ctx.events,
            samples=ctx.samples, detail=ctx.notes,
        ),
        assumptions=assumptions, wall_s=round(time.time() - ctx.t0, 2),
        violations=len(fresh),
    )
    with open(os.path.join(evdir, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if fresh:
        rp = os.path.join(evdir, "%s-violation.json" % ctx.pid)
        with open(rp, "w") as f:
            json.dump(fresh[:20], f, indent=1, default=str)
        for v in fresh[:10]:
            print("clause=%s line=%s event=%s" % (
                v["clause"], v.get("line"), json.dumps(v.get("event"))[:600]))
            c = (v["trace"].get("cfg") if isinstance(v["trace"], dict) else None)
            print("  cfg=%s" % json.dumps(c)[:400])
            if "log" in v["trace"]:
                print("  log=%s" % v["trace"]["log"][-800:])
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" % (
        ctx.pid, ctx.tier, ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0))
    return 0
