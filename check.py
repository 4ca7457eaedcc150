#!/usr/bin/env python3
"""Runs the check of one property: build the harness from /repo, model-check the
specification, let TLC generate cases, execute them on the real code, and let TLC
judge the log.  See DESIGN.md."""
import argparse, concurrent.futures as cf, glob, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(BUILD, "target", "debug", "verif-harness")
sys.path.insert(0, VERIF)
from areas import PROPS  # noqa: E402


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, why, lines=None):
        super().__init__(why)
        self.why, self.lines = why, lines or []


def base_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=toolchain(), CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


def toolchain():
    # the toolchain pinned by the repository's own build environment, if it says so
    try:
        m = re.search(r"RUSTUP_TOOLCHAIN=['\"]?([\w.\-]+)", open("/opt/vp/env.sh").read())
        if m:
            return m.group(1)
    except OSError:
        pass
    return os.environ.get("RUSTUP_TOOLCHAIN", "nightly-2026-05-14")


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(BUILD, "run", f"{prop}-{tier}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.lines = 0
        self.detail, self.samples, self.known = {}, [], []

    def path(self, n):
        return os.path.join(self.dir, n)

    # -- building ---------------------------------------------------------
    def build(self):
        t = time.time()
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")],
                           env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError("harness does not build:\n" + r.stdout[-4000:])
        self.detail["build_s"] = round(time.time() - t, 1)

    # -- harness ----------------------------------------------------------
    def harness(self, args, timeout=300):
        args = [str(a) for a in args]
        hang = [a for a in args if a.endswith(".trace")]
        log = open(self.path("harness.err"), "a")
        try:
            r = subprocess.run([HARNESS] + args, cwd=self.dir, timeout=timeout, stdout=log, stderr=log,
                               start_new_session=True)
        except subprocess.TimeoutExpired:
            raise ToolError(f"harness {args[0]} timed out")
        for h in hang:
            if os.path.exists(h + ".hang"):
                raise Violation("the code under test does not return", [open(h + ".hang").read().strip()])
            if os.path.exists(h + ".refused"):
                raise Violation("the code under test refuses a legal value", [open(h + ".refused").read().strip()])
        if r.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, 134, 139):
            last = ""
            for h in hang:
                if os.path.exists(h + ".cur"):
                    last = open(h + ".cur").read()
            raise Violation(f"the code under test crashed the process (status {r.returncode})", [last])
        if r.returncode:
            raise ToolError(f"harness {args[0]} failed ({r.returncode}): " + open(self.path("harness.err")).read()[-2000:])

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, kind, env=None, workers=8, timeout=600, extra=()):
        """kind: mc (model check), gen (generation), trace (conformance)."""
        cfgp = os.path.join(SPEC, cfg)
        tag = f"{module}-{cfg.replace('.cfg', '')}" + (f"-{env.get('VERIF_PART')}" if env and "VERIF_PART" in env else "")
        meta = self.path("tlc-" + tag)
        e = base_env()
        e.update({"VERIF_PART": "0", "VERIF_PARTS": "1", "VERIF_SEED": str(self.seed)})
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC" % ("6g" if workers > 1 else "3g")
        cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfgp, *extra,
               os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.dir, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {module} timed out")
        out = r.stdout
        with open(self.path(f"tlc-{tag}.out"), "w") as f:
            f.write(out)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.detail.setdefault("tlc", []).append(
            {"module": module, "config": cfg, "kind": kind, "generated": gen, "distinct": dist, "s": round(time.time() - t, 1)})
        if kind != "gen":
            self.states += dist
            self.transitions += gen
        rejects = re.findall(r'<<\s*"REJECT",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"', out)
        if kind == "trace":
            for k in sorted(set(re.findall(r'<<\s*"KNOWN",\s*"([\w\-]+)"', out))):
                if k not in self.known:
                    self.known.append(k)
        if r.returncode == 0:
            if kind != "gen" and dist == 0:
                raise ToolError(f"TLC {module}/{cfg} explored no state:\n" + out[-2000:])
            return out
        if kind == "trace" and r.returncode in (10, 11, 12, 13):
            raise Violation(f"log rejected by {module} ({cfg})", rejects)
        if kind == "trace" and re.search(r"(Evaluating invariant|could not be evaluated|TLC threw an unexpected exception|Error: Evaluating)", out) \
                and "OutOfMemory" not in out and "StackOverflow" not in out and "Parsing or semantic analysis failed" not in out:
            # the specification has no interpretation for what the code did
            m = re.findall(r"^/\\ l = (\d+)|^l = (\d+)", out, re.M)
            ln = next((a or b for a, b in m[::-1]), None)
            raise Violation(f"log not interpretable by {module} ({cfg})", [(ln, "uninterpretable")] if ln else [])
        raise ToolError(f"TLC {module}/{cfg} exit {r.returncode}:\n" + out[-3000:])

    def trace(self, module, cfg, trace, env=None, **kw):
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise ToolError(f"empty log {trace}")
        # a long log of independent lines is judged in pieces, so that it fits TLC's heap
        pieces = [trace]
        if os.path.getsize(trace) > PIECE and module not in WHOLE:
            pieces, out, used = [], None, 0
            for x in open(trace, "rb"):
                if out is None or used + len(x) > PIECE:
                    if out:
                        out.close()
                    pieces.append(f"{trace}.{len(pieces)}")
                    out, used = open(pieces[-1], "wb"), 0
                out.write(x)
                used += len(x)
            out.close()
        for p in pieces:
            e = dict(env or {})
            e["VERIF_TRACE"] = p
            try:
                self.tlc(module, cfg, "trace", e, **kw)
            except Violation as v:
                src = open(p).read().splitlines()
                v.lines = [{"line": int(x[0]), "why": x[1], "log": src[int(x[0]) - 1] if int(x[0]) <= len(src) else ""} for x in v.lines if x[0]]
                v.lines = v.lines[:20]
                raise
            if p != trace:
                os.remove(p)
        self.lines += n
        with open(trace) as f:
            for i, x in enumerate(f):
                if i in (0, n // 2) and len(self.samples) < 4:
                    self.samples.append(x.strip()[:600])

    def parallel(self, *thunks):
        with cf.ThreadPoolExecutor(max_workers=len(thunks)) as ex:
            fs = [ex.submit(t) for t in thunks]
            errs = []
            res = []
            for f in fs:
                try:
                    res.append(f.result())
                except Exception as x:  # noqa: BLE001
                    errs.append(x)
            for x in errs:
                if isinstance(x, Violation):
                    raise x
            for x in errs:
                raise x
            return res


PIECE = 30 << 20
WHOLE = ("CodesTrace", "ConstTrace", "HandleTrace")    # these look at the log as a whole


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.setup:
        run = Run("setup", "quick", 1)
        run.build()
        shutil.rmtree(run.dir, ignore_errors=True)
        return
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    spec = PROPS[a.property]
    run = Run(a.property, a.tier, seed)
    rc, violation = 0, None
    try:
        spec["run"](run)
    except Violation as v:
        violation, rc = v, 1
    except ToolError as e:
        print(f"ERROR property={a.property}: {e}", file=sys.stderr)
        rc = 2
    listed = {k["id"]: k for k in known_findings() if k["property"] == a.property and k.get("status") == "open"}
    for k in run.known:
        if k in listed:
            print(f"KNOWN-FINDING: property={a.property} {listed[k]['what']}")
        elif rc == 0:
            violation, rc = Violation(f"finding {k} is not listed", []), 1
    wall = round(time.time() - t0, 1)
    if rc != 2:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": a.property, "tier": a.tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": run.states, "transitions": run.transitions,
                           "traces_validated_against_impl": run.lines, "samples": run.samples, "detail": run.detail},
              "wall_s": wall, "violations": 1 if rc == 1 else 0, "assumptions": spec.get("assumptions", [])}
        with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if rc == 1:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        p = os.path.join(VERIF, "replays", f"{a.property}-{a.tier}-{seed}.json")
        with open(p, "w") as f:
            json.dump({"property": a.property, "why": violation.why, "rejected": violation.lines,
                       "rerun": f"VERIF_SEED={seed} python3 check.py {a.property} --tier {a.tier}",
                       "log_directory": run.dir}, f, indent=1)
        print(violation.why)
        for x in violation.lines[:3]:
            print("  ", json.dumps(x)[:800])
        print(f"VIOLATION property={a.property} replay={p}")
    elif rc == 0:
        print(f"OK property={a.property} states={run.states} transitions={run.transitions} log_lines={run.lines} wall={wall}s")
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(run.dir, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
