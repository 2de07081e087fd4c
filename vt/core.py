"""Shared machinery: build the observer, run jobs against the real code, let TLC
judge the observations, report, write evidence."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
OBS = os.path.join(HARNESS, "target", "release", "thermal_obs")
CANVAS_OBS = os.path.join(HARNESS, "target", "release", "canvas_obs")
CPUS = max(1, min(8, os.cpu_count() or 1))
CLASSPATH = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.work = os.path.join(ROOT, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.start = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.exhaustive = None

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.start

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)


# ------------------------------------------------------------------ build
def build(name="thermal_obs"):
    for attempt in range(2):
        p = subprocess.run(["cargo", "build", "--release", "--offline", "-q", "--bin", name], cwd=HARNESS,
                           capture_output=True, text=True)
        if p.returncode == 0:
            return
    raise ToolError("the observer does not build against /repo:\n" + p.stderr[-3000:])


# ------------------------------------------------------- the real code
def _observe_shard(work, shard, jobs, limit_ms):
    obs = CANVAS_OBS if jobs[0]["kind"] == "canvas" else OBS
    out, rem, n = {}, list(jobs), 0
    while rem:
        path = os.path.join(work, "obs-%d-%d.ndjson" % (shard, n))
        n += 1
        env = dict(os.environ, OBS_LIMIT_MS=str(limit_ms))
        p = subprocess.run([obs, path], input="\n".join(map(json.dumps, rem)) + "\n", text=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=work)
        got = []
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        break
            os.remove(path)
        for o in got:
            out[o["id"]] = o
        if p.returncode == 0:
            break
        k = len(got)
        if p.returncode != 97 or k == 0:      # the process ended in the job after the last one
            if k >= len(rem):
                break
            out[rem[k]["id"]] = {"id": rem[k]["id"], "abort": (p.stderr or "")[-300:] + " code %d" % p.returncode}
            k += 1
        rem = rem[k:]
    return out


def observe(run, jobs, limit_ms=20000):
    """Runs the jobs against the real code: {id: observation}."""
    shards = [jobs[i::CPUS] for i in range(CPUS)]
    out = {}
    with ThreadPoolExecutor(CPUS) as ex:
        for part in ex.map(lambda a: _observe_shard(run.work, a[0], a[1], limit_ms),
                           [(i, s) for i, s in enumerate(shards) if s]):
            out.update(part)
    for j in jobs:
        if j["id"] not in out:
            raise ToolError("no observation of job %r" % j["id"])
    return out


def crashed(o):
    for k in ("panic", "hang", "abort"):
        if k in o:
            return "%s %s" % (k, o[k] if k != "hang" else "")
    return None


# ------------------------------------------------------------------- TLC
def tlc(run, module, cfg=None, env=None, workers=CPUS, timeout=800, extra=(), heap="10g"):
    """Runs TLC on SPEC/module.tla with SPEC/cfg. Returns (messages, text)."""
    meta = os.path.join(run.work, "tlc-%s-%d-%d" % (module, threading.get_ident(), time.time_ns()))
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CLASSPATH, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC took more than %d s on %s" % (timeout, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    msgs, rest = [], []
    for line in p.stdout.splitlines():
        if line.startswith('"@@'):
            msgs.append(json.loads(json.loads(line)[2:]))
        else:
            rest.append(line)
    text = "\n".join(rest)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    run.add(states=dist, transitions=gen)
    return msgs, text, p.returncode


def tlc_ok(text):
    return "No error has been found" in text or "Model checking completed" in text and "Error:" not in text


def model_check(run, module, cfg, consts=None, **kw):
    """An exhaustive check of the specification itself: anything wrong there is an
    error of the machinery (the specification does not depend on the code).
    consts replaces constants of the configuration."""
    if consts:
        with open(os.path.join(SPEC, cfg)) as f:
            text = f.read()
        for k, v in consts.items():
            text = re.sub(r"\b%s = [^\n]*" % k, "%s = %s" % (k, v), text)
        cfg = os.path.join(run.work, cfg)
        with open(cfg, "w") as f:
            f.write(text)
    msgs, text, rc = tlc(run, module, cfg, **kw)
    if not tlc_ok(text):
        i = text.find("Error:")
        raise ToolError("the specification fails its own check %s/%s:\n%s" % (module, cfg, text[i:i + 3000]))
    return msgs


def judge(run, module, cfg, lines, ids, env=None, chunk_bytes=60_000_000, notes=None):
    """Has TLC judge observations (one json object per line). Returns the mismatches."""
    path = os.path.join(run.work, "jobs-%s-%d.ndjson" % (module, time.time_ns()))
    bad, ids = [], list(ids)
    i = 0
    while i < len(lines):
        size, k = 0, i
        while k < len(lines) and (k == i or size + len(lines[k]) < chunk_bytes):
            size += len(lines[k])
            k += 1
        part, pids = lines[i:k], ids[i:k]
        i = k
        while part:
            with open(path, "w") as f:
                f.write("\n".join(part) + "\n")
            msgs, text, rc = tlc(run, module, cfg, env=dict(env or {}, JOBS=path))
            done = {m["done"] for m in msgs if "done" in m}
            if notes is not None:
                notes.update((m["done"], m) for m in msgs if "done" in m)
            wrong = {}
            for m in msgs:
                if "mismatch" in m:
                    wrong.setdefault(m["job"], m)
            if "Error:" in text:
                # An observation of another shape than the specification's cannot even be
                # compared: find the job and ask whether the specification alone can run it.
                m = re.search(r"/\\ job(?:No)? = (\d+)", text)
                e = text.find("Error:")
                if not m:
                    raise ToolError("TLC on %s: %s" % (module, text[e:e + 3000]))
                k = int(m.group(1)) - 1
                line = json.loads(part[k])
                if blank_run_ok(run, module, cfg, line, env):
                    bad.append({"job": pids[k], "mismatch": ["shape"], "at": 0, "want": "",
                                "got": text[e:e + 300]})
                    del part[k], pids[k]
                    continue
                raise ToolError("TLC on %s: %s" % (module, text[e:e + 3000]))
            for p in pids:
                if p in wrong:
                    bad.append(wrong[p])
                elif p not in done:
                    raise ToolError("TLC on %s lost job %r\n%s" % (module, p, text[-2000:]))
            run.add(traces_validated_against_impl=len(done))
            break
    os.path.exists(path) and os.remove(path)
    return bad


def blank_run_ok(run, module, cfg, line, env):
    """Does the specification alone, comparing nothing, run through this job?"""
    path = os.path.join(run.work, "blank.ndjson")
    line = dict(line, blind=True)
    with open(path, "w") as f:
        f.write(json.dumps(line) + "\n")
    msgs, text, rc = tlc(run, module, cfg, env=dict(env or {}, JOBS=path), workers=1)
    return "Error:" not in text


# ---------------------------------------------------------------- report
def violation(run, what, job, detail):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    n = len(run.violations)
    path = os.path.join(d, "%s-%d-%d.json" % (run.prop, run.seed, n))
    with open(path, "w") as f:
        json.dump({"property": run.prop, "what": what, "job": job, "detail": detail}, f, indent=1)
    run.violations.append(path)
    if n < 5:
        print("VIOLATION property=%s replay=%s" % (run.prop, path))
        print("  " + what[:600])
        sys.stdout.flush()


def known_findings():
    """The findings listed in known_findings.txt: {key: property}."""
    out = {}
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+)", line)
            if m:
                out[m.group(2)] = m.group(1)
    return out


def known_or_violation(run, key, what, job, detail):
    """A genuine defect that is listed as known is told and not raised again."""
    if known_findings().get(key) == run.prop:
        run.known.append(key)
        print("KNOWN-FINDING: property=%s %s" % (run.prop, what))
    else:
        violation(run, what, job, detail)


def finish(run, level="model_checking"):
    ev = {"property": run.prop, "tier": run.tier, "seed": run.seed, "level": level,
          "coverage": dict(run.cov, **run.notes), "assumptions": run.assumptions,
          "wall_s": round(run.elapsed(), 2), "violations": len(run.violations)}
    if run.exhaustive is not None:
        ev["coverage"]["exhaustive"] = run.exhaustive
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, run.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d states, %d traces of the real code judged, %d violations, %.1f s" % (
        run.prop, run.tier, run.cov["states"], run.cov["traces_validated_against_impl"],
        len(run.violations), run.elapsed()))
    return 1 if run.violations else 0
