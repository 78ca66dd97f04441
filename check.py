#!/usr/bin/env python3
"""Runs the check of one property: check.py PROPERTY [--replay FILE]

1. TLC explores the model of the property (configurations listed in checks/props.py).
2. TLC evaluates the scenario generators, which are part of the specification.
3. The harness (rebuilt from /repo) executes the scenarios on the real code and records events.
4. TLC validates the recorded events against the trace specification.

This program only moves files around: what is a violation is decided by TLC alone.
Exit status: 0 held, 1 violated (and a VIOLATION line), 2 the check itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, os.path.join(ROOT, "checks"))
from props import PROPS  # noqa: E402

REPO = "/repo"
CORES = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
PROFILE = "release" if TIER == "quick" else "optimized"
DEADLINE = T0 + (800 if TIER == "quick" else 6 * 3600)


class ToolError(Exception):
    pass


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, file=sys.stderr, flush=True)


def run_cmd(cmd, timeout, **kw):
    """Runs a command in its own process group, which is killed on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out
    return p.returncode, out


# --------------------------------------------------------------------------- harness

def sources_digest():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "harness", "src")):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(ROOT, "harness", "Cargo.toml")):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build(kind):
    """kind: stable (SIMD backend: AVX2), nightly (AVX-512), plain (without the feature multi-thread), release
    (without checks of overflow and debug assertions, optimized in the thorough tier)"""
    target = os.path.join(ROOT, ".work", "target-" + (PROFILE if kind == "release" else kind))
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
               CARGO_TERM_COLOR="never", HOME=os.environ.get("HOME", "/root"))
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    cargo = ["cargo", "+nightly" if kind == "nightly" else "+stable"]
    extra = {"nightly": ["--features", "unstable"], "plain": ["--no-default-features"],
             "release": ["--profile", PROFILE]}.get(kind, [])
    cwd = os.path.join(ROOT, "harness")
    # cargo only compares modification times
    stamp = os.path.join(target, "sources")
    digest = sources_digest()
    if os.path.exists(stamp) and open(stamp).read() != digest:
        run_cmd(cargo + ["clean", "--offline", "-p", "ezk-image", "-p", "ezkh"] + (extra if kind == "release" else []), 60, cwd=cwd, env=env)
    if os.path.exists(stamp):
        os.remove(stamp)
    rc, out = run_cmd(cargo + ["build", "--offline", "--locked"] + extra, DEADLINE - time.time(), cwd=cwd, env=env)
    if rc != 0:
        raise ToolError("building the harness failed:\n" + out[-4000:])
    open(stamp, "w").write(digest)
    log("harness built", kind)
    return os.path.join(target, PROFILE if kind == "release" else "debug", "ezkh")


# How the harness is executed: build, restriction of the CPU
VARIANTS = {"stable": ("stable", ""), "scalar": ("stable", "scalar"), "nightly": ("nightly", ""),
            "plain": ("plain", ""), "release": ("release", "")}
BACKENDS = ["nightly", "scalar", "stable"]


def run_harness(bins, variant, scen, events, work, timeout_s=60):
    """Executes all scenarios, a scenario which kills (or hangs) the process becomes an event itself"""
    binary = bins[VARIANTS[variant][0]]
    env = dict(os.environ, EZKH_CPU=VARIANTS[variant][1])
    lines = [x for x in open(scen).read().split("\n") if x.strip()]
    progress = events + ".progress"
    for f in (events, progress):
        if os.path.exists(f):
            os.remove(f)
    start = 0
    restarts = 0
    while True:
        p = subprocess.Popen([binary, scen, events, progress, str(start)], stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, env=env)
        err = []
        t = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
        t.start()
        last, since, hung = None, time.time(), False
        while True:
            try:
                p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                cur = open(progress).read() if os.path.exists(progress) else None
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > timeout_s or time.time() > DEADLINE:
                    hung = time.time() - since > timeout_s
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    if not hung:
                        raise ToolError("harness: out of time")
                    break
        t.join(5)
        if p.returncode == 0 and not hung:
            break
        cur = (open(progress).read() if os.path.exists(progress) else "").strip()
        if not cur.isdigit():
            raise ToolError(f"harness failed ({p.returncode}): {''.join(err)[-2000:]}")
        if p.returncode == 101 or (p.returncode > 0 and not hung):
            raise ToolError(f"harness failed ({p.returncode}) in scenario {cur}: {''.join(err)[-2000:]}")
        i = int(cur)
        ev = json.loads(lines[i])
        ev["n"] = i
        ev["crash"] = "hang" if hung else f"signal {-p.returncode}"
        # the line of the event which was being written is not complete
        done = open(events).read() if os.path.exists(events) else ""
        done = done[:done.rfind("\n") + 1]
        with open(events, "w") as f:
            f.write(done + json.dumps(ev) + "\n")
        start = i + 1
        restarts += 1
        if hung or restarts > 5 or start >= len(lines):
            break
    n_err = 0
    for x in open(events):
        if '"harness_error"' in x:
            n_err += 1
            raise ToolError("harness error: " + str(json.loads(x)["harness_error"])[:300] + " " + x[-300:])
    return lines


# --------------------------------------------------------------------------- TLC

def tlc(module, cfg, work, env=None, workers=1, timeout=None, heap="3g", extra=()):
    meta = os.path.join(work, "meta-" + os.path.basename(cfg) + "-" + hashlib.md5(
        (module + cfg + json.dumps(env or {}, sort_keys=True)).encode()).hexdigest()[:8])
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ, **(env or {}))
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Djava.io.tmpdir={work}"
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra, "-config", cfg, module + ".tla"]
    t = time.time()
    rc, out = run_cmd(cmd, min(timeout or 1e9, DEADLINE - time.time()), cwd=SPEC, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return (int(m[-1][0]), int(m[-1][1]), int(d.group(1)) if d else 0) if m else (0, 0, 0)


def model_check(mc, work):
    """Explores a model. Its failure is a failure of the check: it doesn't depend on the code"""
    rc, out, wall = tlc(mc["module"], mc["cfg"], work, env=mc.get("env"), workers=mc.get("workers", 2),
                        heap=mc.get("heap", "4g"), extra=mc.get("extra", ()))
    if rc != 0:
        raise ToolError(f"model {mc['module']}/{mc['cfg']} failed ({rc}):\n" + out[-3000:])
    g, d, depth = stats(out)
    log(f"model {mc['cfg']}: {g} states generated, {d} distinct, {wall:.1f}s")
    return {"model": mc["module"], "config": mc["cfg"], "generated": g, "distinct": d, "depth": depth,
            "wall_s": round(wall, 1)}


def generate(gen, work):
    out_file = os.path.join(work, f"scen-{gen['module']}-{gen['kind']}.ndjson")
    scale = gen.get("scale", 1) if TIER == "quick" else gen.get("thorough", gen.get("scale", 1) * 10)
    scale = int(os.environ.get("SCALE_OVERRIDE", scale))
    env = {"OUT": out_file, "KIND": gen["kind"], "VERIF_SEED": str(SEED), "SCALE": str(scale), "TIER": TIER}
    rc, out, wall = tlc(gen["module"], gen.get("cfg", "Gen.cfg"), work, env=env, heap="6g")
    if rc != 0 or not os.path.exists(out_file):
        raise ToolError(f"generator {gen['module']} {gen['kind']} failed ({rc}):\n" + out[-3000:])
    log(f"scenarios {gen['kind']}: {sum(1 for _ in open(out_file))}, {wall:.1f}s")
    return out_file


REJECT = re.compile(r'<<"REJECT", (\d+), (.*)>>')

DOMAIN = re.compile(r"Overflow when computing|In applying the function|Attempted to (apply|access|compare|check)|tried to access|is not in its domain")


def validate(trace, events, work):
    """Returns None or (line number, reason) of the first event which the specification doesn't allow"""
    n = sum(1 for _ in open(events))
    if n == 0:
        return None, (0, 0, 0)
    rc, out, wall = tlc(trace, trace + ".cfg", work, env={"TRACE": events})
    st = stats(out)
    if rc is None:
        raise ToolError(f"{trace}: out of time")
    if rc == 0:
        return None, st
    m = REJECT.search(out)
    if m:
        return (int(m.group(1)), m.group(2).strip('"')), st
    inv = re.search(r"Invariant (\S+) is violated", out)
    ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
    if inv and ls:
        return (max(1, min(int(ls[-1]) , n)), "invariant " + inv.group(1)), st
    if "TraceAccepted" in out and "is false" in out and st[0] > 0:
        return (min(n, max(1, st[2])), "no transition of the specification explains the event"), st
    # A recorded value which is outside of the domain of the specification (no such values are recorded if the
    # code does what it should): the event can't be explained. Failures of TLC itself are something else.
    if ls and DOMAIN.search(out) and not re.search(r"OutOfMemory|StackOverflow|GC overhead", out):
        return (max(1, min(int(ls[-1]), n)), "outside of the domain of the specification"), st
    raise ToolError(f"{trace} failed ({rc}):\n" + out[-3000:])


# --------------------------------------------------------------------------- main

def shard(lines, work, name):
    k = max(1, min(CORES, len(lines) // 8 or 1))
    lines = list(lines)
    random.Random(SEED).shuffle(lines)
    files = []
    for i in range(k):
        f = os.path.join(work, f"{name}-{i}.ndjson")
        open(f, "w").write("".join(x + "\n" for x in lines[i::k]))
        files.append(f)
    return files


def check(prop, replay=None):
    spec = PROPS[prop]
    work = os.path.join(ROOT, ".work", f"{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    models, violations, counts = [], [], {}
    traces = events_total = tstates = ttrans = 0
    distinct, samples = set(), []
    nontrivial_rule = spec.get("rule", "a scenario counts if the library accepted it (the recorded result is ok); "
                               "distinct: by its full description")
    try:
        with cf.ThreadPoolExecutor(CORES) as ex:
            kinds = spec.get("build", ["stable"]) + ["release"]
            builds = {k: ex.submit(build, k) for k in kinds}
            mcs = [] if replay else [ex.submit(model_check, m, work) for m in spec.get("models", [])
                                     if TIER == "thorough" or not m.get("thorough_only")]
            gens = [] if replay else [(g, ex.submit(generate, g, work)) for g in spec["gens"]]
            bins = {k: b.result() for k, b in builds.items()}
            jobs = []
            if replay:
                for x in open(replay):
                    r = json.loads(x)
                    f = os.path.join(work, f"replay-{len(jobs)}.ndjson")
                    open(f, "w").write(json.dumps(r["scenario"]) + "\n")
                    jobs.append(("replay", r["trace"], r.get("build", kinds[0]), f))
            for g, fut in gens:
                lines = [x for x in open(fut.result()).read().split("\n") if x.strip()]
                files = shard(lines, work, f"{g['module']}-{g['kind']}")
                # a part of the scenarios is executed on a CPU without vector instructions, as a release build, and
                # without threads
                how = [g.get("build", kinds[0])] * len(files)
                if how[0] == "stable":
                    for n, b in enumerate(["scalar", "release"] + [k for k in kinds if k == "plain"]):
                        if n + 1 < len(files):
                            how[-1 - n] = b
                for b, f in zip(how, files):
                    jobs.append((g["kind"], g["trace"], b, f))

            def job(j):
                kind, trace, b, f = j
                ev = f[:-7] + ".ev"
                if isinstance(trace, str) and b == "all":
                    lines = everywhere(bins, f, ev, work)
                else:
                    lines = run_harness(bins, b, f, ev, work)
                rej, st = validate(trace, ev, work)
                return j, lines, ev, rej, st

            for fut in cf.as_completed([ex.submit(job, j) for j in jobs]):
                (kind, trace, b, f), lines, ev, rej, st = fut.result()
                evs = open(ev).read().split("\n")
                events_total += sum(1 for x in evs if x)
                tstates += st[1]
                ttrans += st[0]
                traces += 1
                counts[kind] = counts.get(kind, 0) + len(lines)
                for x in lines:
                    distinct.add(hashlib.sha256(x.encode()).digest()[:12])
                if len(samples) < 4 and lines:
                    s = min(lines[:40], key=len)
                    samples.append(json.loads(s) if len(s) < 3000 else {"scenario": s[:1500] + "..."})
                if rej:
                    n, why = rej
                    e = json.loads(evs[n - 1])
                    violations.append({"why": why, "kind": kind, "trace": trace, "build": b,
                                       "scenario": json.loads(lines[e["n"]]), "event": e})
            for m in mcs:
                models.append(m.result())
    except ToolError as e:
        print(f"ERROR property={prop}: {e}", file=sys.stderr)
        return 2
    finally:
        if not os.environ.get("KEEP_WORK"):
            shutil.rmtree(work, ignore_errors=True)

    coverage = {
        "evaluations": events_total,
        "distinct_nontrivial": len(distinct),
        "rule": "scenarios are generated by the TLA+ generators from the seed and executed on the real code; "
                "counted are scenarios with pairwise different descriptions (format, size, memory layout, contents, "
                "operation); every one of them has images with at least one pixel or exercises a rejection",
        "scenarios_by_kind": counts,
        "traces_validated_against_impl": traces,
        "events_validated": events_total,
        "trace_states": tstates,
        "states": sum(m["distinct"] for m in models) + tstates,
        "transitions": sum(m["generated"] for m in models) + ttrans,
        "models": models,
        "samples": samples,
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": spec["level"], "coverage": coverage,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - T0, 1),
          "violations": len(violations)}
    if not replay:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if violations:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        v = violations[0]
        name = hashlib.sha256(json.dumps(v["scenario"], sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(ROOT, "replays", f"{prop}-{name}.ndjson")
        with open(path, "w") as f:
            for v in violations:
                f.write(json.dumps(v) + "\n")
        for v in violations:
            print(f"  rejected by {v['trace']}: {v['why']}; {json.dumps(v['scenario'])[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    log(f"{prop}: {events_total} events accepted")
    return 0


def everywhere(bins, scen, ev, work):
    """Executes the scenarios using all variants, the event contains all results"""
    names = BACKENDS
    evs = {}
    for k in names:
        lines = run_harness(bins, k, scen, ev + "." + k, work)
        evs[k] = [json.loads(x) for x in open(ev + "." + k) if x.strip()]
    with open(ev, "w") as f:
        for rs in zip(*(evs[k] for k in names)):
            m = {"op": "everywhere", "n": rs[0]["n"], "runs": list(rs)}
            for x in rs:
                if "crash" in x:
                    m["crash"] = x["crash"]
            f.write(json.dumps(m) + "\n")
    return lines


if __name__ == "__main__":
    a = sys.argv[1:]
    if not a or a[0] not in PROPS:
        print("usage: check.py PROPERTY [--replay FILE]; properties: " + " ".join(sorted(PROPS)), file=sys.stderr)
        sys.exit(2)
    try:
        sys.exit(check(a[0], a[2] if len(a) > 2 and a[1] == "--replay" else None))
    except ToolError as e:
        print("ERROR", e, file=sys.stderr)
        sys.exit(2)
