#!/usr/bin/env python3
"""Decide one property: build the recorder from /repo's working tree, record what the
code answers, and let TLC decide whether the specification allows it.

usage: check.py ID [--tier quick|thorough] [--seed N]
exit 0: held; exit 1 and a VIOLATION line: broken; anything else: the check failed to run.
"""
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
DUNE = "/opt/dune/venv"

sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS  # noqa: E402

NCPU = 8


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

LIB = {
    "refimpl": "dune/geometry/referenceelementimplementation.cc",
    "quad": "dune/geometry/quadraturerules/quadraturerules.cc",
}


def compile_one(src, flags, cxx):
    """Compile src to an object file named after the hash of its preprocessed text."""
    base = [cxx, "-std=gnu++20", "-w", "-D_GLIBCXX_ASSERTIONS",
            "-include", os.path.join(HARN, "config", "config.h"),
            "-I", os.path.join(HARN, "config"), "-I", HARN, "-I", REPO,
            "-isystem", os.path.join(DUNE, "include")] + flags
    pre = subprocess.run(base + ["-E", src], capture_output=True)
    if pre.returncode != 0:
        raise CheckError("preprocessing %s failed:\n%s" % (src, pre.stderr.decode()[-3000:]))
    key = hashlib.sha256(("\0".join(base + [src])).encode() + b"\0" + pre.stdout).hexdigest()[:32]
    obj = os.path.join(BUILD, os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = subprocess.run(base + ["-c", src, "-o", tmp], capture_output=True)
        if r.returncode != 0:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stderr.decode()[-3000:]))
        os.replace(tmp, obj)
    return obj


PYFLAGS = ["-O0", "-fPIC", "-DDUNE_ENABLE_PYTHONMODULE_PRECOMPILE",
           "-isystem", os.path.join(DUNE, "include", "dune", "python"), "-isystem", "/usr/include/python3.12"]


def link_shared(objs, name):
    so = os.path.join(BUILD, name + "." + hashlib.sha256("\0".join(objs).encode()).hexdigest()[:16] + ".so")
    if not os.path.exists(so):
        tmp = so + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = subprocess.run(["g++", "-shared", "-o", tmp] + objs + [os.path.join(DUNE, "lib", "libdunecommon.a"), "-lopenblas", "-ltbb"],
                           capture_output=True)
        if r.returncode != 0:
            raise CheckError("linking failed:\n" + r.stderr.decode()[-3000:])
        os.replace(tmp, so)
    return so


def build_python(spec):
    """The repository's Python module, as its build files put it together, and modules of the recorder."""
    src = os.path.join(REPO, "python", "dune", "geometry")
    jobs = [("_geometry", os.path.join(src, "registerrefelem.cc"), PYFLAGS + ["-DDIM=%d" % d]) for d in range(5)]
    jobs += [("_geometry", os.path.join(src, "_geometry.cc"), PYFLAGS)]
    jobs += [("_geometry", os.path.join(REPO, LIB[l]), ["-O0", "-fPIC"]) for l in ("refimpl", "quad")]
    jobs += [(m[:-3], os.path.join(HARN, m), PYFLAGS) for m in spec.get("pymods", [])]
    jobs += [(m[:-3], os.path.join(REPO, LIB["refimpl"]), ["-O0", "-fPIC"]) for m in spec.get("pymods", [])]
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: (j[0], compile_one(j[1], j[2], "g++")), jobs))
    return {n: link_shared([o for m, o in objs if m == n], n) for n in sorted({m for m, _ in objs})}


def build(spec, name):
    os.makedirs(BUILD, exist_ok=True)
    if "py" in spec:
        return build_python(spec)
    flags = spec.get("flags", ["-O0"])
    cxx = spec.get("cxx", "g++")
    srcs = [os.path.join(HARN, s) for s in spec["srcs"]]
    srcs += [os.path.join(REPO, LIB[l]) for l in spec.get("lib", [])]
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags, cxx), srcs))
    exe = os.path.join(BUILD, name + "." + hashlib.sha256("\0".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        link = [cxx] + flags + objs + ["-o", tmp, os.path.join(DUNE, "lib", "libdunecommon.a"),
                                       "-lopenblas", "-ltbb", "-lpthread"] + spec.get("libs", [])
        r = subprocess.run(link, capture_output=True)
        if r.returncode != 0:
            raise CheckError("linking failed:\n" + r.stderr.decode()[-3000:])
        os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workers=NCPU, timeout=700, mem="6g", extra=()):
    """Run TLC; returns dict(ok, states, distinct, out, evalerror)."""
    md = os.path.join(OUT, "tlc-%d-%s" % (os.getpid(), hashlib.md5((module + cfg + str(env)).encode()).hexdigest()[:8]))
    shutil.rmtree(md, ignore_errors=True)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Djava.io.tmpdir=" + OUT, "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-cp", TLAJARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    res = dict(out=out, rc=r.returncode, generated=0, distinct=0)
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out):
        res["generated"], res["distinct"] = int(m.group(1)), int(m.group(2))
    res["ok"] = r.returncode == 0 and "No error has been found" in out
    return res


def tail(out, n=40):
    return "\n".join([l for l in out.splitlines() if not re.match(r"(Semantic|Linting|Parsing)", l)][-n:])


# ---------------------------------------------------------------- the check

class Violation(Exception):
    def __init__(self, what, details):
        super().__init__(what)
        self.details = details


def run_model(p, tier, stats):
    """Exhaustive checks of the specification itself."""
    for m in p.get("mc", []):
        module, cfg = m[0], m[1]
        if tier == "thorough" and len(m) > 2:
            cfg = m[2]
        r = tlc(module, cfg)
        if not r["ok"]:
            raise CheckError("model check of %s/%s failed:\n%s" % (module, cfg, tail(r["out"])))
        stats["model"].append(dict(module=module, config=cfg, distinct=r["distinct"], generated=r["generated"]))
        stats["states"] += r["distinct"]
        stats["transitions"] += r["generated"]


def run_generators(p, tier, d, stats):
    """TLC enumerates behaviours of the specification that the recorder replays."""
    for g in p.get("gen", []):
        module, cfg, outfile = g[0], g[1], g[2]
        if tier == "thorough" and len(g) > 3:
            cfg = g[3]
        r = tlc(module, cfg, workers=1)
        if not r["ok"]:
            raise CheckError("generator %s failed:\n%s" % (module, tail(r["out"])))
        n = 0
        with open(os.path.join(d, outfile), "w") as f:
            for line in r["out"].splitlines():
                if line.startswith('"H ') and line.endswith('"'):
                    f.write(line[3:-1].replace('\\"', '"') + "\n")
                    n += 1
        if n == 0:
            raise CheckError("generator %s produced nothing" % module)
        stats["model"].append(dict(module=module, config=cfg, distinct=r["distinct"], generated=r["generated"], histories=n))
        stats["states"] += r["distinct"]
        stats["transitions"] += r["generated"]


def record(p, exe, d, seed, tier, prefix=()):
    """Run the recorder.  Returns None or a description of how it died."""
    env = dict(os.environ)
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=66:hard_rss_limit_mb=8000" % (1 if p.get("leaks") else 0)
    env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=67"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=68:hard_rss_limit_mb=8000"
    if "py" in p:
        # a package made of the repository's Python files and the modules built from its sources
        pkg = os.path.join(d, "pkg")
        os.makedirs(os.path.join(pkg, "dune", "geometry"))
        for f in sorted(os.listdir(os.path.join(REPO, "python", "dune", "geometry"))):
            if f.endswith(".py"):
                shutil.copy(os.path.join(REPO, "python", "dune", "geometry", f), os.path.join(pkg, "dune", "geometry", f))
        for n, so in exe.items():
            os.symlink(so, os.path.join(pkg, "dune", "geometry", n + ".so") if n == "_geometry" else os.path.join(pkg, n + ".so"))
        env.update(PYTHONPATH=pkg, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME=d, TMPDIR=d,
                   DUNE_PY_DIR=os.path.join(d, "dune-py"),
                   # memory that was given back is overwritten at once
                   GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.perturb=165")
        exe = [os.path.join(DUNE, "bin", "python"), os.path.join(HARN, p["py"])]
    else:
        exe = [exe]
    cmd = list(prefix) + exe + [d, str(seed), tier] + p.get("args", [])

    def bounds():
        # calls that never stop must not fill the disk or the memory
        resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))
        if not any(f.startswith("-fsanitize") for f in p.get("flags", [])):
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

    with open(os.path.join(d, "recorder.log"), "wb") as lf:
        try:
            r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, timeout=p.get("timeout", 300), cwd=d,
                               preexec_fn=bounds)
        except subprocess.TimeoutExpired:
            return "the recorded calls did not return within %d s" % p.get("timeout", 300)
    if r.returncode != 0 and "-fsanitize=thread" in p.get("flags", []):
        txt = open(lf.name, "rb").read()
        if b"FATAL: ThreadSanitizer" in txt or b"setarch: " in txt:
            # the race detector cannot map its memory here: retry with a fixed address space layout, then without it
            if cmd[0] != "setarch":
                return record(p, exe[0], d, seed, tier, ["setarch", "-R"])
            q = dict(p, flags=[f for f in p["flags"] if f != "-fsanitize=thread"])
            return record(q, build(q, q["bin"] + "-plain"), d, seed, tier)
    if r.returncode == 3:
        raise CheckError("recorder could not run: " + open(os.path.join(d, "recorder.log"), errors="replace").read()[-2000:])
    if r.returncode != 0:
        txt = open(os.path.join(d, "recorder.log"), errors="replace").read()
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|WARNING: ThreadSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|[^\n]*Assertion[^\n]*|terminate called[^\n]*)", txt)
        return "the recorded calls ended with status %d: %s" % (r.returncode, m.group(1) if m else txt[-300:].strip())
    return None


def validate(p, d, stats):
    """Let TLC decide every recorded event.  Returns list of (file, line, reason, event)."""
    rejects = []
    for t in p.get("tr", []):
        module, cfg, fname = t[0], t[1], t[2]
        path = os.path.join(d, fname)
        with open(path) as f:
            lines = f.read().splitlines()
        if not lines:
            raise CheckError("empty trace " + path)
        r = tlc(module, cfg, env={"TRACE": path}, extra=t[3] if len(t) > 3 else ())
        if not r["ok"]:
            # an answer outside the domain of the specification is not allowed by it
            if re.search(r"(evaluating|evaluate|Attempted to|TLC threw|overflow)", r["out"]) and "OutOfMemory" not in r["out"]:
                rejects.append((fname, 0, "an event the specification cannot even evaluate: " + tail(r["out"], 12), ""))
                continue
            raise CheckError("trace check %s failed:\n%s" % (module, tail(r["out"])))
        chains = min(len(lines), 64)
        if r["distinct"] != len(lines) + chains:
            raise CheckError("trace check %s consumed %d states, expected %d" % (module, r["distinct"], len(lines) + chains))
        verdicts = [re.match(r'(\d+) ([^"\n]*)', part) for part in r["out"].split('"REJECT ')[1:]]
        if [m.group(2)[-12:] for m in verdicts if m.group(1) == "0"] != ["it ends here"]:
            raise CheckError("the verdicts of %s cannot be read:\n%s" % (module, tail(r["out"])))
        for m in verdicts:
            k = int(m.group(1))
            if k > 0:
                rejects.append((fname, k, m.group(2), lines[k - 1]))
        stats["states"] += r["distinct"]
        stats["transitions"] += r["generated"]
        stats["traces"] += len(lines)
        stats["trace_files"].append(dict(module=module, file=fname, events=len(lines)))
        step = max(1, len(lines) // 3)
        stats["samples"] += [l[:400] for l in lines[::step]][:3]
    return rejects


def load_known():
    known = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append((m.group(1), m.group(2), m.group(3)))
    return known


def attempt(pid, p, tier, seed, d, stats):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    recorders = [p] + p.get("also", [])
    with ThreadPoolExecutor(NCPU) as ex:
        exes = list(ex.map(lambda q: build(q, q["bin"]), recorders))
    run_generators(p, tier, d, stats)
    for q, exe in zip(recorders, exes):
        died = record(q, exe, d, seed, tier)
        if died:
            return [("recorder.log", 0, died, "")]
    return validate(p, d, stats)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
    p = PROPS[pid]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()

    def fresh():
        return dict(states=0, transitions=0, traces=0, samples=[], model=[], trace_files=[])

    stats = fresh()
    d = os.path.join(OUT, pid)
    run_model(p, tier, stats)
    rejects = attempt(pid, p, tier, seed, d, stats)
    known = {k: txt for (q, k, txt) in load_known() if q == pid}

    def split(rj):
        bad, kn = [], []
        for r in rj:
            m = re.match(r"KNOWN:(\S+)", r[2])
            (kn if m and m.group(1) in known else bad).append(r)
        return bad, kn

    bad, kn = split(rejects)
    if bad:
        # report only what another run repeats
        again = os.path.join(OUT, pid + "-again")
        for k in range(2):
            if k and time.time() - t0 > 300:
                break
            s2 = fresh()
            bad2, _ = split(attempt(pid, p, tier, seed, again, s2))
            shutil.rmtree(again, ignore_errors=True)
            if bad2:
                break
        if not bad2:
            log("note: a rejection was not repeated by another run:", bad[0][:3])
            bad = []
            for key in ("traces", "samples", "trace_files"):
                stats[key] = s2[key]
    for k in sorted({re.match(r"KNOWN:(\S+)", r[2]).group(1) for r in kn}):
        log("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=stats["states"], transitions=stats["transitions"],
                            traces_validated_against_impl=stats["traces"],
                            samples=stats["samples"], model_checks=stats["model"], trace_checks=stats["trace_files"],
                            known_findings_seen=len(kn)),
              wall_s=round(wall, 2), assumptions=p.get("assumptions", []), violations=len(bad))
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        rp = os.path.join(OUT, pid, "violation.txt")
        with open(rp, "w") as f:
            f.write("property %s tier %s seed %d\nreproduce: VERIF_SEED=%d VERIF_TIER=%s python3 %s %s\n\n"
                    % (pid, tier, seed, seed, tier, os.path.abspath(__file__), pid))
            for r in bad[:200]:
                f.write("%s:%d: %s\n    %s\n" % r)
        for r in bad[:5]:
            log("rejected %s:%d: %s\n    %s" % (r[0], r[1], r[2], r[3][:600]))
        log("%d events rejected" % len(bad))
        log("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    log("%s held: %d events, %d states, %.1f s" % (pid, stats["traces"], stats["states"], wall))
    # keep the last trace small on disk
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        log("check error:", e)
        rc = 2
    sys.exit(rc)
