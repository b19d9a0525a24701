#!/usr/bin/env python3
"""Builds the monitors of one property from /repo's working tree, runs them, and reports.

usage: check.py <property id> [--only SECTION] [--seed N] [--tier quick|thorough] [--variant asan|tsan]
exit 0: held on everything explored; 1: VIOLATION printed; 2: the check could not decide.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = REPO + "/src/lib"
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build")
CACHE = BUILD + "/cache"
HARN = VERIF + "/harness"
STAND = VERIF + "/standin"
CORE_DIR = LIB + "/sup/oac-tree/"
CORE = ["base/exceptions.cpp", "base/log_severity.cpp", "base/scope_guard.cpp",
        "procedure/execution_status.cpp", "procedure/procedure_preamble.cpp",
        "runner/breakpoint.cpp", "runner/job_command_queue.cpp", "runner/job_commands.cpp",
        "runner/job_state_monitor.cpp", "runner/job_states.cpp"]
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
}
COMMON = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread"]
WRAP = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock"]


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


_filehash = {}


def fhash(path):
    if path not in _filehash:
        with open(path, "rb") as f:
            _filehash[path] = hashlib.sha256(f.read()).hexdigest()
    return _filehash[path]


def tree_hash(*globs):
    files = sorted(f for g in globs for f in glob.glob(g, recursive=True) if os.path.isfile(f))
    return sha(*[f + fhash(f) for f in files])


def run_cc(cmd, out, what):
    tmp = out + ".%d.tmp" % os.getpid()
    for attempt in (1, 2):
        p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            os.replace(tmp, out)
            return out
        # a compiler killed for lack of memory is retried once
        if p.returncode > 0 and b"Killed" not in p.stdout:
            break
    raise CheckError("cannot build %s:\n%s" % (what, p.stdout.decode(errors="replace")[-4000:]))


class Builder:
    def __init__(self, variant, scope, pool):
        self.variant, self.scope, self.pool = variant, scope, pool
        self.inc = ["-I" + LIB, "-I" + HARN]
        if scope == "full":
            self.inc += ["-I" + REPO + "/src/app/oac-tree-cli", "-I" + REPO + "/src/app/oac-tree-daemon",
                         "-I" + STAND + "/include", "-I/usr/include/libxml2"]
        self.flags = COMMON + SAN[variant]
        self.hdr = tree_hash(LIB + "/**/*.h", REPO + "/src/app/**/*.h", HARN + "/*.h",
                             *([STAND + "/include/**/*.h"] if scope == "full" else []))
        self.pch = None

    def make_pch(self):
        if self.scope != "full":
            return
        src = HARN + "/pch.h"
        stamps = [str(os.stat(f).st_mtime_ns) for f in
                  sorted(glob.glob(STAND + "/include/**/*.h", recursive=True)) + [src]]
        key = sha("pch", self.variant, " ".join(self.flags + self.inc), fhash(src), *stamps)
        out = CACHE + "/" + key + ".pch"
        if not os.path.exists(out):
            run_cc(["clang++"] + self.flags + self.inc +
                   ["-fpch-instantiate-templates", "-x", "c++-header", src], out, "pch")
        self.pch = out

    def obj(self, src, headers=None):
        flags = self.flags + self.inc + (["-include-pch", self.pch] if self.pch else [])
        if os.path.basename(src) == "main.cpp":   # of an application: called by the harness
            name = os.path.basename(os.path.dirname(src)).replace("-", "_") + "_main"
            flags = self.flags + self.inc + ["-Dmain=" + name]
        key = sha(self.variant, self.scope, " ".join(flags), src, fhash(src), self.hdr)
        out = CACHE + "/" + key + ".o"
        if not os.path.exists(out):
            run_cc(["clang++"] + flags + ["-c", src], out, src)
        return out

    def link(self, objs, name):
        key = sha(self.variant, name, *objs)
        out = CACHE + "/" + key + ".exe"
        if not os.path.exists(out):
            libs = ["-ldl"] + (["-lxml2"] if self.scope == "full" else [])
            run_cc(["clang++"] + self.flags + WRAP + CHECKS.get(name, {}).get("ldflags", []) + objs + libs, out, name)
        return out


def sources(check):
    harness = [HARN + "/" + h for h in check["harness"]] + [HARN + "/hx.cpp"]
    if check["scope"] == "core":
        lib = [CORE_DIR + c for c in CORE if os.path.exists(CORE_DIR + c)]
        # a file split off one of the core files by a refactoring: same directories, no sup/dto
        lib += extra_core(lib)
    else:
        lib = sorted(glob.glob(LIB + "/**/*.cpp", recursive=True))
        harness += sorted(glob.glob(STAND + "/src/*.cpp"))
        harness += [HARN + "/fx.cpp"]
    for x in check.get("extra", []):
        lib += sorted(glob.glob(REPO + "/" + x))
    # the slow files first
    return sorted(harness, key=lambda f: -os.path.getsize(f)) + sorted(lib, key=lambda f: -os.path.getsize(f))


def extra_core(known):
    """cpp files that git does not know from the original list and that need no absent dependency."""
    base = set(open(VERIF + "/original_sources.txt").read().split())
    res = []
    for f in sorted(glob.glob(LIB + "/**/*.cpp", recursive=True)):
        rel = os.path.relpath(f, REPO)
        if rel in base or f in known:
            continue
        p = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-I" + LIB, f],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode == 0:
            res.append(f)
    return res


def build(check, variants, pool):
    builders = {v: Builder(v, check["scope"], pool) for v in variants}
    list(pool.map(lambda b: b.make_pch(), builders.values()))
    srcs = sources(check)
    futs = {}
    for s in srcs:
        for v in variants:
            futs[(v, s)] = pool.submit(builders[v].obj, s)
    exes = {}
    for v in variants:
        objs = [futs[(v, s)].result() for s in srcs]
        exes[v] = pool.submit(builders[v].link, objs, check["id"])
    return {v: f.result() for v, f in exes.items()}


def sanitizer_env(variant, leaks=True):
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    symopt = (":external_symbolizer_path=" + sym) if sym else ""
    env["ASAN_OPTIONS"] = ("exitcode=98:halt_on_error=1:handle_abort=1:detect_stack_use_after_return=1:"
                           "check_initialization_order=1:strict_init_order=1:alloc_dealloc_mismatch=1:"
                           "detect_leaks=%d" % (1 if leaks else 0)) + symopt
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98" + symopt
    env["LSAN_OPTIONS"] = "exitcode=98:suppressions=" + HARN + "/lsan.supp"
    env["TSAN_OPTIONS"] = ("halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:"
                           "report_signal_unsafe=0:suppressions=" + HARN + "/tsan.supp") + symopt
    env["LC_ALL"] = "C"
    # for harnesses that compile plugins against the headers of the code under test
    env["HX_PLUGIN_CC"] = "clang++ -std=c++17 -w -O0 -fPIC -shared -I%s -I%s/include" % (LIB, STAND)
    return env


def run_once(check, variant, exe, seed, tier, only, leaks=True):
    tag = "%s-%s" % (check["id"], variant)
    scratch = "%s/scratch/%s-%d" % (BUILD, tag, os.getpid())
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    os.chmod(scratch, 0o777)
    out = scratch + ".result.json"
    err = scratch + ".stderr"
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--variant", variant, "--out", out, "--scratch", scratch]
    if only:
        cmd += ["--only", only]
    limit = check.get("timeout", 300) * (1 if tier == "quick" else 12)
    t0 = time.time()
    timed_out = False
    with open(err, "wb") as e:
        p = subprocess.Popen(cmd, cwd=scratch, stdout=e, stderr=e, stdin=subprocess.DEVNULL,
                             env=sanitizer_env(variant, leaks), start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            timed_out = True
            rc = -1
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    text = open(err, "rb").read().decode(errors="replace")
    res = None
    try:
        res = json.load(open(out))
    except (OSError, ValueError):
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    for f in (out, err):
        if os.path.exists(f):
            os.unlink(f)
    return {"variant": variant, "rc": rc, "timed_out": timed_out, "stderr": text, "result": res,
            "wall": time.time() - t0, "cmd": cmd}


FRAME = re.compile(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?([^\n]*?) (/[^\s:]+):(\d+)", re.M)


def crash_key(text):
    m = re.search(r"(?:SUMMARY|ERROR): (\w+Sanitizer): (data race|lock-order-inversion|[\w-]+)", text)
    kind = "%s:%s" % (m.group(1), m.group(2)) if m else "crash"
    m2 = re.search(r"runtime error: (.*)", text)
    if m2:
        kind = "UBSan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m2.group(1))[:60]
    for f in FRAME.finditer(text):
        if f.group(2).startswith(REPO + "/src"):
            name = re.sub(r"\(.*", "", f.group(1))
            return "%s@%s" % (kind, name.strip())
    return kind


def judge(check, runs, only_keys=None):
    """-> list of (key, detail, run)"""
    viols = []
    for r in runs:
        res = r["result"]
        if res:
            for v in res["violations"]:
                viols.append((v["key"], "%s\n  section: %s\n  case: %s" %
                              (v["detail"], v["section"], v["case"]), r))
        if r["rc"] in (0, 3) and res and res["end"] == "done":
            if r["rc"] == 3 and not res["violations"]:
                raise CheckError("harness exit 3 without a violation")
            continue
        if r["rc"] == 97 or r["timed_out"]:
            # violations recorded before the hang
            for m in re.finditer(r"^=== HX violation \[([^\]]*)\] (.*)", r["stderr"], re.M):
                viols.append((m.group(1), m.group(2), r))
            sec = re.findall(r"=== HX section: (.*)", r["stderr"])
            viols.append(("hang:%s" % (sec[-1].strip() if sec else "whole-run"),
                          "no progress within the limit, twice\n" + r["stderr"][-6000:], r))
            continue
        if "Sanitizer" in r["stderr"] or "runtime error:" in r["stderr"] or \
                r["rc"] in (98, 66) or r["rc"] < 0 or r["rc"] in (134, 139):
            viols.append((crash_key(r["stderr"]), r["stderr"][-20000:], r))
            continue
        raise CheckError("harness ended with %s\n%s" % (r["rc"], r["stderr"][-3000:]))
    return viols


def known_findings(pid):
    res = {}
    path = VERIF + "/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def env_trouble(r):
    t = r["stderr"]
    if "LeakSanitizer has encountered a fatal error" in t or "LeakSanitizer does not work under ptrace" in t:
        return "leaks"
    if "ThreadSanitizer: CHECK failed" in t or "unexpected memory mapping" in t or \
            "failed to allocate" in t or "ReserveShadowMemoryRange failed" in t or \
            "Resource temporarily unavailable" in t:
        return "env"
    if r["rc"] == -9 and not r["timed_out"]:
        return "killed"
    return None


def main():
    args = sys.argv[1:]
    pid = args[0]
    opt = {"--only": None, "--seed": os.environ.get("VERIF_SEED", "1"),
           "--tier": os.environ.get("VERIF_TIER", "quick"), "--variant": None}
    i = 1
    while i < len(args):
        opt[args[i]] = args[i + 1]
        i += 2
    check = dict(CHECKS[pid])
    check["id"] = pid
    seed = int(opt["--seed"])
    tier = "thorough" if opt["--tier"] == "thorough" else "quick"
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(BUILD + "/scratch", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(BUILD + "/replay", exist_ok=True)
    t0 = time.time()
    variants = [opt["--variant"]] if opt["--variant"] else check.get("variants", ["asan", "tsan"])
    # prune the cache
    files = []
    for f in glob.glob(CACHE + "/*"):
        try:  # other checks may be using the same cache
            st = os.stat(f)
            files.append((st.st_mtime, st.st_size, f))
        except OSError:
            pass
    files.sort()
    size = sum(f[1] for f in files)
    while size > 6 * 2 ** 30 and files:
        _, n, f = files.pop(0)
        size -= n
        try:
            os.unlink(f)
        except OSError:
            pass
    pool = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4)
    exes = build(check, variants, pool)
    tb = time.time() - t0
    print("built %s for %s in %.1f s" % (pid, ",".join(variants), tb), flush=True)

    def go(v):
        leaks = True
        r = None
        for attempt in range(3):
            r = run_once(check, v, exes[v], seed, tier, opt["--only"], leaks)
            trouble = env_trouble(r)
            if trouble == "leaks":
                leaks = False
                continue
            if trouble:
                time.sleep(2)
                continue
            if (r["rc"] == 97 or r["timed_out"]) and attempt == 0 and not (r["result"] and r["result"]["violations"]):
                first = r
                r = run_once(check, v, exes[v], seed, tier, opt["--only"], leaks)
                if not (r["rc"] == 97 or r["timed_out"]):
                    print("note: a first run made no progress, a second one did; inconclusive", flush=True)
                    print(first["stderr"][-1500:])
                return r
            return r
        if r is not None and env_trouble(r) in ("env", "killed"):
            raise CheckError("the sanitizer run-time does not work here:\n" + r["stderr"][-2000:])
        return r

    runs = list(cf.ThreadPoolExecutor(max_workers=2).map(go, variants))
    viols = judge(check, runs)
    known = known_findings(pid)
    fresh, seen_known = {}, {}
    for key, detail, r in viols:
        key = re.sub(r"\s+", "_", key)
        if key in known:
            seen_known[key] = detail
        else:
            fresh.setdefault(key, (detail, r))
    evals = sum(r["result"]["evaluations"] for r in runs if r["result"])
    distinct = set()
    counts, samples, exhaustive, assume, rule = {}, [], [], [], ""
    for r in runs:
        if not r["result"]:
            continue
        distinct.update(r["result"]["distinct"])
        for k, n in r["result"]["counts"].items():
            counts.setdefault(k, {})[r["variant"]] = n
        for s in r["result"]["samples"][:6]:
            if s not in samples:
                samples.append(s)
        for s in r["result"]["exhaustive"]:
            if s not in exhaustive:
                exhaustive.append(s)
        for s in r["result"]["assumptions"]:
            if s not in assume:
                assume.append(s)
        rule = r["result"]["rule"] or rule
    if not fresh and (evals == 0 or len(distinct) < 1):
        raise CheckError("inconclusive: the workload observed nothing (%d evaluations, %d distinct)" %
                         (evals, len(distinct)))
    cov = {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": rule,
           "samples": samples[:8] or ["(none recorded)"], "observed": counts,
           "runs": [{"variant": r["variant"], "exit": r["rc"], "run_s": round(r["wall"], 2),
                     "evaluations": r["result"]["evaluations"] if r["result"] else 0} for r in runs],
           "build_s": round(tb, 2)}
    if exhaustive:
        cov["enumerated_completely"] = exhaustive
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": check.get("assumptions", []) + assume,
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for r in runs:
        n = r["result"]["evaluations"] if r["result"] else 0
        print("%s: %d cases in %.1f s (exit %s)" % (r["variant"], n, r["wall"], r["rc"]))
    for key, what in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    n = 0
    for key, (detail, r) in sorted(fresh.items()):
        n += 1
        path = "%s/replay/%s-%d.txt" % (BUILD, pid, n)
        with open(path, "w") as f:
            f.write("property %s\nkey %s\nvariant %s\nseed %d tier %s\ncommand (in /verif): "
                    "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s --variant %s%s\n\n%s\n" %
                    (pid, key, r["variant"], seed, tier, seed, tier, pid, r["variant"],
                     (" --only " + opt["--only"]) if opt["--only"] else "", detail))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  key: %s" % key)
        print("  " + detail[:1500].replace("\n", "\n  "))
        if n >= 10:
            break
    return 1 if fresh else 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
