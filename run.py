#!/usr/bin/env python3
"""Driver of the monitoring checks.

  run.py C01                 run the check of property C01 (VERIF_SEED, VERIF_TIER)
  run.py C01 --replay FILE   run the recorded case again
  run.py --setup             compile everything once (fills the object cache)
"""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import zlib

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import build as B  # noqa: E402
from checks import CHECKS  # noqa: E402

REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ findings
def load_findings():
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


# ------------------------------------------------------------- crash reports
FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.+?) (/\S+?):(\d+)")


def short_fn(fn):
    fn = re.sub(r"\(.*", "", fn)
    fn = re.sub(r"<.*", "", fn)
    return fn.strip().replace(" ", "_")


def repo_frames(text):
    out = []
    for m in FRAME.finditer(text):
        if m.group(2).startswith(B.REPO + "/") or "/./" in m.group(2) and B.REPO in m.group(2):
            out.append((short_fn(m.group(1)), os.path.relpath(m.group(2), B.REPO)))
    return out


def classify_crash(rc, err):
    """A key that names what failed but not where on the line it was written."""
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        fr = repo_frames(err[m.start():])
        return "asan:%s:%s" % (m.group(1), fr[0][0] if fr else "?")
    m = re.search(r"ThreadSanitizer: (SEGV|CHECK failed|\S*deadly signal\S*)", err)
    if m:
        return "tsan-crash:" + m.group(1).replace(" ", "_")
    m = re.search(r"([\w./-]+\.(?:cc|h|hpp)):\d+\] (Check failed:[^\n]*)", err)
    if m:
        txt = re.sub(r"\([^)]*vs\.[^)]*\)", "", m.group(2))
        txt = re.sub(r"[-+]?\d+\.?\d*(e[-+]?\d+)?", "#", txt)
        return "check:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"\s+", "_", txt)[13:80])
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m:
        return "exception:" + m.group(1).replace(" ", "_")
    m = re.search(r"what\(\):\s*(\S+)", err)
    if rc < 0:
        try:
            return "signal:" + signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "exit:%d" % rc


def ubsan_reports(err):
    out = {}
    for m in re.finditer(r"^(\S+?):(\d+):(?:\d+:)? runtime error: ([^\n]*)", err, re.M):
        path = os.path.normpath(m.group(1))
        if not path.startswith(B.REPO + "/"):
            continue
        kind = re.sub(r"[-+]?\d+\.?\d*(e[-+]?\d+)?", "#", m.group(3))
        kind = re.sub(r"-?nan|-?inf", "#", kind)
        key = "ubsan:%s:%s" % (os.path.relpath(path, B.REPO), re.sub(r"\s+", "_", kind)[:70])
        out.setdefault(key, m.group(0)[:300])
    return out


def tsan_reports(err, ignore):
    """key -> text of every ThreadSanitizer report that involves repository code."""
    out = {}
    for blk in re.split(r"={18,}", err):
        m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", blk)
        if not m:
            continue
        kind = m.group(1).strip().replace(" ", "_")
        # the stacks of the two accesses (or lock acquisitions) only
        parts = re.split(r"\n\n", blk)
        acc, fr = [], []
        for p in parts:
            if re.search(r"(Write|Read|write|read|acquired|[Mm]utex .* acquired|Atomic|Cycle)", p.split("\n")[0]) or \
               "WARNING: ThreadSanitizer" in p:
                f = repo_frames(p)
                if f:
                    acc.append(f[0])
                fr += f
        if not acc:
            if os.environ.get("VERIF_SHOW_DROPPED"):
                log("[dropped]", blk.strip()[:1500])
            continue
        names = sorted(set("%s@%s" % (a, b) for a, b in acc))
        key = "tsan:%s:%s" % (kind, "|".join(names)[:160])
        if any(re.search(i, key) or re.search(i, blk) for i in ignore):
            continue
        out.setdefault(key, blk.strip()[:3000])
    return out


def self_test():
    """The report parsers must recognise what the sanitizers print."""
    t = ("==================\nWARNING: ThreadSanitizer: data race (pid=1)\n  Write of size 1 at 0x7ffe by main thread:\n"
         "    #0 a::B::~B() %s/x/y.cc:53 (prog+0x1) (BuildId: 0)\n\n  Previous read of size 1 at 0x7ffe by thread T1:\n"
         "    #0 a::B::f() %s/x/y.cc:124 (prog+0x1)\n\n==================\n" % (B.REPO, B.REPO))
    if len(tsan_reports(t, [])) != 1:
        raise RuntimeError("race reports are not understood")
    t = "ERROR: AddressSanitizer: heap-buffer-overflow on address\n    #0 0x56 in a::b(int) %s/x/y.cc:3\n" % B.REPO
    if classify_crash(99, t) != "asan:heap-buffer-overflow:a::b":
        raise RuntimeError("memory reports are not understood")


# ------------------------------------------------------------------- running
SAN_ENV = {
    "asan": {
        "ASAN_OPTIONS": "detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=8192:detect_odr_violation=0:detect_stack_use_after_return=0:handle_abort=0:check_initialization_order=0",
        "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=0",
        "LSAN_OPTIONS": "exitcode=98",
    },
    "tsan": {
        "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:history_size=4:report_signal_unsafe=0:second_deadlock_stack=1:report_thread_leaks=0:suppressions=" + os.path.join(VERIF, "lib", "tsan.supp"),
    },
}


def one_process(run, prog, shard, shards, seed, tier, only=None, tag=""):
    work = os.path.join(B.BUILD, "run", "%s-%s%s-%d" % (run["name"], run["mode"], tag, os.getpid()), "s%d" % shard)
    if os.path.isdir(work):
        shutil.rmtree(work)
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch)
    out = os.path.join(work, "events.jsonl")
    cases = run["cases"][tier]
    cmd = [prog, "--seed", str(seed), "--cases", str(cases), "--shard", str(shard), "--shards", str(shards),
           "--tier", tier, "--out", out, "--scratch", scratch]
    if only is not None:
        cmd += ["--case", str(only)]
    for k, v in run.get("args", {}).items():
        cmd += ["--" + k, str(v)]
    env = dict(os.environ)
    env["HOME"] = scratch
    env["GLOG_logtostderr"] = "1"
    env["OMP_NUM_THREADS"] = str(run.get("omp", 4))
    for k, v in SAN_ENV.get(run["mode"], {}).items():
        if "%d" in v:
            v = v % (1 if run.get("leaks") else 0)
        env[k] = v
    env.update(run.get("env", {}))
    errp = os.path.join(work, "stderr.txt")
    limit = run.get("timeout", 240) * (1 if tier == "quick" else 2.5)
    t0 = time.time()
    timed_out = False
    with open(errp, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=scratch, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            rc = p.wait()
    err = open(errp, "rb").read().decode("utf-8", "replace")
    if len(err) > 20_000_000:
        err = err[:10_000_000] + err[-10_000_000:]
    recs = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    cur = -1
    try:
        cur = int.from_bytes(open(out + ".cur", "rb").read(8), "little", signed=True)
    except OSError:
        pass
    shutil.rmtree(work, ignore_errors=True)
    try:
        os.rmdir(os.path.dirname(work))
    except OSError:
        pass
    return dict(rc=rc, err=err, recs=recs, cur=cur, timed_out=timed_out, wall=time.time() - t0, cmd=cmd, shard=shard)


class Result:
    def __init__(self):
        self.evaluations = 0
        self.covers = set()
        self.counters = {}
        self.samples = []
        self.violations = []  # dict(key, detail, case, run)
        self.errors = []


def digest(run, res, r):
    """Turns the observations of one process into verdict material."""
    done = False
    for rec in r["recs"]:
        if rec["type"] == "violation":
            res.violations.append(dict(key=rec["key"], detail=rec["detail"], case=rec["case"], run=run["name"],
                                       mode=run["mode"], shard=r["shard"]))
        elif rec["type"] == "error":
            res.errors.append("%s: %s" % (run["name"], rec["detail"]))
            return
        elif rec["type"] == "done":
            done = True
            res.evaluations += rec["evaluations"]
            res.covers.update(run["name"] + h for h in rec["covers"])
            for k, v in rec["counters"].items():
                res.counters[k] = res.counters.get(k, 0) + v
            res.samples += rec["samples"][:2]
    if run["mode"] == "asan":
        for k, t in ubsan_reports(r["err"]).items():
            res.violations.append(dict(key=k, detail=t, case=r["cur"], run=run["name"], mode=run["mode"], shard=r["shard"]))
    if run["mode"] == "tsan":
        rep = tsan_reports(r["err"], run.get("tsan_ignore", []))
        for k, t in rep.items():
            res.violations.append(dict(key=k, detail=t, case=r["cur"], run=run["name"], mode=run["mode"], shard=r["shard"]))
    if run.get("leaks") and "ERROR: LeakSanitizer" in r["err"] and "ERROR: AddressSanitizer" not in r["err"]:
        fr = []
        for blk in re.findall(r"(?:Direct|Indirect) leak of.*?\n\n", r["err"], re.S):
            f = repo_frames(blk)
            if f:
                fr.append(f[0])
        if fr:
            res.violations.append(dict(key="leak:%s@%s" % fr[0], detail=r["err"][-2000:], case=-1, run=run["name"],
                                       mode=run["mode"], shard=r["shard"]))
        return
    if r["rc"] != 0 or not done:
        if r["rc"] == 70 or (r["cur"] < 0 and not r["timed_out"]):
            res.errors.append("%s: harness failed before the first case (rc=%s): %s" % (run["name"], r["rc"], r["err"][-800:]))
            return
        if r["timed_out"]:
            key = "hang"
        elif r["rc"] == -signal.SIGKILL:
            res.errors.append("%s: process was killed (out of memory?)" % run["name"])
            return
        else:
            key = classify_crash(r["rc"], r["err"])
        tail = r["err"][-1500:]
        m = re.search(r"(ERROR: AddressSanitizer.*?)(?:\nSUMMARY|\Z)", r["err"], re.S)
        if m:
            tail = m.group(1)[:2500]
        else:
            m = re.search(r"[^\n]*Check failed[^\n]*|terminate called[^\n]*(?:\n[^\n]*what[^\n]*)?", r["err"])
            if m:
                tail = m.group(0) + " ... " + tail
        res.violations.append(dict(key=key, detail="case %d, rc %s: %s" % (r["cur"], r["rc"], tail), case=r["cur"],
                                   run=run["name"], mode=run["mode"], shard=r["shard"]))


def build_run(run):
    t0 = time.time()
    prog = B.build(run["name"], run["mode"], run["harness"], run.get("sources", []), run.get("extra", []),
                   run.get("flags", []), note=log)
    log("[build] %s/%s %.1fs" % (run["name"], run["mode"], time.time() - t0))
    return prog


def execute(run, prog, seed, tier, res):
    shards = run.get("shards", 1)
    if isinstance(shards, dict):
        shards = shards[tier]
    results = []
    with concurrent.futures.ThreadPoolExecutor(run.get("parallel", 8)) as ex:
        futs = [ex.submit(one_process, run, prog, s, shards, seed, tier) for s in range(shards)]
        results = [f.result() for f in futs]
    for i, r in enumerate(results):
        if r["timed_out"]:
            # inconclusive: try this shard again, alone
            log("[run] %s shard %d timed out, repeating" % (run["name"], i))
            results[i] = one_process(run, prog, i, shards, seed, tier)
    for r in results:
        digest(run, res, r)
    log("[run] %s/%s %d shards, slowest %.1fs" % (run["name"], run["mode"], shards, max(r["wall"] for r in results)))


def check(pid, tier, seed):
    self_test()
    spec = CHECKS[pid]
    t0 = time.time()
    res = Result()
    if "script" in spec:
        # checks that drive built programs rather than a harness
        spec["script"](sys.modules[__name__], B, spec, res, seed, tier)
    runs = [dict(r) for r in spec.get("runs", []) if not (tier == "quick" and r.get("thorough_only"))]
    progs = []
    for r in runs:
        try:
            progs.append(build_run(r))
        except B.BuildError as e:
            log(str(e))
            print("ERROR property=%s the harness could not be built" % pid)
            return 2
    for r, prog in zip(runs, progs):
        execute(r, prog, seed, tier, res)
        if res.violations and tier == "quick":
            # one broken run decides; do not spend the rest of the budget
            known = load_findings()
            if any(not any(k[0] == pid and k[1] == v["key"] for k in known) for v in res.violations):
                break

    known = load_findings()
    hit, fresh = {}, []
    for v in res.violations:
        k = [e for e in known if e[0] == pid and e[1] == v["key"]]
        if k:
            hit[v["key"]] = k[0][2]
        else:
            fresh.append(v)
    for key, what in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))

    wall = time.time() - t0
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": res.evaluations,
            "distinct_nontrivial": len(res.covers),
            "rule": spec["rule"],
            "samples": res.samples[:12] or ["(none)"],
            "counters": res.counters,
        },
        "assumptions": spec.get("assumptions", []),
        "violations": len(set(v["key"] for v in fresh)),
        "wall_s": round(wall, 2),
    }
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%d.json" % (pid, tier, seed))
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "violations": fresh[:30]}, f, indent=1)
        for v in fresh[:6]:
            log("[violation] %s case %s (%s): %s" % (v["key"], v["case"], v["run"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if res.errors:
        for e in res.errors[:5]:
            log("[error]", e)
        print("ERROR property=%s the machinery failed" % pid)
        return 2
    need = spec.get("min_evaluations", 1)
    if res.evaluations < need or len(res.covers) < spec.get("min_distinct", 2):
        print("ERROR property=%s observed too little: %d evaluations, %d distinct" % (pid, res.evaluations, len(res.covers)))
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" %
          (pid, tier, seed, res.evaluations, len(res.covers), wall))
    return 0


def replay(pid, path):
    rec = json.load(open(path))
    v = rec["violations"][0]
    spec = CHECKS[pid]
    run = [r for r in spec["runs"] if r["name"] == v["run"] and r["mode"] == v["mode"]][0]
    prog = build_run(run)
    res = Result()
    only = v["case"] if v["case"] >= 0 else None
    r = one_process(run, prog, v["shard"], 1, rec["seed"], rec["tier"], only=only, tag="-replay")
    digest(run, res, r)
    for x in res.violations:
        print(x["key"], x["detail"][:2000])
    return 1 if res.violations else 0


def setup():
    """Compiles every harness once; failures are left to the checks."""
    t0 = time.time()
    done = set()
    runs = [r for spec in CHECKS.values() for r in spec.get("runs", [])]
    B.warm([(r["mode"], r["harness"], r["sources"], r.get("extra", ()), r.get("flags", ())) for r in runs])
    log("[setup] compiled after %.1fs" % (time.time() - t0))
    for pid, spec in CHECKS.items():
        for r in spec.get("runs", []):
            key = (r["name"], r["mode"])
            if key in done:
                continue
            done.add(key)
            try:
                build_run(r)
            except B.BuildError as e:
                log("[setup] %s: %s" % (key, str(e)[:500]))
        if "prepare" in spec:
            try:
                spec["prepare"](sys.modules[__name__], B, spec)
            except Exception as e:  # noqa: BLE001
                log("[setup] %s: %s" % (pid, e))
    log("[setup] %.1fs" % (time.time() - t0))
    return 0


def main():
    if sys.argv[1:2] == ["--setup"]:
        return setup()
    pid = sys.argv[1]
    if sys.argv[2:3] == ["--replay"]:
        return replay(pid, sys.argv[3])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0x7FFFFFFFFFFFFFFF
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    return check(pid, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        print("ERROR the driver failed: %s" % e)
        sys.exit(2)
