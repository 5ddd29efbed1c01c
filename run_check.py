#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree with sanitizers, runs it in shards, judges what the monitors
observed.  usage: run_check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]  |  run_check.py --setup
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer."""
import fnmatch, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import resource

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NCPU = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

COMMON = ["-std=c++20", "-DSPARROW_USE_DATE_POLYFILL", "-I%s/include" % REPO, "-I%s/lib" % HERE, "-D_GLIBCXX_ASSERTIONS",
          "-include", "%s/lib/vt_contracts.hpp" % HERE, "-pthread", "-w"]
SAN = {
    "asan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "clang": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-divide-by-zero",
                          "-fno-sanitize-recover=all"]),
    "tsan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]),
    "plain": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer"]),
}
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:detect_stack_use_after_return=1:strict_string_checks=1:"
                        "check_initialization_order=1:allocator_may_return_null=0:max_allocation_size_mb=4000:"
                        "malloc_fill_byte=171:max_malloc_fill_size=65536:quarantine_size_mb=32:alloc_dealloc_mismatch=1:"
                        "new_delete_type_mismatch=1:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=96",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def files_digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_one(cmd, out):
    tmp = "%s.%d.tmp.o" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    os.replace(tmp, out)


def build(check, san):
    """Returns the path of the harness executable, built from the current working tree."""
    os.makedirs(BUILD, exist_ok=True)
    cxx, flags = SAN[san]
    headers = [p for p in glob.glob(REPO + "/include/**/*", recursive=True) if os.path.isfile(p)]
    libsrc = sorted(p for p in glob.glob(REPO + "/src/**/*.cpp", recursive=True) if os.path.basename(p) != "dummy32bit.cpp")
    libhdr = glob.glob(REPO + "/src/**/*.hpp", recursive=True)
    repo_digest = files_digest(headers + libsrc + libhdr)
    ours = files_digest(glob.glob(HERE + "/lib/*.hpp"))
    model = check.get("model", check.get("lib", True))
    srcs = [os.path.join(HERE, "harness", s) for s in check["src"]]
    jobs, objs, libobjs = [], [], []
    extra = check.get("flags", [])
    if check.get("lib", True):
        contracts = files_digest([HERE + "/lib/vt_contracts.hpp"])
        for s in libsrc:
            o = os.path.join(BUILD, "lib-%s-%s.o" % (os.path.basename(s)[:-4], sha(repo_digest, contracts, cxx, *flags, s)))
            libobjs.append(o)
            if not os.path.exists(o):
                jobs.append(([cxx] + flags + COMMON + ["-c", s], o))
    for s in srcs:
        parts = check.get("parts", 1)
        for part in range(parts):
            px = ["-DVT_PART=%d" % part, "-DVT_PARTS=%d" % parts] if parts > 1 else []
            o = os.path.join(BUILD, "h-%s-%s.o" % (os.path.basename(s)[:-4],
                                                    sha(repo_digest, ours, open(s, "rb").read(), cxx, *flags, *extra, *px)))
            objs.append(o)
            if not os.path.exists(o):
                jobs.insert(part, ([cxx] + flags + COMMON + extra + px + ["-c", s], o))
    for name, nparts, wanted in (("battery", 4, check.get("battery")), ("model", 5, model), ("views", 3, check.get("views"))):
        m = HERE + "/lib/%s.cpp" % name
        for part in range(nparts if wanted else 0):
            o = os.path.join(BUILD, "m-%s-%d-%s.o" % (name, part, sha(repo_digest, ours, open(m, "rb").read(), cxx, *flags)))
            objs.append(o)
            if not os.path.exists(o):
                jobs.insert(0, ([cxx] + flags + COMMON + ["-DVT_PART=%d" % part, "-c", m], o))
    exe = os.path.join(BUILD, "x-%s-%s" % (check["src"][0][:-4], sha(*objs, *libobjs)))
    if os.path.exists(exe):
        return exe
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(compile_one, c, o) for c, o in jobs]:
            f.result()
    libs = ["-ldate-tz"] if libobjs else []
    compile_one([cxx] + flags + ["-pthread"] + objs + libobjs + libs + check.get("ldflags", []), exe)
    return exe


# ------------------------------------------------------------------------------------------------ crash attribution
def strip_templates(s):
    out, d = [], 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d = max(0, d - 1)
        elif d == 0:
            out.append(ch)
    s = "".join(out)
    i = s.find("(")
    if i > 0:
        s = s[:i]
    return s.strip().split(" ")[-1]


def classify(err, rc):
    """kind, location of a dead process"""
    m = re.search(r"CONTRACT-FAILURE: (.*) at (\S+):(\d+) in (.*)", err)
    if m:
        return "contract", "%s@%s" % (re.sub(r"\s+", "", m.group(1)), m.group(2))
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    kind = None
    if m:
        kind = "asan-" + m.group(1)
    else:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:70]
        else:
            m = re.search(r"(?:/[^ ]*/)?(\w+\.h(?:pp)?):\d+: .*Assertion '(.*)' failed", err)
            if m:
                kind = "libstdcxx-assertion"
            else:
                m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
                kind = "terminate-" + m.group(1) if m else "died-%d" % rc
    loc = "?"
    for fm in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+|\(\S+\))", err, re.M):
        fn, where = fm.group(1), fm.group(2)
        if where.startswith(REPO + "/"):
            name = strip_templates(fn)
            loc = name + "@" + os.path.basename(where.split(":")[0])
            break
    return kind, loc


class Job:
    def __init__(self, check, exe, mode, cases, seed, tier, tmp, opts):
        self.__dict__.update(check=check, exe=exe, mode=mode, cases=cases, seed=seed, tier=tier, tmp=tmp, opts=opts)


def last_case(progress):
    with open(progress, "rb") as f:
        b = f.read()
    cur, done = struct.unpack_from("<QQ", b)
    return cur, done, b[16:256].split(b"\0")[0].decode("latin1")


def cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


# Once something has been observed, a quick run does not go on for longer than this: an answer is required in 900 s
DEADLINE = {"at": None, "found": False}


def cut_short():
    return DEADLINE["found"] and DEADLINE["at"] is not None and time.time() > DEADLINE["at"]


def run_proc(cmd, progress, env, hang_cpu):
    """Runs until exit or until one case has used hang_cpu seconds of CPU. -> rc, stdout, stderr, hung"""
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=env, start_new_session=True)
        hung, seen, at, wall = False, None, 0.0, time.time()
        while True:
            try:
                p.wait(0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                cur = last_case(progress)[0]
            except (OSError, struct.error):
                cur = None
            if cut_short():
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return 0, "", "", False
            c = cpu_time(p.pid)
            if cur != seen:
                seen, at, wall = cur, c, time.time()
            elif c - at > hang_cpu or time.time() - wall > hang_cpu * 5:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        fo.seek(0)
        fe.seek(0)
        out = fo.read().decode("latin1")
        err = fe.read(4000000).decode("latin1")
        return p.returncode, out, err, hung


def run_shard(job, shard, nshards, only=None):
    """-> dict(observations=[...], covers=[...], inconclusive=[...])"""
    res = {"obs": [], "covers": [], "inconclusive": []}
    start, crashes, hangs, retried = 0, 0, 0, set()
    progress = os.path.join(job.tmp, "p-%s-%d" % (job.mode or "x", shard))
    hashes = os.path.join(job.tmp, "h-%s-%d" % (job.mode or "x", shard))
    env = dict(ENV)
    for k, v in job.opts.get("env", {}).items():
        env[k] = env[k] + ":" + v if k.endswith("SAN_OPTIONS") and k in env else v
    hang_cpu = job.opts.get("hang_cpu", 60)
    while True:
        if os.path.exists(progress):
            os.unlink(progress)
        cmd = list(job.opts.get("wrap", [])) + [job.exe, "--seed", str(job.seed), "--cases", str(job.cases), "--shard", str(shard),
               "--nshards", str(nshards), "--start", str(start), "--tier", job.tier, "--progress", progress, "--hashes", hashes]
        if job.mode:
            cmd += ["--mode", job.mode]
        if only is not None:
            cmd += ["--only", str(only)]
        rc, out, err, hung = run_proc(cmd, progress, env, hang_cpu)
        if cut_short():
            return res
        for line in out.splitlines():
            if line.startswith("V\t"):
                f = (line.split("\t") + ["", "", ""])[:4]
                res["obs"].append({"key": f[1], "case": int(f[2] or 0), "detail": f[3], "mode": job.mode})
            elif line.startswith("COVER\t"):
                try:
                    res["covers"].append(json.loads(line[6:]))
                except ValueError:
                    pass
        if "WARNING: ThreadSanitizer" in err:
            for blk in err.split("WARNING: ThreadSanitizer: ")[1:]:
                mark = re.findall(r"^VT-CASE (\d+)", blk, re.M)
                kind = "tsan-" + re.sub(r"[^\w]+", "-", blk.split("(")[0].strip())
                loc = "?"
                for fm in re.finditer(r"^\s*#\d+ (.+?) (/\S+):\d+", blk, re.M):
                    if fm.group(2).startswith(REPO + "/"):
                        loc = strip_templates(fm.group(1)) + "@" + os.path.basename(fm.group(2).split(":")[0])
                        break
                res["obs"].append({"key": "-|%s|%s" % (kind, loc), "case": int(mark[0]) if mark else 0, "detail": blk[:3000], "mode": job.mode})
        try:
            cur, done, label = last_case(progress)
        except (OSError, struct.error):
            cur, done, label = start, 0, "-"
        if done and not hung:
            if rc not in (0, 66):
                kind, loc = classify(err, rc)
                res["obs"].append({"key": "exit|crash|%s|%s" % (kind, loc), "case": cur, "detail": err[-3000:], "mode": job.mode})
            return res
        if hung:
            if (cur not in retried) and only is None:
                retried.add(cur)
                hangs += 1
                # run that case alone, with twice the allowance (once, if that is minutes), before calling it a hang
                j2 = Job(job.check, job.exe, job.mode, job.cases, job.seed, job.tier, tempfile.mkdtemp(dir=job.tmp), dict(job.opts, hang_cpu=hang_cpu * 2 if hang_cpu <= 60 else hang_cpu))
                r2 = run_shard(j2, shard, nshards, only=cur)
                for k in res:
                    res[k] += r2[k]
            else:
                res["obs"].append({"key": "%s|hang" % label, "case": cur, "detail": "no progress after %g s of CPU" % hang_cpu, "mode": job.mode})
        elif rc == -9:
            res["inconclusive"].append("case %d killed (memory?)" % cur)
        elif not (rc == 66 and "WARNING: ThreadSanitizer" in err):   # reported above
            kind, loc = classify(err, rc)
            res["obs"].append({"key": "%s|crash|%s|%s" % (label, kind, loc), "case": cur, "detail": err[:6000], "mode": job.mode})
        crashes += 1
        DEADLINE["found"] = DEADLINE["found"] or bool(res["obs"])
        if only is not None or crashes >= 12 or hangs >= 2 or cut_short():
            return res
        start = cur + 1
        if start >= job.cases:
            return res


# ------------------------------------------------------------------------------------------------ judging
def load_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def match_finding(pid, key, findings):
    for f in findings:
        if f["property"] == pid and any(fnmatch.fnmatchcase(key, re.sub(r"\[", "[[]", pat)) for pat in f["match"]):
            return f
    return None


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        for t in ("g++", "python3"):
            if not shutil.which(t):
                log("missing", t)
                return 1
        os.makedirs(BUILD, exist_ok=True)
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    scale = 1.0
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--seed":
            seed = int(args[i + 1])
        elif args[i] == "--replay":
            replay = json.load(open(args[i + 1]))
        elif args[i] == "--scale":
            scale = float(args[i + 1])
        i += 2
    check = CHECKS[pid]
    t0 = time.time()
    if tier == "quick":
        DEADLINE["at"] = t0 + 600
    if replay:
        tier, seed = replay["tier"], replay["seed"]
    jobs = check["jobs"]
    exes = {}
    try:
        for j in jobs:
            if tier == "quick" and j.get("thorough_only"):
                continue
            san = j.get("san", "asan")
            if san not in exes:
                exes[san] = build(check, san)
    except BuildError as e:
        log("build failed:", e)
        return 2
    tb = time.time()
    tmp = tempfile.mkdtemp(prefix="vt-")
    obs, covers, inconclusive, evals = [], [], [], 0
    hashes = set()
    try:
        tasks = []
        for n, j in enumerate(jobs):
            if tier == "quick" and j.get("thorough_only"):
                continue
            cases = max(1, int(j["quick" if tier == "quick" else "thorough"] * scale)) if not j.get("fixed") else j["fixed"]
            jt = os.path.join(tmp, str(n))
            os.makedirs(jt)
            job = Job(check, exes[j.get("san", "asan")], j.get("mode", ""), cases, seed, tier, jt, j)
            if replay:
                if replay["mode"] == job.mode and replay.get("san", "asan") == j.get("san", "asan"):
                    tasks.append((job, 0, 1, replay["case"]))
                continue
            ns = min(j.get("shards", NCPU), cases)
            tasks += [(job, k, ns, None) for k in range(ns)]
        with ThreadPoolExecutor(check.get("parallel", NCPU)) as ex:
            futs = [(t, ex.submit(run_shard, *t)) for t in tasks]
            for t, f in futs:
                r = f.result()
                for o in r["obs"]:
                    o["san"] = t[0].opts.get("san", "asan")
                obs += r["obs"]
                covers += r["covers"]
                inconclusive += r["inconclusive"]
        for p in glob.glob(tmp + "/**/h-*", recursive=True):
            b = open(p, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    counters, samples, allocs = {}, [], 0
    for c in covers:
        evals += c["evaluated"]
        allocs += c["allocs"]
        for k, v in c["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for s in c["samples"]:
            if len(samples) < 6:
                samples.append(s)
    kf = load_findings()
    unknown, known = {}, {}
    for o in obs:
        f = match_finding(pid, o["key"], kf["findings"])
        if f:
            known.setdefault(f["what"], []).append(o)
        else:
            unknown.setdefault(o["key"], []).append(o)
    if replay:
        for o in obs:
            print("OBSERVED", o["key"], "case", o["case"], o["detail"])
        print("replay:", "violation reproduced" if unknown else "nothing unlisted observed")
        return 1 if unknown else 0
    for f in kf["findings"]:
        if f["property"] == pid:
            n = len(known.get(f["what"], []))
            print("KNOWN-FINDING: property=%s %s [observed %d times in this run]" % (pid, f["what"], n))
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": check.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": check["rule"], "samples": samples or ["-"],
            "events_observed": counters, "allocations_tracked": allocs,
            "instrumentation": sorted(exes), "known_findings_observed": {k: len(v) for k, v in known.items()},
            "inconclusive": inconclusive[:10],
            "violation_keys": sorted(unknown)[:50],
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(unknown),
    }
    rc = 0
    first = None
    for k, os_ in sorted(unknown.items()):
        o = os_[0]
        rp = os.path.join("evidence", "replay", "%s-%s.json" % (pid, sha(k)[:10]))
        with open(os.path.join(HERE, rp), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "mode": o["mode"], "san": o.get("san", "asan"), "case": o["case"], "key": k,
                       "detail": o["detail"], "replay_cmd": "python3 run_check.py %s --replay %s" % (pid, rp)}, f, indent=1)
        log("  observed: %s  (case %s x%d) %s" % (k, o["case"], len(os_), o["detail"][:600].replace("\n", " ")))
        if first is None:
            first = rp
        rc = 1
    missing = [c for c in check.get("must_see", []) if not counters.get(c)]
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %d cases, %d distinct, build %.1fs, total %.1fs, %d unlisted, counters %s" %
        (pid, evals, len(hashes), tb - t0, time.time() - t0, len(unknown), json.dumps(counters)[:1500]))
    if rc:
        print("VIOLATION property=%s replay=%s" % (pid, first))
        return 1
    if evals == 0 or not hashes or missing:
        log("nothing observed / not reached:", missing)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
