#!/usr/bin/env python3
"""Builds and runs one property check.

usage: run_check.py <property id> [--tier quick|thorough] [--seed N] [--keep]

Exit 0: the property held on every generated case.
Exit 1 with "VIOLATION property=<id> replay=<path>": a case fails reproducibly.
Anything else: the check itself could not be run.
"""
import argparse, glob, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, PACKAGES  # noqa: E402

JOBS = max(2, min(16, os.cpu_count() or 8))
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


BASE = ["-std=c++17", "-g1", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-w", "-fno-omit-frame-pointer",
        "-ftrivial-auto-var-init=pattern", "-DVERIF=1", "-pthread",
        # as in the installed PCL libraries, which exchange Eigen-allocated memory with the harnesses
        "-DEIGEN_MALLOC_ALREADY_ALIGNED=1"]
SAN = ["-fsanitize=address,undefined",
       "-fno-sanitize=vptr,alignment,null,pointer-overflow,object-size,nonnull-attribute,returns-nonnull-attribute",
       "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]


def include_flags(spec):
    f = ["-I" + os.path.join(VERIF, "harness")]
    for d in spec.get("stub_dirs", ["stubs"]):
        f.append("-I" + os.path.join(VERIF, d))
    for p in PACKAGES:
        for sub in ("include", "testlib"):
            d = os.path.join(REPO, p, sub)
            if os.path.isdir(d):
                f.append("-I" + d)
    f += ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/pcl-1.14"]
    return f


LIBS = {
    "pcl": ["-lpcl_common"],
    "pclio": ["-lpcl_io", "-lpcl_common", "-lboost_filesystem"],
    "pclfilters": ["-lpcl_filters", "-lpcl_search", "-lpcl_kdtree", "-lpcl_octree", "-lpcl_sample_consensus", "-lpcl_common"],
}


def sources(spec):
    out = []
    for pat in spec.get("repo", []):
        neg = pat.startswith("!")
        hits = sorted(glob.glob(os.path.join(REPO, pat.lstrip("!")), recursive=True))
        if neg:
            out = [x for x in out if x not in hits]
        else:
            out += [x for x in hits if x not in out]
    return out


def san_flags(spec):
    return SAN if spec.get("sanitize", True) else []


def compile_all(spec, bdir, mode):
    """mode: asan | tsan | fuzz. Returns the path of the binary."""
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    cxx = "clang++" if mode == "fuzz" else "g++"
    flags = list(BASE)
    if mode == "tsan":
        flags += TSAN + ["-O1"]
    else:
        flags += san_flags(spec) + [spec.get("opt", "-O1")]
    if mode == "fuzz":
        flags += ["-fsanitize=fuzzer-no-link", "-DPBT_FUZZ"]
    flags += include_flags(spec) + spec.get("flags", [])
    jobs = []
    hs = [os.path.join(VERIF, "harness", h) for h in
          (spec.get("tsan_harness", []) if mode == "tsan" else spec["harness"])]
    if mode != "tsan":
        hs = hs + [os.path.join(VERIF, "harness", "pbt.cpp")]
    for h in spec.get("extra_sources", []):
        hs.append(os.path.join(VERIF, h))
    reposrc = spec.get("tsan_repo", []) if mode == "tsan" else None
    rs = sources(dict(repo=reposrc)) if reposrc is not None else sources(spec)
    for i, s in enumerate(hs + rs):
        o = os.path.join(bdir, "%02d_%s.o" % (i, os.path.basename(s)))
        extra = []
        # main() of an application under another name: a list, or a mapping from file to name
        mains = spec.get("main_renamed", [])
        mains = mains if isinstance(mains, dict) else {x: "app_main" for x in mains}
        if s.startswith(REPO + os.sep) and os.path.relpath(s, REPO) in mains:
            extra = ["-Dmain=" + mains[os.path.relpath(s, REPO)]]
        jobs.append((s, o, [cxx] + flags + extra + ["-c", s, "-o", o]))

    def one(j):
        r = subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return j, r.returncode, r.stdout
    dropped = []
    with ThreadPoolExecutor(JOBS) as ex:
        todo = jobs
        for _ in range(8):
            bad = [(j, o) for j, rc, o in ex.map(one, todo) if rc != 0]
            todo = []
            for j, o in bad:
                cut = without_relations(j[0], o, bdir, dropped)
                if cut is None:
                    die("compiling %s failed:\n%s" % (j[0], o[-6000:]))
                todo.append(recompile_as(jobs, j, cut))
            if not todo:
                binp, o = link(spec, bdir, mode, cxx, jobs)
                if binp:
                    break
                for j in list(jobs):
                    cut = without_relations(j[0], o, bdir, dropped)
                    if cut is not None:
                        todo.append(recompile_as(jobs, j, cut))
                if not todo:
                    die("linking failed:\n%s" % o[-6000:])
        else:
            die("compiling failed even without the relations " + ", ".join(dropped))
    if dropped:
        log("relations that cannot be compiled against this tree:", ", ".join(dropped))
        spec["dropped"] = sorted(set(spec.get("dropped", []) + dropped))
    return binp


def recompile_as(jobs, job, source):
    new = (source, job[1], [source if x == job[0] else x for x in job[2]])
    jobs[jobs.index(job)] = new
    return new


def without_relations(source, output, bdir, dropped):
    """A copy of a harness without the relations which the compiler or linker complains about.

    A relation may use an internal helper which an edit has renamed; the others still decide the property.
    None if the complaint is not about a relation, or if none would be left."""
    if not (source.startswith(os.path.join(VERIF, "harness") + os.sep) or source.startswith(bdir + os.sep)):
        return None
    name = os.path.basename(source)
    text = open(source).read().split("\n")
    blocks = []
    for i, l in enumerate(text):
        m = re.match(r"(?:HUGE_)?PROP\((\w+)", l)
        if m:
            end = next((k for k in range(i, len(text)) if text[k].startswith("}") or (k == i and l.rstrip().endswith(";"))), None)
            if end is None:
                return None
            blocks.append((i, end, m.group(1)))
    lines = {int(n) - 1 for n in re.findall(r"(?:^|[ /])%s:(\d+):" % re.escape(name), output, re.M)}
    hit = [b for b in blocks if any(b[0] <= n <= b[1] for n in lines)]
    if not hit or len(hit) == len(blocks):
        return None
    names = {b[2] for b in hit}
    for b, e, n in blocks:
        if n in names:
            text[b:e + 1] = [""] * (e + 1 - b)
            dropped.append(n)
    out = os.path.join(bdir, name)
    with open(out, "w") as f:
        f.write("\n".join(text))
    return out


def link(spec, bdir, mode, cxx, jobs):
    binp = os.path.join(bdir, "check")
    san = TSAN if mode == "tsan" else san_flags(spec)
    link = [cxx] + san + (["-fsanitize=fuzzer"] if mode == "fuzz" else []) + ["-pthread"] + [j[1] for j in jobs] + ["-o", binp]
    for l in spec.get("libs", []):
        link += LIBS.get(l, [l])
    link += ["-lfmt", "-lboost_system"] if spec.get("fmt", True) else []
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (binp if r.returncode == 0 else None), r.stdout


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=55:max_malloc_fill_size=1048576:"
                       "malloc_fill_byte=203:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                       "hard_rss_limit_mb=6000:handle_segv=1")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=55"
ENV["OMP_NUM_THREADS"] = "1"


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", env=kw.get("env", ENV), cwd=kw.get("cwd"))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return -999, out


def read_cur(path):
    """The case a crashed process was in: (ordinal, prop index, choices)."""
    with open(path, "rb") as f:
        o, p, n = struct.unpack("<QQQ", f.read(24))
        n = min(n, 1 << 20)
        return o, p, list(struct.unpack("<%dQ" % n, f.read(8 * n)))


def tail(s, n=1500):
    return s[-n:]


def crash_summary(out):
    for line in out.splitlines():
        if re.search(r"runtime error|ERROR: AddressSanitizer|Assertion|terminate called|SUMMARY|what\(\)", line):
            return line.strip()[:400]
    return (out.strip().splitlines() or ["no output"])[-1][:400]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--scale", type=float, default=None)
    a = ap.parse_args()
    pid = a.prop
    spec = CHECKS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    work = os.path.join(VERIF, "build", pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if "python" in spec:
        py = "/opt/veriftools/pyvenv/bin/python"
        if not os.path.exists(py):
            py = shutil.which("python3-vt") or sys.executable
        os.execv(py, [py, os.path.join(VERIF, spec["python"]), pid, tier, str(a.seed)])
    result = Result(pid, spec, tier, a.seed, work)
    log("building", pid)
    binp = compile_all(spec, os.path.join(work, "asan"), "asan")
    log("built")
    scale = (a.scale if a.scale is not None else 1.0 if tier == "quick" else float(spec.get("thorough_scale", 25))) * spec.get("scale", 1.0)
    cap = spec.get("quick_secs", 60) if tier == "quick" else 330
    phase_random(result, binp, scale, cap)
    if not result.failed and spec.get("tsan_harness"):
        phase_tsan(result, spec, tier)
    if not result.failed and tier == "thorough" and spec.get("fuzz", True):
        phase_fuzz(result, spec, binp, 150)
    result.finish()
    if not a.keep:
        shutil.rmtree(os.path.join(work, "asan"), ignore_errors=True)
        shutil.rmtree(os.path.join(work, "tsan"), ignore_errors=True)
        shutil.rmtree(os.path.join(work, "fuzz"), ignore_errors=True)
    sys.exit(1 if result.failed else 0)


class Result:
    def __init__(self, pid, spec, tier, seed, work):
        self.pid, self.spec, self.tier, self.seed, self.work = pid, spec, tier, seed, work
        self.failed = None
        self.evals = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.per_prop = {}
        self.extra = {}
        self.inconclusive = []

    def violation(self, replay, msg):
        if self.failed:
            return
        self.failed = replay
        print("property %s violated: %s" % (self.pid, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.pid, replay), flush=True)

    def add_stat(self, path, hpath):
        try:
            s = json.load(open(path))
        except (OSError, ValueError):
            return
        for n, v in s["props"].items():
            q = self.per_prop.setdefault(n, dict(evaluations=0, nontrivial=0, discarded=0, labels={}))
            q["evaluations"] += v["done"]
            q["nontrivial"] += v["nontrivial"]
            q["discarded"] += v["discarded"]
            for l, k in v["labels"].items():
                q["labels"][l] = q["labels"].get(l, 0) + k
            self.evals += v["done"]
            if len([x for x in self.samples if x.startswith(n + ":")]) < 2:
                self.samples += [(n + ": " + x)[:1500] for x in v["samples"][:1]]
        if os.path.exists(hpath):
            b = open(hpath, "rb").read()
            self.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        if s.get("capped"):
            self.extra["time_capped_shards"] = self.extra.get("time_capped_shards", 0) + 1

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration",
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.hashes),
                                rule=self.spec["rule"], samples=self.samples[:40] or ["(none)"],
                                per_relation=self.per_prop, **self.extra),
                  assumptions=self.spec.get("assumptions", []),
                  wall_s=round(time.time() - T0, 2), violations=1 if self.failed else 0)
        if self.spec.get("dropped"):
            ev["coverage"]["relations_not_compilable_on_this_tree"] = self.spec["dropped"]
        if self.inconclusive:
            ev["coverage"]["inconclusive"] = self.inconclusive
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("evaluations", self.evals, "distinct nontrivial", len(self.hashes), "per relation",
            {k: (v["evaluations"], v["nontrivial"], v["discarded"]) for k, v in self.per_prop.items()})


def phase_random(res, binp, scale, cap):
    out = os.path.join(res.work, "run")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shards = res.spec.get("shards", JOBS)
    names = [l.split()[0] for l in run([binp, "--list"], 60)[1].splitlines() if l.strip()]

    def cmd(k, extra=()):
        return [binp, "--run", "--seed", str(res.seed), "--shard", str(k), "--shards", str(shards),
                "--scale", str(scale), "--out", out] + list(extra)
    with ThreadPoolExecutor(shards) as ex:
        rcs = list(ex.map(lambda k: run(cmd(k, ["--max-secs", str(cap)]), cap + 240), range(shards)))
    log("shards done", [r[0] for r in rcs])
    fails = []
    for k, (rc, o) in enumerate(rcs):
        res.add_stat(os.path.join(out, "stat.%d" % k), os.path.join(out, "hash.%d" % k))
        if rc == 0:
            continue
        if rc == -999:
            res.inconclusive.append("shard %d did not finish" % k)
            continue
        try:
            ordn, p, ch = read_cur(os.path.join(out, "cur.%d" % k))
        except (OSError, struct.error):
            die("shard %d ended with %d before its first case:\n%s" % (k, rc, tail(o)))
        fails.append((len(ch), k, rc, ordn, names[p] if p < len(names) else "?", ch, o))
    fails.sort(key=lambda f: f[:4])
    for n, k, rc, ordn, prop, ch, o in fails[:4]:
        msg = crash_summary(o) if rc != 10 else ([l for l in o.splitlines() if l.startswith("FAIL")] or ["?"])[-1]
        path = os.path.join(res.work, "replay_%s.txt" % res.pid)
        with open(path, "w") as f:
            f.write("prop %s\nchoices %s\n# %s\n" % (prop, " ".join(map(str, ch)), msg.replace("\n", " ")))
        if confirm(res, binp, path, msg):
            return
        # depends on what ran before: re-run the shard up to this case
        same = [run(cmd(k, ["--prefix", str(ordn + 1)]), cap * 4 + 300)[0] for _ in range(3)]
        if all(x not in (0, -999) for x in same):
            hist = os.path.join(res.work, "replay_%s_prefix.txt" % res.pid)
            with open(hist, "w") as f:
                f.write("history: %s\n# %s\n" % (" ".join(cmd(k, ["--prefix", str(ordn + 1)])), msg))
            res.violation(hist, msg + " (fails after the preceding cases of the shard)")
            return
        res.inconclusive.append("not reproducible: %s" % msg[:300])


def confirm(res, binp, path, msg):
    rcs = [run([binp, "--replay", path], 300)[0] for _ in range(3)]
    bad = sum(1 for r in rcs if r not in (0, -999, 3))
    if 0 < bad < 3:
        rcs += [run([binp, "--replay", path], 300)[0] for _ in range(17)]
        bad = sum(1 for r in rcs if r not in (0, -999, 3))
    if bad < 3:
        return False
    log("confirmed, shrinking")
    rc, o = run([binp, "--shrink", path, "--max-secs", "60"], 120)
    final = path
    if rc == 0 and os.path.exists(path + ".min"):
        r2 = run([binp, "--replay", path + ".min"], 300)[0]
        if r2 not in (0, -999, 3):
            final = path + ".min"
            print(o[:3000])
    else:
        log("shrink:", rc, tail(o, 400))
    # a copy that survives the next run
    dst = os.path.join(VERIF, "build", "replays")
    os.makedirs(dst, exist_ok=True)
    keep = os.path.join(dst, "%s.txt" % res.pid)
    shutil.copy(final, keep)
    res.violation(keep, msg)
    return True


def phase_tsan(res, spec, tier):
    b = compile_all(spec, os.path.join(res.work, "tsan"), "tsan")
    env = dict(os.environ)
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    n = spec.get("tsan_runs", 8) * (1 if tier == "quick" else 10)

    def one(i):
        return i, run(["setarch", "-R", b, str(res.seed * 1000 + i)], 240, env=env)
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(one, range(n)))
    bad = [(i, o) for i, o in outs if o[0] in (66, 10, 134, -6, -11, 139)]
    oks = sum(1 for i, o in outs if o[0] == 0)
    log("thread runs", n, "ok", oks)
    res.evals += oks + len(bad)
    res.extra["thread_schedule_runs"] = n
    if oks + len(bad) < n:
        res.inconclusive.append("thread runs without answer: %d %s" % (n - oks - len(bad), tail([o for i, o in outs if o[0] not in (0, 66, 10)][0][1], 300)))
    if bad:
        again = [run(["setarch", "-R", b, str(res.seed * 1000 + bad[0][0])], 240, env=env)[0] for _ in range(20)]
        if sum(1 for r in again if r in (66, 10, 134, -6, -11, 139)) + len(bad) >= 3:
            path = os.path.join(VERIF, "build", "replays")
            os.makedirs(path, exist_ok=True)
            path = os.path.join(path, "%s_threads.txt" % res.pid)
            with open(path, "w") as f:
                f.write("seed %d\n%s\n" % (res.seed * 1000 + bad[0][0], bad[0][1][1][-20000:]))
            res.violation(path, "concurrent run: " + crash_summary(bad[0][1][1]))


def phase_fuzz(res, spec, binp, secs):
    log("building for libFuzzer")
    fb = compile_all(spec, os.path.join(res.work, "fuzz"), "fuzz")
    names = [l.split()[0] for l in run([binp, "--list"], 60)[1].splitlines() if l.strip()]
    out = os.path.join(res.work, "fuzzrun")
    shutil.rmtree(out, ignore_errors=True)

    def one(k):
        d = os.path.join(out, str(k))
        os.makedirs(os.path.join(d, "corpus"))
        env = dict(ENV)
        env["PBT_FAIL_FILE"] = os.path.join(d, "fail")
        env["PBT_CUR"] = os.path.join(d, "cur")
        if k < len(names) or True:
            env["PBT_ONLY"] = names[k % len(names)]
        return k, run([fb, "-seed=%d" % (res.seed * 100 + k + 1), "-max_total_time=%d" % secs, "-max_len=8192",
                       "-len_control=20", "-timeout=60", "-rss_limit_mb=4000", "-print_final_stats=1",
                       os.path.join(d, "corpus")], secs + 120, env=env, cwd=d)
    with ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(one, range(JOBS)))
    execs = 0
    for k, (rc, o) in outs:
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", o)
        if m:
            execs += int(m.group(1))
        if rc in (0, -999):
            continue
        d = os.path.join(out, str(k))
        path = os.path.join(res.work, "replay_%s.txt" % res.pid)
        if os.path.exists(os.path.join(d, "fail")):
            shutil.copy(os.path.join(d, "fail"), path)
        else:
            try:
                _, p, ch = read_cur(os.path.join(d, "cur"))
            except (OSError, struct.error):
                continue
            with open(path, "w") as f:
                f.write("prop %s\nchoices %s\n" % (names[p], " ".join(map(str, ch))))
        if confirm(res, binp, path, "found by libFuzzer: " + crash_summary(o)):
            break
        res.inconclusive.append("libFuzzer finding not reproducible: " + crash_summary(o))
    res.evals += execs
    res.extra["libfuzzer_executions"] = execs
    log("libFuzzer executions", execs)


if __name__ == "__main__":
    main()
