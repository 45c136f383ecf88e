#!/usr/bin/env python3
"""Mutation sweep: finds places of /repo whose change no check notices.

usage: mutate.py [--jobs N] [--out FILE] [--max-per-file N] [--seed N] [--secs S] FILE_SUBSTRING... (or "all")

Every mutant (one token or statement changed) is compiled into the checks of its file (MAP below), each run for a
while on one core. Survivors are listed for reading: equivalent, outside every property, or a weak check.
A tool for building the checks, not a check.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/w/mut"
os.environ["VERIF_REPO"] = ROOT + "/base"
sys.path.insert(0, VERIF)
import run_check as rc  # noqa: E402
from checks import CHECKS  # noqa: E402

MAP = {
    "ekf_localizer/src/check.cpp": "F02", "ekf_localizer/src/covariance.cpp": "F06",
    "ekf_localizer/src/ekf_localizer.cpp": "F05", "ekf_localizer/include/ekf_localizer/ekf_localizer.hpp": "F05",
    "ekf_localizer/src/mahalanobis.cpp": "F04 F02", "ekf_localizer/src/pose_measurement.cpp": "F02 F05",
    "ekf_localizer/src/twist_measurement.cpp": "F02 F05", "ekf_localizer/src/state_transition.cpp": "F01",
    "ekf_localizer/src/string.cpp": "F04", "ekf_localizer/src/tf.cpp": "F05", "ekf_localizer/src/update_interval.cpp": "F04 F05",
    "ekf_localizer/include/ekf_localizer/aged_message_queue.hpp": "F03 F02", "ekf_localizer/include/ekf_localizer/delay.hpp": "F04 F02",
    "ekf_localizer/include/ekf_localizer/normalize_yaw.hpp": "F04 F01", "ekf_localizer/include/ekf_localizer/pose_measurement.hpp": "F02",
    "ekf_localizer/include/ekf_localizer/twist_measurement.hpp": "F02", "ekf_localizer/include/ekf_localizer/update_interval.hpp": "F04 F05",
    "ekf_localizer/include/ekf_localizer/warning.hpp": "F02", "ekf_localizer/include/ekf_localizer/check.hpp": "F02",
    "extraction/app/feature_extraction.cpp": "E06",
    "extraction/include/lidar_feature_extraction/algorithm.hpp": "B03 E04 E06", "extraction/include/lidar_feature_extraction/cloud_iterator.hpp": "E01 E06",
    "extraction/include/lidar_feature_extraction/color_points.hpp": "E08 E06", "extraction/include/lidar_feature_extraction/fill.hpp": "E04 E05",
    "extraction/include/lidar_feature_extraction/hyper_parameter.hpp": "E06", "extraction/include/lidar_feature_extraction/index_range.hpp": "E03",
    "extraction/include/lidar_feature_extraction/iterator.hpp": "E04 E06", "extraction/include/lidar_feature_extraction/label.hpp": "E04 E06",
    "extraction/include/lidar_feature_extraction/mapped_points.hpp": "E01", "extraction/include/lidar_feature_extraction/math.hpp": "E07 E06",
    "extraction/include/lidar_feature_extraction/neighbor.hpp": "E07 E06", "extraction/include/lidar_feature_extraction/occlusion.hpp": "E05 E06",
    "extraction/include/lidar_feature_extraction/out_of_range.hpp": "E05", "extraction/include/lidar_feature_extraction/parallel_beam.hpp": "E05",
    "extraction/include/lidar_feature_extraction/range.hpp": "E05 E06", "extraction/include/lidar_feature_extraction/range_message.hpp": "B01 E06",
    "extraction/include/lidar_feature_extraction/ring.hpp": "E01 E06",
    "extraction/src/color_points.cpp": "E08", "extraction/src/convolution.cpp": "E02", "extraction/src/curvature.cpp": "E02 E06",
    "extraction/src/index_range.cpp": "E03", "extraction/src/iterator.cpp": "E04 E06", "extraction/src/math.cpp": "E07 E02", "extraction/src/ring.cpp": "E01",
    "kalman_filter/src/kalman_filter.cpp": "K01", "kalman_filter/include/kalman_filter/kalman_filter.hpp": "K01",
    "kalman_filter/src/time_delay_kalman_filter.cpp": "K02", "kalman_filter/include/kalman_filter/time_delay_kalman_filter.hpp": "K02",
    "lib/include/lidar_feature_library/algorithm.hpp": "B03", "lib/include/lidar_feature_library/convert_point_cloud_type.hpp": "B02 B01",
    "lib/include/lidar_feature_library/degree_to_radian.hpp": "B03 E07", "lib/include/lidar_feature_library/downsample.hpp": "B02",
    "lib/include/lidar_feature_library/eigen.hpp": "B03 R01", "lib/include/lidar_feature_library/numeric.hpp": "B03",
    "lib/include/lidar_feature_library/pcl_utils.hpp": "B02", "lib/include/lidar_feature_library/point_type.hpp": "E06 B02",
    "lib/include/lidar_feature_library/qos.hpp": "E06 L09", "lib/include/lidar_feature_library/random.hpp": "B03",
    "lib/include/lidar_feature_library/ros_msg.hpp": "B01", "lib/include/lidar_feature_library/span.hpp": "B03",
    "lib/include/lidar_feature_library/stats.hpp": "B03", "lib/src/algorithm.cpp": "B03", "lib/src/eigen.cpp": "B03 R01 L10",
    "lib/src/pcl_utils.cpp": "B02", "lib/src/random.cpp": "B03", "lib/src/ros_msg.cpp": "B01", "lib/src/stats.cpp": "B03 L03",
    "localization/app/localization.cpp": "L09",
    "localization/include/lidar_feature_localization/alignment.hpp": "L02", "localization/include/lidar_feature_localization/edge.hpp": "L04 L06",
    "localization/include/lidar_feature_localization/filter.hpp": "L04 L06", "localization/include/lidar_feature_localization/kdtree.hpp": "L05",
    "localization/include/lidar_feature_localization/loam_optimization_problem.hpp": "L06",
    "localization/include/lidar_feature_localization/localizer.hpp": "L06 L09", "localization/include/lidar_feature_localization/math.hpp": "L04 L06",
    "localization/include/lidar_feature_localization/odometry.hpp": "L08",
    "localization/include/lidar_feature_localization/optimization_result.hpp": "L02",
    "localization/include/lidar_feature_localization/optimizer.hpp": "L02 L06", "localization/include/lidar_feature_localization/point_cloud_map.hpp": "M01 L08",
    "localization/include/lidar_feature_localization/point_to_vector.hpp": "L04 B01",
    "localization/include/lidar_feature_localization/pointcloud_to_matrix.hpp": "L04 L06",
    "localization/include/lidar_feature_localization/rad2deg.hpp": "L02",
    "localization/include/lidar_feature_localization/recent_scans.hpp": "L08",
    "localization/include/lidar_feature_localization/robust.hpp": "L03",
    "localization/include/lidar_feature_localization/stamp_sorted_objects.hpp": "L07 L09",
    "localization/include/lidar_feature_localization/subscriber.hpp": "L09", "localization/include/lidar_feature_localization/surface.hpp": "L04 L06",
    "localization/include/lidar_feature_localization/jacobian.hpp": "L04",
    "localization/src/alignment.cpp": "L02", "localization/src/degenerate.cpp": "L01", "localization/src/edge.cpp": "L04 L06",
    "localization/src/jacobian.cpp": "L04", "localization/src/kdtree.cpp": "L05", "localization/src/optimizer.cpp": "L01 L02",
    "localization/src/posevec.cpp": "R01 L02", "localization/src/robust.cpp": "L03",
    "map_loader/src/map_loader.cpp": "N01", "map_tf_generator/src/map_tf_generator_node.cpp": "N01",
    "mapping/include/lidar_feature_mapping/map.hpp": "M01", "mapping/src/mapping.cpp": "M01",
    "path_generator/include/path_generator/path_generator.hpp": "P01", "path_generator/src/node.cpp": "P01",
    "rotationlib/src/hat.cpp": "R01", "rotationlib/src/jacobian/quaternion.cpp": "R01", "rotationlib/src/quaternion.cpp": "R01",
}

SUBS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.\"])\d+(?![\w.\"])", ["INC", "DEC"]), (r"(?<![\w.])\d+\.\d*(?:e-?\d+)?(?!\w)", ["SCALE"]),
    (r"\bstd::max\b", ["std::min"]), (r"\bstd::min\b", ["std::max"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]),
    (r"\.x\b", [".y"]), (r"\.y\b", [".z"]), (r"\.z\b", [".x"]), (r"\.w\b", [".x"]), (r"\.norm\(\)", [".squaredNorm()"]),
    (r"\.transpose\(\)", [""]), (r"\.inverse\(\)", [""]), (r"\.normalized\(\)", [""]), (r"->", []),
    (r"(?<=[(=,] )?!(?=[\w(])", [""]), (r"return -", ["return "]), (r"= -", ["= "]), (r"\(-", ["("]),
    (r"\bif \(([^;{]*)\) \{", ["if (true) {", "if (false) {"]),
    (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"\+\+", ["--"]), (r"--", ["++"]),
    (r"\bfloor\b", ["ceil"]), (r"\bceil\b", ["floor"]), (r"\bround\b", ["floor"]), (r"\babs\b", [""]),
    (r"\bbegin\(\)", ["begin() + 1"]), (r"\brbegin\b", ["begin"]), (r"\bfront\(\)", ["back()"]), (r"\bback\(\)", ["front()"]),
    (r"\bsize\(\)", ["size() + 1", "size() - 1"]), (r"\bdouble\b", ["float"]), (r"\bint\b", ["std::int8_t"]),
]


def mutants(path):
    lines = open(path).read().split("\n")
    out = []
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            incomment = True
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if s.startswith(("//", "#", "using ", "template", "namespace", "typedef", "static_assert")) or not s:
            continue
        code = l.split(" //")[0]
        quoted = [m.span() for m in re.finditer(r'"[^"]*"', code)]
        for pat, reps in SUBS:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in quoted):
                    continue
                for r in reps:
                    t = m.group(0)
                    if r == "INC":
                        r = str(int(t) + 1)
                    elif r == "DEC":
                        if int(t) == 0:
                            continue
                        r = str(int(t) - 1)
                    elif r == "SCALE":
                        r = repr(float(t) * 1.25 + (1.0 if float(t) == 0 else 0))
                    if pat in (r"\bdouble\b", r"\bint\b") and not re.search(r"\b(double|int) \w+ = ", code):
                        continue
                    out.append((i, code[:m.start()] + r + code[m.end():]))
        # delete a statement
        if s.endswith(";") and not s.startswith(("return", "const ", "auto ", "class", "struct", "}", "break", "continue", "public", "private", "typename", "typedef", "extern")) \
                and (re.match(r"^[\w.:>\-\[\]()*]+(\(.*\)| [+\-*/]?= .*);$", s)):
            prev = lines[i - 1].strip() if i else ""
            if prev.endswith((";", "{", "}", "")) and not re.match(r"^(const )?[\w:<>]+ [\w]+;$", s):
                out.append((i, "  ;"))
        # swap two simple arguments
        for m in re.finditer(r"\((\w[\w.\[\]]*), (\w[\w.\[\]]*)\)", code):
            if m.group(1) != m.group(2) and not any(a <= m.start() < b for a, b in quoted):
                out.append((i, code[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + code[m.end():]))
    return lines, out


LOCKS = {}
LOCK = threading.Lock()
BASE = {}


def flags_for(spec, repo):
    old = rc.REPO
    fl = list(rc.BASE) + rc.SAN + [spec.get("opt", "-O1")] + [x.replace(old, repo) for x in rc.include_flags(spec)] + spec.get("flags", [])
    return fl


def base(cid):
    """Compiles check cid once from the clean copy; -> list of (source, object, deps, extra)."""
    with LOCK:
        lk = LOCKS.setdefault(cid, threading.Lock())
    with lk:
        if cid in BASE:
            return BASE[cid]
        spec = CHECKS[cid]
        d = ROOT + "/obj/" + cid
        os.makedirs(d, exist_ok=True)
        hs = [VERIF + "/harness/" + h for h in spec["harness"]] + [VERIF + "/harness/pbt.cpp"]
        hs += [VERIF + "/" + x for x in spec.get("extra_sources", [])]
        jobs = []
        for i, s in enumerate(hs + rc.sources(spec)):
            extra = ["-Dmain=app_main"] if s in [rc.REPO + "/" + x for x in spec.get("main_renamed", [])] else []
            jobs.append([s, "%s/%02d.o" % (d, i), None, extra])

        def one(j):
            r = subprocess.run(["g++"] + flags_for(spec, rc.REPO) + j[3] + ["-MMD", "-MF", j[1] + ".d", "-c", j[0], "-o", j[1]],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError(r.stdout[-2000:])
            j[2] = [os.path.normpath(x) for x in open(j[1] + ".d").read().replace("\\\n", " ").split()]
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, jobs))
        BASE[cid] = jobs
        return jobs


def run_one(cid, rel, worker, secs, seed):
    """-> killed | alive | nocompile"""
    spec = CHECKS[cid]
    W = "%s/w%d" % (ROOT, worker)
    if "python" in spec:
        return "skip"
    objs = []
    fl = flags_for(spec, W + "/repo")
    n = 0
    for s, o, deps, extra in base(cid):
        if ROOT + "/base/" + rel in deps:
            s2 = s.replace(ROOT + "/base", W + "/repo")
            o2 = "%s/%d.o" % (W, n)
            n += 1
            r = subprocess.run(["g++"] + fl + extra + ["-c", s2, "-o", o2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return "nocompile"
            objs.append(o2)
        else:
            objs.append(o)
    if n == 0:
        return "unused"
    b = W + "/check"
    link = ["g++"] + rc.SAN + ["-pthread"] + objs + ["-o", b]
    for l in spec.get("libs", []):
        link += rc.LIBS.get(l, [l])
    link += ["-lfmt", "-lboost_system"] if spec.get("fmt", True) else []
    if subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode:
        return "nocompile"
    out = W + "/out"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    code, o = rc.run([b, "--run", "--seed", str(seed), "--shard", "0", "--shards", "1", "--scale", str(spec.get("scale", 1.0)),
                      "--out", out, "--max-secs", str(secs)], secs + 60, cwd=W)
    return "alive" if code == 0 else "killed"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--out", default="/tmp/w/mut/report.txt")
    ap.add_argument("--max-per-file", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--secs", type=int, default=40)
    a = ap.parse_args()
    rng = random.Random(a.seed)
    shutil.rmtree(ROOT + "/base", ignore_errors=True)
    os.makedirs(ROOT, exist_ok=True)
    subprocess.check_call("git -C /repo archive --prefix=base/ HEAD | tar x -C %s" % ROOT, shell=True)
    todo = []
    for f, checks in sorted(MAP.items()):
        if a.files != ["all"] and not any(x in f for x in a.files):
            continue
        if not os.path.exists(ROOT + "/base/" + f):
            print("no such file", f)
            continue
        lines, ms = mutants(ROOT + "/base/" + f)
        ms = list(dict.fromkeys(ms))
        ms = [m for m in ms if m[1] != lines[m[0]]]
        rng.shuffle(ms)
        for m in ms[:a.max_per_file]:
            todo.append((f, checks.split(), lines, m))
    rng.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    rep = open(a.out, "a")
    free = list(range(a.jobs))
    for w in free:
        d = "%s/w%d" % (ROOT, w)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(ROOT + "/base", d + "/repo")

    def task(t):
        f, checks, lines, (i, new) = t
        with LOCK:
            w = free.pop()
        p = "%s/w%d/repo/%s" % (ROOT, w, f)
        try:
            ls = list(lines)
            ls[i] = new
            open(p, "w").write("\n".join(ls))
            res = []
            for c in checks:
                try:
                    r = run_one(c, f, w, a.secs, a.seed)
                except Exception as e:  # noqa: BLE001
                    r = "error %s" % str(e)[:300]
                res.append("%s:%s" % (c, r))
                if r in ("killed", "nocompile"):
                    break
            with LOCK:
                rep.write("%s %s:%d [%s]\n" % ("ALIVE" if r not in ("killed", "nocompile") else r, f, i + 1, " ".join(res)))
                if r not in ("killed", "nocompile"):
                    rep.write("   - %s\n   + %s\n" % (lines[i].strip(), new.strip()))
                rep.flush()
        finally:
            open(p, "w").write("\n".join(lines))
            with LOCK:
                free.append(w)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(task, todo))
    print("done", flush=True)


main()
