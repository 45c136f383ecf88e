#!/usr/bin/env python3
"""Validates planted bugs: seed.py [--scratch DIR] [--no-check] ID...

Works in a scratch copy of /repo (made when missing): demo on the clean tree, then with the patch: build, stable
tests, demo, and the quick check of the bug's property with VERIF_REPO pointing at the scratch copy.
"""
import argparse, json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--scratch", default="/tmp/w/bug")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--checks", default="")
    a = ap.parse_args()
    S = a.scratch
    if not os.path.isdir(S):
        os.makedirs(os.path.dirname(S), exist_ok=True)
        sh("cp -a /repo %s" % S)
    if not os.path.isdir(S + "/_b"):
        r = sh('cmake -S /opt/vp/cmake -B %s/_b -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=Debug '
               '-DCMAKE_CXX_FLAGS_DEBUG="-g -O3" -DCMAKE_CXX_FLAGS=-Wno-error' % (S, S))
        if r.returncode:
            sys.exit(r.stdout)
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    sh("git -C %s checkout -- ." % S)
    sh("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (S, S))
    V = "/tmp/w/vseed"     # checks run from a copy, so that /verif can be used meanwhile
    shutil.rmtree(V, ignore_errors=True)
    shutil.copytree(VERIF, V, ignore=shutil.ignore_patterns("build", ".git", "seeded", "evidence"))
    for i in a.ids:
        d = os.path.join(VERIF, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        # as in the final check: the demo lies elsewhere, without patch and meta
        lay = "/tmp/w/demo_" + i
        shutil.rmtree(lay, ignore_errors=True)
        shutil.copytree(d, lay, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        out = [i, meta["property"]]
        r = sh("bash %s/demo.sh" % lay, cwd=S, timeout=300)
        out.append("clean-demo:%s" % ("ok" if r.returncode == 0 else "FAIL(%d)\n%s" % (r.returncode, r.stdout[-1500:])))
        r = sh("git apply %s/patch.diff" % d, cwd=S)
        if r.returncode:
            print(*out, "APPLY FAILED", r.stdout)
            continue
        try:
            if not a.no_tests:
                r = sh("ninja -C %s/_b" % S)
                out.append("build:%s" % ("ok" if r.returncode == 0 else "FAIL\n" + r.stdout[-1500:]))
                r = sh("ctest --test-dir %s/_b -j8 --timeout 300 --output-junit %s/_b/ctest.xml" % (S, S))
                ok = set(t.get("name") for t in ET.parse(S + "/_b/ctest.xml").getroot().iter("testcase")
                         if t.get("status") == "run")
                ok = set(x.replace("::", ".") for x in ok)
                lost = [b for b in base if b not in ok]
                out.append("tests:%s" % ("ok(%d)" % len(base) if not lost else "LOST %s" % lost[:5]))
            r = sh("bash %s/demo.sh" % lay, cwd=S, timeout=300)
            out.append("bug-demo:%s" % ("ok(%d)" % r.returncode if r.returncode else "NOT DETECTED\n" + r.stdout[-800:]))
            if not a.no_check:
                for c in [meta["property"]] + [x for x in a.checks.split(",") if x]:
                    r = sh("VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 run_check.py %s --tier quick" % (S, c), cwd=V)
                    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    out.append("check %s:%s" % (c, "caught" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-500:] if r.returncode not in (0, 1) else "")))
        finally:
            sh("git apply -R %s/patch.diff" % d, cwd=S)
            sh("git checkout -- .", cwd=S)
            shutil.rmtree(lay, ignore_errors=True)
        print(*out, flush=True)


main()
