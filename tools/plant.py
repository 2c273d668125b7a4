#!/usr/bin/env python3
"""Plants bugs: plant.py SPEC.py [ID...]
SPEC.py defines BUGS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo='C++ source',
flags='-std=c++14 ...')]. For each, in a scratch copy of /repo under /tmp: applies the edits, builds and runs
the project's tests, runs the demonstration on both trees, runs the property's check against the copy
(VERIF_REPO), and when the bug is valid writes /verif/seeded/<id>/. Prints one line per bug."""
import concurrent.futures as cf, json, os, re, runpy, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")

def original_lines_only(copy, files):
    """Every removed line must come from the base commit."""
    root = sh("git rev-list --max-parents=0 HEAD", "/repo")[1].split()[0]
    for f in files:
        _, blame = sh("git blame -s -l %s" % f, "/repo")
        lines = [b.split(")", 1)[0].lstrip("^").split()[0] for b in blame.splitlines()]
        _, diff = sh("git diff -U0 -- %s" % f, copy)
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for i in range(a, a + n):
                if not root.startswith(lines[i - 1][:39]):
                    return "line %d of %s is not original" % (i, f)
    return ""

def plant(b, log, run_check=True):
    copy = "/tmp/plant-%s" % b["id"]
    shutil.rmtree(copy, ignore_errors=True)
    sh("git clone -q /repo %s" % copy)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(copy, f); s = open(p).read()
            if s.count(old) != 1: return "EDIT matches %d times: %s" % (s.count(old), old[:50])
            open(p, "w").write(s.replace(old, new))
        files = sorted(set(f for f, _, _ in b["edits"]))
        e = original_lines_only(copy, files)
        if e: return "NOT-ORIGINAL " + e
        _, diff = sh("git diff", copy)
        d = os.path.join("/tmp/bugs", b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(b["demo"].lstrip())
        for name, text in b.get("extra", {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True); open(os.path.join(d, name), "w").write(text)
        open(d + "/demo.sh", "w").write("""#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds for this input; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
clang++ %s -w -I "$here/stub" -I include -I . "$here/demo.cpp" -o "$out/demo" -lpthread || exit 1
timeout 120 "$out/demo"
""" % b.get("flags", "-std=c++14 -O1"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what_it_breaks"]), open(d + "/meta.json", "w"), indent=1)
        rc, o = sh("bash %s/demo.sh" % d, "/repo")
        log.write("--- %s demo on /repo rc=%d\n%s\n" % (b["id"], rc, o[-2000:]))
        if rc: return "DEMO fails on /repo: " + o[-300:]
        rc, o = sh("bash %s/demo.sh" % d, copy)
        log.write("--- %s demo on bug rc=%d\n%s\n" % (b["id"], rc, o[-2000:]))
        if rc == 0: return "DEMO passes with the bug"
        # tests
        for n in ("build.sh", "test.sh"):
            s = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", copy + "/.build.sh").replace("/opt/vp/ccache", "/tmp/plantcache").replace("/repo", copy)
            open(copy + "/." + n, "w").write(s)
        rc, o = sh("bash %s/.test.sh %s/.out.json" % (copy, copy), copy)
        r = json.load(open(copy + "/.out.json"))
        missing = BASE - set(r["passed"])
        if missing:
            log.write("--- %s tests:\n%s\n" % (b["id"], o[-3000:]))
            return "TESTS fail: %s" % sorted(missing)[:4]
        dst = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        if not run_check: return "valid"
        t = time.time()
        rc, o = sh("python3 check.py %s" % b["property"], VERIF, dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick"))
        log.write("--- %s check rc=%d\n%s\n" % (b["id"], rc, o[-3000:]))
        hit = rc == 1 and "VIOLATION property=" + b["property"] in o
        tsv = os.path.join(VERIF, "tools", "detected.tsv")
        rows = dict(l.rstrip("\n").split("\t", 1) for l in open(tsv)) if os.path.exists(tsv) else {}
        rows[b["id"]] = "caught" if hit else "missed"
        open(tsv, "w").write("".join("%s\t%s\n" % kv for kv in sorted(rows.items())))
        return "valid; check %s %s (%.0f s)" % (b["property"], "CAUGHT" if rc == 1 and "VIOLATION property=" + b["property"] in o else "MISSED rc=%d" % rc, time.time() - t)
    finally:
        shutil.rmtree(copy, ignore_errors=True)

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    with open("/tmp/plant.log", "a") as log:
        for b in bugs:
            if want and b["id"] not in want: continue
            print("%-28s %s  %s" % (b["id"], b["property"], plant(b, log)), flush=True); log.flush()

main()
