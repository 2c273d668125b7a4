#!/usr/bin/env python3
"""Mutation campaign: mutate.py OUT.jsonl [--limit N] [--seed S] [--minutes M]
Makes one-line changes to the original lines of /repo's headers, keeps those that build and pass the
project's tests, and runs the checks responsible for that region (most specific first, stopping at the first
alarm) against a scratch copy. Survivors are gaps or equivalent changes, to be read by hand."""
import json, os, random, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
H = ["include/array/%s.h" % x for x in ("array", "ein_reduce", "image", "matrix", "z_order")]
# First matching (line upper bound in array.h) wins.
REGIONS = [(182, "C03 C01 C22 C06"), (230, "C01 C17 C04"), (395, "C01 C03 C06 C21"), (516, "C01 C03 C02 C06"),
  (672, "C17 C25"), (737, "C01 C22 C08 C03"), (785, "C06 C01"), (842, "C01 C06 C22 C03"), (920, "C02 C01"), (940, "C05 C08 C02"),
  (980, "C07 C06 C03"), (1036, "C25 C03 C07 C22"), (1045, "C22 C03"), (1322, "C01 C03 C22 C06 C25"), (1362, "C07 C04"), (1417, "C04 C09 C24"), (1488, "C05 C08 C10 C09"),
  (1541, "C22 C03"), (1552, "C03 C25"), (1570, "C15"), (1640, "C04"), (1656, "C22 C03"), (1695, "C03 C07 C25"), (1740, "C05 C08 C10 C04"), (1890, "C05 C08 C10"),
  (1950, "C05 C08 C04 C10"), (1990, "C04 C24"), (2020, "C06 C07"), (2242, "C06 C10 C07 C16 C03 C01"), (2380, "C11 C13 C12"), (2700, "C12 C11 C13 C14 C15 C16"),
  (2790, "C12 C13 C06 C10 C16"), (2938, "C08 C13 C25"), (2990, "C09 C24"), (3016, "C10"), (3150, "C07 C16 C25"), (3224, "C14 C13"), (3400, "C14 C13")]
OTHER = {"ein_reduce": "C19 C20 C25", "image": "C21 C05 C08 C04", "matrix": "C05 C08 C04 C23", "z_order": "C18 C24"}
OPS = [(r"(?<![<>\-=!])<=(?!=)", "<"), (r" < ", " <= "), (r" > ", " >= "), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
  (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ 1\b", " + 2"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\bmin\(\)", "max()"), (r"\bmax\(\)", "min()"),
  (r"\.min\(\)", ".extent()"), (r"\.extent\(\)", ".max()"), (r"\bextent\(\)", "size()"), (r"\bstride\(\)", "extent()"), (r"internal::min\b", "internal::max"), (r"internal::max\b", "internal::min"),
  (r"\babs\(", "("), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"!(?=[\w(])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
  (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="), (r"std::move\((\w+)\)", r"\1"), (r"std::forward<\w+>\((\w+)\)", r"\1"), (r"\bsrc\b", "dst"), (r"\bdst\b", "src"), (r"\bother\.", ""),
  (r"\b_a\b", "_b"), (r"\bbase_\b", "data()"), (r"\.base\(\)", ".data()"), (r"\bcref\(\)", "ref()"), (r"\bNDARRAY_INLINE\b", ""), (r"-shape_", "shape_"), (r", offset\b", ""), (r"-offset", "offset"),
  (r", no_resolve\{\}", ""), (r", internal::no_resolve\{\}", ""), (r", alloc\)", ")"), (r"size_t\b", "int"), (r"index_t\b(?= \w+ =)", "int"), (r" / ", " * "), (r"\?(.*):(.*);", r"?\2:\1;")]
OPS = [(re.compile(a), b) for a, b in OPS]
STMT = re.compile(r"^\s+[\w:.*>\-\[\]<, ]+(\(.*\)|=.*|\+\+|--);\s*$")

def sh(cmd, cwd=None, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def mutants():
    root = sh("git rev-list --max-parents=0 HEAD", REPO)[1].split()[0]
    out = []
    for f in H:
        _, blame = sh("git blame -s -l %s" % f, REPO)
        orig = [b.split(")", 1)[0].lstrip("^").split()[0][:39] == root[:39] for b in blame.splitlines()]
        comment = False
        for n, (line, o) in enumerate(zip(open(os.path.join(REPO, f)).read().splitlines(), orig), 1):
            s = line.strip()
            if s.startswith("/*"): comment = True
            skip = comment
            if "*/" in s: comment = False
            if skip or not o or s.startswith("//") or s.startswith("#") or "static_assert" in s or s.startswith("using ") or s.startswith("template") or "assert(" in s and n and False: continue
            code = line.split("//")[0]
            for rx, rep in OPS:
                for m in rx.finditer(code):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():] + line[len(code):]
                    if new != line: out.append((f, n, line, new))
            if STMT.match(line) and "return" not in line: out.append((f, n, line, re.match(r"\s*", line).group(0) + ";"))
            m = re.match(r"(\s*)if \((.*)\) \{ return.*\}\s*$", line)
            if m: out.append((f, n, line, m.group(1) + ";"))
            m = re.match(r"(.*\()([^(),]+), ([^(),]+)(\).*)$", line)
            if m: out.append((f, n, line, m.group(1) + m.group(3) + ", " + m.group(2) + m.group(4)))
    seen = set(); res = []
    for x in out:
        k = (x[0], x[1], x[3])
        if k not in seen: seen.add(k); res.append(x)
    return res

def checks_for(f, n):
    b = os.path.basename(f)[:-2]
    if b != "array": return OTHER[b].split()
    for hi, c in REGIONS:
        if n <= hi: return c.split()

def main():
    a = sys.argv[1:]
    opt = lambda k, d: int(a[a.index(k) + 1]) if k in a else d
    out, limit, seed, minutes = a[0], opt("--limit", 10**9), opt("--seed", 1), opt("--minutes", 10**6)
    ms = mutants()
    print(len(ms), "mutants", flush=True)
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(out):
        for l in open(out): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    copy = "/tmp/mut-w%d-%d" % (seed, os.getpid())
    t0 = time.time()
    for f, n, old, new in ms[:limit]:
        if time.time() - t0 > minutes * 60: break
        if (f, n, new) in done: continue
        shutil.rmtree(copy, ignore_errors=True)
        sh("git clone -q %s %s" % (REPO, copy))
        p = os.path.join(copy, f); L = open(p).read().split("\n")
        assert L[n - 1] == old
        L[n - 1] = new; open(p, "w").write("\n".join(L))
        r = dict(file=f, line=n, old=old.strip(), new=new)
        # Fast filter: the unit tests in one process, then the full set.
        rc, o = sh("clang++ -std=c++14 -w -fsyntax-only -I include -I . test/array.cpp && clang++ -std=c++14 -w -fsyntax-only -I include -I . test/algorithm.cpp", copy)
        if rc: r["result"] = "nobuild"
        else:
            rc, o = sh("make -j8 CXX='ccache clang++' bin/test && timeout 60 bin/test", copy, dict(os.environ, CCACHE_DIR="/tmp/plantcache"), timeout=400)
            last = [x for x in o.splitlines() if "tests passed" in x]
            m = re.match(r"(\d+) of (\d+) tests", last[-1]) if last else None
            # performance.cpp compares timings, which may fail under load.
            if not m or int(m.group(2)) - int(m.group(1)) > 6: r["result"] = "tests"
            else:
                for s in ("build.sh", "test.sh"):
                    t = open("/opt/vp/" + s).read().replace("/opt/vp/build.sh", copy + "/.build.sh").replace("/opt/vp/ccache", "/tmp/plantcache").replace("/repo", copy)
                    open(copy + "/." + s, "w").write(t)
                sh("bash %s/.test.sh %s/.out.json" % (copy, copy), copy)
                try: miss = BASE - set(json.load(open(copy + "/.out.json"))["passed"])
                except Exception: miss = {"?"}
                if miss: r["result"] = "tests"
                else:
                    r["result"] = "SURVIVED"; r["ran"] = []
                    for c in checks_for(f, n):
                        rc, o = sh("python3 check.py %s" % c, VERIF, dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick"))
                        r["ran"].append("%s=%d" % (c, rc))
                        if rc == 1: r["result"] = "caught " + c; break
        with open(out, "a") as g: g.write(json.dumps(r) + "\n")
        if r["result"] not in ("nobuild", "tests"): print("%-12s %s:%d  %s  =>  %s  %s" % (r["result"], os.path.basename(f), n, old.strip(), new.strip(), r.get("ran")), flush=True)
    shutil.rmtree(copy, ignore_errors=True)

main()
