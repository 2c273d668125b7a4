#!/usr/bin/env python3
"""Driver: builds the harness of one property against /repo's current tree in several
configurations (sanitizers, standards, compilers, index widths), runs it, judges the monitors'
output, writes evidence/<id>.json.

  check.py C05                 run (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  check.py C05 --replay FILE   rerun the single failing case recorded in a replay file
Exit: 0 held, 1 violation (with a VIOLATION line), 2 the check itself could not decide.
"""
import concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, HARNESS)
from config import CHECKS, VARIANTS, RULES  # noqa: E402

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:hard_rss_limit_mb=6000:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=99",
           TSAN_OPTIONS="exitcode=99:halt_on_error=1:report_signal_unsafe=0",
           MSAN_OPTIONS="exitcode=99")
NCPU = min(8, os.cpu_count() or 8)


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def includes():
    return ["-I" + HARNESS, "-I" + os.path.join(HARNESS, "stubs"), "-I" + os.path.join(REPO, "include"), "-I" + REPO,
            "-I" + os.path.join(REPO, "examples/resample"), "-I" + os.path.join(REPO, "examples/linear_algebra")]


def compile_cmd(src, variant, exe, extra):
    return VARIANTS[variant] + extra + includes() + [os.path.join(HARNESS, src), "-o", exe, "-lpthread"]


def run(cmd, timeout, cwd=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"), time.time() - t
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace"), (e.stderr or b"").decode("utf-8", "replace"), time.time() - t


def field(text, name):
    m = re.search(r"^%s (.*)$" % name, text, re.M)
    return m.group(1) if m else ""


def main():
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vchk-%s-" % pid)
    ENV["TMPDIR"] = work
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(pid, json.load(open(sys.argv[3])), work)
        return check(pid, cfg, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(pid, r, work):
    exe = os.path.join(work, "replay")
    rc, o, e, _ = run(compile_cmd(r["source"], r["variant"], exe, r.get("flags", [])), 600)
    if rc != 0:
        sys.stderr.write(e[-4000:])
        return 2 if r.get("group") else 1
    if not r.get("group"):
        return 0
    cmd = [exe, "--seed", str(r["seed"]), "--tier", r["tier"], "--only", r["group"]]
    if r.get("index", -1) >= 0:
        cmd += ["--index", str(r["index"])]
    rc, o, e, _ = run(cmd, 900)
    print(o)
    sys.stderr.write(e[-8000:])
    return 0 if rc == 0 else 1


def check(pid, cfg, tier, seed, work, t0):
    jobs = cfg[tier] if tier in cfg else cfg["quick"]
    # jobs: list of dicts source, variant, parts, seeds, scale, flags
    builds = {}
    for j in jobs:
        key = (j["source"], j["variant"], tuple(j.get("flags", [])))
        builds.setdefault(key, os.path.join(work, "h%d" % len(builds)))
    errors, violations, results, failed_builds = [], [], [], []
    build_s = {}
    deadline = t0 + (870 if tier == "quick" else 6 * 3600)

    def do_build(item):
        (src, variant, flags), exe = item
        t = time.time()
        cmd = compile_cmd(src, variant, exe, list(flags))
        rc, o, e, _ = run(cmd, max(30, deadline - time.time()))
        if rc != 0 and time.time() < deadline - 60:  # e.g. the compiler was killed when memory ran low
            rc, o, e, _ = run(cmd, max(30, deadline - time.time()))
        return (src, variant, flags), rc, e, time.time() - t

    # Every property and every configuration draws its own random cases.
    base = seed * 1000000 + int(pid[1:]) * 10000

    def do_run(j, exe, s, part, parts):
        hp = os.path.join(work, "hash-%s-%d-%d" % (os.path.basename(exe), s, part))
        cmd = [exe, "--seed", str(s), "--tier", tier, "--part", str(part), "--parts", str(parts),
               "--scale", str(j.get("scale", 100)), "--hashes", hp, "--cpu", str(j.get("cpu", 60))]
        rc, o, e, w = run(cmd, max(20, deadline - time.time()))
        return j, s, part, rc, o, e, w, hp

    stop = False
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(do_build, it) for it in builds.items()]
        runs = []
        for f in cf.as_completed(futs):
            key, rc, err, secs = f.result()
            build_s["%s/%s" % (key[0], key[1])] = round(secs, 1)
            must = [j for j in jobs if (j["source"], j["variant"], tuple(j.get("flags", []))) == key]
            if rc != 0:
                failed_builds.append((key, err))
                continue
            for j in must:
                for k in range(j.get("seeds", 1)):
                    for part in range(j.get("parts", 1)):
                        runs.append(ex.submit(do_run, j, builds[key], base + 20 * jobs.index(j) + k, part, j.get("parts", 1)))
        # A translation unit that is rejected (not a compiler that was killed) is a violation if the library and the
        # toolchain otherwise work: a use, or a static property of a result, that the property promises no longer holds.
        for key, err in failed_builds:
            probe = os.path.join(work, "probe-" + key[1])
            if " error: " in err and "Killed" not in err and "internal compiler error" not in err and "PLEASE submit a bug report" not in err and \
                    run(compile_cmd("probe.cpp", key[1], probe, list(key[2])), 300)[0] == 0 and run([probe], 60)[0] == 0:
                violations.append(dict(j=[j for j in jobs if (j["source"], j["variant"], tuple(j.get("flags", []))) == key][0], seed=seed, group="", index=-1,
                                       case="compilation of %s for %s" % (key[0], key[1]), what="a use the property promises no longer compiles, while a plain use of the library does",
                                       log="\n".join([l for l in err.splitlines() if " error: " in l][:6]) + "\n" + err[-3000:], kind="compile"))
            else:
                errors.append("build of %s failed:\n%s" % (key, err[-3000:]))
        for f in cf.as_completed(runs):
            results.append(f.result())

    total = dict(evaluations=0, counters={}, groups={}, samples=[], per_variant={})
    distinct = set()
    known = dict(known_findings(pid))
    seen_probe_fail, probe_bad = set(), []
    for j, s, part, rc, o, e, w, hp in results:
        v = j["variant"]
        for m in re.finditer(r"^PROBE key=(\S+) status=(\S+) wait=(\S+)", o, re.M):
            if m.group(2) != "ok":
                seen_probe_fail.add(m.group(1))
                if m.group(1) not in known:
                    probe_bad.append((m.group(1), j, s, m.group(0)))
        if rc == 0:
            m = re.search(r"^STATS (\{.*\})$", o, re.M)
            if not m:
                errors.append("no STATS from %s/%s" % (j["source"], v))
                continue
            d = json.loads(m.group(1))
            total["evaluations"] += d["evaluations"]
            pv = total["per_variant"].setdefault(v, dict(evaluations=0, wall_s=0.0, processes=0))
            pv["evaluations"] += d["evaluations"]
            pv["wall_s"] = round(pv["wall_s"] + w, 1)
            pv["processes"] += 1
            for k, n in d["counters"].items():
                total["counters"][k] = total["counters"].get(k, 0) + n
            for k, n in d["groups"].items():
                total["groups"][k] = total["groups"].get(k, 0) + n
            if len(total["samples"]) < 12:
                total["samples"] += [x for x in d["samples"] if x not in total["samples"]][:4]
            try:
                b = open(hp, "rb").read()
                distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            except OSError:
                pass
        elif rc in (3, 4, 99) or (rc is not None and rc < 0 and field(o, "FAIL")):
            g = re.search(r"group=(\S+) index=(-?\d+)", field(o, "FAIL"))
            violations.append(dict(j=j, seed=s, group=g.group(1) if g else "", index=int(g.group(2)) if g else -1,
                                   case=field(o, "CASE"), what=field(o, "WHAT"), log=e[-6000:],
                                   kind="hang" if rc == 4 else "fail"))
        elif rc is None:
            errors.append("%s/%s ran out of time" % (j["source"], v))
        else:
            errors.append("%s/%s ended with status %s\n%s\n%s" % (j["source"], v, rc, o[-2000:], e[-2000:]))

    # A hang counts only if the case hangs again when run on its own.
    confirmed = []
    for vi in violations:
        if vi["kind"] == "hang":
            if any(c["kind"] == "hang" for c in confirmed):
                continue
            exe = builds[(vi["j"]["source"], vi["j"]["variant"], tuple(vi["j"].get("flags", [])))]
            rc, o, e, w = run([exe, "--seed", str(vi["seed"]), "--tier", tier, "--only", vi["group"], "--index", str(vi["index"]), "--cpu", "40"], 300)
            if rc == 0:
                errors.append("case exceeded its CPU limit once but not when repeated: %s" % vi["case"])
                continue
        confirmed.append(vi)
    violations = confirmed
    for key, j, s, line in probe_bad:
        if any(v["case"] == "probe " + key for v in violations):
            continue
        violations.append(dict(j=j, seed=s, group="", index=-1, case="probe " + key, what="a specific history known to be a finding or repaired defect fails: " + line,
                               log="", kind="probe"))

    for key, what in known.items():
        if key in seen_probe_fail:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))

    cov = dict(evaluations=total["evaluations"], distinct_nontrivial=len(distinct), rule=RULES[pid],
               samples=total["samples"], monitor_events=total["counters"], cases_by_group=total["groups"],
               by_configuration=total["per_variant"], build_s=build_s)
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "exploration"), coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for vi in violations:
            k = (vi["what"], vi["j"]["source"])
            if k in seen and len(seen) > 0:
                continue
            seen.add(k)
            path = os.path.join(rdir, "%s-%d.json" % (pid, len(seen)))
            rec = dict(property=pid, source=vi["j"]["source"], variant=vi["j"]["variant"], flags=vi["j"].get("flags", []),
                       seed=vi["seed"], tier=tier, group=vi["group"], index=vi["index"], case=vi["case"], what=vi["what"], log=vi["log"],
                       rerun="python3 /verif/check.py %s --replay %s" % (pid, path))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("  %s/%s group=%s index=%s\n  case: %s\n  what: %s" % (vi["j"]["source"], vi["j"]["variant"], vi["group"], vi["index"], vi["case"][:600], vi["what"]))
            if vi["log"]:
                print("  " + "\n  ".join(x[:300] for x in vi["log"].strip().splitlines()[:14]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            if len(seen) >= 5:
                break
        return 1
    if errors:
        sys.stderr.write("CHECK ERROR %s\n" % pid + "\n".join(errors[:4]) + "\n")
        return 2
    print("%s held: %d evaluations, %d distinct nontrivial cases, %.1fs" % (pid, total["evaluations"], len(distinct), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
