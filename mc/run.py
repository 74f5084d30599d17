#!/usr/bin/env python3
"""Build one check from /repo's working tree and run it.

  python3 mc/run.py C10                 quick (or VERIF_TIER)
  python3 mc/run.py C10 --tier thorough
  python3 mc/run.py C10 --replay FILE   re-execute a recorded violation

exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
CXX = ["g++", "-std=c++17", "-w", "-O1", "-include", "cstdint", "-include", "functional", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS",
       "-DESL_RELEASE=1", "-fno-strict-aliasing", "-ffunction-sections", "-fdata-sections", "-I" + REPO, "-I" + os.path.join(VERIF, "mc")]
LIBS = ["-Wl,--gc-sections", "-lboost_serialization", "-lboost_date_time", "-lpthread"]
EXCLUDE = ("python_module", "mathematics/variable", "differentiable", "walras/price_setter", "walras/tatonnement", "mpi_environment")


def directives(src):
    d = {"sources": [], "flags": [], "libs": [], "exclude": [], "extra": [], "instrument": []}
    for line in open(src):
        m = re.match(r"//\s*mc-(sources|flags|libs|exclude|extra|instrument):\s*(.*)", line)
        if m:
            d[m.group(1)] += [w.replace("@", VERIF) for w in m.group(2).split()]
    return d


class BuildError(Exception):
    pass


def compile_one(args):
    src, obj, flags = args
    cache = os.environ.get("MC_CACHE")      # only for campaigns of tools/mutate.py; checks always compile
    if cache:
        e = subprocess.run(CXX + flags + ["-E", "-P", src], capture_output=True)
        key = os.path.join(cache, hashlib.sha256(b" ".join(x.encode() for x in flags) + e.stdout).hexdigest())
        if e.returncode == 0 and os.path.exists(key):
            shutil.copy(key, obj)
            return src, obj, 0, ""
        r = subprocess.run(CXX + flags + ["-c", src, "-o", obj], capture_output=True, text=True)
        if r.returncode == 0:
            shutil.copy(obj, key + ".%d" % os.getpid()); os.rename(key + ".%d" % os.getpid(), key)
        return src, obj, r.returncode, r.stdout + r.stderr
    r = subprocess.run(CXX + flags + ["-c", src, "-o", obj], capture_output=True, text=True)
    return src, obj, r.returncode, r.stdout + r.stderr


def build(check, tmp):
    src = os.path.join(VERIF, "checks", check + ".cpp")
    d = directives(src)
    exe = os.path.join(tmp, check)
    listed = [os.path.join(REPO, s) for s in d["sources"] if os.path.exists(os.path.join(REPO, s))]
    extra = [os.path.join(VERIF, s) for s in d["extra"]]

    def objs(files):
        # the controlled scheduler supplies the run-time side of the instrumentation
        inst = ["-fsanitize=" + i for i in d["instrument"]]
        jobs = [(f, os.path.join(tmp, re.sub(r"[^A-Za-z0-9]", "_", f) + ".o"), d["flags"] + (inst if f not in extra else [])) for f in files]
        out, bad = [], []
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for s, o, rc, text in ex.map(compile_one, jobs):
                (out if rc == 0 else bad).append((s, o, text))
        return [o for _, o, _ in out], bad

    must, bad = objs([src] + extra + listed)
    if bad:
        raise BuildError("\n".join("%s:\n%s" % (s, t[-6000:]) for s, _, t in bad))

    def link(o):
        return subprocess.run(["g++"] + d["flags"] + o + ["-o", exe] + LIBS + d["libs"], capture_output=True, text=True)

    r = link(must)
    if r.returncode:
        # a source file was added, or a definition moved: use everything that compiles
        rest = [f for f in sorted(glob.glob(REPO + "/esl/**/*.cpp", recursive=True))
                if f not in listed and not any(e in f for e in EXCLUDE + tuple(d["exclude"]))]
        more, _ = objs(rest)
        r2 = link(must + more)
        if r2.returncode:
            raise BuildError("link:\n" + r.stderr[-3000:] + "\nwith the whole library:\n" + r2.stderr[-3000:])
    return exe


def known_keys(check):
    keys = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"KNOWN-FINDING: property=(\w+) key=\[(.*?)\] (.*)", line)
            if m and m.group(1) == check:
                keys[m.group(2)] = m.group(3).strip()
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    check = a.check
    t0 = time.time()
    outdir = os.environ.get("MC_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, check)
    tmp = tempfile.mkdtemp(prefix="mc_build_")
    try:
        try:
            exe = build(check, tmp)
        except BuildError as e:
            print("check %s does not build:\n%s" % (check, e))
            return 2
        tb = time.time() - t0
        keys = known_keys(check)
        kf = os.path.join(tmp, "known")
        open(kf, "w").write("".join(k + "\n" for k in keys))
        cmd = [exe, "--known", kf]
        if a.replay:
            return subprocess.run(cmd + ["--replay", a.replay]).returncode
        for f in (out + ".json", out + ".replay"):
            if os.path.exists(f):
                os.unlink(f)
        cmd += ["--tier", tier, "--out", os.path.join(tmp, "result"), "--workers", str(os.cpu_count() or 4),
                "--deadline", "600" if tier == "quick" else "7200"]
        if a.only:
            cmd += ["--only", a.only]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True, env=dict(os.environ, TMPDIR=tmp))
        violated = False
        for line in p.stdout:
            if line.startswith("VIOLATION property="):
                violated = True
                dst = out + ".replay"
                srcp = os.path.join(tmp, "result.replay")
                if os.path.exists(srcp):
                    shutil.copy(srcp, dst)
                line = "VIOLATION property=%s replay=%s\n" % (check, dst)
            sys.stdout.write(line)
        rc = p.wait()
        if rc not in (0, 1) or not os.path.exists(os.path.join(tmp, "result.json")):
            print("check %s: harness ended with status %d" % (check, rc))
            return 1 if violated else 2
        r = json.load(open(os.path.join(tmp, "result.json")))
        seen = {k["key"]: k["msg"] for k in r["known"]}
        for k in seen:
            print("KNOWN-FINDING: property=%s %s (%s; e.g. %s)" % (check, k, keys.get(k, ""), seen[k][:200]))
        ev = {
            "property": check, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": r["states"], "transitions": r["transitions"],
                "traces_validated_against_impl": r["executions"],
                "assertions_evaluated": r["checks"],
                "exhaustive": bool(r["complete"]),
                "scopes": r["scopes"],
                "known_findings_seen": sorted(seen),
                "samples": r["samples"][:40],
                "build_s": round(tb, 2),
            },
            "assumptions": [
                "the alphabets and bounds of the scopes listed (see DESIGN.md)",
                "g++ -O1 with assertions on, single process, as compiled from /repo's working tree",
            ],
            "wall_s": round(time.time() - t0, 2), "violations": r["violations"],
        }
        json.dump(ev, open(out + ".json", "w"), indent=1)
        print("%s %s: states %d transitions %d executions %d assertions %d%s in %.1f s (build %.1f s)" % (
            check, tier, r["states"], r["transitions"], r["executions"], r["checks"],
            "" if r["complete"] else " (NOT exhaustive: time cap)", ev["wall_s"], tb))
        return rc if (rc == 0) == (not violated) else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
