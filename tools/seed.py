#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy of /repo: python3 tools/seed.py [--checks] [--jobs N] ID...
   For each: demo passes on the clean tree; the patch applies, builds, passes the stable tests, and fails the demo;
   with --checks, the property's check is run against the patched copy (MC_REPO) and must report a VIOLATION."""
import argparse, concurrent.futures as cf, json, os, queue, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/seedwork"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, cwd=None, t=900, env=None):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, timeout=t, capture_output=True, text=True, env=dict(os.environ, **(env or {})))
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout " + str(e.stdout)[-500:]

# build.sh and test.sh name /repo: run their text with another root
def script(name, root):
    return open("/opt/vp/" + name).read().replace("/repo", root).replace("bash /opt/vp/build.sh", "bash %s.build.sh" % root)

def prepare(k):
    root = "%s/r%d" % (ROOT, k)
    os.makedirs(ROOT, exist_ok=True)
    if not os.path.isdir(root + "/.git"): sh("git clone -q /repo %s" % root)
    sh("git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD && git clean -qfd", root)
    open(root + ".build.sh", "w").write(script("build.sh", root)); open(root + ".test.sh", "w").write(script("test.sh", root))
    rc, o = sh("bash %s.build.sh" % root)
    if rc: print(o[-2000:]); sys.exit("clean build failed")
    return root

def one(i, root, checks):
    d = "%s/seeded/%s" % (V, i); meta = json.load(open(d + "/meta.json")); out = [i, meta["property"]]
    t0 = time.time()
    sh("git checkout -q -- .", root)
    rc, o = sh("bash %s.build.sh" % root)
    # demo in a copy elsewhere, without patch and meta
    dd = root + ".demo"; sh("rm -rf %s; mkdir %s; cp -a %s/. %s/; rm -f %s/*.diff %s/meta.json" % (dd, dd, d, dd, dd, dd))
    rc, o = sh("bash %s/demo.sh" % dd, root, 300)
    if rc: return out + ["DEMO FAILS ON CLEAN TREE " + o[-1500:]]
    rc, o = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), root)
    if rc: return out + ["PATCH DOES NOT APPLY " + o]
    try:
        rc, o = sh("bash %s.test.sh %s.json" % (root, root))
        p = json.load(open(root + ".json"))
        miss = stable - set(p["passed"])
        if miss: return out + ["TESTS FAIL " + str(sorted(miss)[:4]) + (o[-1500:] if len(miss) > 20 else "")]
        rc, o = sh("bash %s/demo.sh" % dd, root, 300)
        if rc == 0: return out + ["DEMO PASSES WITH THE PATCH"]
        out.append("ok demo(%d: %s)" % (rc, o.strip().split("\n")[-1][:120]))
        if checks:
            t1 = time.time()
            rc, o = sh("python3 mc/run.py %s --tier quick" % meta["property"], V, 1000, {"MC_REPO": root, "MC_EVIDENCE": root + ".ev"})
            v = [l for l in o.split("\n") if l.startswith("VIOLATION property=" + meta["property"])]
            out.append(("CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc) + " in %.0f s " % (time.time() - t1) + " ".join(l for l in o.split("\n") if l.startswith("scope") and ": states" not in l)[:200] + ("" if rc in (0, 1) else o[-1500:]))
    finally:
        sh("git checkout -q -- .", root)
    out.append("%.0f s" % (time.time() - t0))
    return out

ap = argparse.ArgumentParser(); ap.add_argument("--checks", action="store_true"); ap.add_argument("--jobs", type=int, default=1); ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(V + "/seeded"))
roots = queue.Queue()
for k in range(min(a.jobs, len(ids))): roots.put(prepare(k))
def go(i):
    r = roots.get()
    try: return one(i, r, a.checks)
    except Exception as e: return [i, "ERROR", repr(e)]
    finally: roots.put(r)
with cf.ThreadPoolExecutor(a.jobs) as ex:
    for r in ex.map(go, ids): print(" | ".join(r), flush=True)
