#!/usr/bin/env python3
"""Mutation campaign, to find what the checks miss: python3 tools/mutate.py [--n N] [--jobs J] [--seed S] --out FILE PROPERTY[:file,...]...
   Each mutant changes one token or removes one statement of an anchored file, in a scratch clone. The property's check runs
   first; a mutant that it does not report is then built and run through the stable tests. Survivors of both are written out."""
import argparse, hashlib, concurrent.futures as cf, json, os, queue, random, re, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mutwork"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
props = {d["id"]: d for d in map(json.loads, open(V + "/properties.jsonl"))}

def sh(cmd, cwd=None, t=900, env=None):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, timeout=t, capture_output=True, text=True, env=dict(os.environ, **(env or {})))
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"

SWAPS = [("<=", ["<"]), (">=", [">"]), ("==", ["!="]), ("!=", ["=="]), ("&&", ["||"]), ("||", ["&&"]), ("++", ["--"]), ("+=", ["-="]), ("-=", ["+="])]
def mutants(path):
    text = open(path).read(); out = []; block = False; depth0 = 0
    for n, l in enumerate(text.split("\n")):
        s = l.strip()
        if block:
            if "*/" in s: block = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: block = True
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using", "typedef", "namespace", "include", "static_assert", "assert(", "LOG(", "[[")) or "LOG(" in s: continue
        code = re.sub(r"//.*", "", l)
        masked = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: "\x01" * len(m.group(0)), code)
        def put(a, b, new): out.append((n, l[:a] + new + l[b:]))
        for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+\+|\+=|-=", masked):
            for o, news in SWAPS:
                if o == m.group(0):
                    for w in news:
                        if w == "||" and re.search(r"\w\s*&&\s*\w+[,)]", masked[max(0, m.start() - 12):m.end() + 12]) and "auto &&" in masked: continue
                        put(m.start(), m.end(), w)
        for m in re.finditer(r" (<|>|\+|-|\*|/|%) ", masked):
            w = {"<": "<=", ">": ">=", "+": "-", "-": "+", "*": "/", "/": "*", "%": "/"}[m.group(1)]
            put(m.start(1), m.end(1), w)
        for m in re.finditer(r"(?<![\w.<])(\d+)(u|ull|ul)?(?![\w.])", masked):
            v = int(m.group(1)); put(m.start(), m.end(), str(v + 1) + (m.group(2) or ""))
            if v == 1: put(m.start(), m.end(), "0" + (m.group(2) or ""))
        for a, b in (("true", "false"), ("false", "true"), ("std::min", "std::max"), ("std::max", "std::min"), ("lower_bound", "upper_bound"), ("upper_bound", "lower_bound"), (".front()", ".back()"), (".back()", ".front()"), ("buy", "sell"), ("sell", "buy"), ("lower", "upper"), ("upper", "lower"), ("transferor", "transferee"), ("continue;", "break;"), ("break;", "continue;"), ("bid", "ask"), ("ask", "bid"), ("begin()", "end()"), ("sender", "recipient"), ("numerator", "denominator"), ("first", "second"), ("push_back", "push_front"), ("emplace_back", "emplace_front"), ("notify_one", "notify_all"), ("notify_all", "notify_one")):
            for m in re.finditer((r"\b" if a[0].isalpha() else "") + re.escape(a) + (r"\b" if a[-1].isalpha() else ""), masked): put(m.start(), m.end(), b)
        m = re.search(r"\bif\s*\(", masked)
        if m and "constexpr" not in masked and masked.count("(") == masked.count(")"):
            e = masked.rfind(")"); put(m.end(), e, "!(" + l[m.end():e] + ")")
            put(m.end(), e, "false && (" + l[m.end():e] + ")"); put(m.end(), e, "true || (" + l[m.end():e] + ")")
        # removal of a whole statement
        if s.endswith(";") and masked.count("(") == masked.count(")") and masked.count("{") == masked.count("}") and not re.match(r"(return|break|continue|friend|public|private|virtual|const|static|auto|struct|class|explicit|std::|int|unsigned|size_t|bool|double|mutable|extern|case|enum|\}|throw)\b", s) and re.match(r"[\w:>.\-\[\]*()&+ ]+(\(|=|\+\+|--|<<)", s) and not re.match(r"[\w:<>, ]+ [*&]?\w+\s*(=|;|\()", s):
            put(len(l) - len(l.lstrip()), len(l), ";")
    return out

def prepare(k):
    root = "%s/r%d" % (ROOT, k)
    os.makedirs(ROOT, exist_ok=True)
    if not os.path.isdir(root + "/.git"): sh("git clone -q /repo %s" % root)
    sh("git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD && git clean -qfd", root)
    for n in ("build.sh", "test.sh"):
        open("%s.%s" % (root, n), "w").write(open("/opt/vp/" + n).read().replace("/repo", root).replace("bash /opt/vp/build.sh", "bash %s.build.sh" % root))
    rc, o = sh("bash %s.build.sh" % root)
    if rc: print(o[-2000:]); sys.exit("clean build failed")
    return root

def one(job, root):
    p, f, n, new = job
    path = root + "/" + f; orig = open(path).read(); ls = orig.split("\n"); old = ls[n]; ls[n] = new
    open(path, "w").write("\n".join(ls)); t0 = time.time()
    try:
        rc, o = sh("python3 mc/run.py %s --tier quick" % p, V, 400, {"MC_REPO": root, "MC_EVIDENCE": root + ".ev", "MC_CACHE": ROOT + "/cache"})
        if rc == 1 and "VIOLATION property=" + p in o: r = "caught"
        elif rc == 2 and "does not build" in o: r = "nobuild"
        elif rc == 0:
            rc2, o2 = sh("bash %s.test.sh %s.json" % (root, root))
            try: passed = set(json.load(open(root + ".json"))["passed"])
            except Exception: passed = set()
            r = "SURVIVED" if not (stable - passed) else "tests"
        else: r = "UNSURE rc=%d %s" % (rc, o.strip().split("\n")[-1][:200])
    finally:
        open(path, "w").write(orig)
    return "%-8s %s %s:%d %.0fs\n    - %s\n    + %s" % (r, p, f, n + 1, time.time() - t0, old.strip(), new.strip())

ap = argparse.ArgumentParser(); ap.add_argument("--n", type=int, default=40); ap.add_argument("--jobs", type=int, default=4); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--out", required=True); ap.add_argument("what", nargs="+")
a = ap.parse_args(); os.makedirs(ROOT + "/cache", exist_ok=True)
jobs = []
for w in a.what:
    p, _, fs = w.partition(":"); fs = fs.split(",") if fs else [f for f in props[p]["anchors"]["files"]]
    all_ = [(p, f, n, new) for f in fs if os.path.exists("/repo/" + f) for n, new in mutants("/repo/" + f)]
    random.Random(a.seed).shuffle(all_); print(p, len(all_), "mutants", flush=True); jobs += all_[:a.n]
roots = queue.Queue()
with cf.ThreadPoolExecutor(a.jobs) as ex: [roots.put(r) for r in ex.map(prepare, range(a.jobs))]
out = open(a.out, "a"); lock = threading.Lock()
def run(j):
    r = roots.get()
    try: t = one(j, r)
    except Exception as e: t = "ERROR %r %r" % (e, j)
    finally: roots.put(r)
    with lock: out.write(t + "\n"); out.flush()
with cf.ThreadPoolExecutor(a.jobs) as ex: list(ex.map(run, jobs))
