"""Helper to write planted bugs: from mkseed import seed; run as a script with a spec file: python3 tools/mkseed.py spec.py"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seedwork/mk"
SIM = "esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp"
DEMO = '''#!/bin/sh
# exit 0: the property holds in the demonstrated case; run with the source tree as working directory
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
g++ -std=c++17 -w -O1 -include cstdint -include functional %(flags)s -I. "$d/demo.cpp" %(sources)s -o "$t/demo" -lboost_serialization -lboost_date_time -lpthread -ldl || exit 3
(cd "$t" && timeout 120 ./demo); rc=$?
find "$t" -delete
exit $rc
'''
PRE = "#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <vector>\n#include <string>\n#include <map>\n#include <set>\n#include <thread>\n#include <atomic>\n#include <sstream>\n#include <iostream>\n#include <unistd.h>\n"
def seed(id, prop, edits, needs, breaks, demo, sources="", flags=""):
    if not os.path.isdir(R): subprocess.check_call("mkdir -p /tmp/seedwork; git clone -q /repo " + R, shell=True)
    subprocess.check_call("git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD", shell=True, cwd=R)
    for f, old, new in edits:
        s = open(R + "/" + f).read()
        if s.count(old) != 1: sys.exit("%s: %d occurrences in %s of %r" % (id, s.count(old), f, old))
        open(R + "/" + f, "w").write(s.replace(old, new))
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output("git diff", shell=True, cwd=R, text=True))
    # lines changed have to be original ones
    mine = 0; orig = 0
    for f in {e[0] for e in edits}:
        b = subprocess.check_output(["git", "blame", "-s", "HEAD", "--", f], cwd=R, text=True).split("\n")
        diff = subprocess.check_output(["git", "diff", "-U0", "--", f], cwd=R, text=True)
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
            n = int(m.group(2)) if m.group(2) is not None else 1
            for l in range(int(m.group(1)), int(m.group(1)) + n):
                if b[l - 1].startswith("^"): orig += 1
                else: mine += 1
    print(id, "original lines changed:", orig, "own lines changed:", mine)
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=R)
    open(d + "/demo.cpp", "w").write(PRE + demo)
    open(d + "/demo.sh", "w").write(DEMO % dict(flags=flags, sources=sources)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
