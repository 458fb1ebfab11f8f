#!/usr/bin/env python3
"""Makes and tests a planted bug: mkseed.py ID  reads /tmp/sd/ID.py (PROP, EDITS, NEEDS, BREAKS, DEMO), writes seeded/ID,
runs the demo on a clean and a patched scratch copy of /repo, and the property's check on the patched copy."""
import os, sys, subprocess, shutil, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property's behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
g++ -g -O1 -std=gnu++11 -DCRAB_COMPILE=1 -Iinclude "$D/demo.cpp" src/crab.cpp -o "$T/demo" -lpthread -ldl || { rm -rf "$T"; exit 2; }
timeout 60 "$T/demo"
R=$?
rm -rf "$T"
exit $R
'''
one = sys.argv[1]
ns = {}
exec(open("/tmp/sd/%s.py" % one).read(), ns)
o = os.path.join(V, "seeded", one)
os.makedirs(o, exist_ok=True)
d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
try:
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (d, d), shell=True, check=True)
    open(o + "/demo.cpp", "w").write(ns["DEMO"])
    open(o + "/demo.sh", "w").write(ns.get("SH", SH))
    os.chmod(o + "/demo.sh", 0o755)
    r0 = subprocess.run(["bash", o + "/demo.sh"], cwd=d)
    for f, a, b in ns["EDITS"]:
        p = os.path.join(d, "include/crab", f)
        t = open(p).read()
        assert t.count(a) == 1, (f, a, t.count(a))
        open(p, "w").write(t.replace(a, b))
    df = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
    open(o + "/patch.diff", "w").write(df)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(o + "/meta.json", "w"), indent=1)
    r1 = subprocess.run(["bash", o + "/demo.sh"], cwd=d)
    print("demo clean rc=%d patched rc=%d" % (r0.returncode, r1.returncode))
    e = dict(os.environ, CRAB_REPO=d, CRAB_EVIDENCE=d + "/ev")
    c = subprocess.run([sys.executable, V + "/check.py", ns["PROP"]], env=e, capture_output=True, text=True)
    print("check rc=%d" % c.returncode, [l for l in c.stdout.splitlines() if " in " in l or "VIOL" in l][:4])
    if "--tests" in sys.argv:
        pass
finally:
    shutil.rmtree(d)
