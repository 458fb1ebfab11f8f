#!/usr/bin/env python3
"""Self-test of the checks: each entry of selftest/mutants.py edits a scratch copy of /repo (never /repo itself); the check of the
named property must report a violation ("bad") or stay quiet ("ok", behaviour-preserving edits).
usage: selftest/mutate.py [PROPERTY|name-substring ...] [-j N]"""
import os, sys, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import mutants


def one(m):
    prop, kind, name, edits = m
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        for s in ("include", "src", "CMakeLists.txt"):
            if os.path.isdir("/repo/" + s):
                shutil.copytree("/repo/" + s, d + "/" + s)
            elif os.path.exists("/repo/" + s):
                shutil.copy("/repo/" + s, d)
        for f, old, new in edits:
            p = d + "/include/crab/" + f
            t = open(p).read()
            if t.count(old) < 1:
                return m, None, "EDIT DOES NOT APPLY: %s" % old
            open(p, "w").write(t.replace(old, new, 1))
        e = dict(os.environ, CRAB_REPO=d, CRAB_EVIDENCE=d + "/ev")
        try:
            r = subprocess.run([sys.executable, os.path.join(H, "..", "check.py"), prop], env=e, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return m, -1, "TIMEOUT"
        return m, r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    j = 8
    if "-j" in a:
        k = a.index("-j")
        j = int(a[k + 1])
        del a[k:k + 2]
    verbose = "-v" in a
    a = [x for x in a if x != "-v"]
    ms = [m for m in [(q,) + m[1:] for m in mutants.M for q in m[0].split()] if not a or m[0] in a or any(x in m[2] for x in a)]
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for m, rc, out in ex.map(one, ms):
            want = 1 if m[1] == "bad" else 0
            ok = rc == want
            bad += not ok
            print("%-4s %s %s %s rc=%s" % ("ok" if ok else "FAIL", m[0], m[1], m[2], rc), flush=True)
            if not ok or verbose:
                ls = [l for l in out.splitlines() if not l.startswith("  rule")]
                print("      " + "\n      ".join(ls[:8] if rc in (0, 1) else ls[-8:]))
            elif rc == 1:
                ls = [l for l in out.splitlines() if " in " in l and l.startswith("  ") and not l.startswith("  rule")]
                print("      " + (ls[0][:200] if ls else ""))
    print("%d entries, %d unexpected" % (len(ms), bad))
    return bad != 0


sys.exit(main())
