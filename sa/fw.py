"""Check framework: obligations, violations, evidence."""
import json, os, sys, time
from model import AnalysisError, program

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = 0
        self.by_rule = {}          # rule -> [count, ok]
        self.viol = {}             # signature -> dict
        self.samples = []
        self.cover = {}
        self.fns = set()
        self.paths = 0
        self.steps = 0
        self.notes = []
        self.mins = []

    def ob(self, rule, ok, fn=None, where=None, msg="", detail="", path=None):
        """one obligation; fn: function name, where: file:line, detail: stable part of the signature"""
        self.obligations += 1
        c = self.by_rule.setdefault(rule, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1
            return True
        sig = "%s|%s|%s" % (rule, fn, detail)
        if sig not in self.viol:
            self.viol[sig] = {"rule": rule, "function": fn, "where": where, "message": msg, "detail": detail, "path": path or []}
        return False

    def need(self, rule, n):
        """the rule must have had at least n instances"""
        self.mins.append((rule, n))

    def count(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def engine(self, E, results=None):
        self.fns |= E.fns_seen
        self.steps += E.steps
        if results is not None:
            self.paths += len(results)


def known_findings(prop):
    r = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                rest = l[len("KNOWN-FINDING: property=%s " % prop):]
                sig, _, text = rest.partition(" :: ")
                r.append((sig.strip(), text.strip()))
    return r


def short(fn):
    """function name without parameter list, for messages"""
    return fn if isinstance(fn, str) else getattr(fn, "qual", str(fn))


def path_of(prog, st, limit=60):
    """readable trace of a state"""
    out = []
    for e in st.trace():
        try:
            loc = prog.loc(e[1]) if isinstance(e[1], dict) else "?"
        except Exception:
            loc = "?"
        what = e[2] if isinstance(e[2], str) else ""
        out.append("%s %s %s" % (loc, e[0], what))
    return out[-limit:]


def run_check(prop, func, level="other", technique="", explanation="", assumptions=()):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(prop)
    rep.tier = tier
    prog = program()
    known = known_findings(prop)
    try:
        func(prog, rep)
        for rule, n in rep.mins:
            have = rep.by_rule.get(rule, [0, 0])[0]
            if have < n:
                raise AnalysisError("rule %r had %d instances, expected at least %d" % (rule, have, n))
        if rep.obligations == 0:
            raise AnalysisError("no obligations")
    except AnalysisError as x:
        if not rep.viol:
            raise
        # what was already found wrong stands, whatever the rest of the analysis would have said
        if all(s in [k for k, _ in known] for s in rep.viol):
            raise
        rep.notes.append("analysis incomplete: %s" % x)
        print("  analysis incomplete: %s" % x)
    new = []
    listed = []
    for sig, v in rep.viol.items():
        k = [t for s, t in known if s == sig]
        (listed if k else new).append((sig, v))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(wall, 3), "violations": len(new),
          "coverage": {"explanation": explanation, "obligations": rep.obligations,
                       "discharged": sum(v[1] for v in rep.by_rule.values()),
                       "rules": {k: {"instances": v[0], "held": v[1]} for k, v in sorted(rep.by_rule.items())},
                       "functions_analysed": len(rep.fns), "path_outcomes": rep.paths, "abstract_steps": rep.steps,
                       "samples": rep.samples, "technique": technique},
          "assumptions": list(assumptions) + rep.notes}
    ev["coverage"].update(rep.cover)
    if level == "proof":
        ev["coverage"]["checker_cmd"] = "python3 /verif/check.py %s" % prop
        ev["coverage"].setdefault("trusted_base", ["clang 18 front end", "sa/absint.py", "sa/std_models.py"])
    evd = os.environ.get("CRAB_EVIDENCE") or os.path.join(ROOT, "evidence")   # the override is for selftest/
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property=%s tier=%s obligations=%d functions=%d paths=%d wall=%.1fs" % (prop, tier, rep.obligations, len(rep.fns), rep.paths, wall))
    for k, v in sorted(rep.by_rule.items()):
        print("  rule %-44s instances=%d held=%d" % (k, v[0], v[1]))
    for sig, v in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, sig))
    if new:
        rpd = os.path.join(os.environ.get("CRAB_EVIDENCE") or os.path.join(ROOT, "build"), "replay")
        os.makedirs(rpd, exist_ok=True)
        rp = os.path.join(rpd, prop + ".txt")
        with open(rp, "w") as f:
            for sig, v in new:
                f.write("rule: %s\nfunction: %s\nat: %s\nwhat: %s\nsignature: %s\n" % (v["rule"], v["function"], v["where"], v["message"], sig))
                for p in v["path"]:
                    f.write("    " + p + "\n")
                f.write("\n")
        for sig, v in new[:20]:
            print("  %s: %s in %s: %s" % (v["where"], v["rule"], v["function"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0
