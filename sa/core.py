"""Verdicts, evidence files, known findings and the command line of the checks."""
import json
import os
import sys
import time
import traceback
import tempfile
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Report:
    """obligations of one property: every obligation names a construct of the current source and the rule applied to it"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obs = []
        self.counts = {}
        self.units = []
        self.anchors = {}

    def _add(self, verdict, rule, where, detail, key=None, conf=None):
        self.obs.append({"verdict": verdict, "rule": rule, "where": where, "detail": detail, "key": key or rule, "config": conf})

    def ok(self, rule, where, detail="", conf=None):
        self._add("proved", rule, where, detail, None, conf)

    def bad(self, rule, where, detail, key=None, conf=None):
        self._add("violated", rule, where, detail, key, conf)

    def undecided(self, rule, where, detail, conf=None):
        self._add("undecided", rule, where, detail, None, conf)

    def judge(self, good, understood, rule, where, detail="", key=None, conf=None):
        if good:
            self.ok(rule, where, "", conf)
        elif understood:
            self.bad(rule, where, detail, key, conf)
        else:
            self.undecided(rule, where, detail, conf)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def unit(self, u):
        if u not in self.units:
            self.units.append(u)

    def merge(self, o):
        self.obs += o.obs
        for k, v in o.counts.items():
            self.count(k, v)
        for u in o.units:
            self.unit(u)


def known(prop):
    """keys of the recorded findings of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("finding:"):
                p = ln[len("finding:"):].strip().split(" ", 2)
                if p[0] == "property=" + prop:
                    out[p[1].split("=", 1)[1]] = p[2] if len(p) > 2 else ""
    return out


def short(s, n=600):
    s = str(s)
    return s if len(s) <= n else s[:n] + " ...[%d more]" % (len(s) - n)


def finish(rep, meta, t0, seed):
    v = [o for o in rep.obs if o["verdict"] == "violated"]
    ok = [o for o in rep.obs if o["verdict"] == "proved"]
    und = [o for o in rep.obs if o["verdict"] == "undecided"]
    kn = known(rep.prop)
    new, old = [], {}
    for o in v:
        if o["key"] in kn:
            old.setdefault(o["key"], o)
        else:
            new.append(o)
    rules = {}
    for o in rep.obs:
        r = rules.setdefault(o["rule"], {"proved": 0, "violated": 0, "undecided": 0})
        r[o["verdict"]] += 1
    ev = {
        "property": rep.prop, "tier": rep.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": meta["explanation"],
            "obligations": len(rep.obs), "discharged": len(ok), "undecided": len(und), "known_findings": len(old),
            "rules": rules,
            "analysed": rep.counts,
            "units": rep.units,
            "checker_cmd": " ".join(["python3"] + sys.argv),
            "trusted_base": meta.get("trusted", []),
            "samples": [{"rule": o["rule"], "where": o["where"], "config": o["config"], "detail": short(o["detail"], 200)} for o in ok[:6]],
            "undecided_list": [{"rule": o["rule"], "where": o["where"], "config": o["config"], "detail": short(o["detail"], 300)} for o in und[:20]],
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, o in old.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (rep.prop, k, kn[k]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d listed findings), %.1f s"
          % (rep.prop, len(rep.obs), len(ok), len(und), len(v), len(old), time.time() - t0))
    for o in und[:8]:
        print("  undecided [%s] %s: %s" % (o["rule"], o["where"], short(o["detail"], 160)))
    rp = os.path.join(VERIF, "evidence", rep.prop + ".violation.txt")
    if new:
        with open(rp, "w") as f:
            f.write("reproduce: cd /verif && %s\n\n" % " ".join(["python3"] + sys.argv))
            for o in new:
                f.write("rule      : %s\nconstruct : %s\nconfig    : %s\nfinding   : %s\n\n" % (o["rule"], o["where"], o["config"], o["detail"]))
        for o in new[:5]:
            print("  [%s] %s: %s" % (o["rule"], o["where"], short(o["detail"], 700)))
        print("VIOLATION property=%s replay=%s" % (rep.prop, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    return 0


def main(mods):
    """mods: property id -> (run(report, tier, tmp), meta)"""
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    run, meta = mods(prop)
    rep = Report(prop, tier)
    tmp = tempfile.mkdtemp(prefix="vh-")
    try:
        run(rep, tier, tmp)
        if not rep.obs:
            print("%s: no obligation found, the anchors of the property have vanished" % prop)
            return 3
        for rule, least in meta.get("anchors", {}).items():
            n = sum(1 for o in rep.obs if o["rule"] == rule)
            if n < least and not any(o["verdict"] == "violated" for o in rep.obs):
                print("%s: rule '%s' matched %d constructs, at least %d expected: anchor vanished" % (prop, rule, n, least))
                finish(rep, meta, t0, seed)
                return 3
        return finish(rep, meta, t0, seed)
    except Exception as e:
        traceback.print_exc()
        print("%s: analysis error: %s" % (prop, short(e)))
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
