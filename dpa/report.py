"""Obligations, violations, evidence."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Res(dict):
    """what one analysis task found: obligations discharged / undecided / violated"""

    LIVE = []           # results begun by the running task: what they hold is kept if it stops early

    def __init__(self):
        Res.LIVE.append(self)
        super().__init__(ok=0, und=[], viol=[], info={}, sites=[])

    def good(self, n=1):
        self["ok"] += n

    def undecided(self, what):
        self["und"].append(what)

    def bad(self, key, where, what):
        """key: stable identity of the failing construct; where: source location; what: explanation"""
        self["viol"].append({"key": key, "where": where, "what": what})

    def site(self, s):
        if s not in self["sites"]:
            self["sites"].append(s)

    def count(self, k, n=1):
        self["info"][k] = self["info"].get(k, 0) + n

    def stopped(self, key, where, x):
        """the interpretation of a call stopped: invalid whatever the inputs, or outside the analysed language"""
        from .interp import Wild
        if isinstance(x, Wild):
            self.bad(key + ": " + str(x), where, "%s, whatever the inputs, at %s" % (x, getattr(x, "_at", "?")))
        else:
            self.undecided("%s: %s" % (key, x))

    def decide(self, verdict, key, where, what):
        """verdict True/False/None"""
        if verdict is True:
            self.good()
        elif verdict is None:
            self.undecided(key)
        else:
            self.bad(key, where, what)
        return verdict


def merge(rs):
    out = Res()
    for r in rs:
        out["ok"] += r["ok"]
        out["und"] += r["und"]
        out["viol"] += r["viol"]
        for s in r["sites"]:
            out.site(s)
        for k, v in r["info"].items():
            out.count(k, v) if isinstance(v, int) else out["info"].__setitem__(k, v)
    return out


def known(pid):
    """accepted findings: {key: text}; 'fixed:' lines suppress nothing"""
    p = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, _, text = rest[4:].partition(" :: ")
                    out[key.strip()] = text.strip()
    return out


def finish(pid, prop, res, t0, tier, assumptions):
    import sys
    kn = known(pid)
    viol, seen, listed = [], set(), []
    for v in res["viol"]:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        (listed if v["key"] in kn else viol).append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = None
    if viol:
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + ".txt")
        with open(rp, "w") as f:
            f.write("property %s: %s\nreproduce: cd %s && python3-vt -m dpa.check %s\n\n" % (pid, prop["title"], VERIF, pid))
            for v in viol:
                f.write("%s\n  at %s\n  %s\n\n" % (v["key"], v["where"], v["what"]))
    n = res["ok"] + len(res["und"]) + len(res["viol"])
    cov = {"obligations": n, "discharged": res["ok"], "undecided": len(res["und"]), "undecided_examples": res["und"][:20],
           "explanation": prop["rule"] + " Decided here: %d obligations over %d analysed constructs; %d discharged, %d undecided, %d violated." % (
               n, len(res["sites"]), res["ok"], len(res["und"]), len(res["viol"])),
           "analysed": res["sites"], "counts": res["info"]}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d obligations over %d constructs, %d discharged, %d undecided, %d violated (%.1f s)" % (
        pid, n, len(res["sites"]), res["ok"], len(res["und"]), len(res["viol"]), time.time() - t0))
    for u in res["und"][:10]:
        print("  undecided: %s" % u)
    for v in listed:
        print("KNOWN-FINDING: property=%s %s -- %s" % (pid, v["key"], kn[v["key"]]))
    for v in viol[:30]:
        print("  %s\n    at %s\n    %s" % (v["key"], v["where"], v["what"]))
    if len(viol) > 30:
        print("  ... %d more in %s" % (len(viol) - 30, rp))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
