"""Collects the obligations of one check, compares violations with the committed known findings and
writes the evidence file."""
import json, os, sys, time
import facts

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(pid):
    """{key: text} of the findings recorded for a property"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                rest = ln.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, _, text = rest[4:].partition(" :: ")
                    out[key.strip()] = text.strip()
    return out


class Report(object):
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.n = 0
        self.kinds = {}
        self.viol = []
        self.samples = {}
        self.extra = {}
        self.assume = []
        self.floors = []

    def ok(self, kind, sample=None):
        self.n += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if sample is not None and len(self.samples.setdefault(kind, [])) < 4:
            self.samples[kind].append(sample)

    def bad(self, kind, key, loc, msg):
        """one violated obligation; key names the construct without positions"""
        self.n += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if not any(v[1] == key for v in self.viol):
            self.viol.append((kind, key, loc, msg))

    def check(self, cond, kind, key, loc, msg, sample=None):
        if cond:
            self.ok(kind, sample or (loc + " " + key))
        else:
            self.bad(kind, key, loc, msg)
        return cond

    def floor(self, kind, n):
        """the rule must have matched at least n instances, or the analysis is broken"""
        self.floors.append((kind, n))

    def finish(self, F=None):
        kn = known(self.pid)
        new = [v for v in self.viol if v[1] not in kn]
        old = [v for v in self.viol if v[1] in kn]
        if not new:
            for kind, n in self.floors:
                if self.kinds.get(kind, 0) < n:
                    raise facts.Broken("rule '%s' matched %d instances, expected at least %d" % (kind, self.kinds.get(kind, 0), n))
        cov = {"explanation": self.rule, "obligations_by_rule": self.kinds, "obligations_total": self.n,
               "violated": len(self.viol), "samples": self.samples}
        if F is not None:
            cov["units"] = F.ntu
            cov["functions"] = len(F.fns)
            cov["classes"] = len(F.classes)
        cov.update(self.extra)
        if self.viol:
            cov["findings"] = [{"rule": k, "construct": key, "at": loc, "message": m, "known": key in kn} for k, key, loc, m in self.viol]
        ev = {"property": self.pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": "other", "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(d, self.pid + ".report.txt")
        with open(rp, "w") as f:
            for k, key, loc, m in self.viol:
                f.write("%s [%s] %s: %s\n    construct: %s\n" % ("known" if key in kn else "VIOLATION", k, loc, m, key))
        for k, key, loc, m in old:
            print("KNOWN-FINDING: property=%s %s (%s): %s" % (self.pid, key, loc, kn[key] or m))
        for k in kn:
            if k not in [v[1] for v in self.viol]:
                print("note: recorded finding no longer present: %s" % k)
        for k, key, loc, m in new:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            print("  %s: [%s] %s\n    construct: %s" % (loc, k, m, key))
        print("%s: %d obligations over %s, %d violated (%d known)" % (self.pid, self.n, ", ".join("%s %d" % x for x in sorted(self.kinds.items())), len(self.viol), len(old)))
        return 1 if new else 0
