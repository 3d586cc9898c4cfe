"""C11: looking at a bunch does not change it."""
import sys

import effects
import facts
from report import Report

NS = "ParticleTracking::"
# what the user asked for: culling and halting are no mere looking; a monitor with a resolution draws its own noise
OPTIONS = {NS + "NANCheckProcess": {"cull": 0.0, "halt": 0.0}, "BPM": {"res_x": 0.0, "res_y": 0.0}, "RMSProfileMonitor": {"res_x": 0.0, "res_y": 0.0, "res_u": 0.0}}
FAR = 1000.0


def base(t):
    t = (t or "").replace("const ", "").replace("*const", "*").replace("* const", "*").strip()
    return t.rstrip("&* ").strip()


def observers(F):
    """(function, why)"""
    out = {}
    for root in ("Monitor", "SimulationOutput", NS + "CollimationOutput"):
        c = F.cls(root)
        for u in [c["u"]] + list(F.all_subs(c["u"])):
            for m in F.classes[u]["methods"]:
                if m["u"] in F.fns and m.get("virt") and not m.get("dtor") and m["n"] != "PrepareTracker":
                    out[m["u"]] = F.classes[u]["qn"]
    for q in ("MonitorProcess", "NANCheckProcess"):
        c = F.cls(NS + q)
        for u in [c["u"]] + list(F.all_subs(c["u"])):
            for m in F.classes[u]["methods"]:
                if m["u"] in F.fns and not m.get("ctor") and not m.get("dtor") and m.get("acc") != 2:
                    out[m["u"]] = F.classes[u]["qn"]
    return out


def run():
    sys.setrecursionlimit(20000)
    F = facts.load()
    R = Report("C11", "Interprocedural effect analysis over access paths. Every const operation of every bunch class writes nothing reached from the bunch; every function of the library that is given a const bunch, a const array of "
               "particles or a const particle writes nothing reached from it; every method of a monitor, simulation output, monitor process or coordinate check writes nothing inside a bunch, particle array or the shared random "
               "generators; code run only because an output is attached does neither; observers never shorten a step.")
    bunch = F.cls("Bunch")
    family = [bunch["u"]] + list(F.all_subs(bunch["u"]))
    holders = {F.classes[u]["qn"] for u in family} | {F.classes[u]["ty"] for u in family if F.classes[u].get("ty")}
    parts = set()
    for q in ("PSvector", NS + "SliceMacroParticle", "SliceMacroParticle", "PSvectorArray"):
        for c in F.classes.values():
            if c["qn"] == q or c["qn"].endswith("::" + q):
                parts |= {c["qn"], c["ty"]}
    seen_types = holders | parts
    assume = {}
    for q, opts in OPTIONS.items():
        c = F.cls(q)
        have = {fl["n"]: fl["u"] for fl in c["fields"]}
        for n, v in opts.items():
            if n in have:
                assume[have[n]] = v
    E = effects.Effects(F, assume=assume)
    gens = {u for u, g in F.globals.items() if "RandomNG@" in u}

    def isarray(t):
        t = base(t)
        return t.startswith("std::vector<") and any(t[12:].startswith(x) for x in parts) or t in ("ParticleTracking::PSvectorArray", "PSvectorArray")

    def inside(p, what):
        """the bunch-like step a write goes through"""
        for j, st in enumerate(p):
            if j == 0:
                t = st[2] if st[0] in ("param", "global") else ""
            else:
                t = st[1]
            if base(t) in parts and reached(p[:j + 1]) and t.rstrip().endswith(("&", "*")):
                return base(t)
            if base(t) in holders or isarray(t) and reached(p[:j]):
                if j == len(p) - 1 and what == "pointer":
                    return None
                return base(t)
        return None

    def reached(p):
        return p and p[0][0] == "param" and len(p) == 1

    # const operations of the bunches themselves
    for u in family:
        c = F.classes[u]
        for m in c["methods"]:
            f = F.fns.get(m["u"])
            if f is None or f.load()["body"] < 0 or m.get("ctor") or m.get("dtor") or m.get("static"):
                continue
            if not m.get("const"):
                continue
            s = E.of(f)
            bad = [(p, w, l) for (p, w), l in s.writes.items() if p[0][0] == "this" or p[0][0] == "global" and p[0][1] in gens]
            R.check(not bad, "const operation", "%s %s" % (f.qn, ",".join(f.vars[v][1] for v in f.params)), f.loc(f.body),
                    "%s, a const operation, changes %s" % (f.qn, "; ".join("%s at %s" % (effects.show(p), l) for p, w, l in bad[:2])))
    # functions handed a const bunch, array of particles or particle
    for f in F.fns.values():
        f.load()
        if f.body < 0:
            continue
        for k, v in enumerate(f.params):
            t = f.vars[v][1]
            if not (t.startswith("const ") and t.rstrip().endswith(("&", "*"))):
                continue
            if not (base(t) in seen_types or isarray(t)):
                continue
            s = E.of(f)
            bad = [(p, w, l) for (p, w), l in s.writes.items() if p[0][0] == "param" and p[0][1] == k]
            R.check(not bad, "const argument", "%s %s" % (f.qn, f.vars[v][0]), f.loc(f.body),
                    "%s changes the %s it is only given to look at: %s" % (f.qn, base(t), "; ".join("%s at %s" % (effects.show(p), l) for p, w, l in bad[:2])))
    # observers
    for u, cq in sorted(observers(F).items()):
        f = F.fns[u]
        if f.load()["body"] < 0:
            continue
        s = E.of(f)
        bad = [(p, w, l) for (p, w), l in s.writes.items() if inside(p, w) or p[0][0] == "global" and p[0][1] in gens]
        R.check(not bad, "observer", "%s %s" % (cq, f.name), f.loc(f.body),
                "%s, which only observes, changes %s" % (f.qn, "; ".join("%s at %s" % (effects.show(p), l) for p, w, l in bad[:2])))
    # code run only because an output is attached
    so = F.cls("SimulationOutput")
    outs = {F.classes[u]["qn"] for u in [so["u"]] + list(F.all_subs(so["u"]))}
    for f in F.fns.values():
        f.load()
        if f.body < 0:
            continue
        for i in f.walk():
            if f.k(i) != "If":
                continue
            init, var, cond, then, els = (list(f.c(i)) + [-1] * 5)[:5]
            if not any(f.n(x).get("t", "").rstrip().endswith("*") and base(f.n(x).get("t")) in outs for x in f.walk(cond) if f.k(x) in ("Ref", "Member")):
                continue
            for arm in (then, els):
                if arm is None or arm < 0:
                    continue
                w = effects.Walk(E, f)
                w.run()
                w.s, w.memo = effects.Summary(), {}
                w.visit(arm)
                bad = [(p, h, l) for (p, h), l in w.s.writes.items() if inside(p, h) or p[0][0] == "global" and p[0][1] in gens]
                R.check(not bad, "attached output", "%s:%s" % (f.qn, "then" if arm == then else "else"), f.loc(arm),
                        "%s, only when an output is attached, changes %s" % (f.qn, "; ".join("%s at %s" % (effects.show(p), l) for p, h, l in bad[:2])))
                leaves = [x for x in f.walk(arm) if f.k(x) in ("Return", "BreakStmt", "ContinueStmt", "GotoStmt")]
                R.check(not leaves, "attached output", "%s:%s leaves" % (f.qn, "then" if arm == then else "else"), f.loc(arm), "%s goes another way when an output is attached" % f.qn)
    # observers never shorten a step
    E0 = effects.Walk
    for q in ("MonitorProcess", "NANCheckProcess"):
        c = F.cls(NS + q)
        for u in [c["u"]] + list(F.all_subs(c["u"])):
            for m in F.classes[u]["methods"]:
                f = F.fns.get(m["u"])
                if m["n"] != "GetMaxAllowedStepSize" or f is None:
                    continue
                f.load()
                vals = []
                for x in f.walk():
                    if f.k(x) == "Return":
                        w = E0(E, f)
                        w.run()
                        vals.append(w.const(f.c(x)[0]) if f.c(x) else None)
                R.check(bool(vals) and all(v is not None and v >= FAR for v in vals), "step", F.classes[u]["qn"], f.loc(f.body), "%s, which only observes, can make steps shorter" % f.qn)
    R.floor("const operation", 30)
    R.floor("const argument", 30)
    R.floor("observer", 15)
    R.floor("attached output", 3)
    R.floor("step", 2)
    return R.finish(F)
