"""C07: passing an aperture, a particle stays in the bunch or is lost, once, and every loss recorder is told once of each lost particle."""
import re
import sys
import facts
import ledger
from flow import strip
from facts import Broken
from report import Report


def dispose(X, f, i, n, last, s, vs):
    """recording a loss"""
    if last == "CheckWithinApertureBoundaries" and n.get("obj") and X.focus[-1] == "P":
        ins, outs = s.copy(), s.copy()
        ins.e["out"] = 0
        outs.e["out"], outs.e["hit"] = 1, 1
        return [(ins, ("c", 1), None), (outs, ("c", 0), None)]
    if last == "Dispose" and n.get("obj") and len(vs) >= 4:
        who, p = vs[0], vs[3]
        if vs[1] and vs[1][0] in ("sym", "obj", "el") and vs[1] != ("sym", "this.currentComponent"):
            X.note("where|" + f.qn, f.loc(i), "a loss is reported in another component than the one being passed")
        if len(vs) >= 5 and vs[4] and vs[4][0] in ("sym", "c", "cnt", "size") and vs[4] != ("sym", "this.ColParProTurn"):
            X.note("when|" + f.qn, f.loc(i), "a loss is reported for another turn than the current one")
        s = s.copy()
        if who == ("el", "R"):
            if p == ("el", "P"):
                s.e["recorded"] = min(3, s.e.get("recorded", 0) + 1)
            elif not p or p[0] != "el":
                X.note("what|" + f.qn, f.loc(i), "what is recorded as lost is not the particle at hand")
        elif who is None or who[0] != "el":
            X.note("who|" + f.qn, f.loc(i), "a loss is not handed to every recorder")
        return [(s, None, None)]
    return None


def is_field(g, i, u):
    i = strip(g, i)
    return g.k(i) == "Member" and g.n(i).get("fld") == u


def turns(F, R, family, u):
    """the turn goes up by one"""
    for g in sorted((g for g in F.fns.values() if g.cls in family and g.load()["body"] is not None and g.body >= 0), key=lambda g: g.u):
        for i in g.walk():
            n, c = g.n(i), g.c(i)
            if n["k"] == "Unary" and ("++" in n["op"] or "--" in n["op"]) and is_field(g, c[0], u):
                R.check("++" in n["op"], "start", g.qn + "|turn", g.loc(i), "the turn is counted down")
            elif len(c) == 2 and str(n.get("op")).endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and is_field(g, c[0], u):
                r = strip(g, c[1])
                if n["op"] == "=":
                    one = lambda x: str(g.n(strip(g, x)).get("v")) == "1"
                    ok = g.k(r) == "Int" or any(g.k(r) == "Ref" and g.n(r).get("v") == p for p in g.params) or \
                        (g.k(r) == "Binary" and g.n(r)["op"] == "+" and any(is_field(g, a, u) and one(b) for a, b in (g.c(r), g.c(r)[::-1])))
                else:
                    ok = n["op"] == "+=" and str(g.n(r).get("v")) == "1"
                R.check(ok, "start", g.qn + "|turn", g.loc(i), "the turn that losses are reported for does not go up by one")


def inputs(F, R, family, u):
    """what the entrance coordinates of the remaining particles are made from"""
    for g in sorted((g for g in F.fns.values() if g.cls in family and g.load()["body"] is not None and g.body >= 0), key=lambda g: g.u):
        into = set()
        for i in g.walk():
            n, c = g.n(i), g.c(i)
            if n["k"] == "Call" and len(c) == 2 and ((n.get("fn") or "").split("::")[-1].split("<")[0] == "swap" or n.get("op") == "="):
                if any(is_field(g, x, u) for x in c):
                    for x in c:
                        for y in g.walk(x):
                            if g.k(y) == "Ref" and "v" in g.n(y) and g.n(y)["v"] not in g.params:
                                into.add(g.n(y)["v"])

        def roots(i, seen):
            out = set()
            for y in g.walk(i):
                if is_field(g, y, u):
                    out.add("inputs")
                elif g.k(y) == "Member" and g.n(y).get("n", "").split("::")[-1] == "currentBunch":
                    out.add("bunch")
                elif g.k(y) == "Ref" and "v" in g.n(y) and g.n(y)["v"] not in seen:
                    v = g.n(y)["v"]
                    seen.add(v)
                    if INTEGER.match(g.vars[v][1]):
                        continue
                    for j in g.walk():
                        if g.k(j) == "Decl":
                            for w, init, _ in g.n(j)["d"]:
                                if w == v and init >= 0:
                                    out |= roots(init, seen)
                        elif g.n(j).get("op") == "=" and g.k(strip(g, g.c(j)[0])) == "Ref" and g.n(strip(g, g.c(j)[0])).get("v") == v:
                            out |= roots(g.c(j)[1], seen)
            return out
        for i in g.walk():
            n, c = g.n(i), g.c(i)
            if n["k"] == "Call" and n.get("obj") and len(c) == 2 and (n.get("fn") or "").split("::")[-1] in ("push_back", "emplace_back") and g.k(strip(g, c[0])) == "Ref" and g.n(strip(g, c[0])).get("v") in into:
                r = roots(c[1], set())
                R.check("bunch" not in r, "state", g.qn + "|inputs from", g.loc(i), "what is kept as the entrance coordinates of a remaining particle is not its entrance coordinates but those it has now")


INTEGER = re.compile(r"^(const )?(unsigned|int|long|short|size_t|std::size_t|std::ptrdiff_t|bool)\b[^*&]*$")


def run():
    sys.setrecursionlimit(20000)
    R = Report("C07", "one arbitrary particle is followed through every path of the collimation of a bunch: at each end it is in the bunch or counted as lost, exactly once, "
               "each recorder has been told once if and only if it was lost, its index has gone with it, and what the next collimation relies on holds again")
    F = facts.load()
    CP = F.cls("ParticleTracking::CollimateParticleProcess")
    PB = F.cls("ParticleTracking::ParticleBunch")
    flds = {}
    for u in [CP["u"]] + list(F.all_bases(CP["u"], True)):
        for fd in F.classes[u]["fields"]:
            flds[fd["n"]] = fd["u"]
    need = ("pindex", "nlost", "InputArray", "LostParticlePositions", "CollimationOutputVector", "currentBunch", "is_collimator", "nstart", "active")
    for x in need:
        if x not in flds:
            raise Broken("anchor vanished: CollimateParticleProcess::%s" % x)
    concrete = [CP["u"]] + sorted(F.all_subs(CP["u"], True))
    family = set(concrete) | set(F.all_bases(CP["u"], True))

    def follow(g, obj, vs):
        if g.cls in family:
            return True
        return g.cls is None and any(v and v[0] in ("obj", "it", "begin", "end", "el") for v in vs)

    def method(cls, name, npar):
        for u in [cls] + list(F.all_bases(cls, True)):
            for g in F.fns.values():
                if g.cls == u and g.name == name and len(g.load()["params"]) == npar and g.body is not None and g.body >= 0:
                    return g
        raise Broken("anchor vanished: %s::%s" % (F.classes[cls]["qn"], name))

    def fresh(coll, pind, aligned=("P",)):
        s = ledger.S()
        s.c["this.currentBunch"] = ("P",)
        s.c["this.InputArray"] = aligned
        s.c["this.LostParticlePositions"] = ()
        s.c["this.CollimationOutputVector"] = ("R",)
        s.v[("this", flds["nlost"])] = ("cnt", 0)
        if coll is not None:
            s.v[("this", flds["is_collimator"])] = ("c", coll)
        if pind:
            s.c["pindex"] = ("n",)
            s.v[("this", flds["pindex"])] = ("obj", "pindex")
        else:
            s.v[("this", flds["pindex"])] = ("null",)
        return s

    total = 0
    for cls in concrete:
        cn = F.classes[cls]["qn"]
        if any(m.get("pure") for m in F.classes[cls]["methods"]):
            continue
        g = method(cls, "DoCollimation", 0)
        for coll in (0, 1):
            for pind in (0, 1):
                X = ledger.Interp(F, cls, follow, dispose)
                outs = X.run(g, [], ("obj", "this"), fresh(coll, pind))
                total += len(outs)
                tag = "%s %s %s" % (cn, "scattering collimator" if coll else "hard edge", "with indices" if pind else "without indices")
                loc = g.loc(g.body)
                for k, l, m in X.err:
                    if m is None:
                        raise Broken("%s: %s of the standard library moves particles in a way this analysis does not know" % (l, k.split("|")[1]))
                    R.bad("walk", k, l, m)
                R.check(bool(outs), "paths", tag, loc, "no path")
                for s, v in outs:
                    late = v and v[0] == "throw"
                    if late and "ExcessiveParticleLoss" not in str(v[1]):
                        continue           # an error before the bunch is touched
                    kept = list(s.c.get("this.currentBunch", ()))
                    nl = s.v.get(("this", flds["nlost"]))
                    lost = nl[1] if nl and nl[0] == "cnt" else None
                    rec = s.e.get("recorded", 0)
                    n = kept.count("P")
                    if not coll:
                        R.check(not (n and s.e.get("out") == 1), "decision", tag + "|kept", loc, "on one path a particle that was found outside the aperture stays in the bunch")
                    if lost:
                        R.check(s.e.get("hit") == 1, "decision", tag + "|lost", loc, "on one path a particle is lost that was never found outside the aperture")
                    odd = [x for x in kept if x not in ("P",)]
                    R.check(lost is not None, "count", tag + "|count", loc, "how often the particle is counted as lost is not determined")
                    R.check(not odd, "place", tag + "|odd", loc, "the bunch gets particles that are not its own")
                    if lost is None:
                        continue
                    R.check(n + lost == 1, "place", tag + "|" + ("twice" if n + lost > 1 else "gone"), loc,
                            "on one path a particle is %d times in the bunch and counted %d times as lost" % (n, lost))
                    R.check(rec == lost or n + lost != 1, "recorded", tag + "|recorded", loc,
                            "on one path a particle %s and each recorder is told %d times" % ("is lost" if lost else "survives", rec))
                    if pind:
                        k = s.c.get("pindex", ())
                        R.check(len(k) == n, "index", tag + "|index", loc, "on one path a particle %s and its index %s" % ("survives" if n else "is lost", "stays" if k else "goes"))
                    R.check(not s.c.get("this.LostParticlePositions"), "state", tag + "|positions", loc, "positions of lost particles are left behind for the next collimation")
                    if not coll:
                        a = s.c.get("this.InputArray", ())
                        R.check(a.count("P") == n or not s.e.get("any", True), "state", tag + "|inputs", loc,
                                "the copy of the particles at the entrance no longer goes with the bunch (%s in the bunch, %s in the copy): a second collimation in the same element takes other particles" % (n, a.count("P")))
        # what is set up before
        h = method(cls, "InitialiseProcess", 1)
        for pind in (0, 1):
            X = ledger.Interp(F, cls, lambda g, obj, vs: g.cls in family and g.cls == h.cls, dispose)
            s = fresh(None, pind)
            for t, v in X.run(h, [("obj", "bunch")], ("obj", "this"), s):
                if v and v[0] == "throw":
                    continue
                tag = "%s %s" % (cn, "with indices" if pind else "without indices")
                for k, l, m in X.err:
                    if m:
                        R.bad("walk", k, l, m)
                live = not any(k == ("T", "this.currentBunch") and not b for k, b in t.k.items())
                nl = t.v.get(("this", flds["nlost"]))
                ns = t.v.get(("this", flds["nstart"]))
                R.check(nl in (("c", 0), ("cnt", 0)) or not live, "start", tag + "|nlost", h.loc(h.body), "the number of lost particles does not begin at nothing")
                R.check(ns == ("size", "this.currentBunch") or not live, "start", tag + "|nstart", h.loc(h.body), "the number of particles at the start is not the size of the bunch")
                if pind and live:
                    R.check(t.c.get("pindex") == ("i",), "start", tag + "|index", h.loc(h.body), "the indices are not one for each particle (%s)" % (t.c.get("pindex"),))
        h = method(cls, "SetCurrentComponent", 1)
        X = ledger.Interp(F, cls, lambda g, obj, vs: g.cls in family, dispose)
        s = fresh(None, 0, aligned=())
        ne = 0
        for t, v in X.run(h, [("obj", "component")], ("obj", "this"), s):
            act, coll = t.v.get(("this", flds["active"])), t.v.get(("this", flds["is_collimator"]))
            if v and v[0] == "throw" or act == ("c", 0):
                continue
            if coll == ("c", 0):
                ne += 1
                R.check(t.c.get("this.InputArray") == ("P",), "start", cn + "|inputs", h.loc(h.body), "entering an element the particles are not kept for finding where they are lost")
        R.check(ne > 0, "start", cn + "|element", h.loc(h.body), "no way into an element without scattering")
    # what else is kept for each particle
    fam = [g for g in F.fns.values() if g.cls in family and F.fns]
    calls = {}
    for g in fam:
        g.load()
        if g.body is None or g.body < 0:
            continue
        for i in g.walk():
            n = g.n(i)
            if n["k"] == "Call" and n.get("obj") and "currentBunch" in g.show(g.c(i)[0] if g.c(i) else i):
                h = F.fns.get(n.get("f"))
                last = (n.get("fn") or "").split("::")[-1]
                if last in ("clear", "swap", "erase", "AddParticle", "push_back"):
                    calls.setdefault(last, (g, i, h))
    for u in sorted(F.all_subs(PB["u"], True)):
        c = F.classes[u]
        own = [fd for fd in c["fields"] if ledger.CONT.match(fd.get("ct", fd["t"])) or "Array" in fd["t"]]
        if not own:
            continue
        for last, (g, i, h) in sorted(calls.items()):
            has = any(m["n"] == last for m in c["methods"]) and h is not None and any(m["n"] == last and m.get("virt") for m in PB["methods"])
            R.check(has, "along", "%s|%s" % (c["qn"], last), g.loc(i), "%s() leaves %s of a %s as it is: it no longer goes with the particles" % (last, own[0]["n"], c["qn"]))
    inputs(F, R, family, flds["InputArray"])
    if "ColParProTurn" in flds:
        turns(F, R, family, flds["ColParProTurn"])
    R.extra["paths"] = total
    R.floor("place", 12)
    R.floor("index", 4)
    return R.finish(F)
