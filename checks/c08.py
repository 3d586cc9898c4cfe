"""C08: a report counts every recorded loss once, in one row."""
import sys
import facts
import ledger
import rows
import vg
from facts import Broken
from report import Report

KEYS = {"nearestelement": ("ElementName",), "precise": ("position",), "tencm": ("ElementName", "interval")}
SORTS = ("sort", "stable_sort")


def fields(F, c):
    return {fd["n"]: fd["u"] for fd in c["fields"]}


def allfields(F, u):
    r = {}
    for x in list(F.all_bases(u, True)) + [u]:
        for fd in F.classes[x]["fields"]:
            r[fd["n"]] = fd
    return r


def finalise(F, R, C, rec, base):
    """each record goes into one row, once"""
    own = [f for f in F.fns.values() if f.cls == C["u"] and f.name == "Finalise" and f.load()["body"] is not None and f.body >= 0]
    touch = [f for f in F.fns.values() if f.cls == C["u"] and f.load()["body"] is not None and f.body >= 0
             and any(f.k(i) == "Member" and f.n(i).get("n", "").split("::")[-1] == "OutputLosses" for i in f.walk())]
    if not touch:
        return 0
    if not own:
        R.bad("walk", C["qn"] + "|Finalise", touch[0].loc(touch[0].body), "rows are reported that are never made")
        return 0
    g = own[0]
    fl = allfields(F, C["u"])
    for x in ("DeadParticles", "OutputLosses", "otype"):
        if x not in fl:
            raise Broken("anchor vanished: %s::%s" % (C["qn"], x))
    en = [e for e in F.enums.values() if {"nearestelement", "precise", "tencm"} <= {v[0].split("::")[-1] for v in e["vals"]}]
    if not en:
        raise Broken("anchor vanished: the ways of sorting losses")
    vals = {v[0].split("::")[-1]: int(v[1]) for v in en[0]["vals"]}
    fam = {C["u"]} | set(F.all_bases(C["u"], True)) | {rec["u"]}
    cnt = 0
    for mode, val in sorted(vals.items()):
        for stale in (0, "+"):
            seen = {}

            def special(X, f, i, n, last, s, vs):
                if last in SORTS and len(vs) >= 2:
                    s = s.copy()
                    if vs[0] == ("begin", X.recs) and vs[1] == ("end", X.recs):
                        s.e["sorted"] = True
                        seen["sorted"] = True
                    return [(s, None, None)]
                if last in ("for_each", "accumulate", "transform", "copy") and any(v and len(v) > 1 and v[1] == X.recs for v in vs):
                    raise Broken("%s: %s over the losses is not followed" % (f.loc(i), last))
                return None

            def follow(h, obj, vs):
                if h.cls in fam:
                    return True
                return any(v and v[0] in ("row", "el") for v in vs)
            X = rows.Rows(F, C["u"], follow, "DeadParticles", "OutputLosses", "lost", special)
            s = ledger.S()
            s.c[X.recs] = ("P",)
            s.c[X.rows] = ()
            s.e["rows"] = stale
            s.v[("this", fl["otype"]["u"])] = ("c", val)
            outs = X.run(g, [], ("obj", "this"), s)
            tag = "%s %s" % (C["n"] if "n" in C else C["qn"], mode)
            loc = g.loc(g.body)
            R.check(X.rounds_seen > 0, "walk", tag + "|walk", loc, "%s: the losses are not entered into the report" % mode)
            for k, l, m in X.err:
                if m is None:
                    raise Broken("%s moves losses in a way this analysis does not know" % l)
                R.bad("walk", tag + "|" + k, l or loc, "%s: %s" % (mode, m))
            if stale:
                continue
            for a, e in X.ends:
                cnt += 1
                dl = e.e.get("delta", 0)
                first = a.e.get("rows", 0) == 0
                R.check(dl == 1, "once", "%s|%s|%s" % (tag, "first" if first else "next", "more" if dl > 1 else "none"), loc,
                        "%s: on one path the %s loss adds %d to the rows" % (mode, "first" if first else "next", dl))
                eqs = {}
                for q, b in e.k.items():
                    if q[0] == "eq":
                        eqs.setdefault(q[1], {})[q[2]] = b
                if dl != 1:
                    continue
                new = e.e.get("new", ())
                want = KEYS.get(mode)
                if want is None:
                    continue
                if not new:
                    to = e.e.get("to")
                    got = eqs.get(to, {})
                    R.check(to is not None and to[0] == "last", "row", tag + "|which", loc, "%s: a loss is added to a row other than the last one" % mode)
                    miss = [k for k in want if not got.get(k)]
                    R.check(not miss, "row", tag + "|key", loc, "%s: a loss is added to a row without having the same %s" % (mode, ", ".join(miss)))
                elif not first:
                    got = eqs.get(("last", -1), {})
                    R.check(not (all(got.get(k) for k in want) and not [k for k in got if got[k] is False]), "row", tag + "|split", loc,
                            "%s: a loss with the %s of the last row begins a new one" % (mode, " and ".join(want)))
            R.check(all(not t.e.get("stale") for t, v in outs), "walk", tag + "|stale", loc, "rows of an earlier report are kept")
            R.check(all(t.e.get("sorted") for t, v in outs if not (v and v[0] == "throw")), "sorted", tag + "|sorted", loc, "%s: the losses are not in order of their place before rows are made of neighbours" % mode)
    return cnt


def entry(F, R, C, rec, g, read):
    """a loss is recorded once, with all that is reported of it"""
    fl = allfields(F, C["u"])
    rf = fields(F, rec)
    par = [g.vars[p][0] for p in g.load()["params"]]
    if len(par) < 4:
        raise Broken("anchor vanished: arguments of %s" % g.qn)
    pushes = []

    def special(X, f, i, n, last, s, vs):
        if last in ("any_of", "none_of", "all_of"):
            return [(t, ("c", b), None) for t, b in ((mark(s, b if last != "none_of" else 1 - b), b) for b in (0, 1))]
        if last in ("find_if", "count_if", "find_if_not"):
            return [(mark(s, "?"), None, None)]
        if last == "Match":
            return [(mark(s, b), ("c", b), None) for b in (0, 1)]
        if last in ("push_back", "emplace_back") and vs and vs[0] == ("obj", "this.DeadParticles"):
            s = s.copy()
            s.e["in"] = min(3, s.e.get("in", 0) + 1)
            v = vs[1] if len(vs) > 1 else None
            if v and v[0] == "obj":
                vals = {}
                for nm, u in rf.items():
                    if (v[1], u) in s.v or (v[1], "fresh") in s.v:
                        vals[nm] = s.v.get((v[1], u))
                pushes.append((f.loc(i), vals))
            return [(s, None, None)]
        return None

    def mark(s, b):
        s = s.copy()
        o = s.e.get("sel")
        s.e["sel"] = "?" if "?" in (o, b) else max(o or 0, b)
        return s

    class E(ledger.Interp):
        def container(self, t):
            return ledger.Interp.container(self, t) and "StringPattern" not in (t or "")

        def compare(self, s, a, b, op, txt):
            r = ledger.Interp.compare(self, s, a, b, op, txt)
            if op in ("==", "!=") and a and b:
                for x, y in ((a, b), (b, a)):
                    if x[0] == "sym" and x[1].startswith("this.") and y[0] == "obj":
                        out = []
                        for t, v, q in r:
                            if v == (op == "=="):
                                t = t.copy()
                                nm = x[1][5:]
                                if nm in fl:
                                    t.v[("this", fl[nm]["u"])] = y
                            out.append((t, v, q))
                        return out
            return r

        def loop(self, f, fr, i, n, c, s, d):
            over = c[:3] if n["k"] == "RangeFor" else [x for x in c[:2] if x is not None and x >= 0]
            if any("StringPattern" in (f.n(x).get("t") or "") for y in over if y is not None and y >= 0 for x in f.walk(y)):
                s = mark(s, 0)          # the selection, which may be of nothing
            return ledger.Interp.loop(self, f, fr, i, n, c, s, d)

        def decl(self, f, fr, v, x, s, d):
            if rec["qn"].split("::")[-1] in f.vars[v][1] and not f.vars[v][1].rstrip().endswith(("&", "*")):
                s = s.copy()
                src = self.ex(f, fr, x, s, d)[0][1] if x is not None and x >= 0 else None
                o = "local %s" % f.vars[v][0]
                for u in rf.values():
                    if src and src[0] == "obj" and (src[1], u) in s.v:
                        s.v[(o, u)] = s.v[(src[1], u)]
                if not (src and src[0] == "obj"):
                    s.v[(o, "fresh")] = ("c", 1)
                s.v[(fr, v)] = ("obj", o)
                return [s]
            return ledger.Interp.decl(self, f, fr, v, x, s, d)
    fam = {C["u"]} | set(F.all_bases(C["u"], True)) | {rec["u"]}
    X = E(F, C["u"], lambda h, obj, vs: h.cls in fam, special)
    s = ledger.S()
    s.c["this.DeadParticles"] = ()
    for nm, fd in fl.items():
        if rec["qn"].split("::")[-1] == fd["t"].split("::")[-1]:
            s.v[("this", fd["u"])] = ("obj", "kept " + nm)
    args = [("obj", "component"), ("sym", "pos"), ("obj", "particle"), ("sym", "turn")]
    outs = X.run(g, args, ("obj", "this"), s)
    loc = g.loc(g.body)
    nm = C["qn"]
    R.check(bool(outs), "entered", nm, loc, "no path")
    for t, v in outs:
        if v and v[0] == "throw":
            continue
        k, sl = t.e.get("in", 0), t.e.get("sel")
        if sl == 0:
            R.check(k == 0, "entered", nm + "|unselected", loc, "a loss in an element that is not selected is recorded")
        elif sl == "?":
            R.check(k <= 1, "entered", nm + "|entered", loc, "a loss is recorded %d times" % k)
        else:
            R.check(k == 1, "entered", nm + "|entered", loc, "on one path a loss is recorded %d times" % k)
    for l, vals in pushes:
        for x in sorted(read):
            R.check(x in vals, "own", "%s|%s" % (nm, x), l, "what is reported as %s of a loss may be that of the loss before" % x)
        v = vals.get("lost")
        R.check(v == ("c", 1), "own", nm + "|lost", l, "a recorded loss does not count for one")
        for x in ("ElementName", "s", "length"):
            v = vals.get(x)
            if v and v[0] == "sym":
                R.check(v[1].startswith("component."), "own", "%s|%s of" % (nm, x), l, "%s of a loss is not that of the element it is lost in" % x)
        v = vals.get("p")
        if v:
            R.check(v == ("obj", "particle"), "own", nm + "|p of", l, "the particle recorded is not the one that is lost")
        v = vals.get("position")
        if v and v[0] == "sym":
            R.check(v[1] == "pos", "own", nm + "|position of", l, "the position recorded is not the one given")
    return len(outs)


def rep(v):
    """a value as text; the two sides of an equality in a fixed order"""
    if not isinstance(v, vg.V):
        return repr(tuple(rep(x) for x in v)) if isinstance(v, tuple) else repr(v)
    a = [rep(x) for x in v.args]
    if v.op == "call" and "operator==" in str(v.args[0]):
        a = a[:1] + sorted(a[1:])
    if v.op in ("and", "or"):
        a.sort()
    return "%s(%s)" % (v.op, ", ".join(a))


def side(v):
    while v.op in ("fld", "idx", "in", "deref"):
        v = v.args[0]
    return v


def alike(F, R, rec):
    n = 0
    rq = rec["qn"].split("::")[-1]
    for f in sorted(F.fns.values(), key=lambda f: f.qn):
        if (rq + " ") not in (f.u + " ") and False:
            continue
        f.load()
        if f.body is None or f.body < 0 or "/Merlin++/" not in "/" + f.loc() and not f.loc():
            continue
        ps = [p for p in f.params if rq in f.vars[p][1] and "<" not in f.vars[p][1]]
        mem = f.cls == rec["u"]
        if len(ps) + mem != 2 or len(f.params) != len(ps):
            continue
        G = vg.Graph(F)
        r, st, _ = G.run(f)
        if r is None:
            continue
        leaves = [x for x in vg.walk(r) if x.op == "in"]
        roots = {}
        for x in leaves:
            b = side(x)
            roots.setdefault(b, []).append(x)
        tot = sorted(roots, key=lambda b: b.id)

        def other(b):
            if mem:
                if b.op == "this":
                    return next((p for p in tot if p.op == "param"), vg.mk("param", 0, f.vars[f.params[0]][0]))
                return next((p for p in tot if p.op == "this"), vg.mk("this"))
            k = 1 - b.args[0]
            return vg.mk("param", k, f.vars[f.params[k]][0])
        if any(b.op not in ("this", "param") for b in tot):
            continue
        m = {}
        for b in tot:
            for x in roots[b]:
                m[x] = vg.subst(x, {b: other(b)})
        if f.ret == "bool":
            n += 1
            w = vg.subst(r, m)
            two = len(tot) == 2
            R.check(two, "alike", f.qn + "|both", f.loc(f.body), "%s does not look at both losses" % f.name)
            neg = lambda v: vg.mk("b", v.args[0], vg.neg(v.args[1])) if v.op == "b" and v.args[0] == "<" else (vg.nt(neg(vg.nt(v))) if v.op == "not" else v)
            R.check(rep(w) in (rep(r), rep(neg(r))), "alike", f.qn, f.loc(f.body), "%s does not compare the same of both losses" % f.name)
        elif rq in f.ret and not f.name.endswith("operator="):
            n += 1
            for fd in rec["fields"]:
                v = vg.sel(r, ("fld", fd["u"]))
                while v.op == "phi":
                    v = v.args[1]
                ins = {side(x) for x in vg.walk(v) if x.op == "in"}
                if fd["n"] == "lost":
                    R.check(vg.subst(v, {x: y for x, y in m.items()}) is v and len(ins) == 2, "alike", "%s|%s" % (f.qn, fd["n"]), f.loc(f.body), "the sum of two losses does not count both")
                else:
                    R.check(bool(ins), "alike", "%s|%s" % (f.qn, fd["n"]), f.loc(f.body), "%s is that of neither of the two losses put together" % fd["n"])
    return n


def run():
    sys.setrecursionlimit(20000)
    R = Report("C08", "every path a loss takes into a report is followed: recorded once with its own data, entered in order into one row whose key it has, adding one; functions of two losses treat both alike")
    F = facts.load()
    base = F.cls("ParticleTracking::CollimationOutput")
    rec = F.cls("ParticleTracking::LossData")
    rf = fields(F, rec)
    read = set()
    subs = [base["u"]] + sorted(F.all_subs(base["u"], True))
    for f in F.fns.values():
        if f.cls in subs and f.name != "Dispose" and f.load()["body"] is not None and f.body >= 0:
            for i in f.walk():
                if f.k(i) == "Member" and f.n(i).get("fld") in rf.values():
                    read.add(next(k for k, v in rf.items() if v == f.n(i)["fld"]))
    read |= {"s", "position", "interval"} & set(rf)
    nd = nf = 0
    for u in subs:
        C = F.classes[u]
        for g in F.fns.values():
            if g.cls == u and g.name == "Dispose" and g.load()["body"] is not None and g.body >= 0 and (u != base["u"] or [i for i in g.walk() if g.k(i) == "Call"]):
                entry(F, R, C, rec, g, read)
                nd += 1
        nf += finalise(F, R, C, rec, base)
    na = alike(F, R, rec)
    R.extra["rounds"] = nf
    R.floor("entered", 2)
    R.floor("once", 9)
    R.floor("own", 10)
    R.floor("alike", 4)
    return R.finish(F)
