"""C04: component protocol (type index, type name, Copy, PrepareTracker)."""
import facts
from report import Report
from values import Values
from events import EventFlow
from owner import Ownership
from flow import strip

# classes outside the rule, each with its reason
SAME_TYPE_NAME = {"ParticleTracking::ParticleMapComponent": "ParticleMap"}   # published name of that component


def concrete_components(F):
    base = [u for u, c in F.classes.items() if c["qn"] == "AcceleratorComponent"]
    if not base:
        raise facts.Broken("AcceleratorComponent vanished")
    return [(u, F.classes[u]) for u in F.all_subs(base[0], strict=True)], base[0]


def final_overrider(F, cu, decl_name, nparams):
    """function (usr) that a call of decl_name on an object of class cu runs, and the class it belongs to"""
    for b in bfs(F, cu):
        for m in F.classes[b]["methods"]:
            if m["n"] == decl_name and len(m["pt"]) == nparams and not m.get("static"):
                return m["u"], b, m
    return None, None, None


def bfs(F, cu):
    out, lvl = [], [cu]
    while lvl:
        nx = []
        for x in lvl:
            if x in F.classes and x not in out:
                out.append(x)
                nx += [b["u"] for b in F.classes[x]["bases"]]
        lvl = nx
    return out


class Prep(object):
    maxlen = 6

    def __init__(self, F, sel, preps):
        self.F, self.sel, self.preps = F, sel, preps

    def event(self, fl, i):
        n = fl.fn.n(i)
        if n["k"] != "Call":
            return None
        if n.get("f") == self.sel:
            c = fl.fn.c(i)
            ids = frozenset(fl.value(c[1]))
            who = frozenset(fl.value(c[2]))
            return [(("sel", ids, who, True), True), (("sel", ids, who, False), False)]
        if n.get("f") in self.preps and not n.get("virt"):
            return [(("base", n["f"]), None)]
        return None

    def inline(self, fl, i):
        n = fl.fn.n(i)
        if n.get("virt"):
            return None
        g = self.F.fns.get(n.get("f"))
        if g is None:
            return None
        if any("ComponentTracker" in g.vars[p][1] for p in g.params):
            return g
        return None


def run():
    F = facts.load()
    R = Report("C04", "For every concrete class derived from AcceleratorComponent (class table of the type-checked program): the final "
               "overrider of GetIndex returns one static index object initialised by a fresh-index call and used by no other class; GetType "
               "returns one constant equal to the class name; Copy returns only new objects of exactly the class made by its copy constructor "
               "from *this; along every path of PrepareTracker the first event is a request for the class's own index with *this, nothing follows "
               "success, and failure delegates to the nearest base's PrepareTracker (values resolved through locals and helpers, paths "
               "enumerated over the CFG with branch correlation); user-written copy constructors copy-construct every base and every member.")
    V = Values(F)
    global OWN
    OWN = Ownership(F)
    comps, base = concrete_components(F)
    sel = [m["u"] for c in F.classes.values() if c["qn"] == "ComponentTracker" for m in c["methods"] if m["n"] == "SelectIntegrator"]
    if not sel:
        raise facts.Broken("ComponentTracker::SelectIntegrator vanished")
    sel = sel[0]
    root = [m["u"] for m in F.classes[base]["methods"] if m["n"] == "PrepareTracker"]
    if not root:
        raise facts.Broken("AcceleratorComponent::PrepareTracker vanished")
    preps = set(F.overriders(root[0]))
    fresh = fresh_index_fns(F, V)
    if not fresh:
        raise facts.Broken("no fresh-index function found")
    used_ids, used_names = {}, {}
    allc = [(base, F.classes[base])] + comps
    for cu, c in sorted(allc, key=lambda x: x[1]["qn"]):
        own_prep = any(m["n"] == "PrepareTracker" and not m.get("pure") for m in c["methods"])
        if c.get("abstract") and not own_prep:
            continue
        q = c["qn"]
        # --- index
        gi, gc, _ = final_overrider(F, cu, "GetIndex", 0)
        f = F.fns.get(gi)
        if f is None:
            R.bad("index", q + " GetIndex", c["file"], "%s has no GetIndex body" % q)
            continue
        vals = set()
        for r in V.returns(f):
            vals |= V.of(f, r)
        ok = len(vals) == 1 and next(iter(vals))[0] == "g"
        gid = next(iter(vals))[1] if ok else None
        R.check(ok, "index", q + " GetIndex", f.loc(), "%s::GetIndex does not return one static type index (returns %s)" % (q, sorted(map(str, vals))))
        if gid:
            g = F.globals.get(gid)
            R.check(g is not None and is_fresh(F, g, fresh), "fresh", q + " index is fresh", f.loc(),
                    "the type index %s returned for %s is not initialised with a fresh index" % (gid, q))
            other = used_ids.get(gid)
            R.check(other is None, "unique-index", q + " index is its own", f.loc(), "%s and %s report the same type index" % (q, other))
            used_ids[gid] = q
        # --- type name
        if not c.get("abstract"):
            gt, _, _ = final_overrider(F, cu, "GetType", 0)
            f = F.fns.get(gt)
            vals = set()
            for r in (V.returns(f) if f else []):
                vals |= V.of(f, r)
            want = SAME_TYPE_NAME.get(q, q.split("::")[-1])
            names = {v[1] for v in vals if v[0] == "str"}
            R.check(vals == {("str", want)}, "type-name", q + " GetType", f.loc() if f else c["file"],
                    "%s::GetType returns %s, not \"%s\"" % (q, sorted(map(str, vals)), want))
        # --- Copy
        if not c.get("abstract"):
            cp, _, _ = final_overrider(F, cu, "Copy", 0)
            f = F.fns.get(cp)
            vals = set()
            for r in (V.returns(f) if f else []):
                vals |= V.of(f, r)
            good = bool(vals)
            why = "returns " + ", ".join(sorted(map(str, vals)))[:300]
            for v in vals:
                if v[0] != "new" or v[1] != q:
                    good = False
                    why = "returns %s" % (("a new " + v[1]) if v[0] == "new" else str(v)[:200])
                    break
                if not v[2]:
                    good = False
                    why = "does not use the copy constructor"
                    break
                if not v[3] or v[3][0] != frozenset({("deref", ("this",))}):
                    good = False
                    why = "copies something other than *this"
            R.check(good, "copy", q + " Copy", f.loc() if f else c["file"], "%s::Copy %s" % (q, why))
        # --- PrepareTracker
        pt, pc, _ = final_overrider(F, cu, "PrepareTracker", 1)
        f = F.fns.get(pt)
        if f is None:
            R.bad("tracker", q + " PrepareTracker", c["file"], "%s has no PrepareTracker body" % q)
            continue
        nearest = None
        if cu != base:
            for b in bfs(F, cu)[1:]:
                x = [m["u"] for m in F.classes[b]["methods"] if m["n"] == "PrepareTracker"]
                if x:
                    nearest = x[0]
                    break
        fl = EventFlow(F, f, Prep(F, sel, preps), V).run(())
        npaths = 0
        bad = None
        for (u, rv) in fl.returns:
            npaths += 1
            bad = bad or seq_ok(u, gid, nearest, False)
        for u in fl.throws:
            npaths += 1
            bad = bad or seq_ok(u, gid, nearest, cu == base)
        R.check(bad is None and npaths > 0, "tracker", q + " PrepareTracker", f.loc(),
                "%s::PrepareTracker: %s" % (q, bad), "%s: %d path(s) of %s" % (f.loc(), npaths, q))
    # --- copy constructors keep every attribute
    for cu, c in sorted(allc, key=lambda x: x[1]["qn"]):
        check_copy_ctor(F, R, cu, c)
    R.floor("index", 20)
    R.floor("copy", 18)
    R.floor("tracker", 20)
    return R.finish(F)


def seq_ok(u, gid, nearest, may_throw):
    if not u or u[0][0] != "sel":
        return "a path does not first ask for an integrator of its own type"
    s = u[0]
    if s[1] != frozenset({("g", gid)}):
        return "asks for the integrator of %s" % sorted(str(x[1]) if len(x) > 1 else str(x) for x in s[1])
    if s[2] != frozenset({("deref", ("this",))}):
        return "asks for an integrator for an object other than itself"
    if s[3]:
        return None if len(u) == 1 else "continues after an integrator was selected"
    if may_throw or nearest is None:
        return None
    if len(u) < 2:
        return "does not fall back to its base type when it has no integrator of its own"
    if u[1] != ("base", nearest):
        return "falls back to something other than the next more general type"
    return None if len(u) == 2 else "does more than fall back once"


def fresh_index_fns(F, V):
    """functions every path of which returns a value of a static counter it steps"""
    out = set()
    for f in F.fns.values():
        if f.load()["ret"] not in ("int", "unsigned int", "size_t", "unsigned long", "long") or f.body < 0 or f.params:
            continue
        if "AcceleratorComponent" not in f.qn:
            continue
        st = [i for i in f.walk() if (f.k(i) == "Unary" and "++" in f.n(i)["op"]) or f.k(i) == "CompoundAssign"]
        for i in st:
            t = strip(f, f.c(i)[0])
            n = f.n(t)
            if n["k"] == "Ref" and ("g" in n or ("v" in n and f.vars[n["v"]][2] == "static")):
                out.add(f.u)
    return out


def is_fresh(F, g, fresh):
    if g.get("init", -1) < 0:
        return False
    n = g["nodes"][g["init"]]
    while n["k"] in ("Cast", "Construct") and n.get("c"):
        n = g["nodes"][n["c"][0]]
    return n["k"] == "Call" and n.get("f") in fresh


def check_copy_ctor(F, R, cu, c):
    for m in c["methods"]:
        if not m.get("cc") or m.get("dflt") or m.get("del") or m.get("impl"):
            continue
        f = F.fns.get(m["u"])
        if f is None or f.body < 0:
            continue
        src = f.params[0]
        q = c["qn"]
        done_b, done_f = set(), set()
        for e in f.inits:
            if e[0] == "b":
                x = e[2]
                uses = any(f.k(i) == "Ref" and f.n(i).get("v") == src for i in f.walk(x)) if x >= 0 else False
                if uses:
                    done_b.add(e[1])
            elif e[0] == "m":
                x = e[2]
                if x >= 0 and any(f.k(i) == "Ref" and f.n(i).get("v") == src for i in f.walk(x)):
                    done_f.add(e[1])
            elif e[0] == "d":
                done_b |= {F.classes[b["u"]]["ty"] for b in c["bases"] if b["u"] in F.classes}
                done_f |= {fl["u"] for fl in c["fields"]}
        # assignments in the body from the source object
        for i in f.walk(f.body):
            n = f.n(i)
            tgt = None
            if (n["k"] == "Binary" and n["op"] == "=") or (n["k"] == "Call" and n.get("op") == "="):
                tgt = strip(f, f.c(i)[0])
            if tgt is not None and f.k(tgt) == "Member" and f.n(tgt).get("fld"):
                done_f.add(f.n(tgt)["fld"])
            if n["k"] == "Call" and any(f.k(x) == "Ref" and f.n(x).get("v") == src for x in f.walk(i)):
                for x in f.walk(i):
                    if f.k(x) == "Member" and f.n(x).get("fld"):
                        done_f.add(f.n(x)["fld"])
        for b in c["bases"]:
            bc = F.classes.get(b["u"])
            if bc is None or not has_state(F, b["u"]):
                continue
            R.check(bc["ty"] in done_b, "copy-base", "%s copy constructor: base %s" % (q, bc["qn"]), f.loc(),
                    "copying a %s does not copy its %s part" % (q, bc["qn"]))
        owned = OWN.owned(c["u"])
        for fl in c["fields"]:
            if fl["u"] in owned:
                continue                      # storage of its own: C03 decides how it may be copied
            R.check(fl["u"] in done_f, "copy-member", "%s copy constructor: member %s" % (q, fl["n"]), f.loc(),
                    "copying a %s does not take member %s from the original" % (q, fl["n"]))


def has_state(F, u):
    return any(F.classes[b]["fields"] for b in F.all_bases(u) if b in F.classes)
