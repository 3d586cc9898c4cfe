"""C05: integrator sets and the machinery that selects from them."""
import facts, seq
from report import Report
from values import Values
from seq import is_param, is_field, is_call, unref

# kinds each published integrator set tracks (component class names), from the sets' documentation and tables
KINDS = {
    "ParticleTracking::THIN_LENS::StdISet": ["Drift", "SectorBend", "RectMultipole", "TWRFStructure", "TransverseRFStructure",
                                             "Monitor", "Solenoid", "Marker", "ParticleTracking::ParticleMapComponent"],
    "ParticleTracking::TRANSPORT::StdISet": ["Drift", "SectorBend", "RectMultipole", "TWRFStructure", "TransverseRFStructure",
                                             "Solenoid", "SWRFStructure", "Marker", "Monitor"],
    "ParticleTracking::SYMPLECTIC::StdISet": ["Drift", "TWRFStructure", "SWRFStructure", "RectMultipole", "SectorBend", "Marker",
                                              "Monitor", "Solenoid"],
    "SMPTracking::StdISet": ["Drift", "SectorBend", "RectMultipole", "TWRFStructure", "Monitor", "Solenoid", "Marker"],
}
DEFAULT = {"ParticleTracking::ParticleBunch": "ParticleTracking::TRANSPORT::StdISet", "SMPTracking::SMPBunch": "SMPTracking::StdISet"}


def id_owner(F):
    """static ID variable -> class that declares it"""
    return {g["u"]: g["qn"].rsplit("::", 1)[0] for g in F.globals.values() if g["name"] == "ID"}


def run():
    F = facts.load()
    R = Report("C05", "For every class overriding ISetBase::Init: the integrators registered on every path of Init (helpers followed, values "
               "resolved) are mapped to the static component index their final GetComponentIndex returns and to the component class C of their "
               "Integrator<C> base; index class = C, each kind once, and every kind the set is published to track is supplied. The selection "
               "machinery (Add, GetIntegrator, SelectIntegrator, SetCurrentComponent, InitialiseIntegrator, set replacement, constructors) is "
               "checked path by path: the integrator selected is the one stored under the requested index, it receives this component and this "
               "bunch, success is reported exactly when one exists, and a new set starts from an empty table.")
    V = Values(F, opaque=("GetLength", "GetComponentIndex", "GetIntegrator"))
    CT, IS, CI = F.cls("ComponentTracker"), F.cls("ComponentTracker::IntegratorSet"), F.cls("ComponentIntegrator")
    owner = id_owner(F)
    sets = [c for c in F.classes.values() if any(F.classes[b]["qn"].endswith("::ISetBase") for b in F.all_bases(c["u"], strict=True))]
    for c in sorted(sets, key=lambda c: c["qn"]):
        check_set(F, R, V, c, owner)
    for q in KINDS:
        if not any(c["qn"] == q for c in sets):
            R.bad("set", q, "", "the integrator set %s no longer exists" % q)
    # --- every integrator class is keyed by the kind it is written for
    gi_root = seq.method(F, CI, "GetComponentIndex", 0)[0]["u"]
    for u in F.all_subs(CI["u"], strict=True):
        c = F.classes[u]
        if c.get("abstract") or "Integrator<" in c["qn"].rsplit("::", 1)[-1]:
            continue
        check_integrator(F, R, V, c, owner)
    # --- defaults
    for g in F.globals.values():
        if g["name"] == "defIS":
            b = g["qn"].split("<", 1)[1].rsplit(">::defIS", 1)[0]
            n = g["nodes"][g["init"]] if g.get("init", -1) >= 0 else {}
            while n.get("k") in ("Cast",):
                n = g["nodes"][n["c"][0]]
            R.check(n.get("k") == "New" and n.get("nt") == DEFAULT.get(b, n.get("nt")), "default-set", "default integrator set for " + b,
                    "%s:%d" % (g["file"].split("/")[-1], g["line"]), "the default integrator set for %s is %s, not %s" % (b, n.get("nt"), DEFAULT.get(b)))
    wiring(F, R, V, CT, IS, CI)
    R.floor("kind", 30)
    R.floor("keyed", 25)
    R.floor("wiring", 14)
    return R.finish(F)


def template_component(F, cu):
    """component class named by the Integrator<C> base"""
    for b in F.all_bases(cu):
        q = F.classes[b]["qn"]
        k = q.rfind("::Integrator<")
        if k >= 0 and q.endswith(">"):
            return q[k + len("::Integrator<"):-1]
    return None


def index_class(F, V, cu, owner):
    m, _ = seq.final(F, cu, "GetComponentIndex", 0)
    f = F.fns.get(m["u"]) if m else None
    if f is None or f.load()["body"] < 0:
        return None, None
    vals = set()
    for r in V.returns(f):
        vals |= V.of(f, r)
    if len(vals) == 1 and next(iter(vals))[0] == "g":
        return owner.get(next(iter(vals))[1]), f
    return None, f


def check_integrator(F, R, V, c, owner):
    q = c["qn"]
    kind = template_component(F, c["u"])
    ic, f = index_class(F, V, c["u"], owner)
    loc = f.loc() if f else c["file"]
    if kind is None:
        R.check(ic is not None, "keyed", q + " index", loc, "%s is not registered under the index of one component class" % q)
        return
    # the index found by name lookup in C may be declared by C or, if C has none of its own, by its base
    want = None
    for cc in F.classes.values():
        if cc["qn"] == kind:
            for b in [cc["u"]] + F.all_bases(cc["u"], strict=True):
                if F.classes[b]["qn"] in owner.values():
                    want = F.classes[b]["qn"]
                    break
    R.check(ic is not None and ic == want == kind, "keyed", q + " index", loc,
            "%s is written for %s but registers itself for %s" % (q, kind, ic))


def check_set(F, R, V, c, owner):
    q = c["qn"]
    try:
        f = seq.body(F, c, "Init", 1)
    except facts.Broken:
        if c.get("abstract"):
            return
        m, b = seq.final(F, c["u"], "Init", 1)
        f = F.fns.get(m["u"]) if m else None
        if f is None or f.load()["body"] < 0:
            R.bad("set", q, c["file"], "%s has no Init" % q)
            return
    regs = {m["u"]: "reg" for k in F.classes.values() if k["qn"] == "ComponentTracker" or k["qn"].startswith("TBunchCMPTracker<")
            for m in k["methods"] if m["n"] == "Register"}
    ps, _ = seq.paths(F, f, V, seq.watch(calls=regs), maxlen=40)
    fallback = None
    n = 0
    for kind, evs, _ in ps:
        if kind != "return":
            continue
        n += 1
        got = {}
        vague = False
        for e in evs:
            if e == "...":
                vague = True
                continue
            tys = [v[1] for v in e[2][0] if v[0] == "new"]
            if len(tys) != len(e[2][0]) or len(tys) != 1:
                vague = True
                continue
            cls = F.by_ty.get(tys[0])
            k = index_class(F, V, cls["u"], owner)[0] if cls else None
            if k in got and got[k] != tys[0]:
                R.bad("once", "%s registers two integrators for %s" % (q, k), f.loc(), "%s registers both %s and %s for %s" % (q, got[k], tys[0], k))
            got[k] = tys[0]
        if vague:
            # integrators kept in a local table: take every integrator the function creates
            for i in f.walk():
                if f.k(i) == "New" and f.n(i)["nt"] in F.by_ty:
                    cls = F.by_ty[f.n(i)["nt"]]
                    k = index_class(F, V, cls["u"], owner)[0]
                    if k:
                        got.setdefault(k, f.n(i)["nt"])
        for k, t in got.items():
            R.check(template_component(F, F.by_ty[t]["u"]) == k, "written-for", "%s tracks %s with %s" % (q, k, t), f.loc(),
                    "%s uses %s, written for %s, to track %s" % (q, t, template_component(F, F.by_ty[t]["u"]), k))
        for k in KINDS.get(q, ()):
            R.check(k in got, "kind", "%s supplies an integrator for %s" % (q, k), f.loc(), "%s has a path that supplies no integrator for %s (supplies %s)" % (q, k, ", ".join(map(str, got))))
    R.check(n > 0, "set", q + " Init returns", f.loc(), "%s::Init never returns" % q)


def wiring(F, R, V, CT, IS, CI):
    W = lambda ok, key, f, msg: R.check(bool(ok), "wiring", key, f.loc(), msg)
    fi = seq.field(F, CT, "integrator")
    fset = seq.field(F, CT, "iSet")
    fmap = seq.field(F, IS, "itsMap")
    # SelectIntegrator
    f = seq.body(F, CT, "SelectIntegrator")
    ps, _ = seq.paths(F, f, V, seq.watch(names={"GetIntegrator": "get", "SetCurrentComponent": "cur", "InitialiseIntegrator": "init"}, fields={fi: "integrator"}))
    yes = no = 0
    for kind, ev, rv in ps:
        if kind == "throw":
            continue
        labs = [e[0] for e in ev]
        gets = [e for e in ev if e[0] == "get"]
        ok = len(gets) == 1 and is_param(gets[0][2][0], 0) and is_field(gets[0][1], fset)
        W(ok, "SelectIntegrator looks up the requested index", f, "SelectIntegrator does not look up exactly the requested index in the current set")
        if rv == ("bool", True):
            yes += 1
            tail = [e for e in ev if e[0] in ("cur", "init", "set")]
            cur = [e for e in tail if e[0] == "cur"]
            ini = [e for e in tail if e[0] == "init"]
            W(any(e[0] == "set" for e in tail) and len(cur) == 1 and len(ini) == 1 and is_param(unref(cur[0][2][0]), 1),
              "SelectIntegrator hands over the component", f, "a path reports success without making the integrator current, giving it the component and initialising it")
        elif rv == ("bool", False):
            no += 1
            W(not any(e[0] in ("cur", "init") for e in ev), "SelectIntegrator failure", f, "an integrator is prepared although none is reported")
        else:
            W(False, "SelectIntegrator result", f, "the result of SelectIntegrator is not decided by whether an integrator was found")
    W(yes and no, "SelectIntegrator outcomes", f, "SelectIntegrator cannot report both outcomes")
    # GetIntegrator
    f = seq.body(F, IS, "GetIntegrator")
    vals = set()
    for r in V.returns(f):
        vals |= V.of(f, r)
    good = any(v[0] == "null" for v in vals)
    hit = 0
    for v in vals:
        if v[0] == "null":
            continue
        x = v
        while x[0] in ("field", "deref"):
            x = x[2] if x[0] == "field" else x[1]
        ok = x[0] == "call" and (x[2] or "").split("::")[-1] in ("find", "at", "operator[]") and v[0] in ("field", "deref", "call") and \
            is_field(x[3][0], fmap) and is_param(x[3][1], 0)
        hit += ok
        good = good and ok
    W(good and hit, "GetIntegrator returns the integrator stored under the index", f, "GetIntegrator can return something other than the integrator stored under the requested index or null")
    # Add
    f = seq.body(F, IS, "Add")

    def edge(fl, cond, pol, env):
        from flow import atom
        a, p = atom(fl.fn, cond)
        if a is not None and a[0] == "m" and a[1].endswith("@second") and "#b@" in a[1]:
            return ("new", pol == p)
        return None
    cl = seq.watch(names={"insert": "insert", "emplace": "insert", "operator[]": "slot", "insert_or_assign": "put"}, fnames={"second": "second"})

    def cl2(fl, i):
        g = fl.fn
        n = g.n(i)
        if (n["k"] == "Binary" and n["op"] == "="):
            l = seq.strip(g, g.c(i)[0])
            if g.k(l) == "Call" and g.n(l).get("op") == "[]":
                return ("put", frozenset(fl.value(g.c(l)[0])), (frozenset(fl.value(g.c(l)[1])), frozenset(fl.value(g.c(i)[1]))))
        return cl(fl, i)
    ps, _ = seq.paths(F, f, V, cl2, edge=edge)
    for kind, ev, rv in ps:
        if kind == "throw":
            continue
        stored = False
        keyed = True
        for e in ev:
            if e[0] == "insert":
                a = e[2]
                if len(a) == 1:
                    c = [v for v in a[0] if v[0] in ("ctor", "call")]
                    a = c[0][3] if c else ()
                if len(a) < 2 or not (is_call(a[0], "GetComponentIndex") and is_param(a[1], 0)):
                    keyed = False
            elif e[0] == "put":
                keyed = keyed and is_call(e[2][0], "GetComponentIndex") and is_param(e[2][1], 0)
                stored = True
            elif e[0] == "set" and e[1] == "second":
                stored = is_param(e[3], 0)
            elif e[0] == "new" and e[1]:
                stored = True
        W(keyed, "Add stores under the integrator's own index", f, "IntegratorSet::Add stores an integrator under an index other than its own")
        W(stored, "Add stores the new integrator", f, "a path of IntegratorSet::Add returns without the new integrator in the set")
    # SetCurrentComponent
    f = seq.body(F, CI, "SetCurrentComponent")
    flds = {seq.field(F, CI, x): x for x in ("cur_S", "tot_S", "component")}
    ps, _ = seq.paths(F, f, V, seq.watch(fields=flds))
    for kind, ev, _ in ps:
        last = {e[1]: e[3] for e in ev if e[0] == "set"}
        zero = all(v in (("int", "0"), ("flt", 0.0), ("flt", "0"), ("flt", 0)) or (v[0] in ("int", "flt") and float(v[1]) == 0) for v in last.get("cur_S", [("?",)]))
        W(zero and is_call(last.get("tot_S"), "GetLength") and is_param(unref(last.get("component", ())), 0),
          "integrator starts at the entrance", f, "an integrator given a component does not start at its entrance with its full length to go")
    for c in F.classes.values():
        if "Integrator<" in c["qn"].rsplit("::", 1)[-1] and "::Integrator<" in c["qn"]:
            try:
                f = seq.body(F, c, "SetCurrentComponent")
            except facts.Broken:
                continue
            base = {m["u"]: "base" for m in seq.method(F, CI, "SetCurrentComponent")}
            ps, _ = seq.paths(F, f, V, seq.watch(calls=base, fields={seq.field(F, c, "currentComponent"): "cc"}))
            for kind, ev, _ in ps:
                b = [e for e in ev if e[0] == "base"]
                s = [e for e in ev if e[0] == "set"]
                W(len(b) == 1 and is_param(unref(b[0][2][0]), 0) and s and is_param(unref(s[-1][3]), 0), "typed integrators take the component: " + c["qn"], f,
                  "an integrator does not take the component it is given")
        if c["name"] == "TBunchCMPTracker":
            check_tracker(F, V, W, CT, c)
        if c["qn"].startswith("TTrnsProc<"):
            try:
                f = seq.body(F, c, "SetIntegratorSet")
            except facts.Broken:
                continue
            ps, _ = seq.paths(F, f, V, seq.watch(names={"Init": "init", "ClearIntegratorSet": "clear"}))
            for kind, ev, _ in ps:
                if kind == "throw":
                    continue
                W([e[0] for e in ev] == ["clear", "init"] and is_param(unref(ev[-1][1]), 0), "choosing a set replaces the previous one: " + c["qn"], f,
                  "SetIntegratorSet does not empty the table and then fill it from the given set (%s)" % [e[0] for e in ev])
    f = seq.body(F, CT, "ClearIntegratorSet")
    ps, _ = seq.paths(F, f, V, seq.watch(fields={fset: "iSet"}))
    for kind, ev, _ in ps:
        W(ev and all(v[0] == "new" and not v[3] for v in ev[-1][3]), "clearing leaves an empty set", f, "ClearIntegratorSet leaves something other than a new empty set")
    f = seq.body(F, CT, "Register", 1)
    ps, _ = seq.paths(F, f, V, seq.watch(names={"Add": "add"}, fields={fset: "iSet"}))
    for kind, ev, _ in ps:
        a = [e for e in ev if e[0] == "add"]
        W(len(a) == 1 and is_param(a[0][2][0], 0), "Register adds the integrator", f, "Register does not add the integrator it is given")


def check_tracker(F, V, W, CT, c):
    f = seq.body(F, c, "InitialiseIntegrator")
    base = {m["u"]: "base" for m in seq.method(F, CT, "InitialiseIntegrator")}
    fb = seq.field(F, c, "currentBunch")
    ps, _ = seq.paths(F, f, V, seq.watch(calls=base, names={"SetBunch": "bunch"}))
    for kind, ev, _ in ps:
        b = [e for e in ev if e[0] == "bunch"]
        W(any(e[0] == "base" for e in ev) and len(b) == 1 and is_param(unref(b[0][1]), 0) and is_field(unref(b[0][2][0]), fb),
          "the selected integrator gets the current bunch: " + c["qn"], f, "the selected integrator is not given the current bunch, or the tracker is not marked initialised")
    for m in c["methods"]:
        if m.get("ctor") and not m.get("cc") and not m.get("mc") and not m.get("del"):
            g = F.fns.get(m["u"])
            if g is None or g.load()["body"] < 0:
                continue
            ps, _ = seq.paths(F, g, V, seq.watch(names={"Init": "init"}))
            for kind, ev, _ in ps:
                a = [e for e in ev if e[0] == "init"]
                src = unref(a[0][1]) if a else ()
                ok = len(a) == 1 and (is_param(src, 0) if m["pt"] else all(v[0] == "g" and v[1].endswith("@defIS") for v in src))
                W(ok, "a tracker starts with its integrator set: %s(%s)" % (c["qn"], ", ".join(m["pt"])), g, "a new tracker is not filled from the set it was given (or the default set)")
