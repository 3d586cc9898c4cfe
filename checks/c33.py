"""C33: every frame of the beamline is tracked in order, with its transformations, and observed after it."""
import facts, seq, loops
from report import Report
from values import Values
from flow import strip, canon
from events import EventFlow

XF = ("GetEntrancePlaneTransform", "GetExitPlaneTransform", "GetEntranceGeometryPatch", "GetExitGeometryPatch")
ORDER = ("GetEntrancePlaneTransform", "GetEntranceGeometryPatch", "Track", "GetExitGeometryPatch", "GetExitPlaneTransform", "DoRecord")


def run():
    F = facts.load()
    R = Report("C33", "Per frame, on every path of the tracking loop and of StepComponent (helpers followed): entrance transformation, entrance patch, "
               "component, exit patch, exit transformation, output, each exactly once and exactly when present or enabled, all of the same frame; the "
               "loop visits the frames one after the other from the first to the last. A run makes and initialises the bunch exactly when asked, "
               "records before and after, and walks the lattice it was given.")
    V = Values(F, opaque=XF + ("IsComponent", "GetComponent"))
    S = F.cls("TrackingSimulation")
    fld = {n: seq.field(F, S, n) for n in ("incX", "injOnAxis", "simOp", "bunch", "type", "theBeamline", "theRing", "stepper", "ibunchCtor")}
    lab = {u: n for n, u in fld.items()}
    helper = lambda g: g.cls == S["u"] or g.file.endswith("TrackingSimulation.cpp") and g.cls is None

    def flat(vals):
        return seq.unref(seq.norm(vals))

    def what(fl, i):
        """label of a value: a frame's transform, a setting of the simulation, ..."""
        vals = flat(fl.value(i))
        out = set()
        for v in vals:
            while v[0] in ("deref", "addr"):
                v = v[1]
            if v[0] == "call" and (v[2] or "").split("::")[-1] in XF + ("IsComponent", "GetComponent"):
                out.add((v[2].split("::")[-1], frame_of(v[3][0])))
            elif v[0] == "ctor" and len(v[3]) == 1:
                for w in v[3][0]:
                    while w[0] in ("deref", "addr"):
                        w = w[1]
                    out.add((w[2].split("::")[-1], frame_of(w[3][0])) if w[0] == "call" and w[2] else ("?", None))
            elif v[0] == "field" and v[1] in lab:
                out.add((lab[v[1]], None))
            else:
                out.add(("?", v))
        return out

    def frame_of(vals):
        out = set()
        for v in vals:
            while v[0] in ("deref", "addr"):
                v = v[1]
            out.add(v[:2] if v[0] in ("elem", "iter", "field", "param", "var") else v)
        return frozenset(out)

    def classify(fl, i):
        f = fl.fn
        n = f.n(i)
        if n["k"] != "Call" or not n.get("fn"):
            if (n["k"] == "Binary" and n["op"] == "=") and f.k(strip(f, f.c(i)[0])) == "Ref" and "v" in f.n(strip(f, f.c(i)[0])):
                v = f.n(strip(f, f.c(i)[0]))["v"]
                if f.vars[v][1] == "bool" and v not in f.params and fl.value(f.c(i)[1]) <= {("int", "0")}:
                    return ("flagoff", v)
            return None
        nm = n["fn"].split("::")[-1]
        c = f.c(i)
        if nm == "ApplyTransformation" and len(c) == 2:
            w = what(fl, c[1])
            return ("xf", frozenset(w))
        if n["fn"] == "ProcessStepManager::Track":
            return ("track", frozenset(what(fl, c[1])))
        if n["fn"] == "SimulationOutput::DoRecord":
            return ("record", frame_of(fl.value(c[1])))
        return None

    def edge(fl, cond, pol, env):
        f = fl.fn
        c = strip(f, cond)
        while f.k(c) == "Unary" and f.n(c)["op"] == "!":
            c, pol = strip(f, f.c(c)[0]), not pol
        n = f.n(c)
        if n["k"] == "Binary" and n["op"] in ("!=", "==") and any(f.k(strip(f, x)) == "Null" or canon(f, x) == ("int", 0) for x in f.c(c)):
            o = [x for x in f.c(c) if not (f.k(strip(f, x)) == "Null" or canon(f, x) == ("int", 0))]
            if len(o) == 1:
                c, pol = strip(f, o[0]), pol if n["op"] == "!=" else not pol
                n = f.n(c)
        if n["k"] == "Decl" and n["d"] and n["d"][0][1] >= 0:
            c = n["d"][0][1]
        if f.k(c) == "Ref" and "v" in f.n(c) and f.n(c)["v"] not in f.params and f.vars[f.n(c)["v"]][1] == "bool" and not loops.only_init(f, f.n(c)["v"]):
            return ("flag", f.n(c)["v"], pol)
        w = what(fl, c)
        if len(w) == 1:
            x = next(iter(w))
            if x[0] in XF or x[0] in ("IsComponent", "incX", "injOnAxis", "simOp"):
                return ("if", x[0], x[1], pol)
        return None

    sites = 0
    # ---- the per-frame sequence: loops that track, and StepComponent
    spec = seq.Spec(F, classify, 24, helper, (), edge)
    dorun = seq.body(F, S, "DoRun")
    for call, g in [(i, F.fns[dorun.n(i)["f"]]) for i in dorun.walk() if dorun.k(i) == "Call" and dorun.n(i).get("f") in F.fns]:
        if not helper(g) or g.cfg is None:
            continue
        off = 1 if dorun.n(call).get("obj") else 0
        env = {p: frozenset(V.of(dorun, x)) for p, x in zip(g.params, dorun.c(call)[off:])}
        if off:
            env["this"] = frozenset({("this",)})
        nat = loops.natural(g)
        for h, blocks, latches in nat:
            if any(h2 in blocks and h2 != h for h2, _, _ in nat):
                pass
            its = frame_var(g, blocks)
            if its is None:
                continue
            sites += 1
            e = dict(env)
            e[its] = frozenset({("iter", frozenset({("frames",)}))})
            fl = EventFlow(F, g, spec, V, e)
            fl.region = (h, blocks)
            fl.run(())
            done = fl.rounds | {u for u, _ in fl.returns}
            last = {u for u in fl.leaves}
            for u in done | last:
                frame(R, g, g.loc(), u, True)
            walk(F, R, V, g, h, blocks, its, dorun, call)
            R.check(bool(done or last), "frame", "the loop over the frames", g.loc(), "no frame is tracked")
    if not sites:
        # tracking loop written directly in DoRun
        for h, blocks, latches in loops.natural(dorun):
            its = frame_var(dorun, blocks)
            if its is None:
                continue
            sites += 1
            e = {its: frozenset({("iter", frozenset({("frames",)}))})}
            fl = EventFlow(F, dorun, spec, V, e)
            fl.region = (h, blocks)
            fl.run(())
            for u in fl.rounds | fl.leaves:
                frame(R, dorun, dorun.loc(), u, True)
    st = seq.body(F, S, "StepComponent")
    ps, _ = seq.paths(F, st, V, classify, maxlen=24, follow=helper, edge=edge)
    for kind, ev, _ in ps:
        if kind == "return":
            frame(R, st, st.loc(), ev, False)
    # ---- a run
    V2 = V

    def cls2(fl, i):
        f = fl.fn
        n = f.n(i)
        if n["k"] == "Call" and n.get("fn"):
            nm = n["fn"].split("::")[-1].split("<")[0]
            if n["fn"] == "ProcessStepManager::Initialise":
                return ("init",)
            if nm == "ConstructBunch":
                return ("make",)
            if n["fn"] in ("SimulationOutput::DoRecordInitialBunch", "SimulationOutput::DoRecordFinalBunch"):
                return (nm,)
            if n.get("f") in F.fns and tracks(F, F.fns[n["f"]], helper):
                w = set()
                for x in f.c(i):
                    for y in f.walk(x):
                        if f.k(y) == "Member" and f.n(y).get("fld") in (fld["theBeamline"], fld["theRing"]):
                            w.add(lab[f.n(y)["fld"]])
                return ("tracking", frozenset(w))
        return None

    def edge2(fl, cond, pol, env):
        f = fl.fn
        c = strip(f, cond)
        n = f.n(c)
        a = canon(f, c)
        if a is not None and n["k"] == "Binary" and n["op"] in ("==", "!=") and any(canon(f, x) == ("m", fld["type"], ("this",)) for x in f.c(c)):
            o = [x for x in f.c(c) if canon(f, x) != ("m", fld["type"], ("this",))]
            k = f.n(strip(f, o[0])).get("en", "") or f.show(o[0])
            nm = "beamline" if "beamline" in k else "ring" if "ring" in k else "?"
            return ("type", nm, pol if n["op"] == "==" else not pol)
        if f.k(c) == "Ref" and f.n(c).get("v") in f.params:
            return ("arg", f.params.index(f.n(c)["v"]), pol)
        if a == ("m", fld["simOp"], ("this",)):
            return ("simOp", pol)
        return None
    ps, _ = seq.paths(F, dorun, V2, cls2, maxlen=20, nodup=True, follow=lambda g: helper(g) and not tracks(F, g, helper), edge=edge2)
    for kind, ev, _ in ps:
        if kind != "return":
            continue
        ls = [e[0] for e in ev]
        tr = [k for k, e in enumerate(ev) if e[0] == "tracking"]
        R.check(len(tr) == 1, "run", "a run tracks the lattice once", dorun.loc(), "a run can end without tracking the lattice, or track it twice")
        if not tr:
            continue
        ty = [(e[1], e[2]) for e in ev if e[0] == "type"]
        if ("beamline", True) in ty or ("ring", False) in ty:
            R.check(ev[tr[0]][1] == {"theBeamline"}, "run", "a beamline is walked as a beamline", dorun.loc(), "a simulation of a beamline does not walk exactly the beamline it was given")
        elif ty:
            R.check(ev[tr[0]][1] == {"theRing"}, "run", "a ring is walked as a ring", dorun.loc(), "a simulation of a ring does not walk exactly the ring it was given")
        else:
            R.bad("run", "the kind of lattice decides", dorun.loc(), "the lattice is walked without asking whether it is a beamline or a ring")
        if ("arg", 0, True) in ev:
            R.check("make" in ls and ls.index("make") < tr[0], "run", "a new bunch is made when asked", dorun.loc(), "a run that should start with a new bunch does not make one")
            R.check("init" in ls and ls.index("init") < tr[0], "run", "a new bunch initialises the processes", dorun.loc(), "a run with a new bunch does not initialise the processes with it")
        elif ("arg", 1, True) in ev:
            R.check("init" in ls and ls.index("init") < tr[0], "run", "processes are initialised when asked", dorun.loc(), "a run that should initialise the processes does not")
        if "make" in ls and "init" in ls:
            R.check(ls.index("make") < ls.index("init"), "run", "the bunch is made before it is used", dorun.loc(), "the processes are initialised with the old bunch")
        if ("simOp", True) in ev and ("simOp", False) not in ev:
            R.check("DoRecordInitialBunch" in ls and ls.index("DoRecordInitialBunch") < tr[0], "run", "the initial bunch is recorded", dorun.loc(), "the initial bunch is not offered to the output before tracking")
            R.check("DoRecordFinalBunch" in ls and ls.index("DoRecordFinalBunch") > tr[0], "run", "the final bunch is recorded", dorun.loc(), "the final bunch is not offered to the output after tracking")
    starts(F, R, S, fld, dorun, helper)
    for nm, want in (("Run", ("1", "1")), ("Continue", ("0", "0"))):
        g = seq.body(F, S, nm)
        cs = [i for i in g.walk() if g.k(i) == "Call" and g.n(i).get("f") == dorun.u]
        R.check(len(cs) == 1 and [V.of(g, x) for x in g.c(cs[0])[1:]] == [{("int", w)} for w in want], "run", nm, g.loc(), "%s does not %s" % (nm, "start a new run" if nm == "Run" else "continue the run"))
    stepper(F, R, V)
    output(F, R, V)
    R.floor("stepper", 3)
    R.floor("output", 6)
    R.floor("frame", 20)
    R.floor("walk", 4)
    R.floor("run", 8)
    return R.finish(F)


def starts(F, R, S, fld, dorun, helper):
    """a run followed for each way it can be asked for: with a new bunch or not, initialising or not, with a bunch there or not"""
    import ledger

    def special(X, f, i, n, last, s, vs):
        fn = n.get("fn") or ""
        ev = None
        if last == "ConstructBunch":
            ev = "make"
        elif fn == "ProcessStepManager::Initialise":
            ev = "init"
        elif n.get("f") in F.fns and tracks(F, F.fns[n["f"]], helper):
            ev = "track"
        if ev is None:
            return None
        s = s.copy()
        s.e["ev"] = (s.e.get("ev", ()) + (ev,))[:12]
        return [(s, ("obj", "made") if ev == "make" else None, None)]
    for new in (0, 1):
        for ask in (0, 1):
            for there in (0, 1):
                X = ledger.Interp(F, S["u"], lambda h, obj, vs: helper(h) and not tracks(F, h, helper), special)
                s = ledger.S()
                s.v[("this", fld["bunch"])] = ("obj", "old") if there else ("null",)
                s.v[("this", fld["ibunchCtor"])] = ("obj", "constructor")
                name = "asked for %s bunch, %s, with %s" % ("a new" if new else "no new", "initialising" if ask else "continuing", "one there" if there else "none yet")
                outs = [(t, v) for t, v in X.run(dorun, [("c", new), ("c", ask)][:len(dorun.params)], ("obj", "this"), s) if not (v and v[0] == "throw")]
                R.check(bool(outs), "start", name, dorun.loc(), "no way through")
                for t, v in outs:
                    ev = t.e.get("ev", ())
                    if "track" not in ev:
                        continue
                    pre = ev[:ev.index("track")]
                    make = bool(new or not there)
                    R.check(pre.count("make") == int(make) and "make" not in ev[len(pre):], "start", name + "|make", dorun.loc(), "a run %s makes %d bunches" % (name, ev.count("make")))
                    init = bool(ask or make)
                    R.check(pre.count("init") == int(init) and (not (make and init) or "make" in pre and pre.index("make") < pre.index("init")), "start", name + "|init", dorun.loc(),
                            "a run %s %s" % (name, "does not initialise the processes with its bunch, once" if init else "initialises the processes again"))


def stepper(F, R, V):
    """NextFrame: one frame on, null after the last one, the frame otherwise"""
    for f in F.fns_named(r"TrackingSimulation::TStepper<.*>::NextFrame$"):
        if f.load()["body"] < 0 or f.cfg is None:
            continue
        C = F.classes[f.cls]
        cur = [x["u"] for x in C["fields"] if any(f.k(i) == "Unary" and "++" in f.n(i)["op"] or f.k(i) == "Call" and f.n(i).get("op") in ("++", "post++") for i in f.walk()
                                                 if f.c(i) and f.k(strip(f, f.c(i)[0])) == "Member" and f.n(strip(f, f.c(i)[0])).get("fld") == x["u"])]
        last = [x["u"] for x in C["fields"] if x["n"] == "last"]
        R.check(len(cur) == 1 and len(last) == 1, "stepper", f.qn, f.loc(), "%s does not move its position" % f.qn)
        if len(cur) != 1 or len(last) != 1:
            continue
        cur, last = cur[0], last[0]
        cf = seq.field(F, F.cls("TrackingSimulation::Stepper"), "cFrame")

        def chosen(i):
            """[(condition or None, polarity, value node)]"""
            i = strip(f, i)
            if f.k(i) == "Cond":
                c = f.c(i)
                return [(c[0], True, c[1]), (c[0], False, c[2])]
            return [(None, True, i)]

        def atend(c, pol):
            c = strip(f, c)
            n = f.n(c)
            while n["k"] == "Unary" and n["op"] == "!":
                c, pol = strip(f, f.c(c)[0]), not pol
                n = f.n(c)
            if n.get("op") in ("==", "!=") and len(f.c(c)) == 2:
                fl = [f.n(strip(f, x)).get("fld") for x in f.c(c)]
                if sorted(map(str, fl)) == sorted([cur, last]):
                    return pol if n["op"] == "==" else not pol
            return None

        def classify(fl, i):
            n = f.n(i)
            if (n["k"] == "Unary" and "++" in n["op"] or n["k"] == "Call" and n.get("op") in ("++", "post++")) and f.n(strip(f, f.c(i)[0])).get("fld") == cur:
                return ("step",)
            if n["k"] == "Binary" and n["op"] == "=" and f.n(strip(f, f.c(i)[0])).get("fld") == cf:
                return ("set", f.c(i)[1])
            return None

        def edge(fl, c, pol, env):
            e = atend(c, pol)
            return None if e is None else ("end", e)
        ps, _ = seq.paths(F, f, V, classify, edge=edge, follow=lambda g: False)
        for kind, ev, _ in ps:
            if kind != "return":
                continue
            ls = [e[0] for e in ev]
            sets = [k for k, e in enumerate(ev) if e[0] == "set"]
            R.check(ls.count("step") == 1 and len(sets) == 1 and ls.index("step") < min([sets[0]] + [k for k, l in enumerate(ls) if l == "end"]), "stepper", f.qn + " moves once", f.loc(), "%s does not move exactly one frame before it looks" % f.qn)
            for k in sets:
                for c, pol, x in chosen(ev[k][1]):
                    e = atend(c, pol) if c is not None else next((e[1] for e in reversed(ev[:k]) if e[0] == "end"), None)
                    if c is not None and ("end", not e) in ev[:k] and ("end", e) not in ev[:k]:
                        continue
                    v = V.of(f, x)
                    null = f.k(strip(f, x)) == "Null" or v <= {("int", "0"), ("null",)}
                    R.check(e is not None and e == null, "stepper", f.qn + " at the end", f.loc(), "%s can hand out a frame past the last one, or miss one" % f.qn)
                    if not null:
                        R.check(any(f.n(y).get("fld") == cur for y in f.walk(x)), "stepper", f.qn + " frame", f.loc(), "%s does not hand out the frame it moved to" % f.qn)


def output(F, R, V):
    S = F.cls("SimulationOutput")
    flds = {seq.field(F, S, n): n for n in ("output_all", "output_initial", "output_final")}
    member = [m["u"] for m in seq.method(F, S, "IsMember")]

    def classify(fl, i):
        n = fl.fn.n(i)
        if n["k"] == "Call" and n.get("virt") and n.get("fn", "").startswith("SimulationOutput::Record"):
            return (n["fn"].split("::")[-1], tuple(frozenset(fl.value(x)) for x in fl.fn.c(i)[1:]))
        return None

    def edge(fl, cond, pol, env):
        f = fl.fn
        c = strip(f, cond)
        while f.k(c) == "Unary" and f.n(c)["op"] == "!":
            c, pol = strip(f, f.c(c)[0]), not pol
        if f.k(c) == "Member" and f.n(c).get("fld") in flds:
            return (flds[f.n(c)["fld"]], pol)
        if f.k(c) == "Call" and (f.n(c).get("f") in member or (f.n(c).get("fn") or "").endswith("::IsComponent")):
            return (f.n(c)["fn"].split("::")[-1], pol)
        return None
    for nm, rec, want in (("DoRecord", "Record", lambda c: c.get("IsComponent") is True and (c.get("output_all") is True or c.get("IsMember") is True)),
                          ("DoRecordInitialBunch", "RecordInitialBunch", lambda c: c.get("output_initial") is True),
                          ("DoRecordFinalBunch", "RecordFinalBunch", lambda c: c.get("output_final") is True)):
        f = seq.body(F, S, nm)
        ps, _ = seq.paths(F, f, V, classify, edge=edge, follow=lambda g: g.cls == S["u"] and g.u not in member)
        for kind, ev, _ in ps:
            if kind != "return":
                continue
            c = {}
            bad = False
            for e in ev:
                if not e[0].startswith("Record"):
                    bad |= c.get(e[0], e[1]) != e[1]
                    c[e[0]] = e[1]
            if bad:
                continue
            recs = [e for e in ev if e[0].startswith("Record")]
            R.check(len(recs) == (1 if want(c) else 0) and all(e[0] == rec for e in recs), "output", nm, f.loc(), "SimulationOutput::%s does not record exactly when the output's settings ask for it" % nm)
            for e in recs:
                R.check(all(seq.is_param(v, k) for k, v in enumerate(e[1])), "output", nm + " arguments", f.loc(), "SimulationOutput::%s records something other than what it was offered" % nm)
    # membership: some pattern matches
    f = seq.body(F, S, "IsMember")
    its = [it for it in loops.iterations(F, f, V, {}) if any(v[0] == "field" and v[1] == seq.field(F, S, "ids") for v in it.cont)]
    R.check(len(its) == 1 and not its[0].problems, "output", "IsMember looks at every pattern", f.loc(), "a pattern of the output can be passed over")
    if its and its[0].kind == "loop":
        def edge2(fl, cond, pol, env):
            g = fl.fn
            c = strip(g, cond)
            while g.k(c) == "Unary" and g.n(c)["op"] == "!":
                c, pol = strip(g, g.c(c)[0]), not pol
            if g.k(c) == "Call" and (g.n(c).get("fn") or "").split("::")[-1] in ("Match", "operator()"):
                return ("match", pol)
            return None
        ps, _ = seq.paths(F, f, V, lambda fl, i: None, edge=edge2, follow=lambda g: False, maxlen=4)
        for kind, ev, rv in ps:
            m = [e[1] for e in ev if e[0] == "match"]
            if kind == "return" and "..." not in ev:
                R.check(rv is not None and rv[0] == "bool" and rv[1] == any(m) or (rv or ("",))[0] == "v", "output", "IsMember result", f.loc(), "SimulationOutput::IsMember does not tell whether a pattern matches")
        R.check(any(e[0] == "match" for _, ev, _ in ps for e in ev if e != "..."), "output", "IsMember matches patterns", f.loc(), "patterns are not matched")


def tracks(F, g, helper, depth=0):
    if not helper(g) or depth > 3 or g.load()["body"] < 0:
        return False
    for i in g.walk():
        n = g.n(i)
        if n["k"] == "Call":
            if n.get("fn") == "ProcessStepManager::Track":
                return True
            if n.get("f") in F.fns and n["f"] != g.u and tracks(F, F.fns[n["f"]], helper, depth + 1):
                return True
    return False


def frame_var(g, blocks):
    """the iterator over frames of a loop that tracks components"""
    for i in g.walk():
        n = g.n(i)
        if n["k"] == "Call" and n.get("op") == "*" and len(g.c(i)) == 1:
            j = strip(g, g.c(i)[0])
            if g.k(j) == "Ref" and "v" in g.n(j) and "ComponentFrame" in n.get("t", ""):
                return g.n(j)["v"]
    return None


def frame(R, g, loc, ev, loop):
    """one path through the handling of one frame"""
    who = "the tracking loop" if loop else g.qn
    frames = set()
    steps = []
    for e in ev:
        if e[0] == "xf":
            if len(e[1]) != 1 or next(iter(e[1]))[0] not in XF:
                R.bad("frame", who + " transformation", loc, "%s applies a transformation that is not the frame's" % who)
                return
            x = next(iter(e[1]))
            steps.append(x[0])
            frames.add(x[1])
        elif e[0] == "track":
            x = next(iter(e[1])) if len(e[1]) == 1 else ("?", None)
            steps.append("Track" if x[0] == "GetComponent" else "?")
            frames.add(x[1])
        elif e[0] == "record":
            steps.append("DoRecord")
            frames.add(e[1])
    cond = {}
    for e in ev:
        if e[0] == "if":
            if cond.get(e[1], e[3]) != e[3]:
                return          # neither settings nor the frame change while it is handled
            cond[e[1]] = e[3]
    flags = [e for e in ev if e[0] == "flag"]
    R.check(len(frames) <= 1, "frame", who + " one frame", loc, "%s mixes transformations or components of different frames" % who)
    R.check(sorted(steps, key=lambda s: ORDER.index(s) if s in ORDER else -1) == steps and len(set(steps)) == len(steps) and "?" not in steps, "frame", who + " order", loc,
            "%s can apply a frame's parts out of order or twice: %s" % (who, ", ".join(steps)))
    R.check(("Track" in steps) == (cond.get("IsComponent") is True), "frame", who + " component", loc, "%s can %s" % (who, "pass a component without tracking it" if "Track" not in steps else "track a frame without asking whether it is a component"))
    for p in ("GetEntranceGeometryPatch", "GetExitGeometryPatch"):
        R.check((p in steps) == (cond.get(p) is True) and p in cond, "frame", who + " " + p, loc, "%s can %s the %s geometry patch" % (who, "leave out" if p not in steps else "apply without checking", "entrance" if "Ent" in p else "exit"))
    R.check(("GetExitPlaneTransform" in steps) == (cond.get("incX") is True), "frame", who + " exit transformation", loc, "%s does not apply the exit transformation exactly when frame transformations are included" % who)
    ent = "GetEntrancePlaneTransform" in steps
    if loop:
        first = any(e[2] for e in flags)
        skip = first and cond.get("injOnAxis") is True
        R.check(ent == (cond.get("incX") is True and not skip), "frame", who + " entrance transformation", loc,
                "%s does not apply the entrance transformation exactly when frame transformations are included (and, for injection on axis, to all but the first frame)" % who)
        fv = {e[1] for e in flags if e[2]}
        if any(e[0] == "if" and e[1] == "injOnAxis" for e in ev):
            R.check(not fv or any(e[0] == "flagoff" and e[1] in fv for e in ev), "frame", who + " first frame only", loc, "the exemption of the first frame is never ended")
    else:
        R.check(ent == (cond.get("incX") is True), "frame", who + " entrance transformation", loc, "%s does not apply the entrance transformation exactly when frame transformations are included" % who)
    R.check(("DoRecord" in steps) == (cond.get("simOp") is True), "frame", who + " output", loc, "%s does not offer each frame to the output exactly when there is one" % who)


def walk(F, R, V, g, h, blocks, var, dorun, call):
    B = g.blocks()
    steps = [(n, v) for n, v in loops.var_defs(g, var) if loops.node_blocks(g).get(n) in blocks]
    R.check(bool(steps) and all(v is None and loops.is_inc(g, n) for n, v in steps), "walk", "moves to the next frame", g.loc(), "the walk does not move from each frame to the next one")
    ways = loops.rounds(g, B, h, blocks, {b for b in blocks if any(str(s) == h for s in B[b][3] if s is not None)}, var, steps)
    R.check(ways == (1, 1), "walk", "one frame at a time", g.loc(), "the walk can stay on a frame or skip one")
    pos = [k for k, p in enumerate(g.params)]
    vi = g.params.index(var) if var in g.params else None
    exits = []
    for b in blocks:
        for k, s in enumerate(B[b][3]):
            c = loops.conditions(g, B[b])
            if s is not None and str(s) not in blocks and not loops.dead_edge(g, c, k) and not loops.leads_to_throw(B, str(s)):
                exits.append((c, k))
    for c, k in exits:
        ok = False
        if c is not None:
            for cj, pol in loops.conjuncts(g, c, k == 1):
                n = g.n(cj)
                if n.get("op") in ("!=", "==") and len(g.c(cj)) == 2 and (n["op"] == "!=") == pol:
                    vs = [loops.base_var(g, x) for x in g.c(cj)]
                    if var in vs:
                        o = vs[1 - vs.index(var)]
                        ok = o is not None and o in g.params
                        if ok and vi is not None:
                            last = dorun.c(call)[g.params.index(o)]
                            first = dorun.c(call)[vi]
                            a, z = loops.calls_end(dorun, first, ("begin",)), loops.calls_end(dorun, last, ("end",))
                            ok = (a is not None and z is not None and V.of(dorun, a) == V.of(dorun, z)) or (a is None and z is None and V.of(dorun, strip_copy(dorun, first)) == V.of(dorun, strip_copy(dorun, last)))
        R.check(ok, "walk", "ends after the last frame", g.loc(c) if c is not None else g.loc(), "the walk over the frames does not end exactly after the last one")


def strip_copy(f, i):
    return loops.strip_copy(f, i)
