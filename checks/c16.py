"""C16: every control channel reads and writes one attribute of its element, the one its name says."""
import facts, seq, loops, vg
from report import Report
from values import Values
from flow import strip

# what a channel name stands for: the element's own reading of that quantity
MEANS = {"E": ("GetAmplitude",), "Phi": ("GetPhase",), "Lambda": ("GetWavelength",), "K": ("GetK",), "ROLL": ("GetFieldOrientation",),
         "X": ("GetX",), "Y": ("GetY",), "Roll": ("GetRoll",), "Bz": ("GetBz",), "B0": ("GetB0", "GetFieldStrength"), "B1": ("GetB1", "GetFieldStrength"),
         "B2": ("GetFieldStrength",), "B3": ("GetFieldStrength",), "B4": ("GetFieldStrength",)}
# a winding kicks in the plane across its field: a horizontal corrector has a vertical field
OWN = {("CorrectorWinding", "X"): ("GetBy",), ("CorrectorWinding", "Y"): ("GetBx",)}
# two ways of giving one number
SAME = ({"K", "Lambda"},)


def run():
    F = facts.load()
    R = Report("C16", "Value graphs, end to end: for every channel registered, the channel object its registration constructs is followed through Write and Read down to "
               "the element's data. Read after Write is the value written, Increment adds to it, no other channel of the element changes (or, for the parts of one "
               "field, all scale with it), the value is the attribute the key names and the multipole order it names, the type string is the element type's own, "
               "names are unique. Channel arrays meet every channel with its own value; the server hands out one channel for every matching element and definition.")
    V = Values(F)
    reg = {m["u"] for m in seq.method(F, F.cls("ChannelServer"), "RegisterCtor")}
    bufs = {m["u"] for m in seq.method(F, F.cls("BPMDataBufferServer"), "GetDataBuffer")}
    if not reg or not bufs:
        raise facts.Broken("anchor vanished: ChannelServer::RegisterCtor or BPMDataBufferServer::GetDataBuffer")
    qn = {c["qn"]: u for u, c in F.classes.items()}
    G = vg.Graph(F, opaque=lambda f: f.u in reg or f.u in bufs)
    G.watch = G.noeff = lambda u: u in reg
    roots = [f for f in F.fns.values() if f.qn.split("::")[-1] == "ConstructChannelServer"]
    if not roots:
        raise facts.Broken("anchor vanished: ConstructChannelServer")
    for f in roots:
        G.run(f)
    log = list(G.log)
    for f in F.fns.values():
        if f.u in G.analysed or f.load()["body"] < 0:
            continue
        for i in f.walk():
            if f.k(i) == "Call" and f.n(i).get("f") in reg:
                G2 = vg.Graph(F, opaque=lambda x: x.u in reg or x.u in bufs)
                G2.watch = G2.noeff = G.watch
                G2.run(f)
                log += G2.log
                break
    el = vg.mk("in", vg.mk("param", "element"))
    E = vg.mk("deref", el)

    def cls_of(v):
        """class of the object a pointer to fresh storage points to"""
        if v is None or v.op != "addr" or v.args[0].op != "heap":
            return None
        p = v.args[0]
        return qn.get(F.fns[p.args[0]].n(p.args[1])["nt"].replace("const ", ""))

    def meth(cu, name, this, args, st):
        m, _ = seq.final(F, cu, name)
        f = F.fns.get(m["u"]) if m else None
        if f is None or f.load()["body"] < 0:
            return None, st, None
        r, s, _ = G.run(f, args, this, st.copy())
        return r, s, f

    byel = {}
    names = set()
    for f, i, nm, vals, st, obj in log:
        p = vals[1].args[0] if vals[1].op == "addr" else None
        cu = cls_of(vals[1])
        loc = f.loc(i)
        if cu is None:
            R.bad("registered", "channel at " + f.qn, loc, "cannot tell what channel definition is registered here")
            continue
        C = F.classes[cu]
        typ, key = (st.read(vg.mk("fld", p, seq.field(F, C, x))) for x in ("type", "key"))
        if typ.op != "str" or key.op != "str":
            R.bad("registered", "name of the channel at " + loc.split(":")[0], loc, "type or key of the channel is not a literal")
            continue
        typ, key = typ.args[0], key.args[0]
        name = typ + "." + key
        R.check(name not in names, "unique", name, loc, "%s is defined twice; the second definition is dropped" % name)
        names.add(name)
        ro, sro, fro = meth(cu, "ConstructRO", p, [el], st)
        rw, srw, frw = meth(cu, "ConstructRW", p, [el], st)
        if not R.check(cls_of(ro) is not None, "constructs", name + " ConstructRO", loc, "%s: ConstructRO does not return a new channel for the element" % name):
            continue
        cro = cls_of(ro)
        rd, _, rf = meth(cro, "Read", ro.args[0], [], sro)
        idv, _, idf = meth(cro, "GetID", ro.args[0], [], sro)
        if C["qn"] == "BPMChannelCtor" or cls_of(rw) is None:
            bpm(F, R, G, name, key, loc, cro, ro, rd, idv, sro, meth, bufs, el)
            if cls_of(rw) is None:
                R.check(rw is vg.ZERO, "constructs", name + " ConstructRW", loc, "%s: ConstructRW returns neither a channel nor none" % name)
            continue
        # the element type
        targ = C["qn"][C["qn"].find("<") + 1:C["qn"].rfind(">")] if "<" in C["qn"] else None
        eu = qn.get(targ)
        if eu is None:
            R.bad("type", name + " element class", loc, "%s: the class of the element cannot be told from %s" % (name, C["qn"]))
            continue
        gt, _ = seq.final(F, eu, "GetType", 0)
        g = F.fns.get(gt["u"]) if gt else None
        ty = {x for r0 in (V.returns(g) if g is not None else []) for x in V.of(g, r0)}
        R.check(set(ty) == {("str", typ)}, "type", name + " type", loc, "%s is offered for elements called \"%s\", but works on a %s" % (name, typ, targ))
        crw = cls_of(rw)
        q = rw.args[0]
        v = vg.mk("in", vg.mk("param", "value"))
        _, sw, wf = meth(crw, "Write", q, [v], srw)
        if sw is None:
            R.bad("write", name + " Write", loc, "%s: writing never returns" % name)
            continue
        got, _, _ = meth(crw, "Read", q, [], sw)
        old, _, _ = meth(crw, "Read", q, [], srw)
        R.check(vg.same(old, rd), "readonly", name + " read-only", loc, "%s: the read-only channel reads something else than the read-write channel" % name)
        roundtrip(R, name, loc, got, v)
        inc, si, _ = meth(crw, "Increment", q, [v], srw)
        if si is not None and inc is not None:
            after, _, _ = meth(crw, "Read", q, [], si)
            want = vg.add(old, v)
            g1 = vg.Graph(F)
            _, s3, _ = meth(crw, "Write", q, [want], srw)
            exp, _, _ = meth(crw, "Read", q, [], s3)
            R.check(vg.same(inc, want) and vg.same(after, exp), "increment", name + " Increment", loc, "%s: Increment does not write what was read plus the amount, or does not return it" % name)
        want = id_ok(idv, E, key)
        R.check(want, "id", name + " GetID", loc, "%s: the channel does not call itself by the element's qualified name and \"%s\"" % (name, key))
        # what the key means
        ref = OWN.get((targ, key)) or MEANS.get(key)
        if ref is None:
            R.bad("means", name + " meaning", loc, "no attribute is known for the channel name %s" % key)
        else:
            val = None
            for r in ref:
                m, _ = seq.final(F, eu, r, 0)
                h = F.fns.get(m["u"]) if m else None
                if h is not None and h.load()["body"] >= 0:
                    val, _, _ = G.run(h, [], E, srw.copy())
                    break
            if val is None:
                raise facts.Broken("anchor vanished: %s::%s" % (targ, "/".join(ref)))
            R.check(vg.same(old, val), "means", name + " meaning", loc, "%s does not read the attribute it names (%s)" % (name, r))
            if key[0] == "B" and key[1:].isdigit() and r == "GetFieldStrength":
                order(F, R, G, name, eu, targ, int(key[1:]), loc)
        byel.setdefault(targ, []).append((key, name, crw, q, srw, old, sw, loc))
    R.floor("roundtrip", 25)
    # writing one channel leaves the others alone
    v = vg.mk("in", vg.mk("param", "value"))
    for t, chs in sorted(byel.items()):
        for key, name, crw, q, srw, old, sw, loc in chs:
            for key2, name2, crw2, q2, srw2, old2, sw2, loc2 in chs:
                if key2 == key:
                    continue
                s = sw.copy()
                for pl, x in srw2.mem.items():
                    if pl not in s.mem:
                        s.mem[pl] = x
                new2, _, _ = meth(crw2, "Read", q2, [], s)
                if {key, key2} in SAME:
                    ok = new2 is not None and not (vg.inputs(new2) - vg.inputs(v) - {x for x in vg.inputs(new2) if x.op == "g"})
                    R.check(ok, "same", name + " and " + key2, loc, "%s and %s are one quantity, but writing %s does not determine %s" % (name, key2, key, key2))
                    R.check(product(old, old2) is product(v, new2), "same", name + " times " + key2, loc, "%s times %s changes when %s is written" % (key, key2, key))
                    continue
                scaled = new2 is not None and key[0] == key2[0] == "B" and vg.same(vg.mul(new2, old), vg.mul(old2, v))
                R.check(vg.same(new2, old2) or scaled, "others", name + " leaves " + key2, loc, "writing %s changes %s of the same element" % (name, key2))
    arrays(F, R)
    buffers(F, R, bufs)
    server(F, R, V)
    R.extra["channels"] = sorted(names)
    R.extra["functions followed"] = len(G.analysed)
    return R.finish(F)


def product(a, b):
    return vg.mul(a, b) if a is not None and b is not None else None


def roundtrip(R, name, loc, got, v):
    if vg.same(got, v):
        R.ok("roundtrip", loc + " " + name)
        return
    if got is not None:
        # under which single condition does it hold?
        for c in sorted({x for x in vg.walk(got) if x.op == "b"}, key=lambda x: x.id):
            for pol in (vg.FALSE, vg.TRUE):
                if vg.same(vg.assume(got, c, pol is vg.TRUE), v):
                    what = "zero" if c.args[0] == "==" else "true"
                    where = vg.show(c.args[1]).split(".")[-1].strip(")")
                    R.bad("roundtrip", "%s lost when %s is%s %s" % (name, where, "" if pol is vg.FALSE else " not", what), loc,
                          "%s: a value written is not read back when %s is%s %s" % (name, where, "" if pol is vg.FALSE else " not", what))
                    return
    R.bad("roundtrip", name + " reads back", loc, "%s does not read back the value written to it" % name)


def id_ok(v, E, key):
    if v is None or v.op != "f" or v.args[0] != "concat":
        return False
    p = v.args[1:]
    if len(p) < 2 or p[-1].op != "str":
        return False
    if p[-1].args[0] != "." + key:
        return False
    calls = [x for x in p[:-1] if x.op == "call"]
    nm = [c.args[0].split("@F@")[-1].split("#")[0] for c in calls]
    obj = vg.mk("in", E)
    return all(c.args[1] is obj for c in calls) and (nm == ["GetType", "GetName"] and len(p) == 4 and p[1] is vg.mk("str", ".") or nm == ["GetQualifiedName"] and len(p) == 2)


def order(F, R, G, name, eu, targ, n, loc):
    """a magnet of this type has its field in the coefficient of order n"""
    C = F.classes[eu]
    done = 0
    for m in C["methods"]:
        f = F.fns.get(m["u"])
        if not m.get("ctor") or m.get("cc") or m.get("mc") or f is None or f.load()["body"] < 0:
            continue
        this = vg.mk("deref", vg.mk("in", vg.mk("param", "fresh")))
        _, st, _ = G.run(f, None, this)
        if st is None:
            continue
        ks = set()
        for p, v in st.mem.items():
            x = p
            if x.op == "idx" and x.args[0].op == "fld" and str(x.args[0].args[1]).endswith("@expansion"):
                ks.add(x.args[1])
            for w in [v] if v.op == "rec" else []:
                for y in vg.walk(w):
                    if y.op == "rec":
                        for k, z in y.args[1]:
                            if k[0] == "fld" and str(k[1]).endswith("@expansion"):
                                ks |= {kk[1] for kk, _ in vg.rec_of(z) if kk[0] == "idx"}
        done += 1
        R.check(ks == {vg.num(n)}, "order", name + " order", f.loc(), "%s: a new %s has its field in order %s, not %d" % (name, targ, sorted(vg.show(k) for k in ks), n))
    R.check(done > 0, "order", name + " constructors", loc, "%s: no constructor of %s found" % (name, targ))


def bpm(F, R, G, name, key, loc, cro, ro, rd, idv, sro, meth, bufs, el):
    calls = [x for x in vg.walk(rd) if x.op == "call"] if rd is not None else []
    buf = calls[0] if len(calls) == 1 and calls[0].args[0] in bufs else None
    if not R.check(buf is not None and el in buf.args, "bpm", name + " buffer", loc, "%s does not read the data buffer of its own BPM" % name):
        return
    D = vg.mk("deref", buf)
    B = F.cls("BPMDataBuffer")
    fx = {n: vg.mk("fld", D, seq.field(F, B, n)) for n in ("x", "y", "x_off", "y_off")}
    a, o = ("x", "x_off") if key == "X" else ("y", "y_off")
    val = {n: vg.mk("in", p) for n, p in fx.items()}
    R.check(key in ("X", "Y") and rd is vg.add(val[a], val[o]), "bpm", name + " Read", loc, "%s is not the recorded %s plus its offset" % (name, key.lower()))
    R.check(idv is not None and idv.op == "f" and idv.args[0] == "concat" and idv.args[1] is vg.mk("str", "BPM.") and idv.args[-1] is vg.mk("str", "." + key) and len(idv.args) == 4,
            "id", name + " GetID", loc, "%s: the channel does not call itself by its BPM and \"%s\"" % (name, key))
    v = vg.mk("in", vg.mk("param", "value"))
    m, _ = seq.final(F, cro, "SetBPMOffset")
    if m is not None:
        _, s, _ = meth(cro, "SetBPMOffset", ro.args[0], [v], sro)
        for n in fx:
            want = v if n == o else val[n]
            R.check(s is not None and s.read(fx[n]) is want, "bpm", name + " SetBPMOffset " + n, loc, "%s: setting the offset %s %s" % (name, "does not store" if n == o else "changes", n))
    rec, _ = seq.final(F, B["u"], "Record")
    f = F.fns[rec["u"]]
    _, s, _ = G.run(f, None, D)
    for n in ("x", "y"):
        got = s.read(fx[n])
        ok = got.op == "in" and got.args[0].op == "fld" and got.args[0].args[1].endswith("@value") and got.args[0].args[0].op == "fld" and \
            got.args[0].args[0].args[1].endswith("@" + n) and vg.root(got.args[0]).op == "param"
        R.check(ok, "bpm", "BPMDataBuffer Record " + n, f.loc(), "a recorded reading's %s is not what the channel reads" % n)


def buffers(F, R, bufs):
    S = F.cls("BPMDataBufferServer")
    f = seq.body(F, S, "GetDataBuffer")
    G = vg.Graph(F)
    add = {m["u"] for m in seq.method(F, F.cls("BPM"), "AddBuffer")}
    G.watch = lambda u: u in add
    G.opq = lambda g: g.u in add
    b = vg.mk("in", vg.mk("param", 0, f.vars[f.params[0]][0]))
    r, st, o = G.run(f)
    slot = vg.mk("addr", vg.mk("idx", vg.mk("fld", vg.mk("this"), seq.field(F, S, "dataBuffers")), b))
    leaves = set()

    def leafs(v):
        if v is not None and v.op == "phi":
            leafs(v.args[1])
            leafs(v.args[2])
        else:
            leaves.add(v)
    leafs(r)
    found = [v for v in leaves if v is not slot and v is not vg.ZERO]
    ok = slot in leaves and len(found) <= 1
    for v in found:
        fs = [x for x in vg.walk(v) if x.op == "call" and x.args[0].split("@F@")[-1].startswith("find")]
        ok = ok and len(fs) == 1 and fs[0].args[2] is b and v.op == "addr" and v.args[0].op == "fld" and v.args[0].args[1].endswith("second")
    R.check(ok, "buffer", "GetDataBuffer", f.loc(), "GetDataBuffer does not return the buffer kept for the BPM asked for")
    R.check(len(G.log) == 1 and G.log[0][3][1] is slot and G.log[0][5] is vg.mk("deref", b), "buffer", "GetDataBuffer attaches", f.loc(),
            "a new buffer is not attached (once) to the BPM it is for")


def arrays(F, R):
    RO, RW = F.cls("ROChannelArray"), F.cls("RWChannelArray")
    chan = seq.field(F, RO, "channels")
    for C, name, what in ((RO, "ReadAll", "Read"), (RW, "WriteAll", "Write"), (RW, "IncrementAll", "Increment")):
        for m in seq.method(F, C, name):
            f = F.fns.get(m["u"])
            if f is None or f.load()["body"] < 0:
                raise facts.Broken("anchor vanished: %s::%s" % (C["qn"], name))
            key = "%s %s(%s)" % (C["qn"], name, "vector" if "&" in (m["pt"] or [""])[0] else "value")
            G = vg.Graph(F)
            G.watch = lambda u: u.split("@F@")[-1].split("#")[0] in ("Read", "Write", "Increment")
            G.run(f)
            A = vg.mk("fld", vg.mk("this"), chan)
            lp = list(G.loops.items())
            ok = len(G.log) == 1 and len(lp) == 1 and not lp[0][1][1]
            if ok:
                _, _, u, vals, st, obj = G.log[0]
                ok = u.split("@F@")[-1].split("#")[0] == what
                i = obj.args[0].args[0].args[1] if obj.op == "deref" and obj.args[0].op == "in" and obj.args[0].args[0].op == "idx" and obj.args[0].args[0].args[0] is A else None
                ok = ok and i is not None and everyone(G, i, lp[0][1][0], vg.mk("in", vg.mk("fld", A, "#size")))
                if ok and what == "Read":
                    ok = any(mu.op == "mu" and mu.args[2].op == "idx" and mu.args[2].args[1] is i and vg.root(mu.args[2]).op == "param" and nx.op == "call" and nx.args[0] == u
                             for mu, (_, nx) in G.mus.items())
                elif ok:
                    x = vals[1]
                    x = x.args[0] if x.op == "in" else None
                    ok = x is not None and vg.root(x).op == "param" and (x.op == "param" or x.op == "idx" and x.args[1] is i)
            R.check(ok, "array", key, f.loc(), "%s does not %s every channel exactly once with its own value" % (key, what.lower()))
    for C, name, what in ((RO, "Read", "Read"), (RW, "Write", "Write"), (RW, "Increment", "Increment")):
        for m in seq.method(F, C, name):
            f = F.fns.get(m["u"])
            G = vg.Graph(F)
            G.watch = lambda u: u.split("@F@")[-1].split("#")[0] in ("Read", "Write", "Increment")
            r, _, _ = G.run(f)
            n = vg.mk("in", vg.mk("param", 0, f.vars[f.params[0]][0]))
            ch = vg.mk("deref", vg.mk("in", vg.mk("idx", vg.mk("fld", vg.mk("this"), chan), n)))
            ok = len(G.log) == 1 and G.log[0][5] is ch and G.log[0][2].split("@F@")[-1].split("#")[0] == what
            if ok and what == "Read":
                ok = r is not None and r.op == "call" and r.args[0] == G.log[0][2]
            elif ok:
                ok = G.log[0][3][1] is vg.mk("in", vg.mk("param", 1, f.vars[f.params[1]][0]))
            R.check(ok, "array", "%s %s(n)" % (C["qn"], name), f.loc(), "%s::%s does not act on channel n with the value given" % (C["qn"], name))
    S = F.cls("RWChannelState")
    for name, what in (("Reset", "Write"), ("CacheCurrentState", "Read")):
        f = seq.body(F, S, name)
        G = vg.Graph(F)
        G.watch = lambda u: u.split("@F@")[-1].split("#")[0] in ("Read", "Write", "Increment")
        G.run(f)
        vals, chs = seq.field(F, S, "values"), seq.field(F, S, "chs")
        ok = len(G.log) == 1 and G.log[0][2].split("@F@")[-1].split("#")[0] == what and within(G.log[0][5], chs)
        if ok and what == "Write":
            x = G.log[0][3][1]
            ok = x.op == "in" and within(x.args[0], vals)
        elif ok:
            ok = any(within(mu.args[2], vals) and nx.op == "call" for mu, (_, nx) in G.mus.items())
        R.check(ok, "array", "RWChannelState " + name, f.loc(), "%s does not %s the values kept" % (name, "write back" if what == "Write" else "take"))


def within(p, fld):
    while p is not None and p.op in ("fld", "idx", "deref", "in"):
        if p.op == "fld" and p.args[1] == fld:
            return True
        p = p.args[0]
    return False


def everyone(G, i, cond, size):
    """i runs 0, 1, ... while it is below size"""
    return i in G.mus and G.mus[i][0] is vg.ZERO and G.mus[i][1] is vg.add(i, vg.ONE) and cond in (vg.cmp("<", i, size), vg.cmp("!=", i, size))


def server(F, R, V):
    S = F.cls("ChannelServer")
    find = {m["u"] for m in seq.method(F, S, "FindCtors")}
    for mode in ("RO", "RW"):
        for m in seq.method(F, S, "Get%sChannels" % mode):
            f = F.fns.get(m["u"])
            if f is None or f.load()["body"] < 0:
                raise facts.Broken("anchor vanished: Get%sChannels" % mode)
            line = len(m["pt"]) == 3
            key = "Get%sChannels(%s)" % (mode, "beamline" if line else "model")
            out = f.params[-1]
            its = [it for it in loops.iterations(F, f, V) if it.kind == "loop"]
            sets = [it for it in its if "std::set<ChannelServer::ChannelCtor" in ctype(F, f, it)]
            outer = [it for it in its if it not in sets]
            if not R.check(len(sets) == 1 and len(outer) == 1 and sets[0].blocks < outer[0].blocks, "server", key + " shape", f.loc(),
                           "%s: no loop over every element with a loop over every matching definition inside" % key):
                continue
            s, o = sets[0], outer[0]
            for it, w in ((s, "definition"), (o, "element")):
                bad = list(it.problems) + ["it can end early" for e in it.early if not throws(f, e)]
                R.check(not bad, "server", key + " every " + w, it.loc(), "%s does not meet every matching %s: %s" % (key, w, "; ".join(bad)))
            made = [i for i in f.walk() if f.k(i) == "Call" and (f.n(i).get("fn") or "").split("::")[-1] == "Construct" + mode]
            push = [i for i in f.walk() if f.k(i) == "Call" and (f.n(i).get("fn") or "").split("::")[-1] in ("push_back", "emplace_back")]
            ok = len(made) == 1 and len(push) == 1
            if ok:
                cl = {made[0]: "make", push[0]: "push"}

                def classify(fl, i, cl=cl):
                    return (cl[i],) if fl.fn is f and i in cl else None
                rounds, leaves, fl = seq.each(F, V, s, classify)
                ok = bool(rounds) and all(sorted(e[0] for e in r) == ["make", "push"] for r in rounds)
                vals = V.of(f, f.c(push[0])[1])
                ok = ok and all(v[0] == "call" and (v[2] or "").endswith("Construct" + mode) for v in vals) and seq.is_param(V.of(f, f.c(push[0])[0]), out if out < 0 else len(f.params) - 1)
                recv = V.of(f, f.c(made[0])[0], {s.var: frozenset({("iter", s.cont)})})
                arg = V.of(f, f.c(made[0])[1], {o.var: frozenset({("iter", o.cont)})})
                ok = ok and all(mentions(v, "iter") and not mentions(v, "int") for v in recv | arg)
            R.check(ok, "server", key + " one channel each", f.loc(), "%s does not hand out exactly one channel for each matching definition of each element" % key)
            # the definitions looked through are those of this element's type and this key
            fc = [i for i in f.walk() if f.k(i) == "Call" and f.n(i).get("f") in find]
            ok = len(fc) == 1
            if ok:
                ok = any(fc[0] in x for x in [set(f.walk(o.node))]) if o.node is not None and f.k(o.node) in ("For", "While", "RangeFor", "Do") else True
                a = f.c(fc[0])
                off = 1 if f.n(fc[0]).get("obj") else 0
                tv = V.of(f, a[off], {o.var: frozenset({("iter", o.cont)})})
                ok = ok and typed(F, f, V, a[off], o)
                ok = ok and V.of(f, a[off + 2]) & frozenset(s.cont) != frozenset()
                ok = ok and V.of(f, a[off + 1]) and all(v[0] == "field" and v[1].endswith("key") for v in V.of(f, a[off + 1]))
            R.check(ok, "server", key + " definitions", f.loc(), "%s does not look up the definitions for the element's own type and the key asked for" % key)
            if fc:
                fresh(F, R, V, f, key, o, s, fc[0])
    cmpf = [g for g in F.fns.values() if g.file.endswith("ChannelServer.cpp") and g.qn.split("::")[-1] == "operator()" and "FindType" in g.qn]
    for g in cmpf:
        G = vg.Graph(F)
        r, _, _ = G.run(g)
        c = [x for x in vg.walk(r) if x.op == "b" and x.args[0] == "t" and x.args[1].op != "in"] if r is not None else []
        R.check(len(set(c)) == 1, "server", "FindType", g.loc(), "FindType does not compare the definition's type")
        neg = [x for x in vg.walk(r) if x.op == "b" and x.args[0] == "t" and x.args[1].op == "in"] if r is not None else []
        if len(set(c)) == 1 and neg:
            a = vg.subst(r, {neg[0]: vg.FALSE})
            b = vg.subst(r, {neg[0]: vg.TRUE})
            R.check(a is c[0] and b is vg.nt(c[0]), "server", "FindType sense", g.loc(), "FindType is true for another type than the one it looks for")
    fcf = seq.body(F, S, "FindCtors")
    ins = [i for i in fcf.walk() if fcf.k(i) == "Call" and (fcf.n(i).get("fn") or "").split("::")[-1] in ("insert", "emplace")]
    clr = [i for i in fcf.walk() if fcf.k(i) == "Call" and (fcf.n(i).get("fn") or "").split("::")[-1] == "clear"]
    R.check(len(ins) == 1 and len(clr) == 1, "server", "FindCtors collects", fcf.loc(), "FindCtors does not start from nothing and collect the matching definitions")
    m = F.cls("AcceleratorModel")
    for mode in ("RO", "RW"):
        for mm in seq.method(F, m, "Get%sChannels" % mode):
            f = F.fns.get(mm["u"])
            if f is None or f.load()["body"] < 0:
                continue
            want = [x["u"] for x in seq.method(F, S, "Get%sChannels" % mode) if len(x["pt"]) == len(mm["pt"])]
            G = vg.Graph(F, opaque=set(want))
            G.watch = lambda u: u in want
            G.run(f)
            ps = [vg.mk("in", vg.mk("param", k, f.vars[pv][0])) for k, pv in enumerate(f.params)]
            R.check(len(G.log) == 1 and list(G.log[0][3][1:]) == ps, "server", "AcceleratorModel Get%sChannels/%d" % (mode, len(ps)), f.loc(), "the model does not pass the request on to its server")


def throws(f, blk):
    return loops.leads_to_throw(f.blocks(), blk) if isinstance(blk, int) else False


def ctype(F, f, it):
    n = f.n(strip(f, it.contnode)) if getattr(it, "contnode", None) is not None else {}
    return n.get("t", "")


def mentions(v, what, depth=0):
    if not isinstance(v, tuple) or depth > 12:
        return False
    if v and v[0] == what:
        return True
    return any(mentions(x, what, depth + 1) for x in v if isinstance(x, tuple)) or any(mentions(y, what, depth + 1) for x in v if isinstance(x, frozenset) for y in x)


def typed(F, f, V, i, o):
    """the argument is the type of the element of this round (directly, or through a variable set to it)"""
    vals = V.of(f, i, {o.var: frozenset({("iter", o.cont)})})
    good = [v for v in vals if v[0] == "call" and (v[2] or "").split("::")[-1] == "GetType" and mentions(v, "iter")]
    rest = [v for v in vals if v not in good]
    return bool(good) and all(v[0] in ("str", "ctor") or v[0] == "var" for v in rest) or bool(vals) and all(v[0] == "var" for v in vals)


def fresh(F, R, V, f, key, o, s, call):
    """before the definitions are walked for an element they have been looked up for its type: looked up in this round, or
    the type remembered equals the element's"""
    def classify(fl, i):
        if fl.fn is not f:
            return None
        if i == call:
            return ("find",)
        n = f.n(i)
        if n["k"] == "Call" and (n.get("fn") or "").split("::")[-1].startswith("Construct"):
            return ("make",)
        if (n["k"] == "Call" and n.get("op") == "=" or n["k"] == "Binary" and n["op"] == "=") and len(f.c(i)) == 2:
            r = strip(f, f.c(i)[1])
            if f.k(r) == "Call" and (f.n(r).get("fn") or "").split("::")[-1] == "GetType":
                return ("remember",)
        return None

    def edge(fl, cond, pol, env):
        if fl.fn is not f:
            return None
        c = strip(f, cond)
        n = f.n(c)
        if n["k"] == "Call" and n.get("op") in ("!=", "==") or n["k"] == "Binary" and n["op"] in ("!=", "=="):
            op = n.get("op")
            if any(f.k(strip(f, x)) == "Call" and (f.n(strip(f, x)).get("fn") or "").split("::")[-1] == "GetType" for x in f.c(c)):
                return ("same", pol if op == "==" else not pol)
        return None
    from events import EventFlow
    sp = seq.Spec(F, classify, 6, lambda g: False, (), edge, True)
    fl = EventFlow(F, f, sp, V, {o.var: frozenset({("iter", o.cont)})})
    fl.region = (o.header, o.blocks)
    fl.run(())
    ok = bool(fl.rounds)
    for r in fl.rounds:
        ev = [e for e in r if e[0] != "make"]
        first = next((k for k, e in enumerate(r) if e[0] == "make"), len(r))
        before = [e[0] for e in r[:first]]
        if "make" in [e[0] for e in r]:
            if "find" not in before and ("same", True) not in r[:first]:
                ok = False
            if ("same", False) in r and not ("find" in before and "remember" in before):
                ok = False
        if ("same", False) in r and ("find",) in r and ("remember",) not in r:
            ok = False
    R.check(ok, "server", key + " up to date", f.loc(call), "%s can offer an element the definitions looked up for another type" % key)
