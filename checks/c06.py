"""C06: one seedable source of randomness, no hidden state."""
import re
import facts, seq
from report import Report
from values import Values
from flow import Flow, canon, strip, atom, mentions
from events import EventFlow

ENGINE = re.compile(r"std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|"
                    r"independent_bits_engine|shuffle_order_engine)<|std::random_device")
STATEFUL = re.compile(r"std::(normal|lognormal|gamma|chi_squared|cauchy|fisher_f|student_t|poisson|binomial|negative_binomial|geometric|"
                      r"discrete|piecewise_constant|piecewise_linear|exponential|weibull|extreme_value)_distribution<|landau_distribution<")
ENTROPY = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "srand48", "erand48", "nrand48", "rand_r", "random_shuffle",
           "getrandom", "getentropy", "arc4random"}
CLOCK = {"time", "clock", "clock_gettime", "gettimeofday", "now", "getpid", "times", "ftime", "rdtsc"}
TIMING = ("MerlinProfile",)          # measures and prints elapsed time; nothing of it reaches a simulation


def by_value(t):
    t = t.strip()
    return not (t.endswith("*") or t.endswith("&") or t.endswith("* const"))


def holds_engine(t):
    """an engine object of its own (not a reference, pointer, iterator or standard container of the service)"""
    t = t.strip()
    if not by_value(t):
        return False
    b = t[6:] if t.startswith("const ") else t
    return bool(re.match(r"(std::(vector|array|map|unordered_map|unique_ptr|shared_ptr|optional|pair|deque|list|tuple)<.*)?" + "(" + ENGINE.pattern + ")", b))


def run():
    F = facts.load()
    R = Report("C06", "Over every function body, variable, member and global of the library: no use of an operating-system, C-library, clock or "
               "process-number source (random_device only in the seedless RandomNG::init); engines are constructed, copied and seeded only inside "
               "RandomNG; every distribution draws from an engine that is the service's (value resolution through members and parameters); no "
               "stateful distribution, copy of a generator or cached draw outlives the call; every seeding path stores the given seeds before it "
               "recreates the generator from them and restarts each stored local generator in place; the generator is dereferenced only where it "
               "is known to exist or has just been seeded (path-sensitive); a local generator name is used by one class.")
    V = Values(F, opaque=("getLocalGenerator", "getGenerator"))
    S = F.cls("RandomNG")
    svc = {u for u, (c, m) in F.method_decl.items() if c == S["u"]}
    gen = next((g for g in F.globals if g.endswith("RandomNG@generator")), None)
    store = next((g for g in F.globals if g.endswith("RandomNG@generator_store")), None)
    seed = next((g for g in F.globals if g.endswith("RandomNG@master_seed")), None)
    if not (gen and store and seed):
        raise facts.Broken("the random number service's state (generator, generator_store, master_seed) was not found")
    sources(F, R, V, S, svc)
    holders(F, R, V, S, svc, store)
    names(F, R, V)
    service(F, R, V, S, svc, gen, store, seed)
    R.floor("source", 2000)
    R.floor("draw", 8)
    R.floor("seeding", 6)
    R.floor("deref", 6)
    return R.finish(F)


def sources(F, R, V, S, svc):
    init0 = {m["u"] for m in S["methods"] if m["n"] == "init" and not m["pt"]}
    # private helpers of the service called only from the seedless init
    helpers = set(init0)
    for f in F.all():
        bad = None
        for i in f.walk():
            n = f.n(i)
            if n["k"] == "Construct" and "random_device" in n.get("t", "") or (n["k"] == "Decl" and any(v >= 0 and "random_device" in f.vars[v][1] for v, _, _ in n["d"])):
                if f.u not in helpers and not only_called_from(F, f, helpers):
                    bad = bad or (i, "asks the operating system for randomness (std::random_device)")
            if n["k"] == "Call" and n.get("fn"):
                nm = n["fn"].split("::")[-1]
                std = n["fn"] in (nm, "std::" + nm)
                if nm in ENTROPY and std:
                    bad = bad or (i, "draws from %s, outside the random number service" % nm)
                if nm in CLOCK and (std or n["fn"].startswith("std::chrono")) and not f.qn.startswith(TIMING):
                    bad = bad or (i, "reads %s" % n["fn"])
        if bad:
            R.bad("source", f.qn + " " + bad[1], f.loc(bad[0]), "%s %s" % (f.qn, bad[1]))
        else:
            R.ok("source")


def only_called_from(F, f, allowed):
    users = set()
    for g in F.all():
        for i in g.walk():
            if g.n(i).get("f") == f.u:
                users.add(g.u)
    return bool(users) and users <= allowed


def holders(F, R, V, S, svc, store):
    # data members and globals
    for c in F.classes.values():
        if c["u"] == S["u"]:
            continue
        for x in c["fields"]:
            if holds_engine(x["t"]):
                R.bad("engine", "%s::%s is an engine of its own" % (c["qn"], x["n"]), "%s:%d" % (c["file"].split("/")[-1], x["l"]), "%s keeps a random engine of its own in %s" % (c["qn"], x["n"]))
            elif by_value(x["t"]) and re.match(STATEFUL.pattern, x["t"].strip()):
                R.bad("state", "%s::%s keeps a distribution" % (c["qn"], x["n"]), c["file"].split("/")[-1], "%s keeps a distribution with hidden state in %s" % (c["qn"], x["n"]))
            elif ENGINE.search(x["t"]):
                R.ok("engine", c["qn"] + "::" + x["n"])
    for g in F.globals.values():
        if g["u"].startswith("c:@S@RandomNG@"):
            continue
        if holds_engine(g["t"]) or (by_value(g["t"]) and re.match(STATEFUL.pattern, g["t"].strip())):
            R.bad("engine", g["qn"] + " global", "%s:%d" % (g["file"].split("/")[-1], g["line"]), "the global %s keeps random state of its own" % g["qn"])
    ptrs = {x["u"]: (c, x) for c in F.classes.values() for x in c["fields"] if ENGINE.search(x["t"]) and not by_value(x["t"])}
    assigns = field_assigns(F, ptrs)
    for f in F.all():
        inside = f.u in svc
        for v, (nm, t, kind, line) in enumerate(f.vars):
            if inside and kind != "static":
                continue
            if holds_engine(t):
                R.bad("engine", "%s %s" % (f.qn, nm), "%s:%d" % (f.loc().split(":")[0], line), "%s keeps a random engine of its own (or a copy of one) in %s" % (f.qn, nm))
            if kind == "static" and by_value(t) and re.match(STATEFUL.pattern, t.strip()):
                R.bad("state", "%s %s" % (f.qn, nm), "%s:%d" % (f.loc().split(":")[0], line), "%s keeps a distribution with hidden state between calls in %s" % (f.qn, nm))
        draws = False
        statics = {v for v, x in enumerate(f.vars) if x[2] == "static" and by_value(x[1]) and not x[1].startswith("const ")}
        for i in f.walk():
            n = f.n(i)
            if n["k"] != "Call":
                if n["k"] == "Decl":
                    for v, init, _ in n["d"]:
                        if v >= 0 and init >= 0 and f.vars[v][2] == "static" and f.vars[v][1].rstrip().endswith(("&", "*")) and ENGINE.search(f.vars[v][1]):
                            vals = V.of(f, init)
                            ok = all(is_call_name(x, "getLocalGenerator") for x in seq.unref(vals))
                            R.check(ok, "engine", f.qn + " static reference", f.loc(i), "%s keeps a reference to a generator that a re-seed replaces" % f.qn)
                continue
            fn = n.get("fn") or ""
            if n.get("f") in svc and n.get("f") and fn.split("::")[-1] in ("normal", "uniform", "poisson", "landau"):
                draws = True
            if not inside and fn.split("::")[-1] in ("seed",) and n.get("obj") and re.match(ENGINE.pattern, fn):
                R.bad("engine", f.qn + " seeds an engine", f.loc(i), "%s seeds a generator itself" % f.qn)
            # a distribution applied to an engine
            if is_draw_op(n) and "_distribution" in fn and len(f.c(i)) >= 2:
                draws = True
                vals = origins(F, V, f, f.c(i)[1], assigns, 0)
                ok = bool(vals) and vals <= {"service"}
                R.check(ok, "draw", "%s draws with %s" % (f.qn, fn.split("<")[0]), f.loc(i), "%s draws from a generator that is not the service's (%s)" % (f.qn, ", ".join(sorted(vals))))
            if re.match(ENGINE.pattern, fn) and is_draw_op(n) and not inside:
                draws = True
                vals = origins(F, V, f, f.c(i)[0], assigns, 0)
                R.check(bool(vals) and vals <= {"service"}, "draw", f.qn + " draws raw", f.loc(i), "%s draws from a generator that is not the service's" % f.qn)
        if draws:
            tainted = drawn(f, svc)
            for v in statics & tainted:
                t = f.vars[v][1]
                if "_distribution<" in t or ENGINE.search(t):
                    continue
                R.bad("state", "%s static %s" % (f.qn, f.vars[v][0]), f.loc(), "%s keeps a random number between calls in the static %s, which a re-seed does not reset" % (f.qn, f.vars[v][0]))
            R.ok("state", f.qn)


def is_draw_op(n):
    """a distribution applied to an engine, or an engine called"""
    fn = n.get("fn") or ""
    if n["k"] != "Call" or "operator()" not in fn:
        return False
    return "_distribution" in fn.split("operator()")[0] or bool(re.match(ENGINE.pattern, fn))


def drawn(f, svc):
    """local and static variables a random draw flows into"""
    def is_draw(i):
        n = f.n(i)
        fn = n.get("fn") or ""
        return n["k"] == "Call" and ((n.get("f") in svc and fn.split("::")[-1] in ("normal", "uniform", "poisson", "landau"))
                                     or is_draw_op(n))
    t = set()
    while True:
        n0 = len(t)
        for i in f.walk():
            n = f.n(i)
            pairs = []
            if n["k"] == "Decl":
                pairs = [(v, j) for v, j, _ in n["d"] if v >= 0 and j >= 0]
            elif (n["k"] == "Binary" and n["op"] == "=") or n["k"] == "CompoundAssign":
                l = canon(f, f.c(i)[0])
                while l is not None and l[0] in ("[]", "m", "*"):
                    l = l[2] if l[0] == "m" else l[1]
                if l is not None and l[0] == "v":
                    pairs = [(l[1], f.c(i)[1])]
            for v, j in pairs:
                if v not in t and any(is_draw(x) or (f.k(x) == "Ref" and f.n(x).get("v") in t) for x in f.walk(j)):
                    t.add(v)
        if len(t) == n0:
            return t


def field_assigns(F, flds):
    out = {}
    for f in F.all():
        for e in f.inits:
            if e[0] == "m" and e[1] in flds and e[2] >= 0:
                out.setdefault(e[1], []).append((f, e[2]))
        for i in f.walk():
            n = f.n(i)
            if n["k"] == "Binary" and n["op"] == "=":
                l = strip(f, f.c(i)[0])
                if f.k(l) == "Member" and f.n(l).get("fld") in flds:
                    out.setdefault(f.n(l)["fld"], []).append((f, f.c(i)[1]))
    return out


def is_call_name(x, name):
    return x[0] == "call" and (x[2] or "").split("::")[-1] == name


def origins(F, V, f, i, assigns, depth, seen=None):
    """where an engine expression comes from: {'service'} or descriptions of something else"""
    seen = set() if seen is None else seen
    if (f.u, i) in seen:
        return set()
    seen.add((f.u, i))
    out = set()
    for x in seq.unref(V.of(f, i)):
        while x[0] in ("deref", "addr"):
            x = x[1]
        if x[0] == "call" and (is_call_name(x, "getGenerator") or is_call_name(x, "getLocalGenerator")):
            out.add("service")
        elif x[0] == "g" and "RandomNG@generator" in x[1]:
            out.add("service")
        elif x[0] == "call" and x[3] and any(y[0] == "g" and "RandomNG@generator" in y[1] for a in x[3][:1] for y in a):
            out.add("service")
        elif x[0] == "field":
            if "RandomNG" in str(x):
                out.add("service")
                continue
            a = assigns.get(x[1])
            if not a:
                out.add("a member never set from the service")
            for (g, j) in a or ():
                if g.k(j) == "Null" or V.of(g, j) == {("null",)}:
                    continue
                out |= origins(F, V, g, j, assigns, depth + 1, seen)
        elif x[0] == "param":
            g = F.fns.get(x[1])
            if g is not None and (g.u in F.fns) and "RandomNG@generator" in g.u:
                out.add("service")
                continue
            calls = callers(F, x[1])
            if not calls and g is not None and g.load().get("inst"):
                out.add("service")        # a template operator only its user instantiates
            for (h, j) in calls:
                args = h.c(j)
                k = x[2] + (1 if h.n(j).get("obj") else 0)
                if k < len(args):
                    out |= origins(F, V, h, args[k], assigns, depth + 1, seen)
        else:
            out.add("a generator of its own")
    return out


_callers = {}


def callers(F, u):
    if not _callers:
        for g in F.all():
            for i in g.walk():
                n = g.n(i)
                if n["k"] in ("Call", "Construct") and n.get("f"):
                    _callers.setdefault(n["f"], []).append((g, i))
    return _callers.get(u, [])


def names(F, R, V):
    use = {}
    for f in F.all():
        for i in f.walk():
            n = f.n(i)
            if n["k"] == "Call" and (n.get("fn") or "") == "RandomNG::getLocalGenerator" and f.c(i):
                strs = set()
                for x in f.walk(f.c(i)[0]):
                    if f.k(x) == "Str":
                        strs.add(f.n(x)["v"])
                    elif f.k(x) == "Call" and f.n(x).get("f") in F.fns and F.fns[f.n(x)["f"]].name != "hash_string":
                        g = F.fns[f.n(x)["f"]]
                        strs |= {g.n(y)["v"] for y in g.walk() if g.k(y) == "Str"}
                who = f.qn.rsplit("::", 1)[0] if f.cls else f.file.split("/")[-1]
                for s in strs:
                    use.setdefault(s, {}).setdefault(who, f.loc(i))
    for s, who in sorted(use.items()):
        R.check(len(who) == 1, "name", "local generator \"%s\"" % s, sorted(who.values())[0],
                "the local generator \"%s\" is shared by %s, so drawing or resetting in one changes the other" % (s, " and ".join(sorted(who))))


def service(F, R, V, S, svc, gen, store, seed):
    fns = [F.fns[u] for u in svc if u in F.fns and F.fns[u].load()["body"] >= 0]
    # ---- seeding: events in order
    def cls(fl, i):
        f = fl.fn
        n = f.n(i)
        k = n["k"]
        c = f.c(i)
        if k == "Call" and c:
            nm = (n.get("fn") or "").split("::")[-1]
            tgt = canon(f, c[0]) if c[0] >= 0 else None
            if tgt == ("g", seed) and nm in ("operator=", "assign", "swap"):
                vals = set()
                for a in c[1:]:
                    vals |= {x for x in leaves(f, a, fl)}
                return ("seeds", frozenset(vals))
            if tgt == ("g", seed) and nm in ("push_back", "emplace_back", "clear", "resize", "reserve"):
                return ("seeds+", nm)
            if tgt == ("g", gen) and nm in ("reset", "operator=", "swap"):
                return ("engine", frozenset(seeded_by(f, c[1:], seed, fl)))
            if nm == "seed" and tgt is not None and mentions(tgt, ("g", gen)):
                return ("engine", frozenset(seeded_by(f, c[1:], seed, fl)))
            if nm == "operator=" and c and ENGINE.search(n.get("fn") or ""):
                if any(f.k(x) in ("Ref",) and f.n(x).get("g") == store for x in f.walk(c[0])) or stored_ref(f, c[0], store):
                    return ("local", frozenset(seeded_by(f, c[1:], seed, fl)))
            if tgt == ("g", store) and nm in ("clear", "erase", "swap", "operator="):
                return ("drop", nm)
        return None
    auto = {f.u for f in fns if f.name == "not_seeded"}      # the unseeded case is decided by the dereference rule
    publ = [f for f in fns if f.name in ("init", "reset")]
    for f in sorted(publ, key=lambda f: f.u):
        ps, fl = seq.paths(F, f, V, cls, maxlen=12, nodup=True, stop=auto, follow=lambda g: g.u in svc or (g.cls is None and "RandomNG" in g.file))
        n = 0
        allev = set()
        for kind, ev, _ in ps:
            if kind == "throw":
                continue
            n += 1
            allev |= set(ev)
            labs = [e[0] for e in ev]
            eng = [k for k, e in enumerate(ev) if e[0] == "engine"]
            key = "%s(%s)" % (f.name, ", ".join(f.vars[p][1] for p in f.params))
            R.check(bool(eng), "seeding", key + " recreates the generator", f.loc(), "RandomNG::%s can return without restarting the generator" % key)
            if eng:
                R.check("seed" in ev[eng[-1]][1] and ev[eng[-1]][1] <= {"seed"}, "seeding", key + " seeds from the stored seeds", f.loc(),
                        "RandomNG::%s seeds the generator from something other than the stored seeds" % key)
                if f.params:
                    sd = [k for k, e in enumerate(ev) if e[0] == "seeds"]
                    ok = bool(sd) and sd[-1] < eng[-1] and ev[sd[-1]][1] == {("param", 0)} and "seeds+" not in labs[sd[-1]:]
                    R.check(ok, "seeding", key + " stores the given seed first", f.loc(), "RandomNG::%s does not store exactly the given seeds before restarting the generator" % key)
            R.check("drop" not in labs, "seeding", key + " keeps stored generators", f.loc(), "RandomNG::%s discards local generators that callers hold references to" % key)
        loc = [e for e in allev if e[0] == "local"]
        R.check(n > 0 and bool(loc) and all(e[1] <= {"seed", "name"} and "seed" in e[1] for e in loc), "seeding", f.name + " restarts local generators " + ",".join(f.vars[p][1] for p in f.params), f.loc(),
                "RandomNG::%s leaves the local generators where they were: their state survives a re-seed" % f.name)
    for f in fns:
        if f.name == "resetLocalGenerator":
            ps, fl = seq.paths(F, f, V, cls, maxlen=12, nodup=True, stop=auto, follow=lambda g: g.u in svc)
            for kind, ev, _ in ps:
                if kind == "throw":
                    continue
                loc = [e for e in ev if e[0] == "local"]
                R.check(bool(loc) and all(e[1] == {"seed", "name"} for e in loc), "seeding", f.name + " restarts the generator in place", f.loc(),
                        "RandomNG::%s does not restart the stored generator from the seeds and its name" % f.name)
        if f.name == "getLocalGenerator":
            news = [i for i in f.walk() if f.k(i) == "Construct" and ENGINE.match(f.n(i).get("t", "")) and not f.n(i).get("copy") and not f.n(i).get("move")]
            R.check(bool(news) or calls_any(f, svc), "seeding", "getLocalGenerator creates", f.loc(), "getLocalGenerator no longer creates a generator")
            for i in news:
                src = set(seeded_by(f, f.c(i), seed, None))
                R.check(src == {"seed", "name"}, "seeding", "getLocalGenerator seeds from the seeds and the name", f.loc(i), "a new local generator is not seeded from the stored seeds and its name")
            for r in V.returns(f):
                vals = V.of(f, r)
                R.check(all("generator_store" in str(x) for x in vals), "seeding", "getLocalGenerator returns the stored generator", f.loc(r), "getLocalGenerator returns something other than the stored generator")
    # ---- the generator exists wherever it is used
    seeders = {f.u for f in fns if f.name in ("init", "reset", "not_seeded")}
    for f in sorted(fns, key=lambda f: f.u):
        if f.name in ("init", "reset", "not_seeded"):
            continue
        fl = Deref(F, f, gen, seeders, seed)
        fl.run(False)
        for i, bad in sorted(fl.sites.items()):
            R.check(not bad, "deref", "%s uses the generator" % f.qn, f.loc(i), "%s can use the random number service before it has been seeded" % f.qn)


def calls_any(f, svc):
    return any(f.n(i).get("f") in svc for i in f.walk())


def leaves(f, a, fl):
    out = set()
    for x in f.walk(a):
        n = f.n(x)
        if n["k"] == "Ref" and "v" in n:
            v = n["v"]
            if v in f.params:
                for y in fl.value(x):
                    out.add(("param", y[2]) if y[0] == "param" else y[:1])
            else:
                out.add(("local", f.vars[v][0]))
        elif n["k"] in ("Call",) and not n.get("op"):
            out.add(("call", n.get("fn")))
        elif n["k"] in ("Int", "Float") or n["k"] in ("Binary", "Unary"):
            out.add(("computed",))
        elif n["k"] == "Ref" and "g" in n:
            out.add(("g", n["g"]))
    return out


def seeded_by(f, nodes, seed, fl, depth=0, seen=None):
    """what an engine is seeded from: 'seed' (the stored seeds), 'name' (a parameter), or other things"""
    out = set()
    seen = seen if seen is not None else set()
    P = f.parents() if callable(f.parents) else f.parents

    def whole(x):
        """the stored seeds are used from the first to the last"""
        p = P[x]
        while p is not None and p >= 0 and f.k(p) in ("Cast", "Paren"):
            p = P[p]
        if p is None or p < 0 or f.k(p) != "Call":
            return True
        last = (f.n(p).get("fn") or "").split("::")[-1]
        if f.n(p).get("op") == "[]" or last in ("front", "back", "at", "size", "data"):
            return False
        if last in ("begin", "end", "cbegin", "cend"):
            q = P[p]
            while q is not None and q >= 0 and f.k(q) in ("Cast", "Paren"):
                q = P[q]
            return not (q is not None and q >= 0 and (f.n(q).get("op") in ("+", "-", "++", "--", "*", "u*") or f.n(q).get("op") == "+="))
        return True
    for a in nodes:
        if a is None or a < 0:
            continue
        for x in f.walk(a):
            n = f.n(x)
            if n["k"] == "Ref":
                if n.get("g") == seed:
                    out.add("seed" if whole(x) else "part of the seeds")
                elif "g" in n:
                    out.add("other global " + n["g"])
                elif "v" in n:
                    v = n["v"]
                    if v in f.params:
                        out.add("name")
                    elif v not in seen and depth < 5:
                        seen.add(v)
                        out |= var_sources(f, v, seed, fl, depth, seen)
            elif n["k"] == "Call" and (n.get("fn") or "").split("::")[-1] in CLOCK | ENTROPY:
                out.add(n["fn"])
            elif n["k"] == "Construct" and "random_device" in n.get("t", ""):
                out.add("random_device")
    return out


def var_sources(f, v, seed, fl, depth, seen):
    out = set()
    for i in f.walk():
        n = f.n(i)
        if n["k"] == "Decl":
            for w, init, _ in n["d"]:
                if w == v and init >= 0:
                    out |= set(seeded_by(f, [init], seed, fl, depth + 1, seen))
        elif n["k"] == "Binary" and n["op"] == "=" and canon(f, f.c(i)[0]) == ("v", v):
            out |= set(seeded_by(f, [f.c(i)[1]], seed, fl, depth + 1, seen))
        elif n["k"] == "Call" and f.c(i) and canon(f, f.c(i)[0]) == ("v", v) and (n.get("fn") or "").split("::")[-1] in ("push_back", "emplace_back", "insert", "operator=", "assign"):
            out |= set(seeded_by(f, f.c(i)[1:], seed, fl, depth + 1, seen))
    return out


def stored_ref(f, i, store):
    """an lvalue bound to an element of the store (loop variable or local reference)"""
    for x in f.walk(i):
        n = f.n(x)
        if n["k"] == "Ref" and "v" in n and n["v"] not in f.params:
            v = n["v"]
            if f.vars[v][1].rstrip().endswith("&") or "iterator" in f.vars[v][1]:
                for y in f.walk():
                    m = f.n(y)
                    if m["k"] == "Decl" and any(w == v and j >= 0 and (any(f.n(z).get("g") == store for z in f.walk(j)) or "mersenne_twister" in f.vars[v][1]) for w, j, _ in m["d"]):
                        return True
    return False


class Deref(Flow):
    """ust: the service has been seeded on this path"""

    def __init__(self, F, fn, gen, seeders, seed):
        Flow.__init__(self, F, fn)
        self.gen, self.seeders, self.seed, self.sites = gen, seeders, seed, {}

    def on_edge(self, cond, pol, u, env):
        return u or env.get(("g", self.gen)) is True

    def node(self, i, u, e):
        f = self.fn
        n = f.n(i)
        if n["k"] == "Call" and n.get("f") in self.seeders:
            return [(True, self.effect(i, e).set(("g", self.gen), True))]
        if n["k"] == "Call" and n.get("op") in ("*", "->") and f.c(i) and canon(f, f.c(i)[0]) == ("g", self.gen):
            ok = u or e.get(("g", self.gen)) is True
            self.sites[i] = self.sites.get(i, False) or not ok
        if n["k"] == "Ref" and n.get("g") == self.seed:
            ok = u or e.get(("g", self.gen)) is True
            if f.name != "getSeed":
                self.sites[i] = self.sites.get(i, False) or not ok
        if n["k"] == "Call" and n.get("f"):
            g = self.F.fns.get(n["f"])
            if g is not None and g.cls == f.cls and not n.get("virt") and establishes(self.F, g, self.gen, self.seeders, self.seed):
                return [(True, self.effect(i, e).set(("g", self.gen), True))]
        return None


_est = {}


def establishes(F, g, gen, seeders, seed):
    """a helper of the service after which the generator exists on every path"""
    if g.u not in _est:
        _est[g.u] = False
        if g.load()["body"] >= 0 and g.cfg is not None:
            fl = Establish(F, g, gen, seeders, seed)
            fl.run(False)
            _est[g.u] = bool(fl.returns) and fl.good
    return _est[g.u]


class Establish(Deref):
    good = True

    def on_return(self, i, u, env):
        if not (u or env.get(("g", self.gen)) is True):
            self.good = False
        return u
