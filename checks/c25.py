"""C25: every attached process acts on every step, in priority order."""
import facts, seq, loops
from report import Report
from values import Values
from flow import strip, canon, mentions, atom

BP = "BunchProcess::"


def run():
    F = facts.load()
    R = Report("C25", "The step manager: iterations over its process table are recognised (loops of the CFG and standard algorithms, functors and "
               "helpers followed) and must run from the first to the last process without leaving early; per process, and per path of the body: "
               "initialised / told the component unconditionally, asked for its limit and run exactly once with the step exactly when active. "
               "Paths of Track: component first, then limit before run, step = running minimum of what is left and the limits, position advanced by "
               "that step, loop left only at the end of the component. Table: one insertion per added process at the priority position, removal only "
               "of what was found. Every process class: accumulates exactly the step, restarts per component, moves its limit on.")
    V = Values(F, opaque=("GetMaxAllowedStepSize", "IsActive", "GetPriority", "GetLength", "GetRemainingLength"))
    S = F.cls("ProcessStepManager")
    T = seq.field(F, S, "processTable")
    M = Manager(F, R, V, S, T)
    M.whole("Initialise", "InitialiseProcess", 0)
    M.track()
    M.add()
    M.remove()
    processes(F, R, V)
    integrator(F, R, V)
    R.floor("walk", 5)
    R.floor("step", 6)
    R.floor("table", 4)
    R.floor("process", 40)
    R.floor("integrator", 10)
    return R.finish(F)


class Manager(object):
    def __init__(self, F, R, V, S, T):
        self.F, self.R, self.V, self.S, self.T = F, R, V, S, T
        self.its = {}
        self.file = facts_file(F, S)

    def follow(self, g):
        return g.cls == self.S["u"] or (g.file.endswith("ProcessStepManager.cpp") and g.cls is None)

    def elem(self, vals):
        v = seq.norm(vals)
        return bool(v) and all(x[0] == "elem" and all(y[0] == "field" and y[1] == self.T for y in x[1]) for x in seq.unref(v))

    def classify_elem(self, fl, i):
        n = fl.fn.n(i)
        if n["k"] == "Call" and (n.get("fn") or "").startswith(BP) and n.get("obj"):
            nm = n["fn"].split("::")[-1]
            if nm in ("InitialiseProcess", "SetCurrentComponent", "GetMaxAllowedStepSize", "DoProcess") and self.elem(fl.value(fl.fn.c(i)[0])):
                return (nm, tuple(seq.through(self.F, self.V, fl.value(x)) for x in fl.fn.c(i)[1:]))
        return None

    def edge(self, fl, cond, pol, env):
        f = fl.fn
        c = strip(f, cond)
        while f.k(c) == "Unary" and f.n(c)["op"] == "!":
            c, pol = strip(f, f.c(c)[0]), not pol
        v = fl.value(c)
        if v and all(x[0] == "call" and (x[2] or "") == BP + "IsActive" and self.elem(x[3][0]) for x in v):
            return ("active", pol)
        return None

    def iters(self, f, env):
        key = (f.u, tuple(sorted((str(k), str(v)) for k, v in (env or {}).items())))
        if key not in self.its:
            m = {}
            for it in loops.iterations(self.F, f, self.V, env):
                if it.cont and all(x[0] == "field" and x[1] == self.T for x in it.cont):
                    rounds, leave, fl = None, None, None
                    try:
                        rounds, leave, fl = each(self, it, env)
                    except facts.Broken:
                        raise
                    it.rounds, it.leaves, it.fl = rounds, leave, fl
                    it.labels = frozenset(e[0] for r in rounds or () for e in r if e[0] != "active")
                    m[it.node] = it
            self.its[key] = m
        return self.its[key]

    def complete(self, it, what, who):
        self.R.check(not it.problems and not it.early and it.rounds is not None, "walk", "%s over the process table in %s" % (what, who), it.loc(),
                     "the iteration over the processes that %s %s" % (what, "; ".join(it.problems) or ("can stop before the last process" if it.early else "cannot be followed")))

    def walks(self, f):
        """classifier: ('walk', labels, Iter) at each iteration over the table"""
        def classify(fl, i):
            it = self.iters(fl.fn, fl.venv).get(i)
            if it is not None:
                self.seen[id(it)] = it
                return ("walk", it.labels)
            n = fl.fn.n(i)
            if n["k"] == "CompoundAssign" and n["op"] == "+=":
                c = canon(fl.fn, fl.fn.c(i)[0])
                if c is not None and c[0] == "m" and c[2] == ("this",):
                    return ("total", c[1], frozenset(seq.through(self.F, self.V, fl.value(fl.fn.c(i)[1]))))
                if c is not None and c[0] == "v":
                    return ("advance", fl.fn.u, c[1], i)
            if n["k"] == "Binary" and n["op"] == "=":
                c = canon(fl.fn, fl.fn.c(i)[0])
                r = strip(fl.fn, fl.fn.c(i)[1])
                if c is not None and c[0] == "v" and fl.fn.k(r) == "Binary" and fl.fn.n(r)["op"] == "+" and any(canon(fl.fn, x) == c for x in fl.fn.c(r)):
                    return ("advance", fl.fn.u, c[1], i)
                if c is not None and c[0] == "m" and c[2] == ("this",):
                    return ("set", c[1], frozenset(seq.through(self.F, self.V, fl.value(fl.fn.c(i)[1]))))
            return None
        self.seen = {}
        return seq.paths(self.F, f, self.V, classify, maxlen=14, nodup=True, follow=self.follow)

    def whole(self, name, call, param):
        f = seq.body(self.F, self.S, name)
        ps, fl = self.walks(f)
        its = [it for it in self.seen.values() if call in it.labels]
        for it in its:
            self.complete(it, call, f.qn)
            for r in it.rounds or ():
                ev = [e for e in r if e[0] == call]
                ok = len(ev) == 1 and seq.is_param(ev[0][1][0], param)
                self.R.check(ok, "walk", "%s of each process in %s" % (call, f.qn), it.loc(), "%s does not call %s exactly once, unconditionally, on each process" % (f.qn, call))
        for kind, ev, _ in ps:
            if kind == "return":
                self.R.check(any(e[0] == "walk" and call in e[1] for e in ev), "walk", "%s on every path of %s" % (call, f.qn), f.loc(), "%s can return without %s of the processes" % (f.qn, call))
        tot = seq.field(self.F, self.S, "total_s")
        if name == "Initialise":
            for kind, ev, _ in ps:
                if kind == "return":
                    self.R.check(any(e[0] == "set" and e[1] == tot and e[2] <= {("int", "0"), ("flt", "0.0"), ("flt", "0")} for e in ev), "walk", "Initialise restarts the integrated length", f.loc(),
                                 "Initialise can return without setting the integrated length to zero")

    # -------------------------------------------------------------- Track
    def track(self):
        F, R, V = self.F, self.R, self.V
        f = seq.body(F, self.S, "Track")
        ps, fl = self.walks(f)
        its = list(self.seen.values())
        by = lambda l: [it for it in its if l in it.labels]
        for l in ("SetCurrentComponent", "GetMaxAllowedStepSize", "DoProcess"):
            R.check(bool(by(l)), "step", "Track calls %s" % l, f.loc(), "tracking a component never calls %s" % l)
            for it in by(l):
                self.complete(it, l, f.qn)
        for it in by("SetCurrentComponent"):
            for r in it.rounds or ():
                ev = [e for e in r if e[0] == "SetCurrentComponent"]
                R.check(len(ev) == 1 and seq.is_param(ev[0][1][0], 0), "step", "each process is told the component", it.loc(), "a process is not told the component to be tracked exactly once, whether active or not")
        for it in by("DoProcess") + by("GetMaxAllowedStepSize"):
            for r in it.rounds or ():
                act = [e[1] for e in r if e[0] == "active"]
                for l in ("DoProcess", "GetMaxAllowedStepSize"):
                    if l not in it.labels:
                        continue
                    ev = [e for e in r if e[0] == l]
                    if act and act[-1] is False:
                        R.check(not ev, "step", "%s only when active" % l, it.loc(), "a process that is not active is %s" % ("run" if l == "DoProcess" else "asked for a limit, which then restricts the others"))
                    elif act:
                        R.check(len(ev) == 1, "step", "%s once when active" % l, it.loc(), "an active process is %s %d times in a step" % ("run" if l == "DoProcess" else "asked for its limit", len(ev)))
                    else:
                        R.check(not ev, "step", "%s asks whether active" % l, it.loc(), "%s is called without asking whether the process is active" % l)
                        R.check(bool(ev), "step", "%s reached" % l, it.loc(), "an active process can be passed over")
        for it in by("DoProcess") + by("GetMaxAllowedStepSize"):
            R.check(it.labels <= {"DoProcess"} or it.labels <= {"GetMaxAllowedStepSize"}, "step", "limits are known before anything runs", it.loc(), "a process is run before every process has been asked for its limit")
        for it in by("DoProcess"):
            back = [i for i in it.f.walk() if it.f.k(i) == "Call" and (it.f.n(i).get("fn") or "").split("::")[-1] in ("rbegin", "crbegin")
                    and it.f.c(i) and (canon(it.f, it.f.c(i)[0]) or ("",))[:2] == ("m", self.T)]
            R.check(not back, "step", "the processes act in the order of the table", it.f.loc(back[0]) if back else it.f.loc(), "the processes are run from the last in the table to the first")
        # the order on every path
        tot = seq.field(F, self.S, "total_s")
        adv = None
        for kind, ev, _ in ps:
            if kind != "return":
                continue
            def first(l):
                return next((k for k, e in enumerate(ev) if e[0] == "walk" and l in e[1]), None)
            a, b, c = first("SetCurrentComponent"), first("GetMaxAllowedStepSize"), first("DoProcess")
            R.check(a is not None and b is not None and c is not None and a < b < c, "step", "component, then limits, then processes", f.loc(),
                    "a component can be tracked without: telling the processes the component, then taking their limits, then running them")
            ad = [k for k, e in enumerate(ev) if e[0] == "advance"]
            R.check(bool(ad) and c is not None and ad[-1] > c, "step", "the position advances after the processes", f.loc(), "the position along the component is not advanced after the processes acted")
            if ad:
                adv = ev[ad[-1]]
            t = [e for e in ev if e[0] == "total" and e[1] == tot]
            R.check(len(t) == 1 and seq.is_call(t[0][2], "GetLength"), "step", "the integrated length grows by the component's length", f.loc(), "the integrated length does not grow by the length of the component")
        # step length
        cells = set()
        for it in by("GetMaxAllowedStepSize"):
            g = it.fl.fn if it.fl else f
            for i in g.walk():
                n = g.n(i)
                if n["k"] == "Call" and (n.get("fn") or "") == BP + "GetMaxAllowedStepSize":
                    cell = min_update(g, i)
                    R.check(cell is not None, "step", "the limit lowers the step", g.loc(i), "a process's limit is not combined with the step by taking the smaller")
                    if cell is not None:
                        cells.add(cell)
        for it in by("DoProcess"):
            for r in it.rounds or ():
                for e in r:
                    if e[0] == "DoProcess":
                        R.check(self.is_min(e[1][0], cells), "step", "the processes are given the step", it.loc(), "the step the processes are run with is not the smallest of what is left and the limits")
        if adv:
            g = F.fns[adv[1]]
            i = adv[3]
            rhs = g.c(i)[1]
            self.R.check(self.is_min(V.of(g, rhs), cells) or any(self.is_min(V.of(g, x), cells) for x in g.walk(rhs)), "step", "the position advances by the step", g.loc(i), "the position advances by something other than the step the processes were given")
            v = ("v", adv[2])
            starts = [d for d in loops.var_defs(g, adv[2]) if d[1] is not None and d[0] != i]
            self.R.check(bool(starts) and all(str(g.n(strip(g, d[1])).get("v")) in ("0", "0.0", "0.") for d in starts), "step", "the position starts at the entrance", g.loc(), "tracking does not start at the entrance of the component")
            # what is left: some expression length - position is an initial value of the minimum
            lens = lambda x: seq.is_call(frozenset(V.of(g, x)), "GetLength")
            left = [j for j in g.walk() if g.k(j) == "Binary" and g.n(j)["op"] == "-" and canon(g, g.c(j)[1]) == v and lens(g.c(j)[0])]
            self.R.check(bool(left) and self.feeds_min(g, left, cells, by("GetMaxAllowedStepSize")), "step", "the step starts from what is left", g.loc(), "the step is not limited by what is left of the component")
            out = [(b2, c2, k2) for h, bl, la in loops.natural(g) if any(x in bl for x in blocks_of(g, i)) for b2 in bl for k2, s2 in enumerate(g.blocks()[b2][3]) if s2 is not None and not loops.dead_edge(g, loops.conditions(g, g.blocks()[b2]), k2) and str(s2) not in bl
                   for c2 in [loops.conditions(g, g.blocks()[b2])] if not loops.leads_to_throw(g.blocks(), str(s2))]
            self.R.check(bool(out), "step", "steps are repeated", g.loc(), "only one step is taken along a component")
            for b2, c2, k2 in out:
                ok = c2 is not None and at_end(g, c2, k2 == 0, v, lens)
                self.R.check(ok, "step", "stepping ends at the exit of the component", g.loc(c2 if c2 is not None else i), "stepping can end before (or not end at) the exit of the component")

    def is_min(self, vals, cells):
        vals = seq.through(self.F, self.V, vals)

        def has(v):
            if not isinstance(v, (tuple, frozenset)):
                return False
            if isinstance(v, tuple) and len(v) > 2 and v[0] == "call" and isinstance(v[2], str) and v[2] == BP + "GetMaxAllowedStepSize":
                return True
            if isinstance(v, tuple) and len(v) > 1 and v[0] == "field" and ("m", v[1]) in cells:
                return True
            if isinstance(v, tuple) and len(v) > 2 and v[0] == "var" and ("v", v[1], v[2]) in cells:
                return True
            if isinstance(v, tuple) and len(v) > 1 and v[0] == "call" and v[1] in self.F.fns and self.follow(self.F.fns[v[1]]):
                g = self.F.fns[v[1]]
                return any(has(x) for r in self.V.returns(g) for x in self.V.of(g, r))
            return any(has(x) for x in v)
        return any(has(v) for v in vals)

    def feeds_min(self, g, left, cells, its):
        """the remaining length initialises the minimum: argument of the functor, initialiser of the variable or min() with it"""
        par = g.parents
        for j in left:
            x = j
            while x in par and g.k(par[x]) in ("Cast", "Construct", "Call"):
                x = par[x]
                n = g.n(x)
                if n["k"] == "Construct" and any(c[0] == "m" for c in cells):
                    return True
                if n["k"] == "Call" and ((n.get("fn") or "").startswith("std::min<") or n.get("f") in self.F.fns):
                    return True
            if g.k(par.get(x, -1)) == "Decl" if par.get(x) is not None else False:
                for v, init, _ in g.n(par[x])["d"]:
                    if init == x:
                        if ("v", g.u, v) in cells:
                            return True
                        # a named remaining length, used further on
                        return any(g.k(y) == "Ref" and g.n(y).get("v") == v for y in g.walk())
            p = par.get(x)
            if p is not None and g.k(p) == "Binary" and g.n(p)["op"] == "=":
                c = canon(g, g.c(p)[0])
                if c is not None and c[0] == "v" and ("v", g.u, c[1]) in cells:
                    return True
        return False

    # -------------------------------------------------------------- the table
    def add(self):
        F, R, V = self.F, self.R, self.V
        f = seq.body(F, self.S, "AddProcess")

        def classify(fl, i):
            n = fl.fn.n(i)
            if n["k"] == "Call" and n.get("obj") and fl.fn.c(i):
                c = canon(fl.fn, fl.fn.c(i)[0])
                nm = (n.get("fn") or "").split("::")[-1].split("<")[0]
                if c is not None and c[0] == "m" and c[1] == self.T and nm in ("push_back", "emplace_back", "insert", "push_front", "emplace", "emplace_front", "erase", "clear", "remove", "splice",
                                                                         "sort", "reverse", "swap", "merge", "unique", "pop_back", "pop_front", "resize", "assign"):
                    a = fl.fn.c(i)[1:]
                    return (nm, frozenset(fl.value(a[-1])) if a else None, i)
            return None

        def edge(fl, cond, pol, env):
            g = fl.fn
            c = strip(g, cond)
            n = g.n(c)
            if n["k"] == "Binary" and n["op"] in ("<", ">=") and seq.is_call(fl.value(g.c(c)[0]), "GetPriority") and all(seq.is_param(x[3][0], 0) for x in fl.value(g.c(c)[0])) and str(g.n(strip(g, g.c(c)[1])).get("v")) == "0":
                return ("negative", pol if n["op"] == "<" else not pol)
            return None
        ps, fl = seq.paths(F, f, V, classify, maxlen=8, nodup=True, follow=self.follow, edge=edge)
        for kind, ev, _ in ps:
            if kind != "return":
                continue
            ins = [e for e in ev if e[0] not in ("negative",)]
            R.check(len(ins) == 1 and ins[0][0] in ("push_back", "emplace_back", "insert", "emplace") and seq.is_param(ins[0][1], 0), "table", "AddProcess adds the process once", f.loc(),
                    "AddProcess does not put exactly the given process into the table once")
            neg = [e[1] for e in ev if e[0] == "negative"]
            if ins and ins[0][0] in ("push_back", "emplace_back"):
                R.check(neg == [True], "table", "only unprioritised processes go to the end", f.loc(), "a process with a priority is put at the end of the table instead of in order of priority")
            elif ins and ins[0][0] in ("insert", "emplace"):
                R.check(True in neg or self.position(f, ins[0][2]), "table", "the insertion point follows the priority", f.loc(ins[0][2]), "the process is not inserted before the first one of lower priority")

    def position(self, f, i):
        """the insert position is the iterator of a walk from the first process that stops at the first one of lower priority"""
        F, V = self.F, self.V
        for g in [f] + [F.fns[f.n(j)["f"]] for j in f.walk() if f.k(j) == "Call" and f.n(j).get("f") in F.fns and self.follow(F.fns[f.n(j)["f"]])]:
            for it in loops.iterations(F, g, V):
                if not (it.cont and all(x[0] == "field" and x[1] == self.T for x in it.cont)) or it.problems:
                    continue
                if it.kind == "loop":
                    if g is f:
                        pos = f.c(i)[1]
                        if not any(f.k(x) == "Ref" and f.n(x).get("v") == it.var for x in f.walk(pos)):
                            continue
                    conds = list(it.also)
                    B = g.blocks()
                    for b in it.blocks:            # if(...) break;
                        c = loops.conditions(g, B[b])
                        for k, s in enumerate(B[b][3]):
                            if s is not None and str(s) not in it.blocks and c is not None and c != it.node:
                                conds.append((c, k == 1))
                    if len(conds) == 1 and self.keeps_going(g, conds[0][0], conds[0][1], it):
                        return True
                elif it.kind in ("find_if",) and it.functor is not None:
                    h, this = seq.functor(F, V, it)
                    if h is not None:
                        return True
        return False

    def keeps_going(self, g, c, pol, it):
        """while priority(element) <= priority(new)   (the condition holds with `pol` while going on)"""
        c = strip(g, c)
        while g.k(c) == "Unary" and g.n(c)["op"] == "!":
            c, pol = strip(g, g.c(c)[0]), not pol
        n = g.n(c)
        if n["k"] != "Binary" or n["op"] not in ("<", "<=", ">", ">="):
            return False
        e = {it.var: frozenset({("iter", it.cont)})}

        def side(x):
            v = self.V.of(g, x, e)
            if v and all(y[0] == "call" and (y[2] or "") == BP + "GetPriority" for y in v):
                return "elem" if all(self.elem(y[3][0]) for y in v) else "new"
            return None
        l, r = side(g.c(c)[0]), side(g.c(c)[1])
        op = n["op"]
        if l == "new" and r == "elem":
            l, r = r, l
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        if (l, r) != ("elem", "new"):
            return False
        return (op, pol) in (("<=", True), (">", False))

    def remove(self):
        F, R, V = self.F, self.R, self.V
        f = seq.body(F, self.S, "RemoveProcess")

        def classify(fl, i):
            n = fl.fn.n(i)
            if n["k"] == "Call" and n.get("obj") and fl.fn.c(i):
                c = canon(fl.fn, fl.fn.c(i)[0])
                nm = (n.get("fn") or "").split("::")[-1].split("<")[0]
                if c is not None and c[0] == "m" and c[1] == self.T and nm in ("erase", "remove", "clear", "pop_back", "pop_front", "remove_if"):
                    return (nm, i)
            return None

        def edge(fl, cond, pol, env):
            g = fl.fn
            c = strip(g, cond)
            while g.k(c) == "Unary" and g.n(c)["op"] == "!":
                c, pol = strip(g, g.c(c)[0]), not pol
            n = g.n(c)
            if n.get("op") in ("==", "!=") and any(loops.calls_end(g, x) is not None for x in g.c(c)):
                if n["k"] in ("Binary", "Call"):
                    return ("found", pol if n["op"] == "!=" else not pol)
            return None
        ps, fl = seq.paths(F, f, V, classify, maxlen=6, nodup=True, follow=self.follow, edge=edge)
        for kind, ev, rv in ps:
            if kind != "return":
                continue
            er = [e for e in ev if e[0] in ("erase", "remove", "clear", "pop_back", "pop_front", "remove_if")]
            fo = [e[1] for e in ev if e[0] == "found"]
            said = [j for j in f.walk() if f.k(j) == "Return" and f.c(j) for x in f.walk(f.c(j)[0]) if f.k(x) == "Call" and (f.n(x).get("fn") or "").split("::")[-1] in ("empty", "size")]
            R.check(not said, "table", "RemoveProcess reports whether it was there", f.loc(said[0]) if said else f.loc(), "what RemoveProcess reports is how full the table is, not whether the process was in it")
            if er:
                R.check(True in fo and all(e[0] == "erase" for e in er) and len(er) == 1, "table", "RemoveProcess erases what it found", f.loc(), "RemoveProcess erases without having found the process")
                R.check(rv is None or rv != ("bool", False), "table", "RemoveProcess reports the removal", f.loc(), "RemoveProcess removes a process and reports that it was not there")
            else:
                R.check(True not in fo[-1:], "table", "RemoveProcess removes what it found", f.loc(), "RemoveProcess finds the process and leaves it in the table")
                R.check(rv is None or rv != ("bool", True), "table", "RemoveProcess reports absence", f.loc(), "RemoveProcess reports a removal though nothing was removed")


def facts_file(F, S):
    return S["file"]


def each(M, it, env):
    from events import EventFlow
    sp = seq.Spec(M.F, M.classify_elem, 8, M.follow, (), M.edge)
    if it.kind == "loop":
        e = dict(env or {})
        e[it.var] = frozenset({("iter", it.cont)})
        fl = EventFlow(M.F, it.f, sp, M.V, e)
        fl.region = (it.header, it.blocks)
        fl.run(())
        return fl.rounds, fl.leaves, fl
    g, this = seq.functor(M.F, M.V, it)
    if g is None or g.load()["body"] < 0 or not g.params:
        return None, None, None
    e = {g.params[0]: frozenset({seq.element(it.cont)})}
    if this:
        e["this"] = this
    fl = EventFlow(M.F, g, sp, M.V, e).run(())
    return {u for u, _ in fl.returns}, set(), fl


def blocks_of(g, i):
    b = loops.node_blocks(g).get(i)
    return [b] if b else []


def at_end(g, c, pol, v, lens):
    """leaving (condition c true if pol) means the position reached the length"""
    c = strip(g, c)
    while g.k(c) == "Unary" and g.n(c)["op"] == "!":
        c, pol = strip(g, g.c(c)[0]), not pol
    n = g.n(c)
    k = g.c(c)
    if n["k"] == "Call" and (n.get("fn") or "").split("::")[-1].split("<")[0] == "fequal" and len(k) >= 2:
        s = [canon(g, x) == v for x in k[:2]]
        l = [lens(x) for x in k[:2]]
        return pol and ((s[0] and l[1]) or (s[1] and l[0]))
    if n["k"] == "Binary" and n["op"] in ("<", ">=", ">", "<="):
        op = n["op"] if pol else {"<": ">=", ">=": "<", ">": "<=", "<=": ">"}[n["op"]]
        if canon(g, k[0]) == v and lens(k[1]):
            return op in (">=", ">")
        if canon(g, k[1]) == v and lens(k[0]):
            return op in ("<=", "<")
    return False


def min_update(g, i):
    """cell that is lowered to the value of call i when that is smaller: ('m', field) / ('v', fn, var)"""
    par = g.parents

    def cellof(x):
        c = canon(g, x)
        if c is None:
            return None
        if c[0] == "m":
            return ("m", c[1])
        if c[0] == "v":
            return ("v", g.u, c[1])
        return None
    # through a named local
    srcs = {i}
    x = i
    while x in par and g.k(par[x]) == "Cast":
        x = par[x]
    p = par.get(x)
    name = None
    if p is not None and g.k(p) == "Decl":
        for v, init, _ in g.n(p)["d"]:
            if init == x:
                name = ("v", v)

    def is_lim(x):
        x = strip(g, x)
        return x == i or (name is not None and canon(g, x) == name)
    for j in g.walk():
        n = g.n(j)
        if n["k"] == "Binary" and n["op"] == "=":
            cell, r = cellof(g.c(j)[0]), strip(g, g.c(j)[1])
            if cell is None:
                continue
            m = g.n(r)
            if m["k"] == "Call" and (m.get("fn") or "").startswith(("std::min<", "std::fmin", "fmin")) and len(g.c(r)) == 2:
                a, b = g.c(r)
                if (cellof(a) == cell and is_lim(b)) or (cellof(b) == cell and is_lim(a)):
                    return cell
            if m["k"] == "Cond":
                q = strip(g, g.c(r)[0])
                if lower(g, q, True, cell, cellof, is_lim):
                    if is_lim(g.c(r)[1]) and cellof(g.c(r)[2]) == cell:
                        return cell
                if lower(g, q, False, cell, cellof, is_lim):
                    if is_lim(g.c(r)[2]) and cellof(g.c(r)[1]) == cell:
                        return cell
            if is_lim(r):
                y = j
                while y in par:
                    z = par[y]
                    if g.k(z) == "If" and len(g.c(z)) == 5:      # init, variable, condition, then, else
                        pol = any(w == j for w in g.walk(g.c(z)[3]))
                        if lower(g, strip(g, g.c(z)[2]), pol, cell, cellof, is_lim):
                            return cell
                    y = z
    return None


def lower(g, q, pol, cell, cellof, is_lim):
    """q true (pol) means limit < cell"""
    n = g.n(q)
    if n["k"] != "Binary" or n["op"] not in ("<", "<=", ">", ">="):
        return False
    a, b = g.c(q)
    op = n["op"]
    if is_lim(b) and cellof(a) == cell:
        a, b = b, a
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
    if not (is_lim(a) and cellof(b) == cell):
        return False
    return (op in ("<", "<=")) == pol


# ------------------------------------------------------------------ process classes
def processes(F, R, V):
    base = F.cls("BunchProcess")
    active = seq.field(F, base, "active")
    for u in sorted(F.all_subs(base["u"], strict=True)):
        C = F.classes[u]
        own = {m["n"]: F.fns.get(m["u"]) for m in C["methods"] if m["n"] in ("DoProcess", "SetCurrentComponent", "GetMaxAllowedStepSize", "InitialiseProcess")}
        # effective versions
        eff = {}
        for nm in ("DoProcess", "SetCurrentComponent", "GetMaxAllowedStepSize", "InitialiseProcess"):
            m, owner = seq.final(F, u, nm)
            eff[nm] = F.fns.get(m["u"]) if m else None
        init = own.get("InitialiseProcess")
        bases = F.all_bases(u)
        helper = lambda g: g.cls in bases
        if init is not None and init.load()["body"] >= 0:
            cb = {x["u"] for b in bases for x in F.classes[b]["fields"] if x["n"] == "currentBunch"}

            def cl(fl, i, cb=cb):
                n = fl.fn.n(i)
                if n["k"] == "Call" and (n.get("fn") or "").split("::")[-1] == "InitialiseProcess" and not n.get("virt"):
                    return ("base", seq.is_param(seq.unref(fl.value(fl.fn.c(i)[1])), 0))
                if n["k"] == "Binary" and n["op"] == "=":
                    c = canon(fl.fn, fl.fn.c(i)[0])
                    if c is not None and c[0] == "m" and c[1] in cb:
                        return ("bunch", True)
                return None
            ps, _ = seq.paths(F, init, V, cl, maxlen=6, nodup=True, follow=lambda g: False)
            for kind, ev, _ in ps:
                if kind == "return":
                    R.check(bool(ev) and all(e[1] for e in ev), "process", C["qn"] + " takes the bunch", init.loc(), "%s::InitialiseProcess can return without taking over the bunch" % C["qn"])
        D, Sc, L = eff["DoProcess"], eff["SetCurrentComponent"], eff["GetMaxAllowedStepSize"]
        if not (D and Sc and L) or D.load()["body"] < 0 or L.load()["body"] < 0 or Sc.load()["body"] < 0:
            continue
        if not any(own.get(x) for x in ("DoProcess", "SetCurrentComponent", "GetMaxAllowedStepSize")):
            continue
        # a process switched off while running is switched on (or off) afresh for the next component
        off = writes_in(F, D, active, bases)
        if off or writes_in(F, Sc, active, bases):
            ps, _ = seq.paths(F, Sc, V, seq.watch(fields={active: "active"}), maxlen=4, nodup=True, follow=helper)
            for kind, ev, _ in ps:
                if kind == "return":
                    R.check(any(e[0] == "set" for e in ev), "process", C["qn"] + " decides whether it is active", Sc.loc(),
                            "%s::SetCurrentComponent can leave the process active or inactive as it was for an earlier component" % C["qn"])
        # step accumulators
        acc = accumulators(F, V, D, bases)
        for fld, (node, g) in acc.items():
            nm = F.fields[fld][1]["n"]
            ps, _ = seq.paths(F, D, V, seq.watch(fields={fld: nm}), maxlen=6, follow=helper)
            for kind, ev, _ in ps:
                if kind == "return":
                    up = [e for e in ev if e[0] in ("upd", "set")]
                    one = len(up) == 1 and up[0][0] == "upd" and up[0][2] == "+=" and seq.is_param(up[0][3], 0)
                    R.check(one, "process", "%s::%s grows by the step" % (C["qn"], nm), g.loc(node), "%s::DoProcess can return without adding exactly the step to %s" % (C["qn"], nm))
            zero = {("int", "0"), ("flt", "0.0"), ("flt", "0"), ("flt", "0."), ("flt", "0.0e+00")}
            ps, _ = seq.paths(F, Sc, V, seq.watch(fields={fld: nm, active: "active"}), maxlen=8, follow=helper,
                              edge=lambda fl, cond, pol, env: ("branch", pol) if canon(fl.fn, cond) == ("m", active, ("this",)) else None)
            for kind, ev, _ in ps:
                if kind != "return":
                    continue
                on = [e for e in ev if e[0] == "set" and e[1] == "active"]
                if on and on[-1][3] <= {("int", "0")} or ("branch", False) in ev[max([k for k, e in enumerate(ev) if e in on], default=0):]:
                    continue
                st = [e for e in ev if e[0] == "set" and e[1] == nm]
                R.check(bool(st) and all(is_zero(e[3]) for e in st[-1:]), "process", "%s::%s restarts" % (C["qn"], nm), Sc.loc(),
                        "%s::SetCurrentComponent can make the process active without restarting %s at zero" % (C["qn"], nm))
        # the limit: end - progress; reaching the end must move the end on or switch the process off
        for r in V.returns(L):
            r = strip(L, r)
            if L.k(r) != "Binary" or L.n(r)["op"] != "-":
                R.ok("process", C["qn"] + " limit")
                continue
            prog = {L.n(x)["fld"] for x in L.walk(L.c(r)[1]) if L.k(x) == "Member" and L.n(x).get("fld")}
            end = {L.n(x)["fld"] for x in L.walk(L.c(r)[0]) if L.k(x) == "Member" and L.n(x).get("fld")}
            R.check(bool(prog) and prog <= set(acc), "process", C["qn"] + " measures its progress", L.loc(r), "%s limits the step by a distance that running it does not update" % C["qn"])
            moved = any(writes_in(F, D, x, bases) for x in end) or off
            R.check(moved, "process", C["qn"] + " moves on", D.loc(), "%s: once its step limit is reached nothing moves the limit on or switches the process off, so the step is zero for ever" % C["qn"])


def is_zero(vals):
    return bool(vals) and all((v[0] == "int" and v[1] == "0") or (v[0] == "flt" and float(v[1]) == 0) for v in vals)


def writes_in(F, f, fld, bases, depth=0, seen=None):
    """f, or a helper of its own class it calls, assigns member fld of this"""
    seen = seen if seen is not None else set()
    if f is None or f.u in seen or f.load()["body"] < 0:
        return False
    seen.add(f.u)
    for i in f.walk():
        n = f.n(i)
        t = None
        if (n["k"] == "Binary" and n["op"] == "=") or n["k"] == "CompoundAssign" or (n["k"] == "Unary" and ("++" in n["op"] or "--" in n["op"])):
            t = canon(f, f.c(i)[0])
        if t is not None and t[0] == "m" and t[1] == fld and t[2] == ("this",):
            return True
        if n["k"] == "Call" and n.get("obj") and n.get("f") in F.fns and F.fns[n["f"]].cls in bases and f.c(i) and canon(f, f.c(i)[0]) in (("this",), ("*", ("this",))):
            if writes_in(F, F.fns[n["f"]], fld, bases, depth + 1, seen):
                return True
    return False


def accumulators(F, V, D, bases, env=None, depth=0, seen=None):
    """members that grow by the step (parameter 0 of DoProcess)"""
    out = {}
    seen = seen if seen is not None else set()
    if D.u in seen or depth > 3:
        return out
    seen.add(D.u)
    for i in D.walk():
        n = D.n(i)
        if n["k"] == "CompoundAssign" and n["op"] in ("+=", "-="):
            t = canon(D, D.c(i)[0])
            if t is not None and t[0] == "m" and t[2] == ("this",) and any(seq.is_param({v}, 0) for v in V.of(D, D.c(i)[1], env)):
                out[t[1]] = (i, D)
        if n["k"] == "Binary" and n["op"] == "=":
            t = canon(D, D.c(i)[0])
            r = strip(D, D.c(i)[1])
            if t is not None and t[0] == "m" and t[2] == ("this",) and D.k(r) == "Binary" and D.n(r)["op"] == "+" and any(canon(D, x) == t for x in D.c(r)) \
                    and any(any(seq.is_param({v}, 0) for v in V.of(D, x, env)) for x in D.c(r)):
                out[t[1]] = (i, D)
        if n["k"] == "Call" and n.get("obj") and n.get("f") in F.fns and F.fns[n["f"]].cls in bases and D.c(i) and canon(D, D.c(i)[0]) in (("this",), ("*", ("this",))):
            g = F.fns[n["f"]]
            if g.load()["body"] >= 0 and not n.get("virt"):
                e = {p: V.of(D, x, env) for p, x in zip(g.params, D.c(i)[1:])}
                out.update(accumulators(F, V, g, bases, e, depth + 1, seen))
    return out


# ------------------------------------------------------------------ one component, step by step
def integrator(F, R, V):
    C = F.cls("ComponentIntegrator")
    f = seq.body(F, C, "Track")
    cur = seq.field(F, C, "cur_S")
    calls = {m["u"]: m["n"] for m in C["methods"] if m["n"] in ("TrackStep", "TrackEntrance", "TrackExit")}

    def edge(fl, cond, pol, env):
        g = fl.fn
        c = strip(g, cond)
        while g.k(c) == "Unary" and g.n(c)["op"] == "!":
            c, pol = strip(g, g.c(c)[0]), not pol
        v = fl.value(c)
        for nm in ("AtEntrance", "AtExit"):
            if v and all(x[0] == "call" and x[2] == "ComponentIntegrator::" + nm for x in v):
                return (nm, pol)
        return None
    V2 = Values(F, opaque=("AtEntrance", "AtExit"))
    ps, _ = seq.paths(F, f, V2, seq.watch(calls=calls, fields={cur: "cur_S"}), maxlen=10, follow=lambda g: g.cls == C["u"] and g.name not in ("AtEntrance", "AtExit"), edge=edge)
    for kind, ev, _ in ps:
        if kind != "return":
            continue
        lab = [e[0] for e in ev]
        st = [k for k, e in enumerate(ev) if e[0] == "TrackStep"]
        up = [k for k, e in enumerate(ev) if e[0] in ("upd", "set") and e[1] == "cur_S"]
        en = [k for k, e in enumerate(ev) if e[0] == "TrackEntrance"]
        ex = [k for k, e in enumerate(ev) if e[0] == "TrackExit"]
        ae = [k for k, e in enumerate(ev) if e[0] == "AtEntrance"]
        ax = [k for k, e in enumerate(ev) if e[0] == "AtExit"]
        R.check(len(st) == 1 and seq.is_param(ev[st[0]][2][0], 0), "integrator", "one step of the given length", f.loc(), "an integrator step does not track exactly the given length once")
        R.check(len(up) == 1 and ev[up[0]][0] == "upd" and ev[up[0]][2] == "+=" and seq.is_param(ev[up[0]][3], 0), "integrator", "the position advances by the step", f.loc(), "the integrator's position does not advance by exactly the step")
        if not (st and up):
            continue
        R.check(bool(ae) and ae[0] < st[0] and ae[0] < up[0] and len(en) == (1 if ev[ae[0]][1] else 0) and all(x < st[0] for x in en), "integrator", "the entrance map is applied exactly at the entrance", f.loc(),
                "the entrance map is not applied exactly when, and before, the first step is made")
        R.check(bool(ax) and ax[-1] > up[0] and len(ex) == (1 if ev[ax[-1]][1] else 0) and all(x > st[0] for x in ex), "integrator", "the exit map is applied exactly at the exit", f.loc(),
                "the exit map is not applied exactly when, and after, the last step is made")
    S = seq.body(F, C, "SetCurrentComponent")
    tot = seq.field(F, C, "tot_S")
    comp = seq.field(F, C, "component")
    ps, _ = seq.paths(F, S, V, seq.watch(fields={cur: "cur_S", tot: "tot_S", comp: "component"}), maxlen=8, follow=lambda g: g.cls == C["u"])
    for kind, ev, _ in ps:
        last = {e[1]: e[3] for e in ev if e[0] == "set"}
        R.check(is_zero(last.get("cur_S", frozenset())), "integrator", "a new component starts at its entrance", S.loc(), "a new component does not start at its entrance")
        R.check(seq.is_call(last.get("tot_S", frozenset()), "GetLength"), "integrator", "a new component's length is taken", S.loc(), "the integrator does not take the new component's length")
        R.check(seq.is_param(seq.unref(last.get("component", frozenset())), 0), "integrator", "the component is taken", S.loc(), "the integrator does not take the new component")
    for name, want in (("AtEntrance", {cur}), ("AtExit", {cur, tot}), ("GetRemainingLength", {cur, tot}), ("GetIntegratedLength", {cur})):
        g = seq.body(F, C, name)
        got = {g.n(i)["fld"] for i in g.walk() if g.k(i) == "Member" and g.n(i).get("fld")}
        R.check(want <= got, "integrator", name + " looks at the position", g.loc(), "%s does not depend on %s" % (name, " and ".join(sorted(F.fields[x][1]["n"] for x in want))))
    # bunch integrators and the process pass the step on unchanged
    for u, (c, m) in sorted(F.method_decl.items()):
        if m["n"] == "Track" and F.derives(c, "ComponentIntegrator") and F.classes[c]["qn"] != "ComponentIntegrator" and u in F.fns:
            g = F.fns[u]
            if g.load()["body"] < 0:
                continue
            ps, _ = seq.paths(F, g, V, seq.watch(names={"Track": "Track", "IncrReferenceTime": "time"}), maxlen=6, follow=lambda h: False)
            for kind, ev, rv in ps:
                if kind != "return":
                    continue
                t = [e for e in ev if e[0] == "Track"]
                R.check(len(t) == 1 and seq.is_param(t[0][2][0], 0), "integrator", F.classes[c]["qn"] + "::Track", g.loc(), "%s::Track does not track the given step exactly once" % F.classes[c]["qn"])
                ti = [e for e in ev if e[0] == "time"]
                R.check(len(ti) == 1 and seq.is_param(ti[0][2][0], 0), "integrator", F.classes[c]["qn"] + " time", g.loc(), "%s::Track does not advance the reference time by the step" % F.classes[c]["qn"])
    CT = F.cls("ComponentTracker")
    g = seq.body(F, CT, "TrackStep")
    ps, _ = seq.paths(F, g, V, seq.watch(names={"Track": "Track"}), maxlen=6, follow=lambda h: False)
    for kind, ev, rv in ps:
        if kind == "return":
            R.check(len(ev) == 1 and seq.is_param(ev[0][2][0], 0), "integrator", "ComponentTracker::TrackStep", g.loc(), "ComponentTracker::TrackStep does not hand exactly the step to the integrator once")
    for r in V.returns(g):
        v = V.of(g, r)
        R.check(bool(v) and all(x[0] == "call" and (x[2] or "").split("::")[-1] in ("Track", "GetRemainingLength") for x in v), "integrator", "TrackStep returns what is left", g.loc(r), "ComponentTracker::TrackStep does not return the remaining distance")
    for u, (c, m) in sorted(F.method_decl.items()):
        if m["n"] == "DoProcess" and F.classes[c]["qn"].startswith("TTrnsProc<") and u in F.fns:
            g = F.fns[u]
            active = seq.field(F, F.cls("BunchProcess"), "active")
            ps, _ = seq.paths(F, g, V, seq.watch(names={"TrackStep": "TrackStep"}), maxlen=6, follow=lambda h: h.cls == c,
                              edge=lambda fl, cond, pol, env: ("active", pol) if canon(fl.fn, cond) == ("m", active, ("this",)) else None)
            for kind, ev, rv in ps:
                if kind != "return":
                    continue
                off = ("active", False) in ev
                t = [e for e in ev if e[0] == "TrackStep"]
                R.check(len(t) == (0 if off else 1) and all(seq.is_param(e[2][0], 0) for e in t), "integrator", "transport process steps", g.loc(), "the transport process does not hand exactly the step to its tracker once while active")
