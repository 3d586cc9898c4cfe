"""Event sequences along control-flow paths, with small helpers followed into their bodies."""
from flow import Flow, Env, canon, atom, strip
from values import Values


class EventFlow(Flow):
    """ust = tuple of events. `spec` supplies:
         event(flow, node) -> None | list of (event | None, truth | None) : alternatives for this node
         inline(flow, node) -> Fn | None : callee whose body is followed in place
         maxlen: longer sequences are cut with '...' (loops)"""

    def __init__(self, F, fn, spec, vals, venv=None, stack=()):
        Flow.__init__(self, F, fn)
        self.spec, self.vals, self.venv, self.stack = spec, vals, venv or {}, stack + (fn.u,)

    def value(self, i):
        return self.vals.of(self.fn, i, self.venv)

    def on_edge(self, cond, pol, u, env):
        h = getattr(self.spec, "edge", None)
        if h is not None:
            ev = h(self, cond, pol, env)
            if ev is not None:
                return self.push(u, ev)
        return u

    def on_case(self, cond, lab, u, env):
        h = getattr(self.spec, "case", None)
        return u if h is None else self.push(u, h(self, cond, self.fn.c(lab)[0]))

    def push(self, u, ev):
        if ev is None:
            return u
        if getattr(self.spec, "nodup", False) and ev in u:
            return u
        mx = getattr(self.spec, "maxlen", 8)
        if len(u) >= mx:
            return u if u and u[-1] == "..." else u + ("...",)
        return u + (ev,)

    def fork(self, i, u, e):
        """a condition kept in a variable: the path divides where it is computed"""
        h = getattr(self.spec, "edge", None)
        f = self.fn
        n = f.n(i)
        if h is None:
            return None
        if n["k"] == "Decl" and len(n["d"]) == 1 and n["d"][0][0] >= 0 and n["d"][0][1] >= 0:
            v, x = n["d"][0][0], n["d"][0][1]
        elif n["k"] == "Binary" and n["op"] == "=" and f.k(strip(f, f.c(i)[0])) == "Ref" and "v" in f.n(strip(f, f.c(i)[0])):
            v, x = f.n(strip(f, f.c(i)[0]))["v"], f.c(i)[1]
        else:
            return None
        if f.vars[v][1].replace("const ", "").strip() != "bool" or self.truth(x, e) is not None:
            return None
        x = strip(f, self.operand(x, (), e))
        ev = h(self, x, True, e)
        if ev is None:
            return None
        e1 = self.effect(i, e)
        return [(self.push(u, ev), e1.set(("v", v), True)), (self.push(u, h(self, x, False, e)), e1.set(("v", v), False))]

    def node(self, i, u, e):
        n = self.fn.n(i)
        if n["k"] not in ("Call", "Construct", "Throw", "Delete", "New", "Binary", "CompoundAssign", "Unary", "Decl", "Ref", "Member"):
            return None
        evs = self.spec.event(self, i)
        if evs is not None:
            out = []
            e1 = self.effect(i, e)
            a, p = atom(self.fn, i)
            for ev, truth in evs:
                e2 = e1
                if truth is not None and a is not None:
                    e2 = e2.set(a, truth if p else not truth)
                out.append((self.push(u, ev), e2))
            return out
        fk = self.fork(i, u, e)
        if fk is not None:
            return fk
        if n["k"] == "Call":
            g = self.spec.inline(self, i)
            if g is not None and g.u not in self.stack and g.cfg is not None and len(self.stack) < 6:
                off = 1 if n.get("obj") else 0
                ve = {}
                for pv, x in zip(g.params, self.fn.c(i)[off:]):
                    ve[pv] = self.value(x)
                if off:
                    ve["this"] = self.value(self.fn.c(i)[0])
                sub = EventFlow(self.F, g, self.spec, self.vals, ve, self.stack)
                env0 = Env()
                for pv, x in zip(g.params, self.fn.c(i)[off:]):
                    t = self.truth(x, e)
                    if t is not None:
                        env0 = env0.set(("v", pv), t)
                sub.run(u, env0)
                e1 = self.effect(i, e)
                a, p = atom(self.fn, i)
                out = []
                for (u2, rv) in sub.returns:
                    e2 = e1
                    if rv is not None and rv[0] == "bool" and a is not None:
                        e2 = e2.set(a, rv[1] if p else not rv[1])
                    out.append((u2, e2))
                for u2 in sub.throws:
                    self.throws.add(u2)
                    self.where[("throw", u2)] = i
                return list(dict.fromkeys(out))
        return None


def mentions_var(f, i, var):
    return any(f.k(x) == "Ref" and f.n(x).get("v") == var for x in f.walk(i))
