"""Iterations over containers: natural loops of the CFG (for, while, range-for, do) and standard algorithms,
with the container walked, whether every element is visited once, and what the body is."""
from flow import strip, canon

ALGO = ("for_each", "transform", "accumulate", "inner_product", "any_of", "all_of", "none_of", "count_if", "find_if", "copy", "sort", "find",
        "min_element", "max_element", "remove_if", "count", "fill", "stable_sort", "partition", "for_each_n", "copy_if", "generate")


class Iter(object):
    """one iteration over a container"""

    def __init__(self, f, node, kind):
        self.f, self.node, self.kind = f, node, kind
        self.cont = frozenset()      # values of the container
        self.var = None              # iterator or index variable
        self.problems = []           # reasons why not every element is visited exactly once
        self.early = []              # nodes of exits other than running off the end
        self.blocks = set()
        self.functor = None          # node of the functor argument
        self.index = False
        self.also = []

    def loc(self):
        return self.f.loc(self.node)


def natural(f):
    """[(header, blocks, latches)] of the natural loops"""
    if f.cfg is None:
        return []
    B, P = f.blocks(), f.preds()
    entry = str(f.cfg["entry"])
    order, seen = [], set()
    st = [(entry, iter([str(s) for s in B[entry][3] if s is not None]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter([str(x) for x in B[s][3] if x is not None])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    idx = {b: k for k, b in enumerate(order)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == entry:
                continue
            ps = [p for p in P.get(b, ()) if p in idom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                x, y = p, d
                while x != y:
                    while idx[x] > idx[y]:
                        x = idom[x]
                    while idx[y] > idx[x]:
                        y = idom[y]
                d = x
            if idom.get(b) != d:
                idom[b] = d
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == idom.get(b):
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in B[b][3]:
            if s is None:
                continue
            s = str(s)
            if s in idom and b in idom and dom(s, b):
                body = loops.setdefault(s, (set([s]), set()))
                body[1].add(b)
                w = [b]
                while w:
                    x = w.pop()
                    if x in body[0]:
                        continue
                    body[0].add(x)
                    w += [p for p in P.get(x, ()) if p in idx]
    return [(h, bl, la) for h, (bl, la) in loops.items()]


def strip_copy(f, i):
    while i is not None and i >= 0:
        n = f.n(i)
        if n["k"] == "Cast" and f.c(i):
            i = f.c(i)[0]
        elif n["k"] == "Construct" and len([x for x in f.c(i) if x >= 0]) == 1 and ("iterator" in n.get("t", "") or n.get("copy") or n.get("move")):
            i = f.c(i)[0]
        else:
            return i
    return i


def calls_end(f, i, names=("end", "cend", "rend", "crend")):
    """container node of an X.end()/end(X) expression, else None"""
    i = strip_copy(f, i)
    if i is None or i < 0:
        return None
    n = f.n(i)
    if n["k"] == "Ref" and "v" in n:
        j = only_init(f, n["v"])
        return calls_end(f, j, names) if j is not None else None
    if n["k"] == "Call" and f.c(i) and (n.get("fn") or "").split("::")[-1].split("<")[0] in names:
        return f.c(i)[0]
    return None


def var_defs(f, v):
    """[(node of the definition, value node | None)]"""
    out = []
    for i in f.walk():
        n = f.n(i)
        k = n["k"]
        if k == "Decl":
            for w, init, _ in n["d"]:
                if w == v:
                    out.append((i, init if init >= 0 else None))
        elif (k == "Binary" and n["op"] == "=") or (k == "Call" and n.get("op") == "=" and len(f.c(i)) == 2):
            l = strip(f, f.c(i)[0])
            if f.k(l) == "Ref" and f.n(l).get("v") == v:
                out.append((i, f.c(i)[1]))
        elif (k == "Unary" and ("++" in n["op"] or "--" in n["op"])) or k == "CompoundAssign" or \
                (k == "Call" and n.get("op") in ("++", "--", "+=", "-=")):
            l = strip(f, f.c(i)[0])
            if f.k(l) == "Ref" and f.n(l).get("v") == v:
                out.append((i, None))
        elif k == "Call" and (n.get("fn") or "").startswith("std::advance") and f.c(i):
            l = strip(f, f.c(i)[0])
            if f.k(l) == "Ref" and f.n(l).get("v") == v:
                out.append((i, None))
    return out


def only_init(f, v):
    d = var_defs(f, v)
    return d[0][1] if len(d) == 1 else None


def node_blocks(f):
    """node -> block in which it is evaluated (elements and their operands)"""
    m = {}
    for b, B in f.blocks().items():
        for e in B[0]:
            if isinstance(e, int):
                for x in f.walk(e):
                    m.setdefault(x, b)
    for b, B in f.blocks().items():      # an element proper wins over being an operand of a later one
        for e in B[0]:
            if isinstance(e, int):
                m[e] = b
    return m


def conditions(f, blk):
    """node of a block's branch condition"""
    c = blk[2]
    return c if isinstance(c, int) and c >= 0 else None


def is_inc(f, i):
    n = f.n(i)
    return (n["k"] == "Unary" and "++" in n["op"]) or (n["k"] == "Call" and n.get("op") == "++") or \
        (n["k"] in ("CompoundAssign",) and n["op"] == "+=" and f.n(strip(f, f.c(i)[1])).get("v") == "1") or \
        (n["k"] == "Call" and n.get("op") == "+=" and len(f.c(i)) == 2 and str(f.n(strip(f, f.c(i)[1])).get("v")) == "1")


def is_erase(f, i, v):
    """v = c.erase(v ...) or c.erase(v++)"""
    i = strip_copy(f, i)
    n = f.n(i)
    return n["k"] == "Call" and (n.get("fn") or "").split("::")[-1].split("<")[0] == "erase"


def iterations(F, f, V, env=None):
    out = []
    if f.body < 0 or f.cfg is None:
        return out
    B = f.blocks()
    nb = node_blocks(f)
    for h, blocks, latches in natural(f):
        it = loop(F, f, V, B, nb, h, blocks, latches, env)
        if it is not None:
            out.append(it)
    for i in f.walk():
        n = f.n(i)
        if n["k"] != "Call" or not n.get("fn"):
            continue
        nm = n["fn"].split("<")[0].split("::")
        if nm[0] == "std" and nm[-1] in ALGO and len(f.c(i)) >= 2:
            c = f.c(i)
            it = Iter(f, i, nm[-1])
            a, b = calls_end(f, c[0], ("begin", "cbegin", "rbegin")), calls_end(f, c[1])
            if a is None and calls_end(f, c[0], ("end", "rend")) is None:
                it.problems.append("does not start at the first element")
            if b is None:
                it.problems.append("does not stop at the end")
            src = a if a is not None else b
            if src is None:
                continue
            it.cont = frozenset(V.of(f, src, env))
            it.contnode = src
            if a is not None and b is not None and V.of(f, a, env) != V.of(f, b, env):
                it.problems.append("starts in one container and ends in another")
            if len(c) > 2:
                it.functor = c[-1]
            out.append(it)
    return out


def loop(F, f, V, B, nb, h, blocks, latches, env):
    exits = []                      # (block, cond, index of the exit edge, target)
    for b in blocks:
        for k, s in enumerate(B[b][3]):
            if s is not None and str(s) not in blocks and not dead_edge(f, conditions(f, B[b]), k):
                exits.append((b, conditions(f, B[b]), k, str(s)))
    # the iterator: a variable compared in an exit condition with end() or size()
    best = None
    for b, cond, k, tgt in exits:
        if cond is None:
            continue
        cjs = conjuncts(f, cond, k == 1)
        for cj, pol in cjs:
            r = endtest(f, cj, pol)
            if r is not None:
                best = (b, cond, k, tgt) + r
                also = [x for x in cjs if x[0] != cj]
                break
        if best:
            break
    if best is None:
        return None
    b, cond, k, tgt, var, endnode, index = best
    it = Iter(f, cond, "loop")
    it.var, it.index, it.blocks, it.header = var, index, blocks, h
    it.also = also               # further conditions under which the loop goes on: (node, truth)
    it.early += [x[0] for x in also]
    it.contnode = endnode
    it.cont = frozenset(V.of(f, endnode, env))
    # start
    starts, steps = [], []
    for node, val in var_defs(f, var):
        if nb.get(node) in blocks:
            steps.append((node, val))
        else:
            starts.append((node, val))
    # the definition that reaches the loop: the textually last one before it
    starts = [s for s in starts if s[0] < cond] or starts
    if starts:
        s = starts[-1]
        if index:
            if s[1] is None or not (f.k(strip(f, s[1])) == "Int" and str(f.n(strip(f, s[1]))["v"]) == "0"):
                it.problems.append("does not start at the first element")
        else:
            c0 = calls_end(f, s[1], ("begin", "cbegin", "rbegin", "crbegin")) if s[1] is not None else None
            if c0 is None:
                it.problems.append("does not start at the first element")
            elif V.of(f, c0, env) != V.of(f, endnode, env):
                it.problems.append("starts in one container and ends in another")
    # steps: on every way round exactly one
    lo, hi = rounds(f, B, h, blocks, latches, var, steps)
    it.steps = steps
    if lo is None:
        pass
    elif lo == 0:
        it.problems.append("can go round without moving on")
    if hi is not None and hi > 1:
        it.problems.append("can skip an element")
    for node, val in steps:
        if val is None and not is_inc(f, node):
            it.problems.append("moves by something other than one element")
    for (b2, c2, k2, t2) in exits:
        if b2 == b and k2 == k:
            continue
        if leads_to_throw(B, t2):
            continue
        it.early.append(c2 if c2 is not None else (B[b2][0][-1] if B[b2][0] and isinstance(B[b2][0][-1], int) else cond))
    return it


def dead_edge(f, cond, k):
    """the k-th successor of a constant condition is never taken"""
    c = canon(f, cond) if cond is not None else None
    return c is not None and c[0] == "int" and (k == 1) == bool(c[1])


def conjuncts(f, cond, pol):
    """(node, truth) that hold when the loop goes on; pol: the exit is the false edge"""
    cond = strip(f, cond)
    n = f.n(cond)
    if n["k"] == "Binary" and n["op"] == "&&" and pol:
        return conjuncts(f, f.c(cond)[0], pol) + conjuncts(f, f.c(cond)[1], pol)
    if n["k"] == "Unary" and n["op"] == "!":
        return conjuncts(f, f.c(cond)[0], not pol)
    return [(cond, pol)]


def endtest(f, i, pol):
    """(variable, container node, index?) when the loop goes on while `i` is `pol`: v != end / v < size"""
    n = f.n(i)
    op = n.get("op")
    c = f.c(i)
    if not (n["k"] == "Binary" or n["k"] == "Call") or len(c) != 2:
        return None
    if (op == "!=" and pol) or (op == "==" and not pol):
        for a, b in ((0, 1), (1, 0)):
            v = base_var(f, c[a])
            e = calls_end(f, c[b])
            if v is not None and e is not None:
                return v, e, False
            e = calls_end(f, c[b], ("size",)) if v is not None else None
            if v is not None and e is not None:
                return v, e, True
    if (op == "<" and pol) or (op == ">=" and not pol):
        v = base_var(f, c[0])
        e = calls_end(f, c[1])
        if v is not None and e is not None:
            return v, e, False
        e = calls_end(f, c[1], ("size",))
        if v is not None and e is not None:
            return v, e, True
    if (op == ">" and pol) or (op == "<=" and not pol):
        v = base_var(f, c[1])
        e = calls_end(f, c[0], ("size",))
        if v is not None and e is not None:
            return v, e, True
    return None


def base_var(f, i):
    """the variable of v, v++, ++v"""
    i = strip_copy(f, i)
    n = f.n(i)
    if (n["k"] == "Unary" and "++" in n["op"]) or (n["k"] == "Call" and n.get("op") == "++"):
        return base_var(f, f.c(i)[0])
    if n["k"] == "Ref" and "v" in n:
        return n["v"]
    return None


def rounds(f, B, h, blocks, latches, var, steps):
    """(min, max) number of moves of var on a way round the loop"""
    st = {s[0] for s in steps}
    cnt = {}
    for b in blocks:
        seen = set()
        for e in B[b][0]:
            if isinstance(e, int) and e in st:
                seen.add(e)
        cnt[b] = len(seen)
    # longest/shortest path header -> latch inside the loop, ignoring inner back edges (acyclic by visit order)
    memo = {}

    def go(b, path):
        key = b
        if key in memo:
            return memo[key]
        lo = hi = None
        if b in latches:
            lo = hi = 0
        for s in B[b][3]:
            if s is None:
                continue
            s = str(s)
            if s not in blocks or s == h or s in path:
                continue
            r = go(s, path | {s})
            if r[0] is None:
                continue
            lo = r[0] if lo is None else min(lo, r[0])
            hi = r[1] if hi is None else max(hi, r[1])
        if lo is not None:
            lo, hi = lo + cnt[b], hi + cnt[b]
        memo[key] = (lo, hi)
        return memo[key]
    return go(h, {h})


def leads_to_throw(B, b, depth=0):
    """every way on from block b ends in a throw or a function that does not return"""
    if depth > 40:
        return False
    blk = B[b]
    if blk[5]:
        return True
    ss = [str(s) for s in blk[3] if s is not None]
    if not ss:
        return False
    return all(leads_to_throw(B, s, depth + 1) for s in ss)
