"""Builds and loads the program facts for /repo's current working tree.

Facts are extracted by /verif/tool/extract.cpp (clang libTooling) from every .cpp of the library
(the same set the build's AUX_SOURCE_DIRECTORY compiles), in parallel, and cached per translation
unit under a key made of the content of every file the unit read, so a changed tree is always
re-extracted and an unchanged unit never is."""
import glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MERLIN_REPO", "/repo")
SRC = os.path.join(REPO, "Merlin++")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"
EXTRACTOR_SRC = os.path.join(VERIF, "tool", "extract.cpp")
MIN_TUS = 110          # confirmed by hand: 132 library units today


class Broken(Exception):
    """The analysis itself cannot give an answer."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def build_extractor():
    os.makedirs(BUILD, exist_ok=True)
    key = _sha(_read(EXTRACTOR_SRC))[:16]
    exe = os.path.join(BUILD, "extract-" + key)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O2", "-fno-rtti", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", EXTRACTOR_SRC,
           "-o", tmp, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot build the extractor:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def units():
    return sorted(glob.glob(os.path.join(SRC, "*.cpp")))


CONFIGS = {
    "base": [],
    "openmp": ["-fopenmp", "-DENABLE_OPENMP", "-I" + os.path.join(VERIF, "tool", "stubs")],
    "mpi": ["-DENABLE_MPI", "-I" + os.path.join(VERIF, "tool", "stubs")],
}


def flags(config):
    return ["-std=gnu++14", "-DNDEBUG", "-I" + SRC, "-Wno-everything", "-resource-dir", LLVM + "/lib/clang/18"] + CONFIGS[config]


_hashes = {}


def _fhash(p):
    if p not in _hashes:
        try:
            _hashes[p] = hashlib.sha256(_read(p)).hexdigest()
        except OSError:
            _hashes[p] = "absent"
    return _hashes[p]


def _extract_one(exe, tu, config):
    cdir = os.path.join(BUILD, "cache-" + config)
    base = os.path.join(cdir, os.path.basename(tu))
    fl = flags(config)
    meta = base + ".meta"
    exekey = os.path.basename(exe) + "|" + " ".join(fl) + "|" + tu
    if os.path.exists(meta) and os.path.exists(base + ".facts"):
        try:
            m = json.load(open(meta))
            if m["exe"] == exekey and all(_fhash(d) == h for d, h in m["deps"].items()):
                return base + ".facts", False, None
        except (ValueError, KeyError):
            pass
    out = base + ".tmp%d" % os.getpid()
    r = subprocess.run([exe, SRC, out, tu, "--"] + fl, capture_output=True, text=True, cwd=SRC)
    with open(out, "rb") as f:
        data = f.read()
    if r.returncode or not data.rstrip().endswith(b"Z\tend"):
        return None, True, "%s: %s" % (tu, r.stderr[-1500:])
    deps = {}
    for ln in data.split(b"\n"):
        if ln.startswith(b"D\t"):
            d = ln.split(b"\t")[1].decode()
            d = os.path.normpath(os.path.join(SRC, d))
            deps[d] = _fhash(d)
    deps[tu] = _fhash(tu)
    os.replace(out, base + ".facts")
    with open(meta + ".tmp", "w") as f:
        json.dump({"exe": exekey, "deps": deps}, f)
    os.replace(meta + ".tmp", meta)
    return base + ".facts", True, None


def extract(config="base", only=None):
    exe = build_extractor()
    os.makedirs(os.path.join(BUILD, "cache-" + config), exist_ok=True)
    tus = units()
    if only:
        tus = [t for t in tus if os.path.basename(t) in only]
    elif len(tus) < MIN_TUS:
        raise Broken("only %d translation units found under %s (expected at least %d)" % (len(tus), SRC, MIN_TUS))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: _extract_one(exe, t, config), tus))
    errs = [e for _, _, e in res if e]
    if not only:
        # extra template instances; a tree that no longer has one of these templates loses only their bodies
        path, fresh, err = _extract_one(exe, os.path.join(VERIF, "tool", "instances.cpp"), config)
        if err:
            print("note: template instances not analysed: " + err.strip().split("\n")[0])
        else:
            res.append((path, fresh, None))
    if errs:
        raise Broken("units that clang could not analyse:\n" + "\n".join(errs[:5]))
    return [p for p, _, _ in res], sum(1 for _, fresh, _ in res if fresh)


# --------------------------------------------------------------------------------------------
class Fn(object):
    __slots__ = ("u", "raw", "d", "F", "_n", "_par", "_cfg", "_pos")

    def __init__(self, F, u, raw):
        self.F, self.u, self.raw, self.d = F, u, raw, None
        self._par = self._pos = None

    def load(self):
        if self.d is None:
            self.d = json.loads(self.raw)
            for n in self.d["nodes"]:
                if "en" in n and "v" in n:          # an enumerator's value is not a variable
                    n["ev"] = n.pop("v")
            self.raw = None
        return self.d

    def __getattr__(self, k):
        if k in ("_n", "_par", "_cfg"):
            raise AttributeError(k)
        d = self.load()
        if k in d:
            return d[k]
        if k in ("static", "virtual", "const", "inst", "implicit", "defaulted", "lambda_", "anon", "delegating", "copyctor", "movector", "defctor", "op", "cls", "clsn", "over", "acc"):
            return d.get(k.rstrip("_"))
        raise AttributeError(k)

    # ---- nodes
    def n(self, i):
        return self.load()["nodes"][i]

    def k(self, i):
        return self.n(i)["k"] if i is not None and i >= 0 else None

    def c(self, i):
        return self.n(i).get("c", ())

    def walk(self, i=None):
        """every node below i (i included), in pre-order"""
        if i is None:
            roots = [e[2] for e in self.inits if e[2] >= 0] + ([self.body] if self.body >= 0 else [])
        else:
            roots = [i]
        seen = set()
        st = list(reversed(roots))
        nodes = self.load()["nodes"]
        while st:
            x = st.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(reversed(nodes[x].get("c", ())))

    @property
    def parents(self):
        if self._par is None:
            p = {}
            for i in self.walk():
                for ch in self.c(i):
                    p.setdefault(ch, i)
            self._par = p
        return self._par

    def line_of(self, i):
        return self.n(i)["l"] if i >= 0 else self.line

    def loc(self, i=None):
        f = os.path.basename(self.file)
        return "%s:%d" % (f, self.line_of(i) if i is not None else self.line)

    def varname(self, v):
        return self.vars[v][0]

    def show(self, i, depth=0):
        """readable rendering of an expression, for reports"""
        if i is None or i < 0:
            return ""
        n = self.n(i)
        k = n["k"]
        c = n.get("c", ())
        if depth > 6:
            return "..."
        s = lambda j: self.show(j, depth + 1)
        if k == "Ref":
            return n.get("n") or n.get("en", "?")
        if k == "This":
            return "this"
        if k == "Member":
            b = s(c[0])
            return n["n"] if b == "this" else b + ("->" if n.get("arrow") else ".") + n["n"]
        if k == "Call":
            if "op" in n:
                if n["op"] == "()":
                    return s(c[0]) + "(" + ", ".join(map(s, c[1:])) + ")"
                if n["op"] == "[]" and len(c) == 2:
                    return s(c[0]) + "[" + s(c[1]) + "]"
                if len(c) == 1:
                    return n["op"] + s(c[0])
                if len(c) == 2:
                    return s(c[0]) + " " + n["op"] + " " + s(c[1])
            nm = n.get("fn", "(*)").split("::")[-1]
            if n.get("obj"):
                b = s(c[0])
                return (nm if b == "this" else b + "." + nm) + "(" + ", ".join(map(s, c[1:])) + ")"
            return nm + "(" + ", ".join(map(s, c)) + ")"
        if k in ("Binary", "CompoundAssign"):
            return s(c[0]) + " " + n["op"] + " " + s(c[1])
        if k == "Unary":
            return (s(c[0]) + n["op"][4:]) if n["op"].startswith("post") else n["op"] + s(c[0])
        if k in ("Int", "Float", "Bool", "Char"):
            return str(n["v"])
        if k == "Str":
            return json.dumps(n["v"])
        if k == "Null":
            return "nullptr"
        if k == "Index":
            return s(c[0]) + "[" + s(c[1]) + "]"
        if k == "Cond":
            return s(c[0]) + " ? " + s(c[1]) + " : " + s(c[2])
        if k == "Construct":
            return n.get("t", "") + "(" + ", ".join(map(s, c)) + ")"
        if k == "New":
            return "new " + n["nt"]
        if k == "Delete":
            return "delete " + s(c[0])
        if k == "Cast":
            return s(c[0])
        if k == "Decl":
            return ", ".join(self.vars[v][0] + (" = " + s(j) if j >= 0 else "") for v, j, _ in n["d"] if v >= 0)
        if k == "Return":
            return "return " + (s(c[0]) if c else "")
        if k == "Throw":
            return "throw"
        return k

    # ---- CFG
    def blocks(self):
        """{id: Block} ; Block = (elems, term, cond, succs, label, noreturn)"""
        g = self.cfg
        if g is None:
            return None
        if not g.get("_thr"):
            g["_thr"] = 1
            for b in g["b"].values():       # a block that throws out of the function does not continue
                if not b[5] and [str(x) for x in b[3]] == [str(g["exit"])] and any(isinstance(x, int) and self.k(x) == "Throw" for x in b[0]):
                    b[5] = 2
        return g["b"]

    def preds(self):
        p = {}
        for b, B in self.blocks().items():
            for s in B[3]:
                if s is not None:
                    p.setdefault(str(s), []).append(b)
        return p


class Facts(object):
    def __init__(self, paths):
        self.fns, self.classes, self.enums, self.globals = {}, {}, {}, {}
        self.deps = set()
        ntu = 0
        for p in paths:
            with open(p, "r") as f:
                for ln in f:
                    kind, key, body = ln.rstrip("\n").split("\t", 2)
                    if kind == "F":
                        if key not in self.fns:
                            self.fns[key] = Fn(self, key, body)
                    elif kind == "C":
                        if key not in self.classes:
                            self.classes[key] = json.loads(body)
                    elif kind == "E":
                        self.enums.setdefault(key, None)
                        if self.enums[key] is None:
                            self.enums[key] = json.loads(body)
                    elif kind == "G":
                        if key not in self.globals:
                            self.globals[key] = json.loads(body)
                    elif kind == "D":
                        self.deps.add(key)
            ntu += 1
        self.ntu = ntu
        self._index()

    def _index(self):
        self.by_ty = {c["ty"]: c for c in self.classes.values()}
        self.subs = {}
        for u, c in self.classes.items():
            for b in c["bases"]:
                self.subs.setdefault(b["u"], []).append(u)
        self.method_decl = {}
        for u, c in self.classes.items():
            for m in c["methods"]:
                self.method_decl[m["u"]] = (u, m)
        # overriders: usr -> usrs that directly override it
        self.overby = {}
        for u, c in self.classes.items():
            for m in c["methods"]:
                for o in m["over"]:
                    self.overby.setdefault(o, []).append(m["u"])
        self._field = None

    @property
    def fields(self):
        """field usr -> (class usr, field)"""
        if self._field is None:
            self._field = {}
            for u, c in self.classes.items():
                for f in c["fields"]:
                    self._field[f["u"]] = (u, f)
        return self._field

    def all_subs(self, u, strict=False):
        out, st, seen = [], [u], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x != u or not strict:
                out.append(x)
            st.extend(self.subs.get(x, ()))
        return out

    def all_bases(self, u, strict=False):
        out, st, seen = [], [u], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.classes:
                if x != u or not strict:
                    out.append(x)
                st.extend(b["u"] for b in self.classes[x]["bases"])
        return out

    def cls(self, qn):
        """class by qualified name; Broken if it vanished"""
        r = [c for c in self.classes.values() if c["qn"] == qn]
        if not r:
            raise Broken("anchor vanished: class %s" % qn)
        return r[0]

    def derives(self, u, base_qn):
        return any(self.classes[b]["qn"] == base_qn for b in self.all_bases(u))

    def fns_named(self, pat):
        """loaded functions whose qualified name matches the regular expression"""
        rx = re.compile(pat)
        out = []
        for f in self.fns.values():
            if rx.search(f.load()["qn"]):
                out.append(f)
        return out

    def overriders(self, u):
        out, st, seen = [], [u], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            st.extend(self.overby.get(x, ()))
        return out

    def targets(self, node, static_cls=None):
        """bodies a Call/Construct node may run (class-hierarchy analysis)"""
        f = node.get("f")
        if not f:
            return []
        us = self.overriders(f) if node.get("virt") else [f]
        return [self.fns[x] for x in us if x in self.fns]

    def all(self):
        for f in self.fns.values():
            f.load()
        return self.fns.values()


_loaded = {}


def load(config="base"):
    if config not in _loaded:
        t = time.time()
        paths, fresh = extract(config)
        F = Facts(paths)
        F.fresh = fresh
        F.t_load = time.time() - t
        _loaded[config] = F
    return _loaded[config]
