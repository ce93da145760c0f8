"""Analysis core over the MIR facts dumped by /verif/driver.

Everything here is static: control-flow graphs, dominators, reaching definitions,
value terms (def-use substitution), guard facts, an inliner for helpers that are not
part of the known vocabulary, and a trace-partitioned forward analysis for small
functions.  Nothing of the analysed program is executed.
"""
import copy, glob, json, os, re, sys
sys.setrecursionlimit(20000)

TRANSPARENT = re.compile(
    r"(::deref|::deref_mut|::as_ref|::as_mut|::borrow|::borrow_mut|::clone|::to_owned|::as_str|::as_slice|"
    r"::as_mut_slice|::into|::from|::to_string|::as_deref|::as_deref_mut|::into_boxed_slice|::as_path|::cloned|::copied|::into_iter|::iter|::iter_mut|::as_bytes)$")


class AnchorMissing(Exception):
    """An analysed construct disappeared: the rule cannot be decided -> fail closed."""


class Ty:
    __slots__ = ("facts", "i", "j")

    def __init__(self, crate, i):
        self.facts, self.i, self.j = crate, i, crate.types[i]

    @property
    def s(self): return self.j["s"]
    @property
    def k(self): return self.j["k"]
    @property
    def d(self): return self.j.get("d")
    @property
    def args(self): return [Ty(self.facts, x) for x in self.j.get("a", [])]

    def peel(self):
        """strip references / Box / Spanned-less pointer layers"""
        t = self
        while t.k in ("ref", "refmut", "ptr") or (t.k == "adt" and t.d in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc")):
            t = t.args[0]
        return t

    def heads(self, seen=None):
        """all ADT heads mentioned anywhere inside the type"""
        seen = set() if seen is None else seen
        out = set()
        if self.i in seen:
            return out
        seen.add(self.i)
        if self.d:
            out.add(self.d)
        for a in self.args:
            out |= a.heads(seen)
        return out

    def __repr__(self): return self.s


class Crate:
    def __init__(self, j, key):
        self.key, self.name, self.pkg = key, j["crate"], j["pkg"]
        self.types = j["types"]
        self.adts = j["adts"]
        self.impls = j["impls"]
        self.j = j


RENAME = {"dmm-tools-cli": ("dmm_tools", "dmm_tools_cli"), "dreamchecker.bin": ("dreamchecker", "dreamchecker_bin")}


class Facts:
    def __init__(self, d):
        self.dir = d
        self.crates, self.bodies, self.by_hash, self.by_path, self.adts = [], [], {}, {}, {}
        files = sorted(glob.glob(os.path.join(d, "*.json")))
        for f in files:
            parts = os.path.basename(f).split(".")
            pkg, cname, kind = parts[0], parts[1], parts[2]
            j = json.load(open(f))
            c = Crate(j, pkg)
            ren = RENAME.get(pkg) or (RENAME.get(pkg + ".bin") if kind == "bin" else None)
            c.id = ren[1] if ren else cname
            self.crates.append(c)
            for a in j["adts"]:
                p = self._ren(a["path"], ren)
                a["crate"] = c
                self.adts[p] = a
            for bj in j["bodies"]:
                bj["path"] = self._ren(bj["path"], ren)
                b = Body(self, c, bj)
                self.bodies.append(b)
                self.by_hash[b.h] = b
                self.by_path.setdefault(b.path, []).append(b)
        for b in self.bodies:
            if b.k == "closure":
                p = self.by_hash.get(b.j.get("lparent"))
                if p is not None:
                    p.closures.append(b)
        # trait method -> impl bodies (for class-hierarchy resolution of virtual / generic calls)
        self.impls_of = {}
        for b in self.bodies:
            ti = b.j.get("timpl")
            if ti:
                self.impls_of.setdefault(ti, []).append(b)
        self._callers = None

    @staticmethod
    def _ren(p, ren):
        if not ren:
            return p
        return re.sub(r"\b%s::" % re.escape(ren[0]), ren[1] + "::", p) if not p.startswith(ren[0] + "::") else ren[1] + p[len(ren[0]):]

    # ---- lookups
    def fn(self, path):
        """the body whose path is `path` (suffix match on '::' boundaries allowed)"""
        if path in self.by_path:
            l = [b for b in self.by_path[path]]
            if len(l) == 1:
                return l[0]
        c = self.find(path)
        if len(c) == 1:
            return c[0]
        raise AnchorMissing("function %s: %d candidates" % (path, len(c)))

    def find(self, suffix, crate=None):
        r = []
        for b in self.bodies:
            if b.k == "closure":
                continue
            if crate and b.crate.id != crate:
                continue
            if b.path == suffix or b.path.endswith("::" + suffix) or norm_path(b.path) == suffix or norm_path(b.path).endswith("::" + suffix):
                r.append(b)
        return r

    def adt(self, path):
        if path in self.adts:
            return self.adts[path]
        c = [p for p in self.adts if p.endswith("::" + path)]
        if len(c) == 1:
            return self.adts[c[0]]
        raise AnchorMissing("type %s: %d candidates" % (path, len(c)))

    def variants(self, path):
        return [v["n"] for v in self.adt(path)["variants"]]

    def const(self, path):
        b = self.fn(path)
        v = b.j.get("val")
        if v is None:
            raise AnchorMissing("constant %s has no evaluated value" % path)
        return simp(v)

    def callee_bodies(self, call):
        """workspace bodies a call may enter (resolved instance, or every impl for virtual/unresolved trait calls)"""
        h = call.get("rh") or call.get("h")
        if h in self.by_hash and not call.get("virtual"):
            b = self.by_hash[h]
            if not (call.get("unresolved") and h in self.impls_of):
                return [b]
        out = list(self.impls_of.get(call.get("h"), []))
        if h in self.by_hash:
            out.append(self.by_hash[h])
        return out

    def callers(self):
        if self._callers is None:
            m = {}
            for b in self.bodies:
                for c in b.calls():
                    for t in self.callee_bodies(c.t):
                        m.setdefault(t.h, []).append(c)
            self._callers = m
        return self._callers

    def reach(self, roots, closures=True, stop=lambda b: False):
        """bodies reachable through the call graph (closures counted as called where created)"""
        seen, work = {}, list(roots)
        for r in roots:
            seen[r.h] = r
        while work:
            b = work.pop()
            if stop(b):
                continue
            nxt = []
            for c in b.calls():
                nxt += self.callee_bodies(c.t)
                for a in c.t["a"]:
                    if a[0] == "k" and "h" in a[1] and a[1]["h"] in self.by_hash:
                        nxt.append(self.by_hash[a[1]["h"]])
            if closures:
                nxt += b.closures
            for n in nxt:
                if n.h not in seen:
                    seen[n.h] = n
                    work.append(n)
        return list(seen.values())


def norm_path(p):
    """drop generic arguments: Foo::<T>::bar -> Foo::bar ; <X as T>::m stays"""
    prev = None
    while prev != p:
        prev = p
        p = re.sub(r"::<[^<>]*>", "", p)
    return re.sub(r"<('[a-z_]+(, )?)+>", "", p)


def simp(v):
    """const JSON -> plain python value"""
    if v is None:
        return None
    if "int" in v: return v["int"]
    if "bool" in v: return v["bool"]
    if "char" in v: return ("char", chr(v["char"]))
    if "str" in v: return v["str"]
    if "bytes" in v: return bytes(v["bytes"])
    if "f32" in v: return ("f32", v["f32"])
    if "f64" in v: return ("f64", v["f64"])
    if "arr" in v: return [simp(x) for x in v["arr"]]
    if "tup" in v: return tuple(simp(x) for x in v["tup"])
    if "adt" in v: return Enum(v["adt"], v["v"], [simp(x) for x in v["f"]], v.get("n", []))
    if "fn" in v: return ("fn", v["fn"])
    if "static" in v: return ("static", v["static"])
    return ("?",)


class Enum:
    __slots__ = ("adt", "v", "f", "n")

    def __init__(self, adt, v, f, n=()):
        self.adt, self.v, self.f, self.n = adt, v, f, n

    def __getitem__(self, name): return self.f[list(self.n).index(name)]
    def __repr__(self):
        return self.v + ("(%s)" % ", ".join(map(repr, self.f)) if self.f else "")
    def _key(self): return (self.adt, self.v, repr(self.f))
    def __eq__(self, o): return isinstance(o, Enum) and self._key() == o._key()
    def __hash__(self): return hash(self._key())


class Call:
    __slots__ = ("body", "bb", "t")

    def __init__(self, body, bb, t):
        self.body, self.bb, self.t = body, bb, t

    @property
    def fn(self):
        h = self.t.get("rh") or self.t.get("h")
        b = self.body.facts.by_hash.get(h)
        if b is not None:
            return norm_path(b.path)
        return norm_path(self.t.get("rfn") or self.t.get("fn") or "?")
    @property
    def tfn(self):
        """trait-level (unresolved) callee path"""
        return norm_path(self.t.get("fn") or "?")
    @property
    def name(self): return (self.t.get("fn") or "?").split("::")[-1]
    @property
    def line(self): return self.t["ln"]
    @property
    def target(self): return self.t["t"]
    def is_(self, *suffixes):
        for s in suffixes:
            for f in (self.fn, self.tfn):
                if f == s or f.endswith("::" + s):
                    return True
        return False
    def arg(self, i): return self.body.term(self.t["a"][i], self.bb) if i < len(self.t["a"]) else ("none",)
    def args(self): return [self.arg(i) for i in range(len(self.t["a"]))]
    def where(self): return "%s:%d" % (self.body.srcfile(self.bb), self.line)
    def __repr__(self): return "%s@bb%d(%s)" % (self.fn, self.bb, self.where())


def places_in(x):
    """all operand/place lists in an rvalue"""
    k = x[0]
    if k in ("use", ): return [x[1]]
    if k == "cast": return [x[2]]
    if k == "bin": return [x[2], x[3]]
    if k == "un": return [x[2]]
    if k == "agg": return list(x[2])
    if k == "repeat": return [x[1]]
    return []


class Body:
    def __init__(self, facts, crate, j):
        self.facts, self.crate, self.j = facts, crate, j
        self.path, self.h, self.k, self.name = j["path"], j["h"], j["k"], j.get("name", "")
        self.file, self.line = j.get("file", ""), j.get("line", 0)
        self.argc = j.get("argc", 0)
        self.blocks = j.get("blocks", [])
        self.locals = j.get("locals", [])
        self.closures = []
        self._c = {}

    def __repr__(self): return "<%s>" % self.path
    def srcfile(self, bb=None):
        if bb is not None and bb < len(self.blocks):
            return self.blocks[bb].get("file", self.file)
        return self.file
    @property
    def npath(self): return norm_path(self.path)
    def ty(self, l): return Ty(self.crate, self.locals[l]) if not isinstance(self.locals[l], Ty) else self.locals[l]
    def selfty(self): return Ty(self.crate, self.j["self"]) if "self" in self.j else None
    def where(self): return "%s:%d" % (self.file, self.line)

    @property
    def names(self):
        if "names" not in self._c:
            d = {}
            for n, p in self.j.get("names", []):
                if len(p) == 1:
                    d.setdefault(p[0], n)
            self._c["names"] = d
        return self._c["names"]

    # ---- CFG
    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k == "goto": return [t["t"]]
        if k == "switch": return list(dict.fromkeys([x[1] for x in t["v"]] + [t["o"]]))
        if k in ("drop", "assert"): return [t["t"]]
        if k == "call": return [] if t["t"] is None else [t["t"]]
        if k == "multi": return list(t["ts"])
        return []

    def reachable(self):
        if "reach" not in self._c:
            seen, work = set([0]) if self.blocks else set(), [0] if self.blocks else []
            while work:
                b = work.pop()
                if self.blocks[b]["t"]["k"] == "unreachable":
                    continue
                for s in self.succ(b):
                    if s not in seen:
                        seen.add(s)
                        work.append(s)
            # drop blocks that only lead to `unreachable`
            self._c["reach"] = seen
        return self._c["reach"]

    def preds(self):
        if "preds" not in self._c:
            p = {b: [] for b in range(len(self.blocks))}
            for b in self.reachable():
                for s in self.succ(b):
                    p[s].append(b)
            self._c["preds"] = p
        return self._c["preds"]

    def rpo(self):
        if "rpo" not in self._c:
            seen, out = set(), []
            st = [(0, iter(self.succ(0)))] if self.blocks else []
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ(s))))
                        break
                else:
                    out.append(b)
                    st.pop()
            self._c["rpo"] = out[::-1]
        return self._c["rpo"]

    def dom(self):
        """block -> set of dominators"""
        if "dom" not in self._c:
            order = self.rpo()
            idx = {b: i for i, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            preds = self.preds()
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while idx[x] > idx[y]: x = idom[x]
                                    while idx[y] > idx[x]: y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            dom = {}
            for b in order:
                s, x = {b}, b
                while x != 0:
                    x = idom[x]
                    s.add(x)
                dom[b] = s
            self._c["dom"] = dom
        return self._c["dom"]

    def dominates(self, a, b):
        return a in self.dom().get(b, ())

    def returns(self):
        return [b for b in self.reachable() if self.blocks[b]["t"]["k"] == "return"]

    def reach_from(self, starts, avoid=()):
        """blocks reachable from `starts` (inclusive) without entering `avoid`"""
        seen = set(s for s in starts if s not in avoid)
        work = list(seen)
        while work:
            b = work.pop()
            for s in self.succ(b):
                if s not in seen and s not in avoid:
                    seen.add(s)
                    work.append(s)
        return seen

    def can_reach(self, targets, avoid=()):
        """blocks from which some block of `targets` can be reached without passing through `avoid`"""
        preds = self.preds()
        seen = set(t for t in targets)
        work = list(seen)
        while work:
            b = work.pop()
            for p in preds[b]:
                if p not in seen and p not in avoid:
                    seen.add(p)
                    work.append(p)
        return seen

    def exit_avoiding(self, start_blocks, through):
        """a return block reachable from start_blocks without entering `through`, or None"""
        r = self.reach_from(start_blocks, avoid=through)
        for b in sorted(r):
            if self.blocks[b]["t"]["k"] == "return":
                return b
        return None

    # ---- instructions
    def calls(self):
        if "calls" not in self._c:
            out = []
            for b in sorted(self.reachable()):
                t = self.blocks[b]["t"]
                if t["k"] in ("call", "tailcall"):
                    out.append(Call(self, b, t))
            self._c["calls"] = out
        return self._c["calls"]

    def calls_to(self, *suffixes):
        return [c for c in self.calls() if c.is_(*suffixes)]

    def assigns(self):
        for b in sorted(self.reachable()):
            for i, s in enumerate(self.blocks[b]["s"]):
                if s[0] == "=":
                    yield b, i, s[1], s[2], s[3]

    # ---- definitions
    def defs(self):
        """local -> list of (bb, idx, rvalue or ('callret', t)); partial -> locals with field writes; mref -> &mut taken"""
        if "defs" not in self._c:
            full, partial, mref = {}, {}, {}
            for b in self.reachable():
                for i, s in enumerate(self.blocks[b]["s"]):
                    if s[0] == "=":
                        p, r = s[1], s[2]
                        if len(p) == 1:
                            full.setdefault(p[0], []).append((b, i, r))
                        elif p[1] != "*":
                            partial.setdefault(p[0], []).append((b, i, p, r))
                        if r[0] in ("ref", "rawptr"):
                            q = r[2] if r[0] == "ref" else r[1]
                            if (r[0] == "rawptr" or r[1] == "mut") and "*" not in q[1:]:
                                mref.setdefault(q[0], []).append((b, i))
                    elif s[0] == "setd" and len(s[1]) >= 1:
                        partial.setdefault(s[1][0], []).append((b, i, s[1], None))
                t = self.blocks[b]["t"]
                if t["k"] == "call":
                    p = t["dst"]
                    if len(p) == 1:
                        full.setdefault(p[0], []).append((b, 10 ** 9, ("callret", t)))
                    elif p[1] != "*":
                        partial.setdefault(p[0], []).append((b, 10 ** 9, p, None))
            self._c["defs"] = (full, partial, mref)
        return self._c["defs"]

    def rdefs(self):
        """reaching definitions for locals with several full definitions: block -> {local: set(defidx)} at entry"""
        if "rdefs" not in self._c:
            full, _, _ = self.defs()
            multi = {l: d for l, d in full.items() if len(d) > 1 or (l <= self.argc and l != 0)}
            gen = {}
            for l, ds in multi.items():
                for n, (b, i, r) in enumerate(ds):
                    cur = gen.setdefault(b, {})
                    if l not in cur or ds[cur[l]][1] < i:
                        cur[l] = n
            inn = {b: {} for b in self.reachable()}
            for l in multi:
                if 1 <= l <= self.argc:
                    inn[0][l] = {-1}
            work = list(self.rpo())
            inw = set(work)
            while work:
                b = work.pop(0)
                inw.discard(b)
                out = {l: set(s) for l, s in inn[b].items()}
                for l, n in gen.get(b, {}).items():
                    out[l] = {n}
                for s in self.succ(b):
                    t = inn[s]
                    ch = False
                    for l, x in out.items():
                        y = t.setdefault(l, set())
                        if not x <= y:
                            y |= x
                            ch = True
                    if ch and s not in inw:
                        work.append(s)
                        inw.add(s)
            self._c["rdefs"] = (multi, inn)
        return self._c["rdefs"]

    def reaching(self, l, bb, idx=10 ** 9):
        """definitions of local l reaching (bb, before idx)"""
        full, _, _ = self.defs()
        multi, inn = self.rdefs()
        if l not in multi:
            return full.get(l, [])
        best = None
        for d in multi[l]:
            if d[0] == bb and d[1] < idx and (best is None or d[1] > best[1]):
                best = d
        if best:
            return [best]
        return [multi[l][n] if n >= 0 else ("arg",) for n in sorted(inn[bb].get(l, ()))]

    # ---- terms
    def term(self, op, bb, idx=10 ** 9, depth=0):
        """value term of an operand / place at block bb before statement idx"""
        if op[0] == "k":
            return self.kterm(op[1])
        if op[0] in ("c", "m"):
            return self.pterm(op[1], bb, idx, depth)
        if op[0] == "rt":
            return ("rt",)
        return self.pterm(op, bb, idx, depth)

    def promoted(self, c):
        """the body that computes a promoted constant"""
        o = self.facts.by_hash.get(c.get("of")) or self
        ps = o.j.get("promoted") or []
        if c["promoted"] >= len(ps): return None
        return Body(self.facts, o.crate, dict({k: v for k, v in o.j.items() if k not in ("blocks", "locals", "names", "promoted", "argc")}, **ps[c["promoted"]]))

    def kterm(self, c):
        if "fn" in c:
            return ("fn", norm_path(c["fn"]), c.get("h"))
        if c.get("val") is not None:
            v = simp(c["val"])
            return lift(v)
        if "promoted" in c:
            o = self.facts.by_hash.get(c.get("of")) or self
            ps = o.j.get("promoted") or []
            if c["promoted"] < len(ps):
                pj = ps[c["promoted"]]
                if len(pj["blocks"]) == 1:
                    try:
                        pb = Body(self.facts, o.crate, dict({k: v for k, v in o.j.items() if k not in ("blocks", "locals", "names", "promoted", "argc")}, **pj))
                        t = pb.term(["c", [0]], 0)
                        if t[0] in ("k", "agg"):
                            return t
                    except (KeyError, IndexError, TypeError):
                        pass
            return ("promoted", c["promoted"])
        if "item" in c:
            return ("item", c["item"])
        return ("k?", Ty(self.crate, c["t"]).s)

    def pterm(self, p, bb, idx, depth=0):
        t = self.lterm(p[0], bb, idx, depth)
        for e in p[1:]:
            t = self.proj(t, e, bb, idx, depth)
        return t

    def proj(self, t, e, bb, idx, depth):
        if e == "*":
            return t
        if e[0] == "f":
            return fld(t, e[1], e[2])
        if e[0] == "v":
            return down(t, e[1])
        if e[0] == "i":
            return ("idx", t, self.lterm(e[1], bb, idx, depth + 1))
        if e[0] == "ci":
            return ("idx", t, ("k", e[1] if not e[2] else -e[1]))
        if e[0] == "sub":
            return ("sub", t, e[1], e[2])
        return ("?", t)

    def lterm(self, l, bb, idx, depth=0):
        full, partial, mref = self.defs()
        if depth > 60:
            return ("var", l)
        ds = self.reaching(l, bb, idx)
        if 1 <= l <= self.argc and l not in full:
            if l == 1 and self.k == "closure":
                return ("env",)
            return ("arg", l)
        if len(ds) == 1 and ds[0][0] == "arg":
            return ("arg", l)
        if 1 < len(ds) <= 4 and l not in partial and l not in mref and depth < 20 and all(d[0] != "arg" and d[2][0] in ("use", "ref") for d in ds):
            ts = set(self.dterm(d, depth + 20) for d in ds)
            if len(ts) == 1 and not any(mentions(t, lambda x: x[0] in ("var", "deep")) for t in ts):
                return ts.pop()
        if len(ds) != 1 or l in partial:
            return ("var", l)
        if l in mref:
            b, i, r = ds[0]
            # values that are mutated through a reference keep their identity
            if l in self.names or not self._trivial_mref(l):
                return ("var", l)
        return self.dterm(ds[0], depth + 1)

    def _trivial_mref(self, l):
        """a temporary holding a (smart) pointer that is only re-borrowed"""
        t = self.ty(l)
        return t.k in ("ref", "refmut") or (t.d or "").startswith("core::cell::Ref") or (t.d or "").startswith("std::sync")

    def dterm(self, d, depth=0):
        b, i, r = d
        return self.rterm(r, b, i, depth)

    def rterm(self, r, b, i, depth=0):
        if depth > 60:
            return ("deep",)
        k = r[0]
        if k == "callret":
            t = r[1]
            return self.cterm(t, b, depth)
        T = lambda o: self.term(o, b, i, depth + 1)
        if k == "use": return T(r[1])
        if k == "ref": return self.pterm(r[2], b, i, depth + 1)
        if k == "rawptr": return self.pterm(r[1], b, i, depth + 1)
        if k == "cast":
            x = T(r[2])
            if "Pointer" in r[1] or "PtrToPtr" in r[1] or "Subtype" in r[1] or "Transmute" in r[1]: return x
            return ("cast", Ty(self.crate, r[3]).s, x)
        if k == "bin":
            op = r[1].replace("WithOverflow", "")
            return ("bin", op, T(r[2]), T(r[3]))
        if k == "un": return ("un", r[1], T(r[2]))
        if k == "discr": return ("discr", self.pterm(r[1], b, i, depth + 1))
        if k == "agg":
            kd = r[1]
            f = tuple(T(o) for o in r[2])
            if kd[0] == "adt": return ("agg", kd[1], kd[2], f, tuple(kd[3]))
            if kd[0] == "closure": return ("agg", "closure", kd[1], f, ())
            return ("agg", kd[0], "", f, ())
        if k == "repeat": return ("repeat", T(r[1]), r[2])
        return ("?r", k)

    def cterm(self, t, b, depth):
        h = t.get("rh") or t.get("h")
        bd = self.facts.by_hash.get(h)
        fn = norm_path(bd.path) if bd is not None else norm_path(t.get("rfn") or t.get("fn") or "?")
        args = tuple(self.term(o, b, 10 ** 9, depth + 1) for o in t["a"])
        tf = norm_path(t.get("fn") or "?")
        if TRANSPARENT.search(tf) and len(args) == 1 and bd is None:
            return args[0]
        return ("call", fn, args, b)

    # ---- guards
    def switch_val_names(self, bb):
        """map raw switch values -> readable (enum variant names when the switch is on a discriminant)"""
        t = self.blocks[bb]["t"]
        return t

    def guard_edges(self, bb):
        """conditions that hold on every path to bb: list of (switch_bb, allowed_values, is_otherwise_included)"""
        key = ("ge", bb)
        if key in self._c:
            return self._c[key]
        out = []
        for u in self.dom().get(bb, ()):
            if u == bb:
                continue
            t = self.blocks[u]["t"]
            if t["k"] == "switch":
                tg = [(v, x) for v, x in t["v"]] + [(None, t["o"])]
                ok = []
                back = self.can_reach([bb], avoid=(u,))
                for v, x in tg:
                    if x in back and not self._dead_end(x):
                        ok.append(v)
                live = [v for v, x in tg if not self._dead_end(x)]
                if len(ok) < len(live):
                    out.append((u, ok, live))
            elif t["k"] == "assert":
                out.append((u, ["assert"], ["assert", "panic"]))
        self._c[key] = out
        return out

    def _dead_end(self, x):
        return self.blocks[x]["t"]["k"] == "unreachable" and not self.blocks[x]["s"]

    def guards(self, bb):
        """list of (term, allowed) where allowed is a set of python values / variant names; 'otherwise' resolved when finite"""
        key = ("g", bb)
        if key in self._c:
            return self._c[key]
        out = []
        for u, ok, live in self.guard_edges(bb):
            g = self.guard_at(u, ok)
            if g:
                out.append(g)
        self._c[key] = out
        return out

    def guard_at(self, u, ok):
        t = self.blocks[u]["t"]
        if t["k"] != "switch":
            return None
        term = self.term(t["d"], u)
        vals = [v for v, _ in t["v"]]
        ty = Ty(self.crate, t["ty"])
        if term[0] == "discr":
            names = self.discr_names(u)
            allv = set(names.values()) if names else None
            s = set()
            for v in ok:
                if v is None:
                    if allv is not None:
                        s |= allv - set(names.get(x, x) for x in vals)
                    else:
                        return (term[1], "not", frozenset(vals))
                else:
                    s.add(names.get(v, v) if names else v)
            return (term[1], "in", frozenset(s))
        if ty.k == "bool":
            s = set()
            for v in ok:
                s |= {bool(v)} if v is not None else ({True, False} - {bool(x) for x in vals})
            return (term, "in", frozenset(s))
        if None in ok:
            return (term, "not", frozenset(x for x in vals if x not in ok))
        if ty.k == "char":
            return (term, "in", frozenset(chr(x) for x in ok))
        return (term, "in", frozenset(ok))

    def discr_names(self, u):
        """variant names for a switch on a discriminant at block u"""
        t = self.blocks[u]["t"]
        d = t["d"]
        if d[0] == "k":
            return None
        l = d[1][0]
        for dd in self.reaching(l, u):
            if dd[0] == "arg":
                continue
            r = dd[2]
            if r[0] == "discr" and len(r) > 2:
                return self.facts.discr_map(Ty(self.crate, r[2]))
        return None

    # ---- misc
    def stmt_events(self):
        for b, i, p, r, ln in self.assigns():
            yield b, i, p, r, ln


STD_ENUMS = {
    "core::option::Option": {0: "None", 1: "Some"},
    "core::result::Result": {0: "Ok", 1: "Err"},
    "core::ops::control_flow::ControlFlow": {0: "Continue", 1: "Break"},
    "core::ops::range::Bound": {0: "Included", 1: "Excluded", 2: "Unbounded"},
    "core::cmp::Ordering": {-1: "Less", 0: "Equal", 1: "Greater"},
    "alloc::borrow::Cow": {0: "Borrowed", 1: "Owned"},
}


def _discr_map(self, ty):
    t = ty.peel()
    if t.d in STD_ENUMS:
        return STD_ENUMS[t.d]
    a = self.adts.get(t.d)
    if a is None and t.d:
        for p, x in self.adts.items():
            if x["path"] == t.d:
                a = x
    if a is None:
        return None
    return {v["d"]: v["n"] for v in a["variants"]}


Facts.discr_map = _discr_map


def lift(v):
    """python const -> term"""
    if isinstance(v, Enum):
        return ("agg", v.adt, v.v, tuple(lift(x) for x in v.f), tuple(v.n))
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ("char",):
        return ("k", v[1])
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ("f32", "f64"):
        return ("k", v)
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ("fn", "static"):
        return (v[0], norm_path(v[1]))
    if isinstance(v, tuple):
        return ("agg", "tuple", "", tuple(lift(x) for x in v), ())
    if isinstance(v, list):
        return ("agg", "array", "", tuple(lift(x) for x in v), ())
    return ("k", v)


def fld(t, name, i):
    if t[0] == "agg" and i is not None and i < len(t[3]):
        return t[3][i]
    if t[0] == "as" and t[1][0] == "agg" and i is not None and t[1][2] == t[2] and i < len(t[1][3]):
        return t[1][3][i]
    # checked arithmetic: (op with overflow).0
    if name == "0" and (t[0] == "bin" or t[0] == "k" and isinstance(t[1], int) and not isinstance(t[1], bool)):
        return t
    # branch(x) as Continue .0  == x as Ok/Some .0
    return ("fld", t, name)


def down(t, v):
    return ("as", t, v)


def show(t, body=None, d=0):
    """readable term"""
    if d > 12:
        return "…"
    S = lambda x: show(x, body, d + 1)
    k = t[0]
    if k == "k": return repr(t[1])
    if k == "arg": return body.names.get(t[1], "arg%d" % t[1]) if body else "arg%d" % t[1]
    if k == "var": return (body.names.get(t[1]) or "_%d" % t[1]) if body else "_%d" % t[1]
    if k == "env": return "env"
    if k == "fld": return "%s.%s" % (S(t[1]), t[2])
    if k == "as": return "(%s as %s)" % (S(t[1]), t[2])
    if k == "idx": return "%s[%s]" % (S(t[1]), S(t[2]))
    if k == "call": return "%s(%s)" % ("::".join(t[1].split("::")[-2:]), ", ".join(S(x) for x in t[2]))
    if k == "bin": return "(%s %s %s)" % (S(t[2]), t[1], S(t[3]))
    if k == "un": return "%s(%s)" % (t[1], S(t[2]))
    if k == "discr": return "discr(%s)" % S(t[1])
    if k == "cast": return "(%s as %s)" % (S(t[2]), t[1])
    if k == "agg": return "%s%s(%s)" % (t[1].split("::")[-1], ("::" + t[2]) if t[2] and t[1] != "closure" else "", ", ".join(S(x) for x in t[3]))
    if k == "fn": return "fn " + t[1]
    return str(t)


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from subterms(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        yield from subterms(y)


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def calls_in(t):
    return [x for x in subterms(t) if x[0] == "call"]
