"""Lookups in the object tree: inherited names, parents, path operators, overrides."""
import itertools, re
from lib import *

RULE = """Each lookup is a decision table over what the types on the way up hold, read from every path of its MIR for every depth up to three and every
type the name may first be found on; parents, path navigation, the override chain and the walks over subtypes are compared with the
definition term by term."""
O = "dreammaker::objtree::"
T = O + "TypeRef::"


def lv(t):
    """text of a term with the n-th type on the way up written T<n>"""
    s = (t if isinstance(t, str) else rend(ups(t))).replace("index_mut(", "index(")
    s = re.sub(r"#1\b", "T0", s)
    while True:
        p = s
        s = re.sub(r"(?:parent_type|parent_path)\(T(\d)\)", lambda m: "T%d" % (int(m[1]) + 1), s)
        s = re.sub(r"parent_of\(#\d, T(\d)\)", lambda m: "T%d" % (int(m[1]) + 1), s)
        s = re.sub(r"take\((?:Some\((T\d)\)|(T\d))\)", lambda m: m[1] or m[2], s)
        s = re.sub(r"\b(?:get|deref|index)\((T\d)\)", r"\1", s)
        s = s.replace("get_key_value(", "get(").replace("get_full(", "get(")
        if s == p: return s


def ups(t):
    """the k-th item of iter_parent_types written as k steps up"""
    if not isinstance(t, tuple) or not t: return t
    if t[0] == "call" and named(t, "next") and len(t[2]) == 1:
        it = base(t[2][0])
        if named(it, "iter_parent_types"):
            x = it[2][0]
            for i in range(t[3] % 10): x = ("call", T + "parent_type", (x,), 0)
            return x
    return tuple(ups(x) for x in t)


def climb(F, R, name, part, found, nlev=3, states=("no", "yes"), start=0, step=None, miss="None"):
    """the function looks at T<start>.. in turn; found(n) is the result when the name is on level n"""
    o = R.fn(name)
    b = prep(o, closures=True, loops=True)
    for depth in range(nlev + 1):
        for st in itertools.product(states, repeat=depth + 1):
            def env(t):
                if t[0] not in ("fld", "call", "arg", "bin"): return None
                s = lv(t)
                m = re.fullmatch(r"T(\d)", s)
                if m: return "Some" if int(m[1]) <= depth else "None"
                m = re.fullmatch(r"get\(T(\d)\.(vars|procs), #2\)", s)
                if m: return "None" if st[int(m[1])] == "no" else "Some"
                m = re.fullmatch(r"contains_key\(T(\d)\.(vars|procs), #2\)", s)
                if m: return st[int(m[1])] != "no"
                m = re.fullmatch(r"get\(T(\d)\.(vars|procs), #2\)\.declaration", s)
                if m: return "Some" if st[int(m[1])] == "yes" else "None"
                m = re.fullmatch(r"eq\(T(\d), #2\)|eq\(#2, T(\d)\)|\(T(\d) Eq #2\)|\(#2 Eq T(\d)\)", s)
                if m: return st[int(next(x for x in m.groups() if x))] == "yes"
                m = re.fullmatch(r"child\(T(\d), #3\)", s)
                if m: return "Some" if st[int(m[1])] == "yes" else "None"
                if s == "#2": return "Dot"
                return None
            key = "%s:%s" % (part, "".join(s[0] for s in st))
            hit = next((i for i, s in enumerate(st) if s == "yes"), None)
            want = found(hit) if hit is not None else miss
            ts = runs(b, env, visits=6)
            R.ob(key, bool(ts), o.where(), "no result")
            for t in ts:
                got = lv(t.result) if t.end == "return" else t.end
                R.ob(key, got in (want if isinstance(want, tuple) else (want,)), o.where(), "with the name %s the result is %s" % ("first on type %d of the way up" % hit if hit is not None else "on no type", got[:120]))


def flat(F, R, name, key, want, subst=()):
    """the results of a function without decisions that matter"""
    o = R.fn(name)
    got = {lv(t.result) if t.end == "return" else t.end for t in traces(prep(o, closures=True, loops=True), lists=True)}
    R.ob(key, got <= set(want) and bool(got), o.where(), "gives %s" % sorted(x[:110] for x in got))


def check(F, R):
    def p_vars():
        climb(F, R, O + "Type::get_value", "value", lambda n: "Some(get(T%d.vars, #2).value)" % n)
        climb(F, R, O + "Type::get_var_declaration", "vardecl", lambda n: ("Some(get(T%d.vars, #2).declaration)" % n, "get(T%d.vars, #2).declaration" % n), states=("no", "set", "yes"))
        flat(F, R, T + "get_value", "value:ref", ["get_value(T0, #2, T0.tree)"])
        flat(F, R, T + "get_var_declaration", "vardecl:ref", ["get_var_declaration(T0, #2, T0.tree)"])

    def p_procs():
        climb(F, R, T + "get_proc", "proc", lambda n: tuple("Some(ProcRef(T%d, get(T%d.procs, #2)%s.value, %s, (len(get(T%d.procs, #2)%s.value) Sub 1)))" % (n, n, i, nm, n, i)
              for i in ("", ".1", ".2") for nm in ("get(T%d.procs, #2)" % n, "get(T%d.procs, #2).0" % n)))
        climb(F, R, T + "get_proc_declaration", "procdecl", lambda n: ("Some(get(T%d.procs, #2).declaration)" % n, "get(T%d.procs, #2).declaration" % n), states=("no", "set", "yes"))

    def p_subtype():
        climb(F, R, T + "is_subtype_of", "subtype", lambda n: "True", miss="False")

    def p_parents():
        o = R.fn(O + "ObjectTree::parent_of")
        flat(F, R, o.npath, "parent:of", ["get(T0.graph, #2.parent_type)"])
        for name, rootless in (("parent_type", False), ("parent_type_without_root", True)):
            o = R.fn(T + name)
            b = prep(o, closures=True, loops=True)
            for root in (True, False):
                for inb in (True, False):
                    if root and not inb: continue
                    def env(t):
                        s = lv(t) if t[0] in ("call", "bin") else ""
                        if s in ("eq(T0.parent_type, new(0))", "eq(new(0), T0.parent_type)"): return root
                        if s in ("ne(T0.parent_type, new(0))", "ne(new(0), T0.parent_type)"): return not root
                        if s == "get(T0.tree.graph, T0.parent_type)": return "Some" if inb else "None"
                        return None
                    want = "Some(new(T0.tree, T0.parent_type))" if inb and not (root and rootless) else "None"
                    ts = runs(b, env)
                    key = "parent:%s:%s:%s" % (name, root, inb)
                    R.ob(key, bool(ts), o.where(), "no result")
                    for t in ts: R.ob(key, lv(t.result) == want, o.where(), "gives %s instead of %s" % (lv(t.result)[:80], want))
        o = R.fn(O + "Type::parent_type_index")
        b = prep(o, closures=True, loops=True)
        for end in (True, False):
            def env(t):
                s = lv(t) if t[0] in ("call", "bin") else ""
                if s in ("eq(T0.parent_type, end())", "eq(end(), T0.parent_type)"): return end
                if s in ("ne(T0.parent_type, end())", "ne(end(), T0.parent_type)"): return not end
                return None
            for t in runs(b, env): R.ob("parent:index:%s" % end, lv(t.result) == ("None" if end else "Some(T0.parent_type)"), o.where(), "gives %s" % lv(t.result)[:80])
        o = R.fn(T + "parent_path")
        b = prep(o, closures=True, loops=True)
        for root in (True, False):
            def env(t):
                if named(t, "is_root"): return root
                return None
            for t in runs(b, env): R.ob("parent:path:%s" % root, lv(t.result) == ("None" if root else "Some(new(T0.tree, T0.parent_path))"), o.where(), "gives %s" % lv(t.result)[:80])
        flat(F, R, O + "Type::is_root", "parent:is_root", ["is_empty(T0.path)"])
        # a node index past the end denotes no type, and equality of references and procs is by identity
        o = R.fn("<" + T[:-2] + " as core::cmp::PartialEq>::eq")
        b = prep(o, loops=True)
        for a, c in itertools.product((True, False), repeat=2):
            def env(t):
                s = lv(t) if t[0] in ("call", "bin") else ""
                if s in ("eq(T0.tree, #2.tree)", "(T0.tree Eq #2.tree)"): return a
                if s in ("eq(T0.idx, #2.idx)",): return c
                return None
            for t in runs(b, env):
                v = lv(t.result)
                R.ob("same:type:%s%s" % (a, c), v in (str(a and c), ) or a and v == "eq(T0.idx, #2.idx)" or c and v == "eq(T0.tree, #2.tree)", o.where(), "gives %s" % v)
        o = R.fn("<" + O + "ProcRef as core::cmp::PartialEq>::eq")
        b = prep(o, loops=True)
        for a, c, d in itertools.product((True, False), repeat=3):
            def env(t):
                s = lv(t) if t[0] in ("call", "bin") else ""
                m = re.fullmatch(r"(?:eq\(T0|\(T0)\.(ty|name|idx)(?:, | Eq )#2\.\1\)", s)
                return {"ty": a, "name": c, "idx": d}[m[1]] if m else None
            for t in runs(b, env):
                v = lv(t.result)
                m = re.fullmatch(r"(?:eq\(T0|\(T0)\.(ty|name|idx)(?:, | Eq )#2\.\1\)", v)
                if m: v = str({"ty": a, "name": c, "idx": d}[m[1]] and {"ty": c and d, "name": a and d, "idx": a and c}[m[1]])
                R.ob("same:proc:%s%s%s" % (a, c, d), v == str(a and c and d), o.where(), "gives %s" % v)

    def p_walk():
        # every type on the way up, in order, once
        for name in ("visit_parent_types", "visit_parent_paths"):
            o = R.fn(T + name)
            b = prep(o, closures=True, loops=True)
            step = "parent_type" if name.endswith("types") else "parent_path"
            for depth in range(4):
                def env(t):
                    m = re.fullmatch(r"T(\d)", lv(t)) if t[0] in ("call", "arg", "agg", "fld") else None
                    return ("Some" if int(m[1]) <= depth else "None") if m else None
                ts = runs(b, env, visits=6)
                key = "walk:%s:%d" % (name, depth)
                R.ob(key, bool(ts), o.where(), "no result")
                for t in ts:
                    seen = [lv(e[1][1]) for e in t.events if e[0].endswith("call_mut")]
                    up = {e[0].split("::")[-1] for e in t.events if e[0].split("::")[-1].startswith("parent_")}
                    R.ob(key, seen == ["tuple(T%d)" % i for i in range(depth + 1)] and up == {step}, o.where(), "visits %s via %s" % (seen, sorted(up)))
        it = [x for x in F.bodies if x.npath.startswith("<" + T + "iter_parent_types::") and x.npath.endswith("Iterator>::next")]
        if it:
            o = R.saw(it[0])
            for t in traces(prep(o, loops=True)):
                r, w = rend(t.result), [(rend(p), rend(v)) for p, v in t.writes]
                none = any(rend(c[0]) == "#1.0" and "None" in c[2] for c in t.conds if c[1] == "in") or r == "None"
                good = r == "None" and all(v == "None" for p, v in w) if none else r in ("Some(#1.0)", "#1.0") and [x for x in w if x[0] == "#1.0"] == [("#1.0", "parent_type(#1.0)")]
                R.ob("walk:iter:next", good, o.where(), "gives %s and continues with %s" % (r, w))
            flat(F, R, T + "iter_parent_types", "walk:iter:start", ["ParentTypeIter(Some(T0))"])
        else:
            flat(F, R, T + "iter_parent_types", "walk:iter:start", ["successors(Some(T0), closure)"])

    def p_navigate():
        o = R.fn(T + "navigate")
        flat(F, R, T + "child", "child", ["None", "Some(new(T0.tree, get(T0.children, #2)))"])
        b = prep(o, closures=True, loops=True)
        ts = runs(b, lambda t: "Slash" if lv(t) == "#2" else None)
        R.ob("nav:/", bool(ts) and all(lv(t.result) in ("child(T0, #3)", "Some(child(T0, #3))", "None") and (lv(t.result) != "None" or any(lv(c[0]) == "child(T0, #3)" and "None" in c[2] for c in t.conds)) for t in ts), o.where(), "'/' gives %s" % {lv(t.result)[:80] for t in ts})
        climb(F, R, T + "navigate", "nav:.", lambda n: ("Some(child(T%d, #3))" % n, "child(T%d, #3)" % n))
        for t in runs(b, lambda t: "Dot" if lv(t) == "#2" else ("Some" if rend(t).startswith("parent_") and lv(t) in ("T1", "T2") else "None" if lv(t) == "T3" or rend(t).startswith("child(") else None), visits=6):
            up = {e[0].split("::")[-1] for e in t.events if e[0].split("::")[-1].startswith("parent_")}
            R.ob("nav:.:path", up == {"parent_path"}, o.where(), "'.' climbs by %s" % sorted(up))
        for own in (True, False):
            for n in range(4):
                for hit in [None] + list(range(n)):
                    def env(t):
                        s = lv(t) if t[0] in ("call", "arg", "fld") else ""
                        if s == "#2": return "Colon"
                        if s == "child(T0, #3)": return "Some" if own else "None"
                        if named(t, "next"): return "Some" if t[3] % 10 < n else "None"
                        if named(t, "navigate"):
                            k = subterm(t, lambda z: named(z, "next"))
                            return None if k is None else "Some" if hit is not None and k[3] % 10 == hit else "None"
                        return None
                    ts = runs(b, env, visits=6, lists=False)
                    key = "nav::%s:%d:%s" % ("own" if own else "sub", n, hit)
                    R.ob(key, bool(ts), o.where(), "no result")
                    for t in ts:
                        r = lv(t.result)
                        nav = [e for e in t.events if e[0].endswith("::navigate")]
                        k = [subterm(e[1][0], lambda z: named(z, "next"))[3] % 10 for e in nav]
                        if own: good = r in ("Some(child(T0, #3))", "child(T0, #3)") and not nav
                        else:
                            good = k == list(range(n if hit is None else hit + 1)) and all(rend(e[1][1]) in ("Colon", "#2") and rend(e[1][2]) == "#3" for e in nav)
                            good = good and all(mentions(e[1][0], lambda z: z[0] == "fld" and z[2] == "children" or named(z, "children")) for e in nav)
                            it = subterm(t.result, lambda z: named(z, "next")) if hit is not None else None
                            good = good and (r == "None" if hit is None else "navigate(" in r and it is not None and it[3] % 10 == hit)
                        R.ob(key, good, o.where(), "':' looks at subtypes %s and gives %s" % (k, r[:90]))
        # paths
        o = R.fn(T + "navigate_path")
        b = prep(o, closures=True, loops=True)
        nx = [c.bb for c in b.calls() if c.fn.endswith("::next")]
        main = [x for x in nx if all(b.dominates(x, y) for y in nx)]
        R.ob("path:loop", len(main) == 1, o.where(), "the pieces are not taken one after the other")
        cases = 0
        for n in range(4):
            for slash in ((True, False) if n else (False,)):
                for kind in [None] + list(range(n)):
                    for fail in [None] + list(range(n if kind is None else kind)):
                        for proc in ((True, False) if kind is not None and kind + 1 < n else (True,)):
                            pos = lambda z: z[3] % 10 if z[3] // 10 in main else kind + 1 if kind is not None else 9
                            def env(t):
                                if named(t, "next"): return "Some" if pos(t) < n else "None"
                                s = lv(t) if t[0] in ("call", "fld") else ""
                                if s in ("first(#2)", "first(#2).0"): return ("Slash" if slash else "Dot") if t[0] == "fld" and t[2] == "0" and t[1][0] == "fld" else "Some" if n else "None"
                                if named(t, "is_empty") and s == "is_empty(#2)": return n == 0
                                if named(t, "from_name"):
                                    z = subterm(t, lambda z: named(z, "next"))
                                    return "Some" if z and pos(z) == kind else "None"
                                if named(t, "navigate"):
                                    z = subterm(t[2][2], lambda z: named(z, "next"))
                                    return "None" if z and pos(z) == fail else "Some"
                                if named(t, "get_proc"): return "Some" if proc else "None"
                                return None
                            ts = runs(b, env, visits=6, lists=False)
                            key = "path:%d:%s:%s:%s:%s" % (n, slash, kind, fail, proc)
                            R.ob(key, bool(ts), o.where(), "no result")
                            cases += 1
                            cur = "root(T0.tree)" if slash else "T0"
                            for i in range(n if kind is None else kind): cur = "navigate(%s, P%d, P%d.1)" % (cur, i, i)
                            if fail is not None: want = "None"
                            elif kind is None: want = "Some(Type(%s))" % cur
                            elif kind + 1 == n: want = "Some(ProcGroup(%s, from_name(P%d.1)))" % (cur, kind)
                            else: want = "Some(ProcPath(get_proc(%s, P%d.1), from_name(P%d.1)))" % (cur, kind + 1, kind) if proc else "None"
                            for t in ts:
                                got = re.sub(r"#9(\d)(\.0)?\b", r"P\1", lv(sub_next(t.result, pos)))
                                R.ob(key, got == want, o.where(), "a path of %d pieces gives %s instead of %s" % (n, got[:120], want[:120]))
        R.count("paths", cases, 30)
        for v, w in (("Type", ("T0@Type",)), ("ProcGroup", ("T0@ProcGroup.0", "T0@ProcGroup")), ("ProcPath", ("ty(T0@ProcPath.0)", "ty(T0@ProcPath)"))):
            o = R.fn(O + "NavigatePathResult::ty")
            for t in runs(prep(o, loops=True), lambda t: v if t == ("arg", 1) else None): R.ob("path:ty:" + v, lv(t.result) in w, o.where(), "gives %s" % lv(t.result))

    def p_override():
        o = R.fn(O + "ProcRef::parent_proc")
        b = prep(o, closures=True, loops=True)
        for idx in ("first", "later"):
            for par in ("Some", "None"):
                def env(t):
                    s = lv(t) if t[0] in ("call", "bin", "fld", "arg") else ""
                    if s == "checked_sub(T0.idx, 1)": return "Some" if idx == "later" else "None"
                    if s in ("(T0.idx Eq 0)", "(T0.idx Lt 1)"): return idx == "first"
                    if s in ("(T0.idx Gt 0)", "(T0.idx Ne 0)", "(T0.idx Ge 1)"): return idx != "first"
                    if s == "T0.idx": return 0 if idx == "first" else 1
                    if s == "parent_type(T0.ty)": return par
                    return None
                ts = runs(b, env)
                key = "override:%s:%s" % (idx, par)
                R.ob(key, bool(ts), o.where(), "no result")
                for t in ts:
                    r = lv(t.result).replace("(T0.idx Sub 1)", "checked_sub(T0.idx, 1)")
                    want = ("Some(ProcRef(T0.ty, T0.list, T0.name, checked_sub(T0.idx, 1)))",) if idx == "later" else ("get_proc(parent_type(T0.ty), T0.name)",) if par == "Some" else ("None",)
                    R.ob(key, r in want, o.where(), "..() of %s proc is %s" % ("a later" if idx == "later" else "the first", r[:110]))
        flat(F, R, O + "ProcRef::get", "override:get", ["T0.list[T0.idx]", "index(T0.list, T0.idx)", "T0.list.[]"])
        o = R.fn(O + "ProcRef::get")
        flat(F, R, O + "ProcRef::get_declaration", "override:declaration", ["get_proc_declaration(T0.ty, T0.name)"])
        flat(F, R, O + "TypeProc::main_value", "override:main", ["expect(last(T0.value), 'TypeProc::value is empty')", "last(T0.value)", "panic", "unwrap(last(T0.value))"])
        o = R.fn(O + "ProcRef::is_externally_visible")
        for n in range(1, 4):
            for i in range(n):
                def env(t):
                    s = lv(t) if t[0] in ("call", "fld", "len") else ""
                    return n if s in ("len(T0.list)",) else i if s == "T0.idx" else None
                for t in traces(prep(o, loops=True), env=env):
                    v = evaluate(t.result, env)
                    R.ob("override:visible:%d:%d" % (i, n), v == (i == n - 1), o.where(), "version %d of %d is %s" % (i, n, v))

    def p_subtypes():
        # recurse: the type itself, then every child; recurse_types: itself, its children that are subtypes and the types redirected to it
        for name, types in (("recurse", False), ("recurse_types", True)):
            o = R.fn(T + name)
            b = prep(o, closures=True, loops=True)
            for nc, nr in itertools.product(range(3), range(3) if types else (0,)):
                for sub in itertools.product((True, False), repeat=nc + nr if types else 0):
                    red = lambda t: mentions(t, lambda z: z[0] == "fld" and z[2] == "redirected_parent_types")
                    def env(t):
                        if named(t, "next"): return "Some" if t[3] % 10 < (nr if red(t) else nc) else "None"
                        if named(t, "eq", "ne") or t[0] == "bin" and t[1] in ("Eq", "Ne"):
                            s = lv(t)
                            k = subterm(t, lambda z: named(z, "next"))
                            if k is None or ".parent_type" not in s or "T0.idx" not in s.replace("index(T0)", "T0.idx"): return None
                            i = k[3] % 10
                            v = sub[nc + i if red(k) else i]
                            return v if tail(t) == "eq" or t[0] == "bin" and t[1] == "Eq" else not v
                        return None
                    ts = runs(b, env, visits=4, lists=False)
                    key = "%s:%d:%d:%s" % (name, nc, nr, "".join("ny"[x] for x in sub))
                    R.ob(key, bool(ts), o.where(), "no result")
                    for t in ts:
                        self_ = [lv(e[1][1]) for e in t.events if e[0].endswith("call_mut")]
                        rec = []
                        for e in t.events:
                            if e[0].split("::")[-1] != name: continue
                            k = subterm(e[1][0], lambda z: named(z, "next"))
                            rec.append(("r" if red(k) else "c", k[3] % 10, lv(e[1][1])) if k else ("?", lv(e[1][0]), ""))
                        want = [("c", i, "#2") for i in range(nc) if not types or sub[i]] + [("r", i, "#2") for i in range(nr) if sub[nc + i]] if types else [("c", i, "#2") for i in range(nc)]
                        R.ob(key, self_ == ["tuple(T0)"] and sorted(rec) == sorted(want), o.where(), "calls the visitor with %s and continues with %s" % (self_, rec))
        for t in traces(prep(R.fn(T + "recurse_types"), loops=True), visits=2):
            ch = [e for e in t.events if e[0].endswith("::children")]
            R.ob("recurse:children", [lv(e[1][0]) for e in ch] == ["T0"] or mentions(("x", t.events), lambda z: z[0] == "fld" and z[2] == "children"), R.fn(T + "recurse_types").where(), "does not walk the children")
        # overriding procs: visited on every subtype that has one, at its final version
        for name, root in (("recurse_children", "T0.ty"), ("recurse_children_within", "#2")):
            o = R.fn(O + "ProcRef::" + name)
            cs = [b for b in F.closures_of(o)] if hasattr(F, "closures_of") else [x for x in F.bodies if x.k == "closure" and x.npath.startswith(o.npath + "::")]
            p = prep(o, loops=False)
            calls = [c for c in p.calls() if c.fn.endswith("recurse_types")]
            R.ob("overrides:%s" % name, len(calls) == 1, o.where(), "%d walks" % len(calls))
            for t in traces(p):
                for e in t.events:
                    if e[0].endswith("recurse_types"): R.ob("overrides:%s:root" % name, lv(e[1][0]) == root, o.where(), "walks the subtypes of %s" % lv(e[1][0]))
            R.ob("overrides:%s:visitor" % name, len(cs) == 1, o.where(), "%d visitors" % len(cs))
            for c in cs:
                cp = prep(c, closures=True, loops=True)
                for has in ("Some", "None"):
                    ts = runs(cp, lambda t: has if named(t, "get", "get_key_value") and ".procs" in rend(t) else None)
                    R.ob("overrides:%s:%s" % (name, has), bool(ts), c.where(), "no result")
                    for t in ts:
                        v = [rend(e[1][-1]) for e in t.events if e[0].endswith("call_mut")]
                        if has == "None": R.ob("overrides:%s:None" % name, not v, c.where(), "visits a type without the proc")
                        else:
                            g = "get(get(#2).procs, #1.0.name)"
                            w = re.sub(r"(?:#1\.\w+|env)\.(?:name|\^?self__name)", "N", v[0]) if len(v) == 1 else str(v)
                            R.ob("overrides:%s:Some" % name, re.fullmatch(r"tuple\(ProcRef\(#2, get\(get\(#2\)\.procs, N\)\.value, N, \(len\(get\(get\(#2\)\.procs, N\)\.value\) Sub 1\)\)\)", w) is not None, c.where(), "visits %s" % w[:150])

    def p_find():
        o = R.fn(O + "ObjectTree::find")
        b = prep(o, closures=True, loops=True)
        for e, has in ((True, True), (False, True), (False, False)):
            def env(t):
                if named(t, "is_empty") and lv(t) == "is_empty(#2)": return e
                if named(t, "get") and lv(t) == "get(T0.types, #2)": return "Some" if has else "None"
                return None
            ts = runs(b, env)
            R.ob("find:%s:%s" % (e, has), bool(ts), o.where(), "no result")
            for t in ts: R.ob("find:%s:%s" % (e, has), lv(t.result) == ("Some(root(T0))" if e else "Some(new(T0, get(T0.types, #2)))" if has else "None"), o.where(), "gives %s" % lv(t.result)[:90])
        flat(F, R, O + "ObjectTree::root", "find:root", ["new(T0, new(0))"])
        flat(F, R, O + "ObjectTree::type_by_constant", "find:constant", ["type_by_path(T0, #2@Prefab.path)", "find(T0, #2@String)", "None"])
        o = R.fn(O + "ObjectTree::type_by_constant")
        for v in ("String", "Prefab", "Resource", "Null", "Float", "List", "New", "Call"):
            for t in runs(prep(o, loops=True), lambda t: v if t == ("arg", 2) else None):
                R.ob("find:constant:%s" % v, lv(t.result).startswith({"String": "find(", "Prefab": "type_by_path("}.get(v, "None")), o.where(), "a %s gives %s" % (v, lv(t.result)[:60]))
        # a path is followed child by child; below the root type list every further piece is ignored
        o = R.fn(O + "ObjectTree::type_by_path_approx")
        b = prep(o, closures=True, loops=True)
        for n in range(4):
            for miss in [None] + list(range(n)):
                for lst in [None] + list(range(n)):
                    def env(t):
                        if named(t, "next"): return "Some" if t[3] % 10 < n else "None"
                        if named(t, "get") and "children" in lv(t): return "None" if loopidx(t[2][-1]) == miss else "Some"
                        if named(t, "eq", "ne") and "'list'" in lv(t): return (loopidx(t) == lst) == (tail(t) == "eq")
                        return None
                    ts = runs(b, env, visits=6, lists=False)
                    key = "path:%d:%s:%s" % (n, miss, lst)
                    R.ob(key, bool(ts), o.where(), "no result")
                    for t in ts:
                        stop = miss if not (lst == 0 and miss != 0) else (1 if n else None)
                        if lst == 0 and miss != 0: depth, exact = 1, True
                        elif miss is not None: depth, exact = miss, False
                        else: depth, exact = n, True
                        got = t.result
                        ok = got[0] == "agg" and rend(got[3][0]) == str(exact)
                        d = 0
                        cur = got[3][1] if ok else None
                        idxs = [z[3] % 10 for z in nest(cur)] if ok else None
                        ok = ok and idxs == list(range(depth))[::-1]
                        R.ob(key, ok, o.where(), "a path of %d pieces%s%s gives %s" % (n, ", piece %d unknown" % miss if miss is not None else "", ", piece %d being list" % lst if lst is not None else "", rend(got)[:110]))
        o = R.fn(O + "ObjectTree::type_by_path")
        for ex in (True, False):
            def env(t):
                return ex if lv(t) in ("type_by_path_approx(T0, #2).0",) else None
            for t in runs(prep(o, closures=True, loops=True), env):
                R.ob("path:exact:%s" % ex, lv(t.result) == ("Some(type_by_path_approx(T0, #2).1)" if ex else "None"), o.where(), "gives %s" % lv(t.result)[:80])

    R.part("vars", p_vars)
    R.part("procs", p_procs)
    R.part("subtype", p_subtype)
    R.part("parents", p_parents)
    R.part("walk", p_walk)
    R.part("navigate", p_navigate)
    R.part("override", p_override)
    R.part("subtypes", p_subtypes)
    R.part("find", p_find)


def nest(t):
    """the elements looked up on the way from the root, outermost first"""
    out = []
    while t is not None:
        g = subterm(t, lambda z: named(z, "get") and "children" in rend(z))
        if g is None: return out
        k = g[2][-1]
        n = subterm(k, lambda z: named(z, "next"))
        out.append(n)
        t = g[2][0]
    return out


def sub_next(t, pos):
    """the term with the k-th piece taken written as argument 90+k"""
    if not isinstance(t, tuple): return t
    if t and t[0] == "call" and named(t, "next"): return ("arg", 90 + pos(t))
    return tuple(sub_next(x, pos) for x in t)
