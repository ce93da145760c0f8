"""Construction of the object tree: types, variables, procs and the parent of every type."""
import itertools, re
from lib import *

RULE = """Creating a type, storing a variable and registering a proc are decision tables over what the tree holds already, read from every path of
their MIR with what is stored on each; the parent of a type is a decision table over its path and its parent_type variable; a cycle of parents is cut for every
length up to three."""
O = "dreammaker::objtree::"
B = O + "ObjectTreeBuilder::"
N = "get(index(#1.inner, #3).children, #4)"


def nr(t):
    s = t if isinstance(t, str) else rend(t)
    s = s.replace("index_mut(", "index(").replace("get_mut(", "get(").replace("#1.inner.graph", "#1.inner")
    s = re.sub(r"expect\(get\(#1\.inner, (\w+|#\d)\), '[^']*'\)", r"index(#1.inner, \1)", s)
    return s


def evs(t, *names): return [e for e in t.events if e[0].split("::")[-1] in names]


def check(F, R):
    def p_add():
        o = R.fn(B + "subtype_or_add")
        b = prep(o, closures=True, loops=True)
        for has, gt in ((True, True), (True, False), (False, False)):
            def env(t):
                s = nr(t) if t[0] in ("call", "bin", "fld") else ""
                if s == N: return "Some" if has else "None"
                if t[0] == "bin" and ".location_specificity" in s and "#5" in s:
                    m = re.fullmatch(r"\(index\(#1\.inner, (.*)\)\.location_specificity (\w+) #5\)", s)
                    f = {"Gt": gt, "Le": not gt}
                    if m: return f.get(m[2])
                    m = re.fullmatch(r"\(#5 (\w+) index\(#1\.inner, (.*)\)\.location_specificity\)", s)
                    return {"Lt": gt, "Ge": not gt}.get(m[1]) if m else None
                return None
            ts = runs(b, env)
            key = "add:%s" % ("new" if not has else "more-specific" if gt else "known")
            R.ob(key, bool(ts), o.where(), "no result")
            for t in ts:
                push, ins = evs(t, "push"), evs(t, "insert")
                w = {(nr(p), nr(v)) for p, v in t.writes}
                if has:
                    node = "index(#1.inner, %s)" % N
                    want = {(node + ".location_specificity", "#5"), (node + ".location", "#2")} if gt else set()
                    R.ob(key, nr(t.result) == N and not push and not ins and w == want, o.where(), "an existing type gives %s and stores %s" % (nr(t.result)[:60], sorted(x[0].rsplit(".", 1)[-1] for x in w)))
                    continue
                good = len(push) == 1 and nr(push[0][1][0]) == "#1.inner" and push[0][1][1][0] == "agg"
                R.ob(key, good, o.where(), "does not add exactly one type")
                if not good: continue
                f = dict(zip(push[0][1][1][4], push[0][1][1][3]))
                for k, v in (("path_last_slash", "len(index(#1.inner, #3).path)"), ("parent_path", "#3"), ("parent_type", "end()"), ("location", "#2"), ("location_specificity", "#5"), ("children", "default()"), ("vars", "default()"), ("procs", "default()")):
                    R.ob("add:new:%s" % k, nr(f[k]) in (v, v.replace("default()", "new()")), o.where(), "a new type gets %s = %s" % (k, nr(f[k])[:80]))
                R.ob("add:new:path", parts_text(f["path"]) == "index(#1.inner, #3).path|/|#4", o.where(), "the path of a new type is %s" % parts_text(f["path"]))
                R.ob("add:new:index", nr(t.result) == "new(len(#1.inner))", o.where(), "a new type gets the index %s" % nr(t.result))
                lens = [i for i, e in enumerate(t.events) if e[0].endswith("::len") and nr(e[1][0]) == "#1.inner"]
                R.ob("add:new:index", len(lens) == 1 and lens[0] < t.events.index(push[0]), o.where(), "the index is taken after the type was added")
                tables = sorted((nr(e[1][0]), nr(e[1][2])) for e in ins)
                R.ob("add:new:tables", tables == [("#1.inner.types", "new(len(#1.inner))"), ("index(#1.inner, #3).children", "new(len(#1.inner))")], o.where(), "a new type is entered in %s" % tables)
                for e in ins:
                    k = nr(e[1][1])
                    if nr(e[1][0]).endswith(".children"): R.ob("add:new:child", re.fullmatch(r"(\w+\()?#4\)?", k) is not None, o.where(), "the child is entered as %s" % k)
                    else: R.ob("add:new:name", parts_text(e[1][1]) == "index(#1.inner, #3).path|/|#4", o.where(), "the type is entered as %s" % k[:90])
        R.count("add_cases", 3, 3)
        # the path of a declaration
        o = R.fn(B + "get_from_path")
        b = prep(o, closures=True, loops=True)
        nx = [c.bb for c in b.calls() if c.fn.endswith("::next")]
        main = [x for x in nx if all(b.dominates(x, y) for y in nx)]
        pos = lambda z: z[3] % 10 + (0 if z[3] // 10 in main else 1)
        for n in range(4):
            for d in [None] + list(range(n)):
                def env(t):
                    if named(t, "next"): return "Some" if pos(t) < n else "None"
                    s = rend(t) if t[0] == "call" else ""
                    if named(t, "is_decl", "is_var_decl", "is_proc_decl") or named(t, "eq") and "'" in s:
                        z = subterm(t, lambda z: named(z, "next"))
                        if z is None: return None
                        yes = pos(z) == d
                        if named(t, "eq"): return yes and "'var'" in s
                        return yes and not named(t, "is_proc_decl")
                    return None
                ts = runs(b, env, visits=6, lists=False)
                key = "path:%d:%s" % (n, d)
                R.ob(key, bool(ts), o.where(), "no result")
                for t in ts:
                    cur = "new(0)"
                    k = n - 1 if d is None else d
                    for i in range(k): cur = "subtype_or_add(#1, #2, %s, P%d, #4)" % (cur, i)
                    want = "Ok(tuple(%s, P%d))" % (cur, k)
                    got = re.sub(r"#9(\d)\b", r"P\1", nr(sub_next(t.result, pos)))
                    R.ob(key, got.startswith("Err(") if n == 0 else got == want, o.where(), "a path of %d pieces%s gives %s" % (n, ", piece %d starting declarations," % d if d is not None else "", got[:120]))
        for f, names in (("is_var_decl", {"var"}), ("is_proc_decl", {"proc", "verb"}), ("is_decl", {"var", "proc", "verb"})):
            o = R.fn(O + f)
            for w in ("var", "proc", "verb", "vars", "", "datum"):
                def env(t):
                    if named(t, "eq") and rend(t).count("'"): return w == rend(t).split("'")[1]
                    if named(t, "is_var_decl"): return w == "var"
                    if named(t, "is_proc_decl"): return w in ("proc", "verb")
                    return None
                for t in runs(prep(o, loops=True), env):
                    v = evaluate(t.result, env)
                    R.ob("decl:%s:%s" % (f, w), v == (w in names), o.where(), "'%s' gives %s" % (w, v))

    def p_vars():
        o = R.fn(B + "insert_var")
        b = prep(o, closures=True, loops=True)
        E = "entry(index(#1.inner, #2).vars, #3)"
        seen = set()
        for t in traces(b):
            if t.end != "return": continue
            ins = evs(t, "insert")
            w = [(nr(p), nr(v)) for p, v in t.writes]
            if ins:
                seen.add("vacant")
                R.ob("var:new", len(ins) == 1 and not w and nr(ins[0][1][1]) == "TypeVar(#4, #5)" and nr(ins[0][1][0]).startswith(E), o.where(), "a new variable is stored as %s" % nr(ins[0][1][-1])[:60])
                continue
            decl = any(nr(c[0]) == "#5" and set(c[2]) == {"Some"} for c in t.conds if c[1] == "in")
            seen.add("again%s" % decl)
            e = nr(t.result)
            R.ob("var:again", e.startswith("into_mut(" + E) or e.startswith("get(" + E), o.where(), "gives %s" % e[:80])
            d = [v for p, v in w if p == e + ".declaration"]
            v = [v for p, v in w if p == e + ".value"]
            R.ob("var:again:value", v == ["#4"], o.where(), "a further definition stores the value %s" % v)
            R.ob("var:again:declaration", (d in (["Some(#5)"], ["#5"])) if decl else not d, o.where(), "a further definition %s a declaration stores %s" % ("with" if decl else "without", d))
        R.count("insert_var_cases", len(seen), 3)
        for f, decl in (("declare_var", True), ("override_var", False)):
            o = R.fn(B + f)
            for t in traces(prep(o, closures=True, loops=True)):
                if t.end != "return": continue
                c = evs(t, "insert_var")
                R.ob("var:%s" % f, len(c) == 1 and [nr(x) for x in c[0][1][:3]] == ["#1", "#2", "#3"], o.where(), "does not store the variable")
                if len(c) != 1: continue
                v = dict(zip(c[0][1][3][4], map(nr, c[0][1][3][3])))
                want = {"location": "#4", "docs": "#5", "constant": "None", "being_evaluated": "False", "expression": "#7" if decl else "Some(#6)"}
                R.ob("var:%s:value" % f, v == want, o.where(), "stores %s" % {k: x for k, x in v.items() if want.get(k) != x})
                d = c[0][1][4]
                if decl:
                    dd = d[3][0] if d[0] == "agg" and d[2] == "Some" else None
                    m = dict(zip(dd[4], map(nr, dd[3]))) if dd else {}
                    R.ob("var:%s:declaration" % f, m.get("var_type") == "#6" and m.get("location") == "#4" and m.get("id", "").startswith("allocate("), o.where(), "declares %s" % m)
                else: R.ob("var:%s:declaration" % f, nr(d) == "None", o.where(), "an override declares the variable")

    def p_proc():
        o = R.fn(B + "register_proc")
        b = prep(o, closures=True, loops=True)
        n = 0
        for decl, had, empty in itertools.product((True, False), repeat=3):
            def env(t):
                s = nr(t) if t[0] in ("call", "fld", "arg") else ""
                if s == "#6": return "Some" if decl else "None"
                if s.endswith(".declaration") and ".procs" in s: return "Some" if had else "None"
                if named(t, "is_some") and s.endswith(".declaration)"): return had
                if named(t, "is_none") and s.endswith(".declaration)"): return not had
                if named(t, "is_empty") and s.endswith(".value)"): return empty
                if named(t, "len") and s.endswith(".value)"): return 0 if empty else 2
                return None
            ts = runs(b, env, lists=False)
            key = "proc:%s:%s:%s" % ("decl" if decl else "override", "again" if had else "first", "empty" if empty else "some")
            R.ob(key, bool(ts), o.where(), "no result")
            n += 1
            for t in ts:
                ds = [v for p, v in t.writes if nr(p).endswith(".declaration")]
                errs = evs(t, "register", "register_error")
                texts = [texts_in(e[1]) for e in errs]
                dup = [x for x in texts if "duplicate definition" in x]
                hint = [x for x in texts if "precedes definition" in x]
                R.ob(key + ":declaration", len(ds) == (1 if decl and not had else 0), o.where(), "%d declarations are stored" % len(ds))
                R.ob(key + ":duplicate", len(dup) == (1 if decl and had else 0), o.where(), "%d duplicate definitions are reported" % len(dup))
                R.ob(key + ":precedes", len(hint) == (1 if decl and not empty else 0), o.where(), "%d hints about an override before the definition" % len(hint))
                for d in ds:
                    d = d[3][0] if d[0] == "agg" and d[2] == "Some" else d
                    m = dict(zip(d[4], map(nr, d[3]))) if d[0] == "agg" else {}
                    R.ob("proc:declares", m.get("location") == "#3" and m.get("return_type") == "#8" and m.get("kind") == "#6.kind" and m.get("flags") == "#6.flags", o.where(), "declares %s" % m)
                st = evs(t, "push", "insert")
                st = [e for e in st if nr(e[1][0]).endswith(".value")]
                R.ob(key + ":stored", len(st) == 1, o.where(), "the body is stored %d times" % len(st))
                if len(st) != 1: continue
                front = decl and not empty
                at = 0 if front else "end"
                got = const_of(st[0][1][1]) if st[0][0].endswith("insert") else "end"
                R.ob(key + ":order", got == at, o.where(), "the body goes to position %s, not %s" % (got, at))
                v = st[0][1][-1]
                m = dict(zip(v[4], map(nr, v[3]))) if v[0] == "agg" else {}
                R.ob("proc:value", (m.get("location"), m.get("code"), m.get("body_range")) == ("#3", "#9", "#10") and "#7" in m.get("parameters", ""), o.where(), "stores %s" % m)
                r = nr(t.result)
                want = r"Ok\(tuple\(0, (first_mut\(.*\.value\)|get\(.*\.value, 0\)|index\(.*\.value, 0\))\)\)" if front else r"Ok\(tuple\((0|2|len\(.*?\.value\)), (last_mut\(.*\.value\)|(get|index)\(.*\.value, .*\))\)\)"
                R.ob(key + ":result", re.fullmatch(want, r) is not None, o.where(), "gives %s" % r[:120])
                ln = [i for i, e in enumerate(t.events) if e[0].endswith("::len") and nr(e[1][0]).endswith(".value")]
                used = subterm(t.result, lambda z: named(z, "len"))
                if not front and used is not None: R.ob(key + ":index", any(t.events[i][3] == used[3] // 10 and i < t.events.index(st[0]) for i in ln), o.where(), "the index is taken after the body was stored")
                for e in t.events:
                    if e[0].endswith("::entry"): R.ob("proc:name", nr(e[1][1]) == "#5" and nr(e[1][0]) == "index(#1.inner, #4).procs", o.where(), "registers in %s" % nr(e[1][0]))
        R.count("register_proc_cases", n, 8)
        # a path that ends in a proc
        o = R.fn(B + "add_proc")
        b = prep(o, closures=True, loops=True)
        for kind, flags, more in itertools.product((True, False), (True, False), range(4)):
            if not kind and flags: continue
            def env(t):
                if named(t, "get_from_path"): return "Ok"
                if named(t, "from_name") and "ProcDeclKind" in t[1]: return "Some" if kind else "None"
                if named(t, "is_some"): return flags
                if named(t, "is_var_decl"): return False
                if named(t, "eq") and "'var'" in rend(t): return False
                return None
            order = [c.bb for c in b.calls() if c.fn.endswith("::next")]
            for t in traces(b, env=env, visits=3):
                if t.end != "return": continue
                took = sum(1 for c in t.conds if c[1] == "in" and set(c[2]) == {"Some"} and named(c[0], "next"))
                reg = evs(t, "register_proc")
                r = nr(t.result)
                if reg:
                    a = [nr(x) for x in reg[0][1]]
                    P = "get_from_path(#1, #3, #4, #5)"
                    R.ob("path-proc:%s:%s" % (kind, flags), r.startswith("register_proc(") and a[2] == "#3" and a[3] in (P, P + ".0") and (a[4] == P + ".1") == (not kind) and (a[5] == "None") == (not kind) and a[6] == "#6" and a[8:] == ["#7", "#8"], o.where(), "registers %s" % [x[:50] for x in a])
                else: R.ob("path-proc:err", r.startswith("Err("), o.where(), "gives %s without registering" % r[:60])
        R.count("add_proc_paths", len([1 for t in traces(b, visits=3) if t.end == "return"]), 5)

    P0 = {"/datum", "/list", "/alist", "/savefile", "/world", "/vector", "/pixloc", "/callee"}
    FIX = {"/atom": "/datum", "/turf": "/atom", "/area": "/atom", "/obj": "/atom/movable", "/mob": "/atom/movable"}

    def p_parent():
        o = R.fn(B + "assign_parent_types")
        b = prep(o, closures=True, loops=True)
        nx = [c.bb for c in b.calls() if c.fn.endswith("::next")]
        main = [x for x in nx if all(b.dominates(x, y) for y in nx)]
        R.ob("parent:loop", len(main) == 1, o.where(), "the types are not all visited first")
        cases = 0
        for path in sorted(P0) + sorted(FIX) + ["/client", "/image", "/datum/foo", "/atom/movable", "/obj/item/gun"]:
            for var in (None, "string", "prefab", "prefab-vars", "other", "expr-ok", "expr-err", "missing"):
                if path in FIX and var: continue
                for found, moved in itertools.product((True, False), repeat=2):
                    def env(t):
                        s = nr(t) if t[0] in ("call", "fld", "bin") else ""
                        if named(t, "next"): return ("Some" if t[3] % 10 < 1 else "None") if t[3] // 10 in main else "None" if "Prefab" not in nr(t[2][0]) else ("Some" if t[3] % 10 < 2 else "None")
                        if named(t, "eq", "ne") and ".parent_path" in s: return moved == (tail(t) == "ne")
                        if named(t, "eq", "ne") and s.count("'") == 2 and "item0" in s: return (path == s.split("'")[1]) == (tail(t) == "eq")
                        if named(t, "starts_with") and s.count("'") == 2: return path.startswith(s.split("'")[1])
                        if s == "rfind(item0, '/')": return "Some" if tail(t) == "rfind" else path.rfind("/")
                        V = "get(index(#1.inner, item0.1).vars, 'parent_type')"
                        if s == V: return "Some" if var else "None"
                        if s == V + ".value.constant": 
                            if t[2] == "constant": return "Some" if var in ("string", "prefab", "prefab-vars", "other") else "None"
                            return {"string": "String", "other": "Float"}.get(var, "Prefab")
                        if s == V + ".value.expression": return "Some" if var in ("expr-ok", "expr-err") else "None"
                        if named(t, "is_some", "is_none") and s[8:-1] == V + ".value.expression": return (var in ("expr-ok", "expr-err")) == (tail(t) == "is_some")
                        if named(t, "simple_evaluate"): return "Ok" if var == "expr-ok" else "Err"
                        if t[0] == "fld" and s.startswith("simple_evaluate("): return "String"
                        if t[0] == "fld" and re.fullmatch(r"(empty|default|String\()?.*", s) and "default()" in s and t[2] != "0": return None
                        if named(t, "is_empty"):
                            if s.endswith("Prefab.vars)"): return var != "prefab-vars"
                            if "default()" in s: return True
                            if s.startswith("is_empty(''"): return True
                            if s.startswith("is_empty('"): return False
                            return False
                        if named(t, "get") and s.startswith("get(#1.inner.types"): return "Some" if found else "None"
                        return None
                    ts = runs(b, env, visits=4, lists=False)
                    key = "parent:%s:%s:%s%s" % (path, var, "ny"[found], "ny"[moved])
                    R.ob(key, bool(ts), o.where(), "no result")
                    cases += 1
                    for t in ts:
                        st = [nr(v) for p, v in t.writes if nr(p) == "index(#1.inner, item0.1).parent_type"]
                        errs = [texts_in(e[1]) + " ".join(nr(a) for a in e[1][1:]) for e in evs(t, "register_error", "register")]
                        red = [e for e in evs(t, "push") if nr(e[1][0]).endswith("redirected_parent_types")]
                        look = [e[1][1] for e in evs(t, "get") if nr(e[1][0]) == "#1.inner.types"]
                        if path in P0:
                            want, n, lookup = "new(0)", 1 if var in ("expr-ok", "expr-err") else 0, None
                        else:
                            V = "get(index(#1.inner, item0.1).vars, 'parent_type')"
                            dflt = FIX.get(path) or ("" if path == "/client" else "/datum" if path.rfind("/") == 0 else "^")
                            n = 1 if var in ("prefab-vars", "other", "expr-err") or var == "missing" and path != "/client" else 0
                            lookup = {"string": V + ".value.constant@String", "expr-ok": "simple_evaluate(" , "prefab": "new()"}.get(var, dflt)
                            if path == "/client" and (lookup == ""): want, lookup = "new(0)", None
                            else:
                                n += 0 if found else 1
                                want = "found" if found else "new(0)"
                        ok = len(st) == 1 and (st[0] == want if want == "new(0)" else st[0].startswith("get(#1.inner.types, "))
                        R.ob(key, ok, o.where(), "the parent of %s is %s" % (path, st))
                        R.ob(key + ":errors", len(errs) == n, o.where(), "%d errors for %s instead of %d" % (len(errs), path, n))
                        R.ob(key + ":redirected", [nr(e[1][1]) for e in red] == (["item0.1"] if moved else []), o.where(), "redirected types: %s" % [nr(e[1][1]) for e in red])
                        if lookup is None: R.ob(key + ":lookup", not look, o.where(), "looks for %s" % [nr(x)[:60] for x in look])
                        else:
                            g = nr(look[0]) if len(look) == 1 else "%d lookups" % len(look)
                            if lookup == "^": ok = re.fullmatch(r"index\(item0, RangeTo\(rfind\(item0, '/'\)\)\)", g) is not None
                            elif lookup.startswith("simple") or lookup.startswith("get("): ok = g.startswith(lookup)
                            elif lookup == "new()":
                                pcs = evs(t, "push_str")
                                ok = g == "new()" and len(pcs) == 2 and len([e for e in evs(t, "push") if nr(e[1][0]) == "new()"]) == 2
                            else: ok = g == "'%s'" % lookup
                            R.ob(key + ":lookup", ok, o.where(), "looks for %s instead of %s" % (g[:90], lookup))
        R.count("parent_cases", cases, 200)
        # a cycle is cut at the type it is noticed on, and the walk ends at a type without parent
        for own in (True, False):
            for k in (None, 0, 1, 2):
                for ends in ((0, 1, 2, 3) if k is None else (None,)):
                    lev = lambda s: s.count("parent_type_index(")
                    def env(t):
                        s = nr(t) if t[0] in ("call", "fld", "bin") else ""
                        if named(t, "next"):
                            if t[3] // 10 in main: return "None"
                            return ("Some" if t[3] % 10 < 1 else "None") if not is_range(t) else ("Some" if t[3] % 10 < 4 else "None")
                        if named(t, "parent_type_index"): return "None" if ends is not None and lev(s) > ends else "Some"
                        if named(t, "eq", "ne") and "parent_type_index(" in s and ".parent_path" not in s: return (k is not None and lev(s) == k + 1) == (tail(t) == "eq")
                        if named(t, "eq", "ne") and ".parent_path" in s: return own == (tail(t) == "eq")
                        return None
                    ts = runs(b, env, visits=7, lists=False)
                    key = "cycle:%s:%s:%s" % (k, ends, own)
                    R.ob(key, bool(ts), o.where(), "no result")
                    for t in ts:
                        st = [(nr(p), nr(v)) for p, v in t.writes if nr(p).endswith(".parent_type")]
                        errs = evs(t, "register_error", "register")
                        ret = evs(t, "retain")
                        if k is None: R.ob(key, not st and not errs and not ret, o.where(), "a type whose parents end after %s is changed" % ends)
                        else:
                            R.ob(key, st == [("index(#1.inner, item0).parent_type", "new(0)")] and len(errs) == 1, o.where(), "a cycle of %d types: %d errors, stores %s" % (k + 1, len(errs), st))
                            R.ob(key + ":redirected", len(ret) == (1 if own else 0), o.where(), "a type that falls back to its path is visited twice")

    def p_ispath():
        o = R.fn(O + "ispath")
        b = prep(o, closures=True, loops=True)
        for strip, e, s in itertools.product((True, False), repeat=3):
            def env(t):
                r = rend(t) if t[0] == "call" else ""
                if named(t, "starts_with"): return s if "strip_prefix" in r else True
                if named(t, "strip_prefix"): return "Some" if strip else "None"
                if named(t, "is_empty"): return e
                return None
            for t in runs(b, env):
                v = evaluate(t.result, env)
                R.ob("ispath:%s:%s:%s" % (strip, e, s), v == (strip and (e or s)), o.where(), "gives %s" % v)
        for t in traces(b):
            for x in evs(t, "strip_prefix"): R.ob("ispath:prefix", rend(x[1][0]) == "#1" and rend(x[1][1]) == "trim_end_matches(#2, '/')", o.where(), "compares %s with %s" % tuple(map(rend, x[1][:2])))
            for x in evs(t, "starts_with"):
                if "strip_prefix" in rend(x[1][0]): R.ob("ispath:slash", rend(x[1][1]) == "'/'", o.where(), "the rest has to start with %s" % rend(x[1][1]))
        o = R.fn(O + "Type::is_subpath_of")
        got = {rend(t.result) for t in traces(prep(o, loops=True))}
        R.ob("ispath:type", got == {"ispath(#1.path, #2)"}, o.where(), "gives %s" % got)

    R.part("add", p_add)
    R.part("vars", p_vars)
    R.part("proc", p_proc)
    R.part("parent", p_parent)
    R.part("ispath", p_ispath)


def is_range(t): return mentions(t, lambda z: z[0] == "agg" and "Range" in str(z[1:3]))


def parts_text(t):
    while t[0] == "call" and tail(t) in ("must_use", "format", "clone") and t[2]: t = t[2][0]
    fm = fmt_parts(t)
    if fm is None: return "?"
    return "|".join(x if isinstance(x, str) else nr(x if isinstance(x[0], str) and x[0] in ("arg", "call", "fld", "k", "agg") else x[1]) for x in fm)


def texts_in(args):
    """the literal text of every message in the arguments"""
    out = []
    def walk(t):
        if not isinstance(t, tuple) or not t: return
        try: fm = fmt_parts(t) if t[0] == "call" else None
        except (IndexError, KeyError, TypeError): fm = None
        if fm: out.extend(x for x in fm if isinstance(x, str))
        if t[0] == "str": out.append(str(t[1]))
        for x in t: walk(x)
    for a in args: walk(a)
    return " ".join(out)


def sub_next(t, pos):
    if not isinstance(t, tuple): return t
    if t and t[0] == "call" and named(t, "next"): return ("arg", 90 + pos(t))
    return tuple(sub_next(x, pos) for x in t)
