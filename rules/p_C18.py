"""Constant variables are looked up, evaluated once, and recursion among them is reported."""
import itertools
from lib import *

RULE = """The lookup of a constant is a decision table over the state of the variable (declared, set here, already evaluated, being evaluated, constant
evaluable, const), read from every path of its MIR; the climb through parent types is decided for every depth up to three; the mark that detects
recursion is set before and cleared after every evaluation, on every path (dominance and must-reach over the control-flow graph)."""
C = "dreammaker::constants::"
K = C + "ConstantFolder::"


def nr(t):
    return rend(t).replace("index_mut(", "index(").replace("get_mut(", "get(")


def check(F, R):
    def p_lookup():
        o = R.fn(C + "constant_ident_lookup")
        b = prep(o, closures=True, loops=True)
        n = 0
        for decl, own, const, expr, busy, evaluable, isconst, must, ok in itertools.product((True, False), repeat=9):
            if not decl and (own or const or expr): continue
            if not own and (const or expr): continue
            if const and (not expr or busy): continue
            S = lambda x: "Some" if x else "None"
            def env(t):
                if named(t, "get_var_declaration"): return S(decl)
                if named(t, "get", "get_mut") and ".vars" in nr(t): return S(own)
                if named(t, "is_const_evaluable"): return evaluable
                if named(t, "is_const"): return isconst
                if t == ("arg", 4): return must
                if named(t, "expr"): return "Ok" if ok else "Err"
                if t[0] == "fld":
                    r = nr(t)
                    if ".value." in r and "get(" in r:
                        f = r.rsplit(".", 1)[1]
                        if f == "constant": return S(const)
                        if f == "expression": return S(expr)
                        if f == "being_evaluated": return busy
                return None
            ts = runs(b, env, visits=2, lists=False)
            key = "lookup:%s" % "".join("ny"[x] for x in (decl, own, const, expr, busy, evaluable, isconst, must, ok))
            R.ob(key, bool(ts), o.where(), "no result")
            n += 1
            for t in ts:
                r = nr(t.result)
                w = [(nr(p).rsplit(".", 1)[-1], nr(v)) for p, v in t.writes if nr(p).rsplit(".", 1)[-1] in ("constant", "being_evaluated")]
                called = [e for e in t.events if e[0].split("::")[-1] == "expr"]
                places = {nr(p).rsplit(".value.", 1)[0] for p, v in t.writes if nr(p).rsplit(".", 1)[-1] in ("constant", "being_evaluated")}
                R.ob("lookup:place", all(re.search(r"\bget\(index\(#1, #2\)\.vars, [^)]*#3", x) for x in places), o.where(), "stores into %s instead of the variable" % sorted(places))
                if not decl: good, what = r == "Ok(Continue(None))", "an undeclared variable"
                elif not own: good, what = r == "Ok(Continue(parent_type_index(index(#1, #2))))", "a variable that is not set on this type"
                elif const: good, what = r.startswith("Ok(Found(get(") and r.endswith(".value.constant))") and not w, "a variable that was evaluated before"
                elif not expr:
                    good, what = r.startswith("Ok(Found(Null(Some(get_var_declaration(") and r.endswith(".var_type.type_path))))") and [x[0] for x in w] == ["constant"] and "type_path" in w[0][1], "a variable without an initial value"
                elif busy or not evaluable or (must and not isconst): good, what = r.startswith("Err(") and not called and not w, "a %s variable" % ("recursive" if busy else "non-constant")
                else:
                    good = len(called) == 1
                    what = "a variable with an initial value"
                    if good:
                        fo, ex, hint = called[0][1][:3]
                        f = dict(zip(fo[4], map(rend, fo[3]))) if fo[0] == "agg" else {}
                        good = nr(ex).endswith(".value.expression") and "get(" in nr(ex) and f.get("tree", "").endswith("#1)") | (f.get("tree") == "#1") and f.get("ty") == "#2" and f.get("context") == "#5" and f.get("defines") == "None" and f.get("location", "").endswith(".value.location")
                        he = [c for c in t.conds if named(c[0], "is_empty") and nr(c[0]).endswith(".var_type.type_path)")]
                        good = good and len(he) == 1 and (nr(hint) == "None") == ((he[0][1] == "in") == (True in he[0][2])) and (nr(hint) == "None" or nr(hint).endswith(".var_type.type_path)"))
                        seq = [x for x in w]
                        good = good and seq[0] == ("being_evaluated", "True") and ("being_evaluated", "False") in seq[1:]
                        if ok: good = good and r.startswith("Ok(Found(expr(") and [v for p, v in seq if p == "constant"] and all("expr(" in v for p, v in seq if p == "constant")
                        else: good = good and r.startswith("Err(") and not [1 for p, v in seq if p == "constant"]
                R.ob(key, bool(good), o.where(), "%s gives %s (stores %s)" % (what, r[:120], [x[0] for x in w]))
        R.count("lookup_states", n, 90)
        # the mark is set before and cleared after the evaluation
        calls = [c for c in b.calls() if c.fn.endswith("ConstantFolder::expr")]
        R.count("evaluations", len(calls), 1)
        ws = field_writes(b, "being_evaluated")
        sets = [bb for bb, i, t in ws if const_of(t) is True]
        clears = [bb for bb, i, t in ws if const_of(t) is False]
        for c in calls:
            R.ob("mark:set", any(b.dominates(s, c.bb) for s in sets), o.where(), "the variable is not marked as being evaluated while it is")
            p = find_path(b, successors_of_call(c), [bb for bb in b.reachable() if b.blocks[bb]["t"]["k"] == "return"], avoid=set(clears))
            R.ob("mark:cleared", p is None, o.where(), "the variable stays marked as being evaluated: %s" % (path_where(b, p) if p else ""))

    def p_climb():
        o = R.fn(K + "recursive_lookup")
        b = prep(o, closures=True, loops=True)
        for depth in range(4):
            for last in ("Found", "None", "Err"):
                for tree in ("Some", "None"):
                    def env(t):
                        if named(t, "is_none") and rend(t[2][0]) == "#1.tree": return tree == "None"
                        if named(t, "is_some") and rend(t[2][0]) == "#1.tree": return tree == "Some"
                        r = rend(t) if t[0] in ("fld", "call") else ""
                        if r == "#1.tree": return tree
                        if named(t, "constant_ident_lookup"): return "Err" if t[3] % 10 == depth and last == "Err" else "Ok"
                        if t[0] == "fld" and t[1][0] == "as" and t[1][2] in ("Ok", "Continue") and r.startswith("constant_ident_lookup("):
                            i = subterm(t, lambda z: named(z, "constant_ident_lookup"))[3] % 10
                            if t[1][2] == "Continue" and t[1][1][0] == "fld": return "Some" if i < depth else "None"
                            return "Found" if i == depth and last == "Found" else "Continue"
                        return None
                    ts = runs(b, env, visits=6)
                    key = "climb:%d:%s:%s" % (depth, last, tree)
                    R.ob(key, bool(ts), o.where(), "no result")
                    for t in ts:
                        r = rend(t.result)
                        tys = [e[1][1] for e in t.events if e[0].endswith("constant_ident_lookup")]
                        if tree == "None":
                            R.ob(key, r.startswith("Err(") and not tys, o.where(), "without a tree gives %s" % r[:100])
                            continue
                        want = ["#2"]
                        good = len(tys) == depth + 1 and rend(tys[0]) == "#2" and all(rend(x).startswith("constant_ident_lookup(") and subterm(x, lambda z: named(z, "constant_ident_lookup"))[3] % 10 == i for i, x in enumerate(tys[1:]))
                        good = good and all([rend(x) for x in e[1][2:]] == ["#3", "#4", "#1.context"] for e in t.events if e[0].endswith("constant_ident_lookup"))
                        if last == "Found": good = good and r.startswith("Ok(constant_ident_lookup(") and r.endswith("@Found)") and subterm(t.result, lambda z: named(z, "constant_ident_lookup"))[3] % 10 == depth
                        elif last == "None": good = good and r.startswith("Err(error(")
                        else: good = good and r.startswith("Err(with_location(") and r.endswith("#1.location))") 
                        R.ob(key, good, o.where(), "visits %d types and gives %s" % (len(tys), r[:60] + ".." + r[-60:]))
        o = R.fn(K + "ident")
        rs = {rend(t.result) for t in traces(prep(o, loops=True)) if t.end == "return"}
        R.ob("climb:start", rs == {"recursive_lookup(#1, #1.ty, #2, #3)"}, o.where(), "a name is looked up as %s" % rs)

    def src(t):
        if mentions(t, lambda z: named(z, "keys", "iter") or z[0] == "fld" and z[2] == "vars"): return "vars"
        return "types" if mentions(t, lambda z: named(z, "node_indices")) else None

    def p_all():
        o = R.fn(C + "evaluate_all")
        b = prep(o, closures=True, loops=True)
        for decl, evaluable, isconst, root, res in itertools.product((True, False), (True, False), (True, False), (True, False), ("Found", "Continue", "Err")):
            if not decl and (evaluable or isconst): continue
            def env(t):
                if named(t, "next"): return ("Some" if t[3] % 10 < 1 else "None")
                if named(t, "get_var_declaration"): return "Some" if decl else "None"
                if named(t, "is_const_evaluable"): return evaluable
                if named(t, "is_const"): return isconst
                if (named(t, "eq", "ne") or t[0] == "bin" and t[1] in ("Eq", "Ne")) and mentions(t, lambda z: named(z, "node_indices")):
                    return root == ((tail(t) == "eq") if t[0] == "call" else t[1] == "Eq")
                if named(t, "constant_ident_lookup"): return "Err" if res == "Err" else "Ok"
                if t[0] == "fld" and rend(t).startswith("constant_ident_lookup(") and not rend(t).endswith("!"): return res
                return None
            ts = runs(b, env, visits=4, lists=False)
            ts = [t for t in ts if sum(1 for e in t.events if e[0].endswith("get_var_declaration")) == 1]
            key = "all:%s:%s:%s:%s:%s" % (decl, evaluable, isconst, root, res)
            R.ob(key, bool(ts), o.where(), "not visited")
            want = not decl or (evaluable and (isconst or not root))
            for t in ts:
                ev = [e for e in t.events if e[0].endswith("constant_ident_lookup")]
                er = [e for e in t.events if e[0].endswith("register_error")]
                R.ob(key, bool(ev) == want, o.where(), "the variable is %s" % ("evaluated" if ev else "skipped"))
                if ev:
                    a = [rend(x) for x in ev[0][1]]
                    R.ob(key, a[0] == "#2" and a[3] == "False" and "#1" in a[4] and src(ev[0][1][1]) == "types" and src(ev[0][1][2]) == "vars", o.where(), "evaluated with %s" % a)
                R.ob(key, (len(er) == 1) == (want and res != "Found"), o.where(), "%d errors are reported for a result %s" % (len(er), res))
                if er and res == "Err": R.ob(key, rend(er[0][1][1]).startswith("constant_ident_lookup(") and rend(er[0][1][1]).endswith("!"), o.where(), "another error is reported")
        # every type, every variable
        names = {}
        for c in b.calls(): names.setdefault(c.fn.split("::")[-1], []).append(c)
        R.ob("all:types", len(names.get("node_indices", [])) == 1 and not any(x in names for x in ("skip", "take", "filter", "step_by", "take_while", "skip_while")), o.where(), "not every type is visited")
        R.ob("all:vars", "keys" in names or any(".vars" in rend(a) for c in names.get("iter", []) for a in c.args()), o.where(), "not every variable is visited")

    def p_follow():
        o = R.fn(K + "follow")
        b = prep(o, closures=True, loops=True)
        KINDS = ["Null", "New", "List", "Call", "Prefab", "String", "Resource", "Float"]
        for term, fo in itertools.product(KINDS, F.variants("dreammaker::ast::Follow")):
            for hint, tree, found, novars in itertools.product((True, False), repeat=4):
                def env(t):
                    if t == ("arg", 2): return term
                    if t == ("arg", 3): return fo
                    r = rend(t) if t[0] in ("fld", "call") else ""
                    if r == "#2@Null": return "Some" if hint else "None"
                    if r == "#1.tree": return "Some" if tree else "None"
                    if named(t, "find"): return "Some" if found else "None"
                    if named(t, "is_empty"): return novars
                    if named(t, "next"): return "Some" if t[3] % 10 < 1 else "None"
                    return None
                ts = runs(b, env, visits=4, lists=False)
                key = "follow:%s:%s:%s" % (term, fo, "".join("ny"[x] for x in (hint, tree, found, novars)))
                rs = {rend(t.result) for t in ts}
                if fo == "Unary": good = rs == {"unary(#1, #2, #3@Unary)"}
                elif fo == "Field" and term == "Null" and hint and tree and found:
                    good = len(rs) == 1 and all(r.replace("index(", "").startswith("recursive_lookup(#1, find(#1.tree, ") and (r.endswith(", #3@Field.1, True)")) for r in rs)
                    for t in ts:
                        ps = [rend(e[1][1]) for e in t.events if e[0].split("::")[-1] in ("push", "push_str")]
                        good = good and ps == ["'/'", "item0"]
                elif fo in ("StaticField", "ProcReference") and term == "Prefab" and novars and tree and found:
                    f = "recursive_lookup(#1, find(#1.tree, FormatTreePath(#2@Prefab.path)), #3@StaticField, False)" if fo == "StaticField" else "proc_ref_lookup(#1, find(#1.tree, FormatTreePath(#2@Prefab.path)), #3@ProcReference)"
                    good = rs == {f} or rs == {f.replace("FormatTreePath(#2@Prefab.path)", "as_str(FormatTreePath(#2@Prefab.path))")}
                else: good = bool(rs) and all(r.startswith("Err(") for r in rs)
                R.ob(key, good, o.where(), "gives %s" % sorted(rs)[:2])

    def p_procref():
        o = R.fn(K + "proc_ref_lookup")
        b = prep(o, closures=True, loops=True)
        for has, decl in itertools.product(("Some", "None"), repeat=2):
            if has == "None" and decl == "Some": continue
            def env(t):
                if named(t, "get_proc"): return has
                if named(t, "get_declaration"): return decl
                if named(t, "next"): return "Some" if t[3] % 10 < 1 else "None"
                return None
            ts = [t for t in runs(b, env, visits=4, lists=False) if t.end == "return"]
            key = "proc:%s:%s" % (has, decl)
            R.ob(key, bool(ts), o.where(), "no result")
            for t in ts:
                if has == "None":
                    R.ob(key, rend(t.result).startswith("Err("), o.where(), "a reference to an unknown proc gives %s" % rend(t.result)[:80])
                    continue
                ev = [[rend(x) for x in e[1]] for e in t.events if e[0].split("::")[-1] in ("push", "extend", "insert", "chain", "extend_from_slice", "append")]
                vals = " ".join(x for a in ev for x in a)
                found = [e for e in t.events if e[0].endswith("::get_proc")]
                R.ob(key + ":proc", len(found) == 1 and all(rend(x) in ("new(#1.tree, #2)", "#3", "as_str(#3)", "deref(#3)") for x in found[0][1]), o.where(), "looks up %s" % [[rend(x) for x in e[1]] for e in found])
                R.ob(key + ":kind", (".kind" in vals) == (decl == "Some"), o.where(), "a proc %s declaration is referred to %s its kind" % ("with a" if decl == "Some" else "without", "with" if ".kind" in vals else "without"))
                R.ob(key + ":name", bool(ev) and ("name(get_proc(" in ev[-1][-1] or "#3" in ev[-1][-1]), o.where(), "the path ends in %s" % (ev[-1][-1] if ev else "nothing"))
                R.ob(key + ":result", rend(t.result).startswith("Ok(Prefab("), o.where(), "gives %s" % rend(t.result)[:60])
                R.ob(key + ":path", "get(new(#1.tree, #2)).path" in " ".join(rend(x) for e in t.events for x in e[1]), o.where(), "the path does not begin with the type's")

    def p_entries():
        o = R.fn(C + "simple_evaluate")
        for o, want in ((o, dict(context="None", tree="None", defines="None", location="#2", expr="#1")),
                        (R.fn(C + "preprocessor_evaluate"), dict(context="#4", tree="None", defines="Some(#3)", location="#1", expr="#2"))):
            ts = [t for t in traces(prep(o, loops=True)) if t.end == "return"]
            R.ob("entry:%s" % o.name, bool(ts), o.where(), "never returns")
            for t in ts:
                c = t.result
                ok = named(c, "expr") and c[2][0][0] == "agg" and rend(c[2][2]) == "None"
                f = dict(zip(c[2][0][4], map(rend, c[2][0][3]))) if ok else {}
                f["expr"] = rend(c[2][1]) if ok else None
                R.ob("entry:%s" % o.name, ok and all(f.get(k) == v for k, v in want.items()), o.where(), "evaluates %s" % {k: f.get(k) for k in want})
        o = R.fn(C + "evaluate_str")
        for t in traces(prep(o, loops=True)):
            if t.end != "return": continue
            left = [c for c in t.conds if named(c[0], "is_empty") and mentions(c[0], lambda z: named(z, "remaining"))]
            r = rend(t.result)
            if r.startswith("Err("): continue
            R.ob("entry:leftover", r.startswith("simple_evaluate(parse_expression(") and any((c[1] == "in") == (True in c[2]) for c in left), o.where(), "text after the expression is ignored: %s" % r[:100])

    R.part("lookup", p_lookup)
    R.part("climb", p_climb)
    R.part("all", p_all)
    R.part("follow", p_follow)
    R.part("proc references", p_procref)
    R.part("entries", p_entries)
