"""The table of macros and its history."""
from preproc import *

RULE = """Every operation of the macro table is a function of the stack of definitions of one name, decided for every stack of up to three; what goes into the history,
with which range, and what a branched preprocessor starts from are compared term by term on every path."""
D = P + "DefineMap::"


def check(F, R):
    def entry(k): return ("agg", "tuple", "", (("loc", k), ("def", k)), ())

    def p_table():
        for f in ("contains_key", "get", "insert", "remove"):
            o = R.fn(D + f)
            b = prep(o, closures=True, loops=True)
            for n in range(4):
                st = lst(entry(k) for k in range(n))

                def seed(v):
                    m = tail(v)
                    if m in ("get", "get_mut", "remove") and v[2] and rend(v[2][0]) == "#1.inner": return some(st) if n else NONE
                    if m == "map_or" and v[2][0] == NONE: return v[2][1]
                    if m == "is_some" and v[2][0][0] == "agg": return ("k", v[2][0][2] == "Some")
                    return None

                def env(t):
                    if named(t, "is_empty") and "#1.inner" in rend(t): return n == 0 or None
                    if named(t, "last") and "#1.inner" in rend(t): return "Some" if n else "None"
                    if named(t, "contains_key") and rend(t[2][0]) == "#1.inner": return n > 0
                    return None
                ts = runs(b, env, visits=2, seed=seed)
                key = "%s:%d" % (f, n)
                R.ob(key, bool(ts), o.where(), "no result")
                for t in ts:
                    r = t.result
                    if f == "contains_key": R.ob(key, evaluate(r, env) == (n > 0), o.where(), "gives %s" % rend(r))
                    if f == "get": R.ob(key, r == (some(entry(n - 1)) if n else NONE), o.where(), "gives %s" % rend(r))
                    if f == "remove":
                        gone = [e for e in calls(t, "remove") if rend(e[1][0]) == "#1.inner"]
                        pops = [e for e in calls(t, "pop")]
                        # the pop may be modelled (its result is the last entry) or recorded
                        R.ob(key, r == (some(entry(n - 1)) if n else NONE), o.where(), "gives %s" % rend(r)[:80])
                        R.ob(key + ":gone", len(gone) == (1 if n == 1 else 0) and all(rend(e[1][1]) == "#2" for e in gone), o.where(), "of %d definitions the name is %sremoved" % (n, "" if gone else "not "))
                    if f == "insert":
                        p = [e for e in calls(t, "push")]
                        s = rend(r)
                        R.ob("insert:push", len(p) == 1 and rend(p[0][1][1]) == "#3" and "entry(#1.inner, #2)" in rend(p[0][1][0]), o.where(), "pushes %s" % [[rend(x)[:60] for x in e[1]] for e in p])
                for t in (runs(b, lambda t: ("Some" if n else "None") if named(t, "last") else (n == 0) if named(t, "is_empty") else None, visits=2) if f == "insert" else ()):
                    s = rend(t.result)
                    ev = [e[0].split("::")[-1] for e in t.events]
                    R.ob(key, s == "None" if n == 0 else re.fullmatch(r"Some\(last\(or_(insert_with|insert|default)\(entry\(#1\.inner, #2\).*\)", s) is not None and "tuple" not in s and ".1" not in s.replace("#1.inner", ""), o.where(), "gives %s" % s)
                    R.ob("insert:order", "push" in ev and ("last" not in ev or ev.index("last") < ev.index("push")), o.where(), "looks at the previous definition after the push")

    def p_history():
        o = R.fn(PP + "move_to_history")
        for t in runs(prep(o, loops=True), lambda t: None):
            ins = [[rend(x) for x in e[1]] for e in calls(t, "insert")]
            R.ob("undef", ins == [["#1.history", "range(#3.0, #1.last_input_loc)", "tuple(#2, #3.1)"]], o.where(), "records %s" % ins)
        o = R.fn(D + "from_history")
        b = prep(o, closures=True, loops=True)
        for n in range(3):
            ts = runs(b, lambda t: ("Some" if t[3] % 10 < n else "None") if named(t, "next") else None, visits=5)
            R.ob("from_history:%d" % n, bool(ts), o.where(), "no result")
            for t in ts:
                ins = [[re.sub(r"^default\(\)$", "M", rend(x)) for x in e[1]][1:] for e in calls(t, "insert")]
                R.ob("from_history:%d" % n, ins == [["item%d.1" % k, "tuple(item%d.start, item%d.1.1)" % (k, k)] for k in range(n)], o.where(), "takes %s" % ins)
                for e in calls(t, "next"): R.ob("from_history:range", re.fullmatch(r"range\(#1, range\(#2, #2\)\)", rend(e[1][0])) is not None, o.where(), "looks at %s" % rend(e[1][0]))
                for e in calls(t, "insert"): R.ob("from_history:into", "default(" in rend(e[1][0]) or "new(" in rend(e[1][0]) or e[1][0][0] == "upd", o.where(), "adds to %s" % rend(e[1][0])[:60])
        o = R.fn(PP + "finalize")
        b = prep(o, closures=True, loops=True)
        sizes = {}
        for shape in ((), (1,), (2,), (1, 2), (2, 1), (3,)):
            # the table as a list of (name, definitions)
            tbl = lst(("agg", "tuple", "", (("name", i), lst(entry(10 * i + k) for k in range(n))), ()) for i, n in enumerate(shape))
            ts = runs(b, lambda t: None, visits=12, seed=lambda v: ("iter", tbl[1]) if named(v, "drain", "into_iter") and "defines.inner" in rend(v[2][0]) else tbl if named(v, "take", "replace") and "defines.inner" in rend(v[2][0]) else v[2][0] if named(v, "clone", "to_owned") else None)
            key = "finalize:%s" % "".join(map(str, shape))
            R.ob(key, bool(ts), o.where(), "no result")
            for t in ts:
                got, ends = [], []
                for e in calls(t, "insert"):
                    rg, v = e[1][1], e[1][2]
                    a = rg[2] if rg[0] == "call" and tail(rg) == "range" else rg[3] if rg[0] == "agg" else ()
                    if len(a) != 2 or v[0] != "agg": continue
                    m = dict(zip(a[1][4], a[1][3])) if a[1][0] == "agg" else {}
                    got.append((rend(e[1][0]), a[0], v[3]))
                    ends.append(tuple(rend(m.get(x, ("none",))) for x in ("file", "line", "column")))
                want = [("#1.history", ("loc", 10 * i + k), (("name", i), ("def", 10 * i + k))) for i, n in enumerate(shape) for k in range(n)]
                R.ob(key, got == want, o.where(), "records %s" % [tuple(map(str, x))[:3] for x in got])
                R.ob(key + ":distinct", len(set(ends)) == len(want), o.where(), "definitions end at %s" % ends)
                for x in ends: R.ob("finalize:end", x[0] in ("default()",) and x[1] in ("Not(0)", str(2 ** 32 - 1)), o.where(), "a definition that is never undone ends at %s" % (x,))
                m = dict(zip(t.result[4], t.result[3])) if t.result[0] == "agg" else {}
                R.ob("finalize:result", {k: rend(v) for k, v in m.items() if k != "tree"} == {"env_file": "#1.env_file", "last_input_loc": "#1.last_input_loc"} and (rend(m.get("tree", ("none",))) == "#1.history" or m["tree"][0] == "upd"), o.where(), "gives %s" % {k: rend(v)[:40] for k, v in m.items()})
        # the end of what is never undone comes after every location in a file
        o = R.fn("<dreammaker::error::FileId as core::default::Default>::default")
        for t in runs(prep(o), lambda t: None): R.ob("finalize:last file", "65535" in rend(t.result), o.where(), "the last file id is %s" % rend(t.result))

    def p_branch():
        for f, at in (("branch_at_file", {"Location(#2, 0, 0)"}), ("branch_at_end", {"#1.last_input_loc"})):
            o = R.fn(P + "DefineHistory::" + f)
            for t in runs(prep(o, loops=True), lambda t: None):
                m = dict(zip(t.result[4], t.result[3])) if t.result[0] == "agg" else {}
                R.ob(f, bool(m), o.where(), "gives %s" % rend(t.result)[:60])
                d = rend(m.get("defines", ("none",)))
                mm = re.fullmatch(r"from_history\((.*?), (.*)\)", d)
                R.ob(f + ":defines", mm is not None and mm[1] in ("#1", "#1.tree", "deref(#1)") and mm[2] in at, o.where(), "starts with %s" % d)
                R.ob(f + ":at", rend(m.get("last_input_loc", ("none",))) in at, o.where(), "starts at %s" % rend(m.get("last_input_loc", ("none",))))
                R.ob(f + ":environment", rend(m.get("env_file", ("none",))) == "#1.env_file" and rend(m.get("context", ("none",))) == ("#3" if f == "branch_at_file" else "#2"), o.where(), "environment %s" % rend(m.get("env_file", ("none",))))
                empty = {k: rend(v) for k, v in m.items() if k not in ("defines", "last_input_loc", "last_printable_input_loc", "env_file", "context")}
                R.ob(f + ":fresh", all(x in ("default()", "new()", "0", "None", "[]") for x in empty.values()), o.where(), "starts with %s" % {k: v for k, v in empty.items() if v not in ("default()", "0", "None")})
        for f in ("new", "from_buffer"):
            o = R.fn(PP + f)
            ok = 0
            for t in runs(prep(o, closures=True, loops=True), lambda t: "Ok" if named(t, "from_path") else None):
                z = t.result
                if z[0] == "agg" and z[2] == "Ok": z = z[3][0]
                m = dict(zip(z[4], z[3])) if z[0] == "agg" else {}
                if not m: continue
                ok += 1
                R.ob(f + ":macros", rend(m["defines"]) == "with_builtins()", o.where(), "starts with %s" % rend(m["defines"]))
                st = dict(zip(m["include_stack"][4], m["include_stack"][3])) if m["include_stack"][0] == "agg" else {}
                s = st.get("stack", ("none",))
                R.ob(f + ":file", s[0] == "list" and len(s[1]) == 1 and "#1" in rend(s[1][0]) and ("#2" in rend(s[1][0]) or "env_file" in rend(s[1][0])), o.where(), "reads %s" % rend(s)[:80])
                R.ob(f + ":environment", "#2" in rend(m["env_file"]), o.where(), "environment %s" % rend(m["env_file"]))
                empty = {k: rend(v) for k, v in m.items() if k not in ("defines", "include_stack", "env_file", "context")}
                R.ob(f + ":fresh", all(x in ("default()", "new()", "0", "None", "[]") for x in empty.values()), o.where(), "starts with %s" % {k: v for k, v in empty.items() if v not in ("default()", "0", "None")})
            R.ob(f, ok > 0, o.where(), "no result")

    R.part("table", p_table)
    R.part("history", p_history)
    R.part("branch", p_branch)
