"""Files, locations and messages keep their identity."""
import itertools
from lib import *

RULE = """File ids and the paths they stand for are compared as inverse functions, locations as a total order with its successor relation on corner values, every field of a
message is followed from its constructor or setter to its accessor, and the printed form is compared piece by piece for every relation between a message and its
notes."""
E = "dreammaker::error::"
BAD, MAXID = 0xffff, 0xfffe


def calls(t, *names): return [e for e in t.events if e[0].split("::")[-1] in names]


def num(t, env):
    """the value of an integer term; fields of #1 by name"""
    if t[0] == "k": return t[1] if isinstance(t[1], int) else None
    if t[0] == "agg" and len(t[3]) == 1: return num(t[3][0], env)
    s = rend(t)
    if s in env: return env[s]
    if t[0] == "cast": return num(t[2], env)
    if t[0] == "call" and tail(t) in ("from", "into") and len(t[2]) == 1: return num(t[2][0], env)
    if t[0] == "fld" and t[2] == "0": return num(t[1], env)
    if t[0] == "un" and t[1] == "Not":
        x = num(t[2], env)
        return None if x is None else ~x
    if t[0] == "bin":
        a, b = num(t[2], env), num(t[3], env)
        if a is None or b is None: return None
        op = t[1].replace("Unchecked", "")
        return {"Add": a + b, "Sub": a - b, "Shl": a << b if 0 <= b < 64 else None, "BitOr": a | b, "BitAnd": a & b, "BitXor": a ^ b, "Mul": a * b}.get(op)
    return None


def test(t, env):
    """the truth of a comparison of integer terms"""
    if t[0] == "bin" and t[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        a, b = num(t[2], env), num(t[3], env)
        if a is None or b is None: return None
        return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[t[1]]
    if named(t, "eq", "ne"):
        a, b = num(t[2][0], env), num(t[2][1], env)
        if a is None or b is None: return None
        return (a == b) == (tail(t) == "eq")
    return None


def fields(t):
    return dict(zip(t[4], t[3])) if t[0] == "agg" else {}


def check(F, R):
    def p_files():
        o = R.fn(E + "FileList::register")
        b = prep(o, closures=True, loops=True)
        for known in (True, False):
            for n in (0, 1, 5, MAXID - 1, MAXID, MAXID + 1, 2 ** 20):
                def env(t):
                    if named(t, "get") and "reverse_files" in rend(t): return "Some" if known else "None"
                    if named(t, "contains_key") and "reverse_files" in rend(t): return known
                    if t[0] in ("bin", "call"): return test(t, {"len(#1.files)": n})
                    return None
                ts = runs(b, env, visits=2)
                key = "register:%s:%d" % ("known" if known else "new", n)
                R.ob(key, bool(ts), o.where(), "no result")
                for t in ts:
                    push, ins = calls(t, "push"), calls(t, "insert")
                    if known:
                        R.ob(key, t.end == "return" and "get(#1.reverse_files, #2)" in rend(t.result) and not push and not ins, o.where(), "a known file gives %s" % rend(t.result)[:60])
                        continue
                    if n >= MAXID:
                        R.ob(key, t.end == "panic" and not push, o.where(), "file number %d is accepted" % n)
                        continue
                    # how many files there are where the number is taken: before or after adding this one
                    lens = [x[3] // 10 for x in subterms(t.result) if named(x, "len") and len(x) > 3]
                    bbs = [e[3] for e in t.events]
                    after = [bool(push) and bb in bbs and bbs.index(bb) > bbs.index(push[0][3]) for bb in lens]
                    have = n + 1 if after and all(after) else n
                    R.ob(key, t.end == "return" and not (any(after) and not all(after)) and num(t.result, {"len(#1.files)": have}) == n + 1, o.where(), "file number %d gets the id %s" % (n, rend(t.result)))
                    R.ob(key + ":recorded", [[rend(x) for x in e[1]] for e in push] == [["#1.files", "#2"]] and len(ins) == 1 and rend(ins[0][1][0]) == "#1.reverse_files" and rend(ins[0][1][1]) == "#2" and ins[0][1][2] == t.result, o.where(), "records %s, %s" % ([[rend(x) for x in e[1]] for e in push], [[rend(x) for x in e[1]] for e in ins]))
        o = R.fn(E + "FileList::get_path")
        b = prep(o, closures=True, loops=True)
        for n, f in itertools.product((0, 1, 7, MAXID), (0, 1, 2, 7, 8, MAXID, BAD)):
            v = {"len(#1.files)": n, "#2": f, "#2.0": f}

            def env(t):
                if t[0] in ("bin", "call"):
                    r = test(t, v)
                    if r is not None: return r
                if named(t, "get"):
                    i = num(t[2][1], v)
                    return None if i is None else "Some" if 0 <= i < n else "None"
                return None
            ts = runs(b, env, visits=2)
            key = "path:%d of %d" % (f, n)
            R.ob(key, bool(ts), o.where(), "no result")
            want = "(builtins)" if f == 0 else "file" if f <= n else "(unknown)"
            for t in ts:
                seen, ix = [], []

                def look(t):
                    seen.append(rend(t.result) + " ".join(rend(x) for e in t.events for x in e[1]))
                    ix.extend(num(e[1][1], v) for e in t.events if e[0].split("::")[-1] in ("index", "get") and len(e[1]) == 2)
                    for x in [t.result] + [x for e in t.events for x in e[1]]:
                        for c in parts_where(x, lambda c: c[0] == "agg" and c[1] == "closure" and c[2] in F.by_hash):
                            cb = R.saw(F.by_hash[c[2]])
                            for u in runs(prep(cb, closures=True, loops=True), env, init={1: c, 2: ("fld", ("arg", 1), "files")}): look(u)
                look(t)
                txt = " ".join(seen)
                got = "(builtins)" if "(builtins)" in txt else "(unknown)" if "(unknown)" in txt else "file" if ix else "?"
                R.ob(key, got == want, o.where(), "the path is %s, should be %s" % (got, want))
                if got == "file": R.ob("path:index", all(i == f - 1 for i in ix), o.where(), "looks at file %s" % ix)
        for f, w in (("Context::register_file", "register(#1.files, #2)"), ("Context::get_file", "get_id(#1.files, #2)"), ("Context::file_path", "get_path(#1.files, #2)"), ("FileList::get_id", "get(#1.reverse_files, #2)")):
            o = R.fn(E + f)
            for t in runs(prep(o), lambda t: None): R.ob(f, rend(t.result) == w, o.where(), "gives %s" % rend(t.result))
        o = R.fn(E + "FileList::for_each")
        for n in range(3):
            ts = [t for t in runs(prep(o, closures=True, loops=True), lambda t: ("Some" if t[3] % 10 < n else "None") if named(t, "next") else None, visits=5)]
            R.ob("for_each:%d" % n, bool(ts), o.where(), "no result")
            for t in ts: R.ob("for_each:%d" % n, [re.findall(r"item\d", " ".join(rend(x) for x in e[1])) for e in calls(t, "call_mut", "call", "closure")] == [["item%d" % k] for k in range(n)] and all("#1.files" in rend(e[1][0]) for e in calls(t, "next")), o.where(), "visits %s" % [[rend(x) for x in e[1]] for e in calls(t, "call_mut")])

    def p_locations():
        # the order: file, then line, then column
        o = R.fn("<" + E + "Location as core::cmp::Ord>::cmp")
        b = prep(o, loops=True)
        for c in itertools.product(("Less", "Equal", "Greater"), repeat=3):
            q = dict(zip(("file", "line", "column"), c))

            def env(t):
                if named(t, "cmp"):
                    s = rend(t)
                    for f in q:
                        if "#1." + f in s and "#2." + f in s: return q[f] if s.index("#1") < s.index("#2") else {"Less": "Greater", "Greater": "Less"}.get(q[f], q[f])
                if t[0] == "bin" or named(t, "eq", "ne", "lt", "gt", "le", "ge"):
                    s = rend(t)
                    for f in q:
                        if "#1." + f in s and "#2." + f in s:
                            op = t[1] if t[0] == "bin" else tail(t).capitalize()
                            d = {"Less": -1, "Equal": 0, "Greater": 1}[q[f]] * (1 if s.index("#1") < s.index("#2") else -1)
                            return {"Eq": d == 0, "Ne": d != 0, "Lt": d < 0, "Gt": d > 0, "Le": d <= 0, "Ge": d >= 0}.get(op)
                return None
            want = next((x for x in c if x != "Equal"), "Equal")
            ts = runs(b, env)
            key = "order:%s" % ",".join(c)
            R.ob(key, bool(ts), o.where(), "no result")
            for t in ts:
                r = evaluate(t.result, env) if t.result[0] != "agg" else t.result[2]
                R.ob(key, r == want, o.where(), "compares as %s" % rend(t.result))
        o = R.fn("<" + E + "FileId as core::cmp::Ord>::cmp")
        for t in runs(prep(o), lambda t: None): R.ob("order:file", re.fullmatch(r"cmp\(#1(\.0)?, #2(\.0)?\)", rend(t.result)) is not None, o.where(), "compares %s" % rend(t.result))
        M16, M32 = 2 ** 16 - 1, 2 ** 32 - 1
        corners = [(f, l, c) for f in (0, 1, 2, MAXID, BAD) for l in [0, 1, 2, M16, M16 + 1] + [2 ** k for k in range(17, 32)] + [M32] for c in (0, 1, 2, M16)]
        o = R.fn(E + "Location::pack")
        for t in runs(prep(o), lambda t: None):
            vals = [num(t.result, {"#1.file": f, "#1.file.0": f, "#1.line": l, "#1.column": c}) for f, l, c in corners]
            R.ob("pack", None not in vals and all(0 <= v < 2 ** 64 for v in vals) and all(x < y for x, y in zip(vals, vals[1:])), o.where(), "locations are packed as %s" % rend(t.result))
        o = R.fn(E + "Location::pred")
        b = prep(o, closures=True, loops=True)
        for f, l, c in corners:
            v = {"#1.file": f, "#1.file.0": f, "#1.line": l, "#1.column": c}

            def env(t):
                r = test(t, v)
                if r is None and t[0] in ("fld", "arg"): return num(t, v)
                return r
            ts = runs(b, env, visits=2)
            key = "pred:%d:%d:%d" % (f, l, c)
            R.ob(key, len(ts) == 1, o.where(), "%d results" % len(ts))
            want = (f, l, c - 1) if c else (f, l - 1, M16) if l else (f, l, c) if f == BAD else (f - 1, M32, M16) if f else None
            for t in ts:
                got = [f, l, c]
                for p, x in t.writes:
                    s = rend(p)
                    for k, (nm, m) in enumerate((("#1.file", M16), ("#1.line", M32), ("#1.column", M16))):
                        if s in (nm, nm + ".0"):
                            y = num(x, v)
                            got[k] = None if y is None else y & m
                if t.end == "panic": got = None
                elif t.result[0] == "agg":
                    m = fields(t.result)
                    got = [num(m[k], v) for k in ("file", "line", "column")]
                R.ob(key, (tuple(got) if got else None) == want, o.where(), "the predecessor is %s, should be %s" % (got, want))
        o = R.fn(E + "Location::add_columns")
        for t in runs(prep(o), lambda t: None):
            w = [(rend(p), num(x, {"#1.column": 5, "#2": 3})) for p, x in t.writes if rend(p).startswith("#1")]
            m = fields(t.result)
            R.ob("add_columns", w == [("#1.column", 8)] and rend(t.result) == "#1" or bool(m) and num(m["column"], {"#1.column": 5, "#2": 3}) == 8 and rend(m["line"]) == "#1.line", o.where(), "stores %s" % w)
        o = R.fn(E + "Location::builtins")
        for t in runs(prep(o), lambda t: None):
            m = fields(t.result)
            R.ob("builtins", bool(m) and [num(m[k], {}) for k in ("file", "line", "column")] == [0, 1, 1], o.where(), "is %s" % rend(t.result))
        o = R.fn(E + "Location::is_builtins")
        for f in (0, 1, BAD):
            env = lambda t: test(t, {"#1.file": f, "#1.file.0": f})
            for t in runs(prep(o), env): R.ob("is_builtins:%d" % f, evaluate(t.result, env) == (f == 0), o.where(), "gives %s" % rend(t.result))

    FIELDS = ("location", "severity", "component", "description", "notes", "cause", "errortype")

    def p_messages():
        o = R.fn(E + "DMError::new")
        for t in runs(prep(o), lambda t: None):
            m = {k: rend(v) for k, v in fields(t.result).items()}
            R.ob("new", m.get("location") == "#1" and m.get("description") == "#2" and m.get("severity") in ("default()", "Error") and m.get("component") in ("default()", "Unspecified") and m.get("errortype") == "None" and m.get("cause") == "None" and m.get("notes") in ("[]", "new()"), o.where(), "starts as %s" % m)
            R.count("message fields", len(m), 7)
        for f, want in (("set_severity", {"severity": "#2"}), ("with_component", {"component": "#2"}), ("with_errortype", {"errortype": "Some(#2)"}), ("with_location", {"location": "#2"})):
            o = R.fn(E + "DMError::" + f)
            for t in runs(prep(o), lambda t: None):
                w = {rend(p)[3:]: rend(v) for p, v in t.writes if rend(p).startswith("#1.")}
                m = fields(t.result)
                if m: w = {k: rend(v) for k, v in m.items() if rend(v) != "#1." + k}
                R.ob(f, w == want and (m or rend(t.result) == "#1") and not [e for e in t.events if e[0].split("::")[-1] in ("push", "clear", "insert")], o.where(), "changes %s" % w)
        o = R.fn(E + "DMError::add_note")
        for t in runs(prep(o), lambda t: None):
            p = calls(t, "push")
            R.ob("add_note", len(p) == 1 and rend(p[0][1][0]) == "#1.notes" and {k: rend(v) for k, v in fields(p[0][1][1]).items()} == {"location": "#2", "description": "#3"}, o.where(), "adds %s" % [[rend(x) for x in e[1]] for e in p])
        for f, loc, txt in (("with_note", "#2", "#3"), ("with_boxed_cause", "#1.location", "to_string(#2)")):
            o = R.fn(E + "DMError::" + f)
            for t in runs(prep(o), lambda t: None):
                a = [[rend(x) for x in e[1]] for e in calls(t, "add_note")]
                R.ob(f, a in ([["#1", loc, txt]], [["#1", loc, "#2"]]) and rend(t.result) == "#1", o.where(), "adds %s" % a)
        for f in ("location", "severity", "component", "description", "errortype", "notes"):
            o = R.fn(E + "DMError::" + f)
            for t in runs(prep(o), lambda t: None): R.ob("get:" + f, rend(t.result) == "#1." + f, o.where(), "gives %s" % rend(t.result))
        for f in ("location", "description"):
            o = R.fn(E + "DiagnosticNote::" + f)
            for t in runs(prep(o), lambda t: None): R.ob("get:note:" + f, rend(t.result) == "#1." + f, o.where(), "gives %s" % rend(t.result))
        o = R.fn("<" + E + "DMError as core::clone::Clone>::clone")
        for t in runs(prep(o), lambda t: None):
            m = {k: rend(v) for k, v in fields(t.result).items()}
            R.ob("clone", all(m.get(k) in ("#1." + k, "clone(#1.%s)" % k) for k in FIELDS if k != "cause"), o.where(), "a copy has %s" % m)
        o = R.fn(E + "DMError::register")
        for t in runs(prep(o), lambda t: None): R.ob("register", [[rend(x) for x in e[1]] for e in calls(t, "register_error")] == [["#2", "#1"]], o.where(), "is not handed to the context")
        o = R.fn("<" + E + "Severity as core::fmt::Display>::fmt")
        for v in ("Error", "Warning", "Info", "Hint"):
            for t in runs(prep(o), lambda t: v if t == ("arg", 1) else None):
                R.ob("severity:" + v, [x for e in t.events for x in (emitted(e[4] + " " + e[0], e[1]) or [])] == [v.lower()], o.where(), "is written %s" % [rend(x) for e in t.events for x in e[1]])

    def what(t):
        """the path of the printed thing: accessors are fields, a looked-up file path is the file"""
        while t[0] == "call" and tail(t) in ("deref", "display", "as_path", "as_ref", "borrow", "clone", "to_string", "get_path", "file_path", "get_file_path"): t = t[2][-1]
        if t[0] == "call" and len(t[2]) == 1 and tail(t) in FIELDS: return what(t[2][0]) + "." + tail(t)
        if re.fullmatch(r"item\d", rend(t)): return rend(t)
        if t[0] == "fld": return what(t[1]) + ("" if str(t[2]).isdigit() else "." + t[2])
        return rend(t)

    def p_print():
        for f, fn in (("print", E + "Context::pretty_print_error"), ("display", "<" + E + "DMError as core::fmt::Display>::fmt")):
            o = R.fn(fn)
            b = prep(o, closures=True, loops=True)
            who = "#3" if f == "print" else "#1"
            for rels in [x for n in range(3) for x in itertools.product(("here", "file", "else"), repeat=n)]:
                def env(t):
                    if named(t, "next"): return "Some" if t[3] % 10 < len(rels) else "None"
                    if named(t, "eq", "ne"):
                        s = rend(t)
                        m = re.search(r"item(\d)", s)
                        if m and int(m[1]) < len(rels):
                            r = rels[int(m[1])]
                            if "location.file" in s: return (r in ("here", "file")) == (tail(t) == "eq")
                            if "location" in s: return (r == "here") == (tail(t) == "eq")
                    if named(t, "branch"): return "Continue"
                    if named(t, "write_fmt", "set_color", "reset", "write_str", "write_all"): return "Ok"
                    return None
                ts = runs(b, env, visits=6)
                key = "%s:%s" % (f, ",".join(rels))
                R.ob(key, bool(ts), o.where(), "no result")
                for t in ts:
                    out = ""
                    for e in t.events:
                        if e[0].split("::")[-1] not in ("write_fmt", "write_str", "write_all"): continue
                        for x in emitted(e[0], e[1]) or []: out += x if isinstance(x, str) else "<" + what(x[1]).replace(who, "E") + ">"
                    want = "<E.location.file>, line <E.location.line>, column <E.location.column>:\n<E.severity>: <E.description>\n" if f == "print" else "<E.location.line>:<E.location.column>: <E.severity>: <E.description>"
                    for k, r in enumerate(rels):
                        n = "item%d" % k
                        d = "<%s.description>" % n
                        at = "<%s.location.line>:<%s.location.column>: " % (n, n)
                        s = "- " + ("" if r == "here" else at if r == "file" or f == "display" else "<%s.location.file>:" % n + at) + d
                        want += s + "\n" if f == "print" else "\n" + s
                    if f == "print": want += "\n"
                    R.ob(key, out == want, o.where(), "is printed as %r, should be %r" % (out, want))

    R.part("files", p_files)
    R.part("locations", p_locations)
    R.part("messages", p_messages)
    R.part("print", p_print)
