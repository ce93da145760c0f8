"""Macros and includes."""
import itertools
from preproc import *

RULE = """The handling of one token by the preprocessor is read off every path of its MIR with the tokens to come and the table of macros taken as known; definitions,
expansions (arguments, pasting, stringifying), predefined macros, #include, #undef and messages are compared with a reference model of the directive over
enumerated lines; the nesting of expansions is bounded on every path."""


def quiet(t):
    """what does not matter to the scenario: an active branch, no string being read, an empty output"""
    if named(t, "is_disabled"): return False
    if named(t, "back", "last") and "output" in rend(t): return "None"
    if t[0] == "bin" and "in_interp_string" in rend(t): return False
    return None


def depth(n):
    """assume the stack of includes holds n entries"""
    def f(v):
        if named(v, "len") and rend(v[2][0]).endswith("include_stack.stack"): return ("k", n)
        return None
    return f


class Bad(Exception): pass


def arguments(toks):
    """(arguments, tokens used) of a call after its `(`, None when it does not end"""
    args, cur, d = [], [], 0
    for i, x in enumerate(toks):
        if x == "(": d += 1
        elif x == ")":
            if not d: return args + [cur], i + 1
            d -= 1
        elif x == "," and not d:
            args.append(cur)
            cur = []
            continue
        cur.append(x)
    return None


def bare(x): return x.rstrip("~")


def substitute(params, subst, args, variadic):
    if variadic:
        n = len(params)
        if len(args) > n:
            rest = []
            for k, a in enumerate(args[n - 1:]): rest += ([","] if k else []) + a
            args = args[:n - 1] + [rest]
        elif len(args) + 1 == n: args = args + [[]]
    if len(args) != len(params): raise Bad("wrong number")
    out, it = [], iter(subst)

    def value(x): return list(args[params.index(bare(x))]) if kind(x)[0] == "Ident" and bare(x) in params else [x]
    for x in it:
        if x == "##":
            first, second = (out.pop() if out else None), next(it, None)
            if second is None:
                out += [first] if first is not None else []
                continue
            v = value(second)
            if first is None or kind(first)[0] != "Ident" or kind(second)[0] != "Ident" or not v: out += ([first] if first is not None else []) + v
            elif kind(v[0])[0] == "Ident": out += [bare(first) + bare(v[0]) + ("~" if v[0].endswith("~") else "")] + v[1:]
            elif v[0] == "int": out += [bare(first) + "7" + ("~" if second.endswith("~") else "")] + v[1:]
            else: out += [first] + v
        elif x == "#":
            second = next(it, None)
            if second is None or kind(second)[0] != "Ident" or bare(second) not in params: raise Bad("stringify")
            out.append("'" + " ".join(shown(y) for y in value(second)) + "'")
        else: out += value(x)
    return out


def shown(x): return "int" if x == "int" else x


def pushed(t):
    """the expansions a path pushes: lists of pieces"""
    r = []
    for e in calls(t, "push", "push_back"):
        if tk(e[1][0]) != "#1.include_stack.stack": continue
        x = e[1][1]
        m = dict(zip(x[4], x[3])) if x[0] == "agg" and x[2] == "Expansion" else None
        if m is None or m["tokens"][0] not in LISTY and not (m["tokens"][0] == "agg" and m["tokens"][1] == "array"): r.append((tk(x)[:80], None))
        else:
            ts = m["tokens"]
            r.append(([untoken(y) for y in (ts[1] if ts[0] in LISTY else ts[3])], tk(m["location"])))
    return r


def given(t):
    """the tokens a path puts out"""
    return [untoken(e[1][1]) for e in calls(t, "push_output")]


def errors(t): return [e for e in calls(t, "register", "register_error")]


def check(F, R):
    real = R.fn(PP + "real_next")
    b = prep(real, closures=True, loops=True)

    def p_call():
        n = 0
        substs = [()] + [s for k in (1, 2) for s in itertools.product(("a", "b", "q", "##", "#", "+"), repeat=k)]
        substs += [(x, "##", y) for x in ("a", "q", "+", "#") for y in ("a", "b", "q~", "int")] + [("#", "a", "##", "b"), ("q", "##", "a", "+"), ("q", "##", "a", "##", "b"), ("a", "#", "b"), ("#", "a", "#", "b")]
        lines = [("x", ",", "y"), ("x~", "int", ","), ("int", "+", ",", "(", "p", ",", "q", ")")]
        for s in substs:
            for line in (lines if "##" in s or "#" in s else lines[:2]):
                n += 1
                one(["a", "b"], list(s), ["("] + list(line) + [")", "z"], False)
        # reading the arguments, and how many there are
        for params, variadic in ((["a"], False), (["a", "b"], False), (["a"], True), (["a", "b"], True), (["a", "b", "c"], True)):
            for line in ((), ("x",), ("x", ",", "y"), ("x", ",", "y", ",", "z"), ("x", ",", ",", "(", ")", ",", "v"), ("(", "x", ",", "y", ")"), ("[", ","), (",", "(", "(", ")", ")", "int")):
                n += 1
                one(params, params + ["+"], ["("] + list(line) + [")", "z"], variadic)
        for line in ((), ("(",), ("(", "x", ","), ("(", "(", ")")): one(["a", "b"], ["a"], list(line), False)
        for x in ("w", "+", "nl", "int", "'s'", ")", "w~"):
            for read in ("F", "F~"):
                ts = play(b, read, [x, "z"], {"F": macro(["a"], ["a"])}, quiet, depth(1))
                R.ob("name only:%s" % x, bool(ts), real.where(), "no result")
                for t in ts:
                    # whatever follows is still to be processed
                    R.ob("name only:%s" % x, tk(t.result) == "Ok(tuple)" and given(t) == [read] and [y[0] for y in pushed(t)] == [[x]] and not errors(t), real.where(), "a macro's name followed by %s puts out %s and is followed by %s" % (x, given(t), pushed(t)))
        R.count("expansions", n, 150)

    def one(params, subst, toks, variadic):
        key = "call:%s(%s)%s:%s" % (" ".join(subst), ",".join(params), "..." if variadic else "", " ".join(toks))
        ts = play(b, "F", toks, {"F": macro(params, subst, variadic)}, quiet, depth(1))
        R.ob(key, len(ts) == 1, real.where(), "%d results" % len(ts))
        a = arguments(toks[1:]) if toks[:1] == ["("] else None
        try: want = substitute(params, subst, a[0], variadic) if a else None
        except Bad: want = None
        for t in ts:
            r = tk(t.result)
            if want is None: R.ob(key, r.startswith("Err(") and not pushed(t) and not given(t), real.where(), "gives %s, expands to %s" % (r[:60], pushed(t)))
            else:
                p = pushed(t)
                R.ob(key, r == "Ok(tuple)" and [x[0] for x in p] == [want] and not given(t) and not errors(t), real.where(), "expands to %s, should be %s" % ([x[0] for x in p], want))
                R.ob("call:location", all(x[1] == "#1.last_input_loc" for x in p), real.where(), "the expansion is located at %s" % [x[1] for x in p])
                R.ob(key + ":reads", len(calls(t, "inner_next")) == a[1] + 1, real.where(), "reads %d tokens of the call" % len(calls(t, "inner_next")))

    def p_const():
        for s in ((), ("x",), ("x~", "+", "F"), ("#", "a", "##", "b")):
            ts = play(b, "F", ["(", ")"], {"F": macro(None, s)}, quiet, depth(1))
            R.ob("constant:%s" % " ".join(s), bool(ts), real.where(), "no result")
            for t in ts: R.ob("constant:%s" % " ".join(s), tk(t.result) == "Ok(tuple)" and pushed(t) == [(list(s), "#1.last_input_loc")] and not given(t) and not errors(t) and not calls(t, "inner_next"), real.where(), "expands to %s" % pushed(t))
        for read in ("G", "G~", "+", "int", "'s'", "nl"):
            ts = play(b, read, ["("], {"F": macro(None, ["x"])}, quiet, depth(1))
            R.ob("plain:%s" % read, bool(ts), real.where(), "no result")
            for t in ts: R.ob("plain:%s" % read, tk(t.result) == "Ok(tuple)" and not pushed(t) and given(t) == [read] and not calls(t, "inner_next"), real.where(), "puts out %s" % given(t))
        # expansions do not nest without end
        for d in (macro(None, ["F"]), macro(["a"], ["F"])):
            for n in (2, 16, 10 ** 6):
                ts = play(b, "F", ["(", "x", ")"], {"F": d}, quiet, depth(n))
                R.ob("depth:%d" % n, bool(ts), real.where(), "no result")
                for t in ts:
                    if n < 10 ** 6: R.ob("depth:%d" % n, len(pushed(t)) == 1 and not errors(t), real.where(), "is not expanded at depth %d" % n)
                    else: R.ob("depth:%d" % n, not pushed(t) and len(errors(t)) == 1 and given(t) == ["F"], real.where(), "an expansion nested deeply pushes %s, %d errors" % (pushed(t), len(errors(t))))

    def p_special():
        ts = play(b, "__LINE__", [], {"__LINE__": macro(None, ["x"])}, quiet, depth(1))
        R.ob("__LINE__", bool(ts), real.where(), "no result")
        for t in ts: R.ob("__LINE__", [tk(e[1][1]) for e in calls(t, "push_output")] in (["Int(#1.last_input_loc.line)"], ["Int((#1.last_input_loc.line as i32))"]) and not pushed(t), real.where(), "gives %s" % given(t))
        for files in itertools.product((True, False), repeat=2):
            def env(t):
                v = quiet(t)
                if v is not None: return v
                if named(t, "next") and "include_stack.stack" in rend(t[2][0]): return "Some" if t[3] % 10 < 2 else "None"
                k = subterm(t, lambda z: named(z, "next")) if t[0] == "fld" else None
                if k is not None and k[3] % 10 < 2: return "File" if files[k[3] % 10] else "Expansion"
                return None
            ts = play(b, "__FILE__", [], {"__FILE__": macro(None, ["x"])}, env, depth(2))
            key = "__FILE__:%s" % "".join("ny"[x] for x in files)
            R.ob(key, bool(ts), real.where(), "no result")
            for t in ts:
                o = [x for e in calls(t, "push_output") for x in [e[1][1]]]
                nx = [z for x in o for z in [subterm(x, lambda z: named(z, "next"))] if z]
                R.ob(key, len(o) == 1 and not pushed(t) and (len(nx) == 1 and nx[0][3] % 10 == files.index(True) and "path" in rend(o[0]) if any(files) else not nx), real.where(), "gives %s" % [rend(x)[:60] for x in o])
                R.ob("__FILE__:order", all("rev(" in rend(x[2][0]) for x in nx), real.where(), "the files are not visited from the innermost")
        # defined(X) asks about X itself
        for last, fn in (("(", "defined"), ("(", "other"), ("+", "defined"), ("(", None)):
            def ex(v):
                if named(v, "back") and rend(v[2][0]).endswith(".output"): return some(("agg", "L", "LocatedToken", (("var", 903), token(last)), ("location", "token")))
                if named(v, "len") and rend(v[2][0]).endswith(".output"): return ("k", 2 if fn else 1)
                if named(v, "checked_sub") and v[2][0][0] == "k": return some(("k", v[2][0][1] - v[2][1][1])) if v[2][0][1] >= v[2][1][1] else NONE
                if named(v, "get", "index") and rend(v[2][0]).endswith(".output") and v[2][1] == ("k", 0):
                    r = ("agg", "L", "LocatedToken", (("var", 904), token(fn or "other")), ("location", "token"))
                    return some(r) if named(v, "get") else r
                return depth(1)(v)
            ts = play(b, "X", ["(", "y", ")"], {"X": macro(None, ["z"])}, quiet, ex)
            key = "defined:%s %s" % (fn, last)
            R.ob(key, bool(ts), real.where(), "no result")
            for t in ts:
                if last == "(" and fn == "defined": R.ob(key, not pushed(t) and given(t) == ["X"], real.where(), "the operand of defined() is expanded to %s" % pushed(t))
                else: R.ob(key, len(pushed(t)) == 1 and not given(t), real.where(), "X is not expanded after %s %s" % (fn, last))

    def p_define():
        good = {"X nl": (None, []), "X y nl": (None, ["y"]), "X~ ( a ) nl": (None, ["(", "a", ")"]), "X y + z~ # nl": (None, ["y", "+", "z~", "#"]), "X ( a ) nl": (["a"], []), "X ( a ) a nl": (["a"], ["a"]), "X ( a , b ) a + b nl": (["a", "b"], ["a", "+", "b"]),
                "X ( a ... ) a nl": (["a"], ["a"], True), "X ( a , ... ) a nl": (["a", "__VA_ARGS__"], ["a"], True), "X ( ... ) nl": (["__VA_ARGS__"], [], True), "X ( a , b ... ) # b nl": (["a", "b"], ["#", "b"], True), "X ( a~ , b~ ) ( nl": (["a", "b"], ["("])}
        bad = ("X ( ) nl", "X ( a b ) nl", "X ( a , ) nl", "X ( a ... , b ) nl", "X ( ... , b ) nl", "X ( 1x + ) nl", "+ nl", "nl", "X ( a", "X y", "X ( a , nl", "X ( a ... b ) nl")
        bad = tuple(x for x in bad if not x.startswith("X ( 1x"))
        for line in list(good) + list(bad):
            w = line.split()
            for prev in (False, True):
                def ex(v):
                    if named(v, "insert") and rend(v[2][0]).endswith(".defines"): return some(("var", 905)) if prev else NONE
                    return None
                ts = play(b, "#", ["define"] + w, {}, lambda t: "None" if named(t, "as_mut") else quiet(t), ex)
                key = "define:%s:%s" % (line, "again" if prev else "first")
                R.ob(key, bool(ts), real.where(), "no result")
                for t in ts:
                    r = tk(t.result)
                    ins = [e for e in calls(t, "insert") if tk(e[1][0]).endswith(".defines")]
                    if line not in good:
                        R.ob(key, r.startswith("Err(") and not ins, real.where(), "gives %s, defines %d macros" % (r[:60], len(ins)))
                        continue
                    g = good[line] + (False,) * (3 - len(good[line]))
                    got = []
                    for e in ins:
                        v = e[1][2]
                        d = v[3][1] if v[0] == "agg" and len(v[3]) == 2 else ("k", None)
                        m = dict(zip(d[4], d[3])) if d[0] == "agg" else {}
                        got.append((text(e[1][1]), tk(v[3][0]) if v[0] == "agg" else "", d[2] if d[0] == "agg" else "", tuple(text(x) for x in m["params"][1]) if "params" in m and m["params"][0] == "list" else None, tuple(untoken(x) for x in m["subst"][1]) if m.get("subst", ("",))[0] == "list" else tk(m.get("subst", ("none",))), m.get("variadic", ("k", False))))
                    want = ("X", "('loc', 1)", "Constant" if g[0] is None else "Function", None if g[0] is None else tuple(g[0]), tuple(g[1]), ("k", g[2]))
                    R.ob(key, r == "Ok(tuple)" and got == [want], real.where(), "defines %s" % got)
                    R.ob(key + ":reads", len(calls(t, "inner_next")) == 1 + len(w) and given(t) == ["nl"], real.where(), "reads %d tokens, puts out %s" % (len(calls(t, "inner_next")), given(t)))
                    R.ob(key + ":warning", len(errors(t)) == prev, real.where(), "%d messages" % len(errors(t)))
        # DEBUG counts in the environment file only; FILE_DIR may be repeated
        for name, inenv in itertools.product(("DEBUG", "FILE_DIR", "FOO"), (True, False)):
            ts = play(b, "#", ["define", name, "nl"], {}, lambda t: inenv if named(t, "in_environment") else "None" if named(t, "as_mut") else quiet(t), lambda v: some(("var", 905)) if named(v, "insert") and rend(v[2][0]).endswith(".defines") else None)
            R.ob("define:%s:%s" % (name, inenv), bool(ts), real.where(), "no result")
            for t in ts:
                ins = [e for e in calls(t, "insert") if tk(e[1][0]).endswith(".defines")]
                R.ob("define:%s:%s" % (name, inenv), len(ins) == (name != "DEBUG" or inenv), real.where(), "%s is %sdefined" % (name, "" if ins else "not "))
                R.ob("define:%s:%s:warning" % (name, inenv), len(errors(t)) == (bool(ins) and name != "FILE_DIR"), real.where(), "%d messages" % len(errors(t)))

    def p_undef():
        for had in (True, False):
            ts = play(b, "#", ["undef", "X", "nl"], {"X": ("var", 906)} if had else {}, quiet)
            R.ob("undef:%s" % had, bool(ts), real.where(), "no result")
            for t in ts:
                rm, mv = [e for e in calls(t, "remove") if tk(e[1][0]).endswith(".defines")], calls(t, "move_to_history")
                R.ob("undef:%s" % had, len(rm) == 1 and text(rm[0][1][1]) == "X" and [[tk(x) for x in e[1][1:]] for e in mv] == ([["'X'", "_906"]] if had else []) and len(errors(t)) == (not had), real.where(), "removes %s, records %s, %d messages" % ([text(e[1][1]) for e in rm], [[tk(x) for x in e[1]] for e in mv], len(errors(t))))
        for line in ("nl", "+ nl", "X y nl", "X"):
            ts = play(b, "#", ["undef"] + line.split(), {"X": ("var", 906)}, quiet)
            R.ob("undef:%s" % line, bool(ts), real.where(), "no result")
            for t in ts: R.ob("undef:%s" % line, tk(t.result).startswith("Err(") and not calls(t, "remove"), real.where(), "a malformed #undef gives %s" % tk(t.result)[:60])

    def p_messages():
        for w, sev in (("warn", "Warning"), ("error", None)):
            ts = play(b, "#", [w, "'boo'"], {}, quiet)
            R.ob(w, bool(ts), real.where(), "no result")
            for t in ts:
                e = errors(t)
                s = " ".join(tk(x) for x in e[0][1]) if e else ""
                R.ob(w, len(e) == 1 and "boo" in s and "#1.last_input_loc" in s and ("Warning" in s) == (sev == "Warning") and not ("set_severity" in s and sev is None), real.where(), "reports %s" % s[:100])
                R.ob(w + ":line", given(t) == ["nl"] and tk(t.result) == "Ok(tuple)", real.where(), "puts out %s" % given(t))
            for t in play(b, "#", [w, "X"], {}, quiet): R.ob(w + ":malformed", tk(t.result).startswith("Err("), real.where(), "gives %s" % tk(t.result)[:60])
        for w in ("multiple", "once", "other"):
            for t in play(b, "#", ["pragma", w], {}, quiet):
                ins = [[tk(x) for x in e[1]] for e in calls(t, "insert")]
                R.ob("pragma:%s" % w, ins == ([["#1.multiple_locations", "('loc', 1).file", "('loc', 1)"]] if w == "multiple" else []) and tk(t.result) == "Ok(tuple)", real.where(), "#pragma %s does %s" % (w, ins))

    def p_include():
        EXT = {"dmm": "maps", "dmf": "skins", "dms": "scripts", "dm": "push", "dme": "push", "txt": "error", None: "error"}
        for ext, exists in itertools.product(EXT, ((True, True), (True, False), (False, True), (False, False))):
            for ok in ((True, False) if EXT[ext] == "push" else (True,)):
                def ex(v):
                    n = tail(v)
                    if n in ("exists", "is_file"): return ("k", exists[which(v)])
                    if n == "to_str" and "extension(" in rend(v): return some(("k", ext)) if ext else NONE
                    if n == "and_then" and "extension(" in rend(v): return some(("k", ext)) if ext else NONE
                    if n == "prepare_include_file": return ("agg", "core::result::Result", "Ok" if ok else "Err", (("var", 907),), ("0",))
                    return None

                def which(v): return 0 if "top_file_path" in rend(v) or "include_stack" in rend(v) else 1

                def env(t):
                    if named(t, "extension"): return "Some" if ext else "None"
                    return "None" if named(t, "as_mut") else quiet(t)
                ts = play(b, "#", ["include", "'p.x'", "nl"], {}, env, ex)
                key = "include:%s:%s%s" % (ext, "".join("ny"[x] for x in exists), "" if ok else ":refused")
                R.ob(key, bool(ts), real.where(), "no result")
                for t in ts:
                    got = []
                    for e in t.events:
                        n, a = e[0].split("::")[-1], [tk(x) for x in e[1]]
                        if n == "prepare_include_file": got.append("open " + origin(e[1][1]))
                        elif n in ("push", "push_back") and a[0] in ("#1.maps", "#1.skins", "#1.scripts"): got.append(a[0][3:] + " " + origin(e[1][1]))
                        elif n in ("push", "push_back") and a[0] == "#1.include_stack.stack": got.append("push" if a[1] == "_907" else "push " + a[1][:40])
                        elif n in ("register", "register_error"): got.append("error")
                    c = "file" if exists[0] else "root" if exists[1] else None
                    k = EXT[ext]
                    want = ["error"] if c is None or k == "error" else ["open " + c, "push" if ok else "error"] if k == "push" else [k + " " + c]
                    R.ob(key, got == want and tk(t.result) == "Ok(tuple)", real.where(), "an #include does %s, should do %s" % (got, want))
                    # the first line of the file starts at its own indentation
                    if got[-1:] == ["push"]: R.ob("include:newline", given(t)[:1] == ["nl"], real.where(), "the included file does not start on a line of its own")
        for line in ("X", "nl", "'p.x' y", "'p.x'"):
            ts = play(b, "#", ["include"] + line.split(), {}, lambda t: "None" if named(t, "as_mut") else quiet(t))
            R.ob("include:malformed:%s" % line, bool(ts), real.where(), "no result")
            for t in ts: R.ob("include:malformed:%s" % line, tk(t.result).startswith("Err(") and not calls(t, "prepare_include_file", "exists"), real.where(), "gives %s" % tk(t.result)[:60])
        # a file is included once unless it says #pragma multiple
        o = R.fn(PP + "prepare_include_file")
        pb = prep(o, closures=True, loops=True)
        for opens, seen, multi, lexes in itertools.product((True, False), repeat=4):
            def env(t):
                if named(t, "open"): return "Ok" if opens else "Err"
                if named(t, "from_read"): return "Ok" if lexes else "Err"
                if named(t, "get") and "include_locations" in rend(t): return "Some" if seen else "None"
                if named(t, "contains_key") and "include_locations" in rend(t): return seen
                if named(t, "contains_key") and "multiple_locations" in rend(t): return multi
                if named(t, "get") and "multiple_locations" in rend(t): return "Some" if multi else "None"
                return None
            ts = runs(pb, env, visits=2)
            key = "once:" + "".join("ny"[x] for x in (opens, seen, multi, lexes))
            R.ob(key, bool(ts), o.where(), "no result")
            for t in ts:
                r = rend(t.result)
                good = opens and lexes and (not seen or multi)
                R.ob(key, r.startswith("Ok(") == good and (not good or "File(" in r) and (good or r.startswith("Err(")), o.where(), "gives %s" % r[:80])
                ins = [[rend(x) for x in e[1]] for e in calls(t, "insert") if "include_locations" in rend(e[1][0])]
                fid = [e for e in calls(t, "register_file")]
                if opens and not seen: R.ob(key + ":mark", len(ins) == 1 and "register_file(" in ins[0][1] and ins[0][2] == "#1.last_input_loc", o.where(), "records %s" % ins)
                else: R.ob(key + ":mark", not ins or seen and multi, o.where(), "records %s" % ins)
                if opens and seen and not multi: R.ob("once:duplicate", "duplicate" in r and "Warning" in r, o.where(), "a file included twice gives %s" % r[:100])
                for e in calls(t, "from_read"): R.ob("once:reads", "register_file(" in rend(e[1][1]) and "open(" in rend(e[1][2]), o.where(), "reads %s" % [rend(x)[:50] for x in e[1]])
                for e in fid: R.ob("once:name", "strip_prefix(" in rend(e[1][1]) or "#2" in rend(e[1][1]), o.where(), "is registered as %s" % rend(e[1][1])[:60])
        # the tokens come from the innermost file or expansion; it ends when it has no more
        o = R.fn("<" + P + "IncludeStack as core::iter::traits::iterator::Iterator>::next")
        nb = prep(o, closures=True, loops=True)
        for kinds in [x for n in range(4) for x in itertools.product(("F", "E"), repeat=n)]:
            for live in range(-1, len(kinds)):
                # the entries above `live` are empty
                def env(t):
                    n = None
                    if named(t, "last_mut", "last"):
                        k = len(kinds) - 1 - (t[3] - SEQ)
                        return "Some" if k >= 0 else "None"
                    if t[0] == "fld" and t[1][0] == "as" and named(t[1][1], "last_mut", "last"):
                        k = len(kinds) - 1 - (t[1][1][3] - SEQ)
                        return {"F": "File", "E": "Expansion"}[kinds[k]] if 0 <= k else None
                    if named(t, "next", "pop_front") or named(t, "is_empty"):
                        z = subterm(t, lambda z: named(z, "last_mut", "last"))
                        if z is None: return None
                        k = len(kinds) - 1 - (z[3] - SEQ)
                        has = k == live
                        if named(t, "next") and kinds[k] != "F" or named(t, "pop_front") and kinds[k] != "E": return None
                        return (not has) if named(t, "is_empty") else "Some" if has else "None"
                    return None
                ts = runs(nb, env, visits=6, seq=("last_mut", "last", "pop"))
                key = "stack:%s:%d" % ("".join(kinds), live)
                R.ob(key, bool(ts), o.where(), "no result")
                for t in ts:
                    r, pops = rend(t.result), [e for e in calls(t, "pop") if rend(e[1][0]).endswith("stack")]
                    gone = len(kinds) - 1 - live
                    R.ob(key + ":pops", len(pops) == gone, o.where(), "%d entries are popped" % len(pops))
                    if live < 0: R.ob(key, r == "None", o.where(), "gives %s" % r)
                    elif kinds[live] == "F": R.ob(key, "lexer" in r or re.fullmatch(r"(Some\()?item\d*\)?", r) is not None, o.where(), "gives %s" % r)
                    else: R.ob(key, re.search(r"location: ?|LocatedToken\(", r) is not None and "pop_front(" in r and "@Expansion.location" in r, o.where(), "gives %s" % r)
        R.count("include kinds", len(EXT), 7)

    def origin(t):
        s = rend(t)
        return "file" if "top_file_path" in s or "include_stack" in s else "root" if "env_file" in s else s[:50]

    def p_docs():
        # a comment for the following item waits for the next #define; anything else takes it back
        for target, tgt in (("FollowingItem", True), ("EnclosingItem", False)):
            def env(t):
                if named(t, "eq", "ne") and "target" in rend(t): return tgt == (tail(t) == "eq")
                if t[0] == "fld" and t[2] == "target": return target
                return quiet(t)
            ts = play(b, "doc", [], {}, env)
            R.ob("doc:%s" % target, bool(ts), real.where(), "no result")
            for t in ts:
                p = [e for e in calls(t, "push_back", "push") if tk(e[1][0]) == "#1.docs_in"]
                R.ob("doc:%s" % target, len(p) == (1 if tgt else 0) and len(calls(t, "push_output")) == (0 if tgt else 1), real.where(), "a comment is kept %d times and put out %d times" % (len(p), len(calls(t, "push_output"))))
                for e in p: R.ob("doc:location", "#1.last_input_loc" in tk(e[1][1]) and "_900" in tk(e[1][1]), real.where(), "keeps %s" % tk(e[1][1]))
        for read, white in (("X", False), ("+", False), ("nl", True), ("'s'", False)):
            ts = play(b, read, [], {}, lambda t: white if named(t, "is_whitespace") else quiet(t))
            for t in ts:
                f, p = calls(t, "flush_docs"), calls(t, "push_output")
                R.ob("docs:flush:%s" % read, bool(f) == (not white) and len(p) == 1 and all(t.events.index(x) < t.events.index(p[0]) for x in f), real.where(), "a comment kept is put out %d times before the token" % len(f))
        for t in play(b, "#", ["define", "X", "y", "nl"], {}, lambda t: "None" if named(t, "as_mut") else quiet(t)):
            R.ob("docs:define", not calls(t, "flush_docs") and any(e[0].endswith(("::drain", "::take", "::pop_front")) and e[1] and "docs_in" in tk(e[1][0]) for e in t.events), real.where(), "a comment before a #define is not its documentation")
        o = R.fn(PP + "flush_docs")
        for t in runs(prep(o, closures=True, loops=True), lambda t: False if named(t, "is_empty") else "Some" if named(t, "next") and t[3] % 10 == 0 else "None" if named(t, "next") else None, visits=3):
            s = " ".join(e[0].split("::")[-1] + "(" + ", ".join(rend(x) for x in e[1]) + ")" for e in t.events)
            R.ob("docs:flush", "docs_in" in s and "#1.output" in s and "drain(" in s, o.where(), "does %s" % s[:120])

    R.part("call", p_call)
    R.part("include", p_include)
    R.part("docs", p_docs)
    R.part("constant", p_const)
    R.part("special", p_special)
    R.part("define", p_define)
    R.part("undef", p_undef)
    R.part("messages", p_messages)

    def p_nesting():
        n = 0
        for b in F.bodies:
            if "::preprocessor::" not in b.path: continue
            for bb, i, t in field_writes(b, "in_interp_string"):
                t = base(t)
                while t[0] == "fld": t = base(t[1])
                n += 1
                wrap = subterm(t, lambda z: named(z, "wrapping_sub", "overflowing_sub", "unchecked_sub", "wrapping_add_signed"))
                if t[0] == "bin" and t[1].startswith("Sub") or wrap:
                    x = rend(wrap[2][0] if wrap else t[2])
                    zero = lambda g, m, vs: rend(g) == x and (m == "not" and "0" in map(str, vs)) or g[0] == "bin" and x in (rend(g[2]), rend(g[3])) and (g[1] in ("Gt", "Lt", "Ne", "Eq", "Ge", "Le"))
                    R.ob(("nesting", b.path, str(n)), dom_guarded(b, bb, zero), f"{b.where()} (block {bb})", "an end of an interpolated text without a beginning makes the nesting counter wrap around")
                else: R.ob(("nesting", b.path, str(n)), True, b.where(), "")
        R.count("writes of the nesting of interpolated texts", n, 2)
    R.part("nesting", p_nesting)
