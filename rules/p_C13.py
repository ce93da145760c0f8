"""Conditional compilation: which branch is active, and that the others have no effect."""
import itertools, re
from preproc import *

RULE = """The state of a chain of conditionals is a truth table over its branches; every directive is run through every path of the preprocessor's
dispatch with the rest of its line scripted, in an active and in an inactive branch, and its stores and calls are compared with what the directive may do: in an
inactive branch nothing but keeping track of conditionals."""
# what may be done with the preprocessor in an inactive branch: reading, and ending the line of the directive
OK_CALLS = {"is_disabled", "inner_next", "error", "push_output", "eq", "ne", "deref", "as_str", "clone", "is_defined", "in_environment", "contains_key", "get", "len", "is_empty", "iter", "last", "first", "peek", "any", "all"}


def acts(t):
    """the calls of a trace that get at the preprocessor and may change it"""
    return {e[0].split("::")[-1] for e in t.events if any(re.match(r"#1\b", tk(x)) for x in e[1])} - OK_CALLS


def check(F, R):
    def p_chain():
        for f, args in (("new", ("active",)), ("else_", ()), ("else_if", ("active",))):
            o = R.fn(P + "Ifdef::" + f)
            b = prep(o, closures=True, loops=True)
            for was, cond in itertools.product((True, False), repeat=2):
                def env(t):
                    s = rend(t) if t[0] in ("fld", "arg") else ""
                    if s == "#1.chain_active": return was
                    if s == ("#2" if f == "new" else "#3"): return cond
                    return None
                ts = runs(b, env)
                R.ob("chain:%s:%s:%s" % (f, was, cond), bool(ts), o.where(), "no result")
                for t in ts:
                    r = t.result
                    m = dict(zip(r[4], r[3])) if r[0] == "agg" else {}
                    act, chain = {"new": (cond, cond), "else_": (not was, True), "else_if": (cond and not was, was or cond)}[f]
                    a, c = evaluate(m.get("active", ("none",)), env), evaluate(m.get("chain_active", ("none",)), env)
                    R.ob("chain:%s:%s:%s" % (f, was, cond), a == act, o.where(), "the branch is %s" % a)
                    R.ob("chain:%s:%s:%s:taken" % (f, was, cond), c == chain, o.where(), "the chain counts as taken: %s" % c)
                    R.ob("chain:%s:location" % f, rend(m.get("location", ("none",))) == ("#1" if f == "new" else "#2"), o.where(), "located at %s" % rend(m.get("location", ("none",))))
        # disabled: any enclosing branch is inactive
        o = R.fn(PP + "is_disabled")
        b = prep(o, closures=True, loops=True)
        for n in range(4):
            for act in itertools.product((True, False), repeat=n):
                def env(t):
                    if named(t, "next"): return "Some" if t[3] % 10 < n else "None"
                    if t[0] == "fld" and t[2] == "active":
                        k = subterm(t, lambda z: named(z, "next"))
                        return act[k[3] % 10] if k and k[3] % 10 < n else None
                    return None
                ts = runs(b, env, visits=6)
                key = "disabled:%s" % "".join("ny"[x] for x in act)
                R.ob(key, bool(ts), o.where(), "no result")
                for t in ts: R.ob(key, evaluate(t.result, env) == (not all(act)), o.where(), "gives %s" % rend(t.result)[:60])
        for t in traces(b, visits=2):
            for e in t.events:
                if e[0].endswith("::next"): R.ob("disabled:stack", mentions(e[1][0], lambda z: z[0] == "fld" and z[2] == "ifdef_stack"), o.where(), "looks at %s" % rend(e[1][0])[:60])
        o = R.fn(PP + "pop_ifdef")
        b = prep(o, closures=True, loops=True)
        for has in ("Some", "None"):
            ts = runs(b, lambda t: has if named(t, "pop") else None)
            R.ob("pop:%s" % has, bool(ts), o.where(), "no result")
            for t in ts:
                ins = calls(t, "insert")
                R.ob("pop:%s" % has, len(calls(t, "pop")) == 1 and rend(calls(t, "pop")[0][1][0]) == "#1.ifdef_stack", o.where(), "does not pop one conditional")
                if has == "None": R.ob("pop:None", not ins and rend(t.result) == "None" or rend(t.result) == "pop(#1.ifdef_stack)" and not ins, o.where(), "gives %s" % rend(t.result))
                else:
                    p = "pop(#1.ifdef_stack)"
                    R.ob("pop:history", len(ins) == 1 and [rend(x) for x in ins[0][1]] == ["#1.ifdef_history", "range(%s.location, #1.last_input_loc)" % p, p + ".active"], o.where(), "records %s" % [[rend(x) for x in e[1]] for e in ins])
                    R.ob("pop:Some", rend(t.result) in (p, "Some(%s)" % p), o.where(), "gives %s" % rend(t.result))

    def p_defined():
        o = R.fn(PP + "is_defined")
        for w in ("__MAIN__", "FOO"):
            for t in runs(prep(o, loops=True), lambda t: (w == rend(t).split("'")[1]) if named(t, "eq") and rend(t).count("'") == 2 else None):
                R.ob("defined:%s" % w, rend(t.result) == ("in_environment(#1)" if w == "__MAIN__" else "contains_key(#1.defines, #2)"), o.where(), "%s is %s" % (w, rend(t.result)))
        o = R.fn(PP + "in_environment")
        b = prep(o, closures=True, loops=True)
        for n in range(3):
            for files in itertools.product((True, False), repeat=n):
                for same in (True, False):
                    def env(t):
                        if named(t, "next"): return "Some" if t[3] % 10 < n else "None"
                        if named(t, "eq", "ne") and "env_file" in rend(t): return same == (tail(t) == "eq")
                        k = subterm(t, lambda z: named(z, "next")) if t[0] == "fld" else None
                        if k is not None and t[1][0] == "as" and t[1][1] == k: return "File" if files[k[3] % 10] else "Expansion"
                        return None
                    for t in runs(b, env, visits=5):
                        R.ob("environment:%s:%s" % ("".join("ny"[x] for x in files), same), evaluate(t.result, env) == (any(files) and same), o.where(), "gives %s" % rend(t.result)[:60])
                        for e in calls(t, "eq", "ne"):
                            k = subterm(e[1][0], lambda z: named(z, "next")) or subterm(e[1][1], lambda z: named(z, "next"))
                            R.ob("environment:innermost", k is not None and k[3] % 10 == files.index(True), o.where(), "does not look at the innermost file")
        for t in traces(b, visits=2):
            for e in calls(t, "next"): R.ob("environment:order", mentions(e[1][0], lambda z: named(z, "rev")), o.where(), "the includes are not visited from the innermost")

    def p_directives():
        o = R.fn(PP + "real_next")
        b = prep(o, closures=True, loops=True)
        SC = {"endif": [], "else": [], "ifdef": ["FOO", "nl"], "ifndef": ["FOO", "nl"], "if": [], "elif": [], "include": ["'a.dm'", "nl"], "define": ["FOO", "+", "nl"], "undef": ["FOO", "nl"], "warn": ["'x'"], "error": ["'x'"], "pragma": ["multiple"], "bogus": []}
        for w, rest in SC.items():
            for dis in (True, False):
                for had, yes in itertools.product((True, False), repeat=2):
                    def extra(t):
                        if named(t, "is_disabled"): return dis
                        if t == ("arg", 3): return False
                        if named(t, "pop_ifdef"): return "Some" if had else "None"
                        if named(t, "is_defined", "evaluate"): return yes
                        return None
                    ts = run(b, "#", [w] + rest, extra, visits=4)
                    key = "%s:%s" % (w, "inactive" if dis else "active")
                    R.ob(key, bool(ts), o.where(), "no result")
                    for t in ts:
                        r = tk(t.result)
                        pops, push = calls(t, "pop_ifdef"), [e for e in calls(t, "push") if tk(e[1][0]).endswith("ifdef_stack")]
                        ev = calls(t, "evaluate")
                        out = calls(t, "push_output")
                        if w in ("endif", "else", "elif") and not had:
                            R.ob(w + ":unmatched", r.startswith("Err(") and "unmatched #" + w in r and not push and len(pops) == 1, o.where(), "an unmatched #%s gives %s" % (w, r[:70]))
                            continue
                        if w in ("endif", "else", "elif", "if", "ifdef", "ifndef"):
                            want = {"endif": [], "else": ["else_(pop_ifdef(#1), #1.last_input_loc)"], "elif": ["else_if(pop_ifdef(#1), #1.last_input_loc, C)"], "if": ["new(#1.last_input_loc, C)"], "ifdef": ["new(#1.last_input_loc, C)"], "ifndef": ["new(#1.last_input_loc, N)"]}[w]
                            got = []
                            for e in push:
                                x = e[1][1]
                                if w in ("endif", "else"): got.append(tk(x)); continue
                                c = evaluate(x[2][-1], Script("#", [w] + rest, extra)) if x[0] == "call" else None
                                q = x[2][-1]
                                s = tk(q)
                                src = {"if": "evaluate(#1)", "elif": "evaluate(#1)", "ifdef": "is_defined(#1, T1.token@Ident)", "ifndef": "is_defined(#1, T1.token@Ident)"}[w]
                                mk = "C" if c == yes and src in s.replace("@Ident.0", "@Ident") else "N" if c == (not yes) and src in s.replace("@Ident.0", "@Ident") else s
                                got.append(re.sub(r"^(\w+)\(.*$", r"\1", tk(x)) + "(" + ", ".join([tk(y) for y in x[2][:-1]] + [mk]) + ")")
                            R.ob(key, got == want, o.where(), "#%s pushes %s" % (w, got))
                            R.ob(key + ":pops", len(pops) == (1 if w in ("endif", "else", "elif") else 0), o.where(), "#%s ends %d conditionals" % (w, len(pops)))
                            R.ob(key + ":evaluates", len(ev) == (1 if w in ("if", "elif") else 0) and (w != "elif" or t.events.index(pops[0]) < t.events.index(ev[0])), o.where(), "#%s evaluates %d conditions, or before the previous branch ended" % (w, len(ev)))
                            R.ob(key + ":result", r == "Ok(tuple)" and [tk(e[1][1]) for e in out] == ["Punct(Newline)"], o.where(), "#%s gives %s" % (w, r[:70]))
                            continue
                        R.ob(key + ":chain", not pops and not push and not ev, o.where(), "#%s changes the conditionals" % w)
                        if w == "bogus":
                            R.ob("unknown", r.startswith("Err("), o.where(), "an unknown directive gives %s" % r[:60])
                        elif dis:
                            wr = [tk(p) for p, v in t.writes if tk(p).startswith("#1")]
                            R.ob(key + ":effects", not acts(t) and not wr, o.where(), "in an inactive branch #%s does %s, stores %s" % (w, sorted(acts(t)), wr))
                            R.ob(key + ":output", all(tk(e[1][1]) == "Punct(Newline)" for e in out), o.where(), "in an inactive branch #%s gives out %s" % (w, [tk(e[1][1]) for e in out]))
                            R.ob(key, r == "Ok(tuple)", o.where(), "in an inactive branch #%s gives %s" % (w, r[:70]))
                            R.ob(key + ":line", len(calls(t, "inner_next")) == (1 + len(rest) if w == "define" else 1), o.where(), "#%s in an inactive branch reads %d tokens" % (w, len(calls(t, "inner_next"))))
                        else:
                            done = {"include": ("exists", "register_error", "prepare_include_file"), "define": ("insert", "in_environment"), "undef": ("remove",), "warn": ("register", "register_error"), "error": ("register", "register_error"), "pragma": ("insert", "eq")}[w]
                            R.ob(key + ":effects", bool(calls(t, *done)), o.where(), "in an active branch #%s does nothing" % w)
        # any other token
        for read in ("FOO", "+", "'s'", "doc", "nl", "int"):
            for dis, cond in itertools.product((True, False), repeat=2):
                def extra(t):
                    if named(t, "is_disabled"): return dis
                    if t == ("arg", 3): return cond
                    if named(t, "get") and "defines" in rend(t): return "None"
                    return None
                ts = run(b, read, ["(", ")"], extra, visits=3)
                key = "token:%s:%s%s" % (read, "inactive" if dis else "active", ":condition" if cond else "")
                R.ob(key, bool(ts), o.where(), "no result")
                for t in ts:
                    if dis and not cond:
                        wr = [tk(p) for p, v in t.writes if tk(p).startswith("#1")]
                        R.ob(key, tk(t.result) == "Ok(tuple)" and not acts(t) and not wr and not calls(t, "push_output", "inner_next"), o.where(), "in an inactive branch a token does %s" % sorted(acts(t)))
                    else:
                        R.ob(key, bool(calls(t, "push_output", "push_back", "push")), o.where(), "the token is dropped")
        R.count("directives", len(SC), 12)

    def p_condition():
        o = R.fn(PP + "evaluate_inner")
        b = prep(o, closures=True, loops=True)
        for dis in (True, False):
            for n in range(3):
                for pe, ev in (("Ok", "Ok"), ("Ok", "Err"), ("Err", "Ok")):
                    def extra(t):
                        if named(t, "is_disabled"): return dis
                        if named(t, "parse_expression"): return pe
                        if named(t, "preprocessor_evaluate"): return ev
                        if named(t, "real_next"): return "Ok"
                        return None
                    toks = ["FOO", "+"][:n] + ["nl"]
                    ts = runs(b, Script("-", toks, extra), visits=6, lists=False, seq=("inner_next",))
                    key = "condition:%s:%d:%s%s" % ("inactive" if dis else "active", n, pe, ev)
                    R.ob(key, bool(ts), o.where(), "no result")
                    for t in ts:
                        r = tk(t.result)
                        val = calls(t, "preprocessor_evaluate")
                        if dis: R.ob(key, r == "Ok(False)" and not val and not calls(t, "parse_expression", "register_error", "register"), o.where(), "a condition in an inactive branch gives %s" % r[:60])
                        elif (pe, ev) == ("Ok", "Ok"): R.ob(key, re.fullmatch(r"Ok\(to_bool\(preprocessor_evaluate\(.*\)\)\)", r) is not None and "parse_expression(" in r and "#1.defines" in r, o.where(), "a condition gives %s" % r[:80])
                        else: R.ob(key, r.startswith("Err("), o.where(), "a bad condition gives %s" % r[:60])
                        got = [[tk(x) for x in e[1]] for e in calls(t, "real_next")]
                        R.ob(key + ":line", len(calls(t, "inner_next")) == n + 1, o.where(), "reads %d tokens of a line of %d" % (len(calls(t, "inner_next")), n + 1))
                        if dis: R.ob(key + ":tokens", not got, o.where(), "in an inactive branch the condition's tokens are looked at (%s)" % got)
                        else: R.ob(key + ":tokens", got == [["#1", "T%d.token" % i, "True"] for i in range(n)], o.where(), "the condition consists of %s" % got)
                        s = calls(t, "parse_expression")
                        if s: R.ob("condition:expression", re.fullmatch(r"drain\(#1\.output, RangeFull\)", tk(s[0][1][2])) is not None, o.where(), "parses %s" % tk(s[0][1][2])[:60])
        # an error in a token of the condition is reported
        for t in runs(b, Script("-", ["FOO", "nl"], lambda t: False if named(t, "is_disabled") else "Err" if named(t, "real_next") else "Ok" if named(t, "parse_expression", "preprocessor_evaluate") else None), visits=4, seq=("inner_next",)):
            e = calls(t, "register_error", "register")
            R.ob("condition:error", len(e) == 1, o.where(), "%d errors are reported" % len(e))
        o = R.fn(PP + "evaluate")
        for ok in ("Ok", "Err"):
            for t in runs(prep(o, closures=True, loops=True), lambda t: ok if named(t, "evaluate_inner") else None):
                e = calls(t, "register_error", "register")
                R.ob("evaluate:%s" % ok, rend(t.result) == ("evaluate_inner(#1)" if ok == "Ok" else "False") and len(e) == (ok == "Err"), o.where(), "gives %s with %d errors" % (rend(t.result), len(e)))

    def p_eof():
        o = R.fn("<" + P + "Preprocessor as core::iter::traits::iterator::Iterator>::next")
        b = prep(o, closures=True, loops=True)
        for n in range(3):
            def env(t):
                if named(t, "pop_front"): return "None"
                if named(t, "inner_next"): return "None"
                if named(t, "pop_ifdef"): return "Some" if t[3] - SEQ < n else "None"
                return None
            ts = runs(b, env, visits=5, seq=("pop_ifdef",))
            R.ob("eof:%d" % n, bool(ts), o.where(), "no result")
            for t in ts:
                e = calls(t, "register_error", "register")
                R.ob("eof:%d" % n, rend(t.result) == "None" and len(e) == n and len(calls(t, "pop_ifdef")) == n + 1 and all("unterminated #if" in rend(x[1][1]) and "pop_ifdef(" in rend(x[1][1]) for x in e), o.where(), "%d errors for %d open conditionals" % (len(e), n))
        # every token is handled at its own location; errors are reported
        for ok in ("Ok", "Err"):
            def env(t):
                if named(t, "pop_front"): return "None" if t[3] - SEQ == 0 else "Some"
                if named(t, "inner_next"): return "Some"
                if named(t, "real_next"): return ok
                return None
            ts = runs(b, env, visits=4, seq=("inner_next", "pop_front"))
            R.ob("token:%s" % ok, bool(ts), o.where(), "no result")
            for t in ts:
                e = calls(t, "register_error", "register")
                w = [tk(v) for p, v in t.writes if tk(p) == "#1.last_input_loc"]
                c = [[tk(x) for x in e2[1]] for e2 in calls(t, "real_next")]
                R.ob("token:%s" % ok, c == [["#1", "T0.token", "False"]] and w == ["T0.location"] and len(e) == (ok == "Err"), o.where(), "handles %s at %s, %d errors" % (c, w, len(e)))

    R.part("chain", p_chain)
    R.part("defined", p_defined)
    R.part("directives", p_directives)
    R.part("condition", p_condition)
    R.part("eof", p_eof)
