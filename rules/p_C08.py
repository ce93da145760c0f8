"""Constants are written as the DM source text that means them."""
import re
from lib import *

RULE = """For every constant variant, every path of its Display code (loops unrolled twice, helpers inlined) is enumerated from MIR with the
text it writes; each text must be in the DM grammar of that variant with its own components in its holes, and the paths must cover zero,
one and two elements with and without associated values.  The quoting of strings and the words for special numbers are decision tables."""
C = "dreammaker::constants::"


def text(b, t, name):
    out = ""
    for e in t.events:
        em = emitted(e[0], e[1])
        if em:
            for x in em:
                out += x if isinstance(x, str) else "<%s>" % name(elems(b, base(x[1])), x[2])
    return out


def okret(t):
    return t.end == "return" and not (t.result[0] == "agg" and t.result[2] == "Err")


def check(F, R):
    def display(ty):
        l = [x for x in F.bodies if x.k == "fn" and re.sub(r"^<([\w:]+)<.*?> as", r"<\1 as", x.npath) == "<%s as core::fmt::Display>::fmt" % ty]
        if len(l) != 1: raise AnchorMissing("Display of %s" % ty)
        R.saw(l[0])
        return l[0]

    def p_const():
        o = display(C + "Constant")
        b = prep(o)
        me = ("arg", 1)
        p = lambda v, f: ("fld", ("as", me, v), f)

        def name(t, kind):
            if kind != "display": return "?"
            t = base(t)
            if t[0] == "agg" and len(t[3]) == 1: return str(t[1]).split("::")[-1] + ":" + "".join(v for v in ("String", "Float") if strip_deref(t[3][0]) == p(v, "0"))
            if t == p("Prefab", "0") or t == ("fld", ("as", p("New", "type_"), "Some"), "0"): return "prefab"
            if t == p("Resource", "0"): return "path"
            if t == p("Call", "0"): return "fn"
            q = t
            if q[0] == "fld" and q[2] == "0" and q[1][0] == "as" and q[1][2] == "Some" and q[1][1][0] == "fld" and q[1][1][2] == "1" and q[1][1][1][0] == "elem": return "v:" + own(q[1][1][1])
            if q[0] == "fld" and q[2] == "0" and q[1][0] == "elem": return "k:" + own(q[1])
            return "?" + show(t, b)

        def own(e):
            s = e[1]
            for v, w, f in (("List", "list", "0"), ("Call", "call", "1")):
                if mentions(s, lambda x: x == ("as", me, v)): return w
            if mentions(s, lambda x: x == p("New", "args")): return "new"
            return "?"
        seen = {}
        for t in traces(b, visits=3):
            if not okret(t): continue
            v = [set(c[2]) for c in t.conds if c[0] == me]
            v = list(v[0])[0] if v and len(v[0]) == 1 else "?"
            seen.setdefault(v, set()).add((text(b, t, name), t.result))
        item = lambda w: "<k:%s>( = <v:%s>)?" % (w, w)
        arglist = lambda w: r"\((%s(, ?%s)*)?\)" % (item(w), item(w))
        gram = {"Null": "null", "New": "new( <prefab>)?(%s)?" % arglist("new"), "List": "list" + arglist("list"), "Call": "<fn>" + arglist("call"), "Prefab": "<prefab>", "Resource": "'<path>'"}
        R.count("variants", len(seen), 8)
        for v, g in gram.items():
            R.ob("written:%s" % v, bool(seen.get(v)), o.where(), "a %s constant is never written" % v)
            for tx, r in sorted(seen.get(v, ()), key=repr):
                R.ob("text:%s" % v, re.fullmatch(g, tx) is not None, o.where(), "a %s constant can be written as %s" % (v, tx))
            w = {"New": "new", "List": "list", "Call": "call"}.get(v)
            if w:
                txs = {re.sub(", ?", ", ", tx) for tx, r in seen.get(v, ())}
                K, V = "<k:%s>" % w, "<k:%s> = <v:%s>" % (w, w)
                pre = {"New": ["new", "new <prefab>"], "List": ["list"], "Call": ["<fn>"]}[v]
                want = {a + "(" + ", ".join(x) + ")" for a in pre for x in [(), (K,), (V,), (K, K), (K, V), (V, K), (V, V)]}
                if v == "New": want |= set(pre)
                for x in sorted(want - txs): R.ob("covers:%s" % v, False, o.where(), "a %s constant is not written as %s" % (v, x))
                for x in sorted(want & txs): R.ob("covers:%s:%s" % (v, x), True, o.where())
        for v, q in (("String", "Quote"), ("Float", "FormatFloat")):
            for tx, r in seen.get(v, ()):
                ok = tx == "<%s:%s>" % (q, v)
                R.ob("text:%s" % v, ok, o.where(), "a %s constant is written as %s" % (v, tx or show(rr, b)))
            R.ob("written:%s" % v, bool(seen.get(v)), o.where(), "a %s constant is never written" % v)
    R.part("constants", p_const)

    def p_fn():
        o = display(C + "ConstFn")
        b = prep(o)
        names = {v: v.lower() for v in F.variants(C + "ConstFn")}
        R.count("functions", len(names), 8)
        for v, w in names.items():
            ts = fit(traces(b), lambda t: v if t == ("arg", 1) else None)
            got = {const_of(e[1][-1]) for t in ts for e in t.events if emitted(e[0], e[1])} | {const_of(t.result[2][1]) for t in ts if t.result and t.result[0] == "call" and len(t.result[2]) > 1}
            R.ob("function:%s" % v, got == {w}, o.where(), "%s() is written as %s" % (w, got))
    R.part("functions", p_fn)

    def p_paths():
        o = display("dreammaker::ast::FormatTreePath")
        b = prep(o)
        n = lambda t, k: "e" if t == ("elem", ("fld", ("arg", 1), "0")) and k == "display" else "?" + show(t, b)
        got = {text(b, t, n) for t in traces(b, visits=3) if okret(t)}
        R.ob("type-path", got == {"", "/<e>", "/<e>/<e>"}, o.where(), "a type path is written as %s" % sorted(got))
        o = display("dreammaker::ast::FormatVars")
        b = prep(o)
        E = ("elem", ("fld", ("arg", 1), "0"))
        n = lambda t, k: {"0": "n", "1": "v"}.get(t[2], "?") if t[0] == "fld" and t[1] == E and k == "display" else "?" + show(t, b)
        got = {text(b, t, n).replace(" ", "") for t in traces(b, visits=3) if okret(t)}
        R.ob("variables", got == {"", "{<n>=<v>}", "{<n>=<v>;<n>=<v>}"}, o.where(), "variables are written as %s" % sorted(got))
        o = display(C + "Pop")
        b = prep(o)
        def n(t, k):
            if t[0] != "agg" or not t[3]: return "?" + show(t, b)
            s = strip_deref(t[3][0])
            while s[0] == "call" and s[1].split("::")[-1] in ("deref", "as_ref", "as_slice", "borrow"): s = strip_deref(s[2][0])
            r = {"FormatTreePath": "path", "FormatVars": "vars"}.get(str(t[1]).split("::")[-1].split("<")[0])
            return r if r and s in (("fld", ("arg", 1), r), ("fld", ("fld", ("arg", 1), r), "0")) else "?" + show(t, b)
        got = {text(b, t, n) for t in traces(b) if okret(t)}
        R.ob("prefab", got == {"<path><vars>"}, o.where(), "a prefab is written as %s" % sorted(got))
    R.part("paths", p_paths)

    def p_quote():
        o = display("dreammaker::lexer::Quote")
        b = prep(o)
        S = ("fld", ("arg", 1), "0")
        n = lambda t, k: "s" if strip_deref(t) == S else "?" + show(t, b)
        al = lambda t: t[0] == "call" and t[1].split("::")[-1] in ("all", "any")
        cont = lambda t: t[0] == "call" and t[1].split("::")[-1] == "contains"
        for plain, close, want in ((True, False, '"<s>"'), (True, True, '"<s>"'), (False, False, '{"<s>"}'), (False, True, "@@<s>@")):
            env = lambda t: (plain == (t[1].endswith("all"))) if al(t) else close if cont(t) and const_of(t[2][1]) == '"}' else None
            got = {text(b, t, n) for t in fit(traces(b), env, ("return",)) if okret(t)}
            R.ob("quote:%s:%s" % (plain, close), got == {want}, o.where(), "a string that %s written as %s" % ("needs no other quoting is" if plain else "has quotes or line breaks of its own is", sorted(got)))
        cl = [c for c in o.closures if c.argc == 2]
        R.count("string_scans", len(cl), 1)
        for c in cl:
            cb = prep(c)
            inv = any(x.fn.split("::")[-1] == "any" for x in b.calls())
            tr = traces(cb)
            ups = {w[0] for t in tr for w in t.writes}
            R.ob("quote:state", len(ups) == 1, c.where(), "the scan of a string keeps track of %d facts" % len(ups))
            st = list(ups)[0]
            for ch in '"\n\\a{}':
                for esc in (False, True):
                    env = lambda t: ch if t == ("arg", 2) else esc if t == st else None
                    ts = fit(tr, env, ("return",))
                    R.ob("quote:scan:%r:%s" % (ch, esc), bool(ts), c.where(), "not handled")
                    for t in ts:
                        okw = esc or ch not in '"\n'
                        r = evaluate(t.result, env)
                        R.ob("quote:plain:%r:%s" % (ch, esc), r is not None and (r != inv) == okw, c.where(), "%s %r in a string %s" % ("an escaped" if esc else "an unescaped", ch, "needs other quoting" if okw else "is written between plain quotes"))
                        w = t.stored(st)
                        nv = evaluate(w, env) if w is not None else esc
                        if okw: R.ob("quote:escape:%r:%s" % (ch, esc), nv == (not esc and ch == "\\"), c.where(), "after %s %r the next character is %s" % ("an escaped" if esc else "an unescaped", ch, "escaped" if nv else "not escaped"))
    R.part("quote", p_quote)

    def p_float():
        o = display("dreammaker::lexer::FormatFloat")
        b = prep(o)
        call = lambda t, n: t[0] == "call" and t[1].split("::")[-1] == n
        N = ("fld", ("arg", 1), "0")
        tr = traces(b, visits=2)
        for nan, inf, neg, zero, want in ((1, 0, 1, 0, "-1.#IND"), (1, 0, 0, 0, "1.#IND"), (0, 1, 1, 0, "-1.#INF"), (0, 1, 0, 0, "1.#INF"), (0, 0, 0, 1, "0")):
            def env(t):
                if call(t, "is_nan"): return bool(nan)
                if call(t, "is_infinite"): return bool(inf)
                if call(t, "is_finite"): return not (nan or inf)
                if call(t, "is_sign_negative"): return bool(neg)
                if call(t, "is_sign_positive"): return not neg
                if t[0] == "bin" and t[1] in ("Eq", "Ne") and N in t[2:]: return bool(zero) == (t[1] == "Eq")
                if t[0] == "bin" and t[1] in ("Lt", "Le") and N == t[2]: return bool(neg)
                return None
            ts = [t for t in fit(tr, env, ("return",)) if okret(t)]
            got = {text(b, t, lambda x, k: "n") or const_of(t.result[2][-1]) for t in ts}
            R.ob("number:%s" % want, got == {want}, o.where(), "the number %s is written as %s" % (want, sorted(map(str, got))))
    R.part("numbers", p_float)

    def p_eval():
        o = R.fn(C + "evaluate_str")
        b = prep(o)
        P = Paths(R, b)
        oks = [bb for bb in b.reachable() if bb in set(b.returns())]
        left = lambda t: t[0] == "call" and t[1].split("::")[-1] == "is_empty" and mentions(t, lambda q: q[0] == "call" and q[1].endswith("::remaining"))
        n = 0
        for t in fit(traces(b), lambda t: False if left(t) else 1 if t[0] == "call" and t[1].split("::")[-1] == "len" and mentions(t, lambda q: q[0] == "call" and q[1].endswith("::remaining")) else None, ("return",)):
            n += 1
            R.ob("leftover", not (t.result[0] == "agg" and t.result[2] == "Ok") and not (t.result[0] == "call" and not t.result[1].endswith("from_residual")), o.where(), "text after a constant is ignored")
        R.count("leftover_paths", n, 1)
        R.ob("leftover:checked", any(left(c[0]) or mentions(c[0], lambda q: q[0] == "call" and q[1].endswith("::remaining")) for t in traces(b) for c in t.conds), o.where(), "text after a constant is not looked at")
    R.part("evaluate", p_eval)


def strip_deref(t):
    t = base(t)
    while t[0] == "call" and len(t[2]) == 1 and t[1].split("::")[-1] in ("deref", "as_str", "iter", "as_ref", "borrow", "into_iter"):
        t = base(t[2][0])
    return t
