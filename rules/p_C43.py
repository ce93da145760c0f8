"""Arguments of calls, filter() and set statements are checked as documented."""
import itertools
from lib import *
from p_C44 import agg, some, NONE, box, sp, tup, reports
from text import strings, compare

RULE = """visit_call, check_filter_flag, gather_settings, check_kwargs, finish_check_kwargs, as_term and as_kwarg_key are evaluated abstractly over their MIR with known arguments (every kind of
argument and pair of kinds, every kind of filter with every parameter, every setting with every kind of value, every relation of an override to its parents); the diagnostics, visited values and recorded
keywords are compared with a reference model. The tables of filters are read from the evaluated statics. No condition but the presence of a body may stand before the passes over the procs."""
C = "dreamchecker::"
A = "dreammaker::ast::"
T = lambda v, *f: agg(A + "Term", v, **{str(i): x for i, x in enumerate(f)})
L = ("k", "the location")

TYPES = {"alpha": "x y icon render_source flags", "angular_blur": "x y size", "bloom": "threshold size offset alpha", "color": "color space", "displace": "x y size icon render_source flags", "drop_shadow": "x y size offset color",
         "blur": "size", "layer": "x y icon render_source flags color transform blend_mode", "motion_blur": "x y", "outline": "size color flags", "radial_blur": "x y size", "rays": "x y size color offset density threshold factor flags",
         "ripple": "x y size repeat radius falloff flags", "wave": "x y size offset flags"}
# the parameter, whether only one value may be given, whether it may be 0, the values
FLAGS = {"alpha": ("flags", False, True, "MASK_INVERSE MASK_SWAP"), "color": ("space", True, False, "FILTER_COLOR_RGB FILTER_COLOR_HSV FILTER_COLOR_HSL FILTER_COLOR_HCY"), "displace": ("flags", False, True, "FILTER_OVERLAY"),
         "layer": ("flags", True, True, "FILTER_OVERLAY FILTER_UNDERLAY"), "rays": ("flags", False, True, "FILTER_OVERLAY FILTER_UNDERLAY"), "outline": ("flags", False, True, "OUTLINE_SHARP OUTLINE_SQUARE"),
         "ripple": ("flags", False, True, "WAVE_BOUNDED"), "wave": ("flags", False, True, "WAVE_SIDEWAYS WAVE_BOUNDED")}


def base(t, follow=()): return agg(A + "Expression", "Base", term=box(agg(A + "Spanned", "Spanned", location=L, elem=t)), follow=box(("list", tuple(follow))))
def assign(op, l, r): return agg(A + "Expression", "AssignOp", op=agg(A + "AssignOp", op), lhs=box(l), rhs=box(r))
def binary(op, l, r): return agg(A + "Expression", "BinaryOp", op=agg(A + "BinaryOp", op), lhs=box(l), rhs=box(r))


def play(b, init, more=None, env=None, **kw):
    def seed(t):
        x = more(t) if more else None
        return x if x is not None else strings(t)

    def e(t):
        x = env(t) if env else None
        return x if x is not None else compare(t)
    return runs(b, e, visits=12, lists="maps", init=init, seed=seed, **kw)


def check(F, R):
    def p_flags():
        o = R.fn(C + "AnalyzeProc::check_filter_flag")
        b = prep(o, closures=True, loops=True)
        X, Y = ("k", "left"), ("k", "right")
        good = base(T("Ident", ("k", "GOOD")))
        shapes = {"a flag of the list": (good, "ok"), "an identifier not in the list": (base(T("Ident", ("k", "BAD"))), "bad"), "0": (base(T("Int", ("k", 0))), "zero"), "1": (base(T("Int", ("k", 1))), "bad"),
                  "a string that spells a flag": (base(T("String", ("k", "GOOD"))), "bad"), "null": (base(T("Null")), "bad"), "a flag with something after it": (base(T("Ident", ("k", "GOOD")), [("k", "f")]), "bad"),
                  "0 with an operator": (base(T("Int", ("k", 0)), [("k", "f")]), "bad"), "x | y": (binary("BitOr", X, Y), "or"), "x + y": (binary("Add", X, Y), "bad"), "x & y": (binary("BitAnd", X, Y), "bad"),
                  "c ? x : y": (agg(A + "Expression", "TernaryOp", cond=box(("k", "c")), if_=box(X), else_=box(Y)), "bad"), "x = y": (assign("Assign", X, Y), "bad"), "x |= y": (assign("BitOrAssign", X, Y), "bad")}
        for (n, (e, w)), zero, excl in itertools.product(shapes.items(), (True, False), (True, False)):
            ts = play(b, {2: e, 3: ("k", zero), 5: ("k", "alpha"), 6: ("list", (("k", "OTHER"), ("k", "GOOD"))), 7: ("k", "flags"), 8: ("k", excl)})
            got = {(bool(reports(t)), tuple((x[1][1], x[1][2], x[1][7]) for x in t.events if tail(("call", x[0])) == "check_filter_flag")) for t in ts}
            want = {"ok": (False, ()), "bad": (True, ()), "zero": (not zero, ()), "or": (True, ()) if excl else (False, tuple((x, ("k", zero), ("k", excl)) for x in (X, Y)))}[w]
            R.ob(("flag value", n, "0 allowed" if zero else "0 not allowed", "one value" if excl else "several values"), got == {want}, o.where(), f"got {str(got)[:200]}")
            R.count("flag values", 4 * len(shapes), 50)
    R.part("flags", p_flags)

    def p_settings():
        o = R.fn(C + "AnalyzeObjectTree::<'o>::gather_settings")
        b = prep(o, closures=True, loops=True, also=[C + "directive_value_to_truthy"])
        I, S, N = (lambda i: base(T("Int", ("k", i)))), (lambda s: base(T("String", ("k", s)))), (lambda s: base(T("Ident", ("k", s))))
        values = {"0": I(0), "1": I(1), "2": I(2), "-1": I(-1), "100": I(100), "101": I(101), "TRUE": N("TRUE"), "FALSE": N("FALSE"), "other": N("other"), '"TRUE"': S("TRUE"), '"text"': S("text"), '"[x]"': base(T("InterpString", ("k", "a"), box(("list", ())))),
                  "null": base(T("Null")), "1.0": base(T("Float", ("k", 1.0))), "a + b": binary("Add", ("k", "a"), ("k", "b")), "1 with an operator": base(T("Int", ("k", 1)), [("k", "f")])}
        flags, strs = ("background", "waitfor", "hidden", "instant", "popup_menu"), ("name", "category", "desc")

        def bad(name, v):
            if name in flags: return v not in ("0", "1", "TRUE", "FALSE")
            if name in strs: return v not in ('"text"', '"TRUE"', '"[x]"', "a + b", "1 with an operator") and not (v == "null" and name == "category")
            if name == "invisibility": return v not in ("0", "1", "2", "100")
            return name != "src"

        def stmt(i, name, v):
            return agg(A + "Spanned", "Spanned", location=("k", "statement %d" % i), elem=agg(A + "Statement", "Setting", name=("k", name), mode=agg(A + "SettingMode", "Assign"), value=values[v]))

        def seed(t):
            n = tail(t)
            if n == "get_declaration" or n == "get" and len(t[2]) == 2 and "procs" in rend(t[2][0]): return NONE
        other = agg(A + "Spanned", "Spanned", location=("k", "elsewhere"), elem=agg(A + "Statement", "Break", **{"0": NONE}))
        k = 0

        def one(label, code, want):
            nonlocal k
            k += 1
            ts = play(b, {3: ("list", tuple(code))}, seed)
            got = {tuple(w for w, m in reports(t)) for t in ts}
            R.ob(("set", *label), got == {tuple("'statement %d'" % i for i in want)}, o.where(), f"reported {sorted(got)[:3]}, expected statements {want}")
        for name in flags + strs + ("invisibility", "src", "mystery", "Name", "names"):
            for v in values: one((name, v), [stmt(0, name, v)], [0] if bad(name, v) else [])
        one(("several",), [stmt(0, "waitfor", "2"), stmt(1, "name", '"text"'), stmt(2, "invisibility", "1"), stmt(3, "mystery", "1"), stmt(4, "hidden", "2"), other, stmt(5, "waitfor", "2")], [0, 3, 4])
        R.count("set statements", k, 180)
    R.part("settings", p_settings)

    def p_single():
        o = R.fn(A + "Expression::as_term")
        b = prep(o, closures=True, loops=True)
        X = ("k", "the term")
        for n, (e, w) in {"a term alone": (base(X), X), "a term with something after it": (base(X, [("k", "f")]), None), "a term with two things after it": (base(X, [("k", "f"), ("k", "g")]), None),
                          "x + y": (binary("Add", base(X), base(X)), None), "x = y": (assign("Assign", base(X), base(X)), None), "c ? x : y": (agg(A + "Expression", "TernaryOp", cond=box(base(X)), if_=box(base(X)), else_=box(base(X))), None)}.items():
            got = {t.result for t in play(b, {1: e})}
            R.ob(("the term an expression is", n), got == {NONE if w is None else some(w)}, o.where(), f"got {[rend(x)[:80] for x in got]}")
        o = R.fn(A + "Term::as_kwarg_key")
        b = prep(o, closures=True, loops=True)
        vs = F.variants(A + "Term")
        for v in vs:
            t = T(v, *[("k", "x%d" % i) for i in range(3)])
            got = {t.result for t in play(b, {1: t})}
            R.ob(("keyword", v), got == {some(("k", "x0")) if v in ("Ident", "String") else NONE}, o.where(), f"{v}: {[rend(x)[:80] for x in got]}")
        R.count("kinds of term", len(vs), 20)
    R.part("terms", p_single)

    def table(name):
        """The entries of a phf map"""
        o = R.fn(A + name)
        v = {t.result for t in traces(prep(o), lists=True)}
        if len(v) != 1: raise AnchorMissing(name)
        e = [x for x in subterms(v.pop()) if x[:2] == ("agg", "array") and x[3] and all(y[:2] == ("agg", "tuple") and len(y[3]) == 2 and y[3][0][0] == "k" and isinstance(y[3][0][1], str) for y in x[3])]
        if len(e) != 1: raise AnchorMissing(name)
        return {y[3][0][1]: y[3][1] for y in e[0][3]}

    def const(x): return x[1] if x[0] == "k" else tuple(const(y) for y in x[3])
    types, flags = table("VALID_FILTER_TYPES"), table("VALID_FILTER_FLAGS")

    def p_tables():
        for what, got, want, o in (("parameters", {k: sorted(const(v)) for k, v in types.items()}, {k: sorted(v.split()) for k, v in TYPES.items()}, R.fn(A + "VALID_FILTER_TYPES")),
                                   ("flags", {k: const(v)[:3] + (sorted(const(v)[3]),) for k, v in flags.items()}, {k: (v[0], v[1], v[2], sorted(v[3].split())) for k, v in FLAGS.items()}, R.fn(A + "VALID_FILTER_FLAGS"))):
            for k in sorted(set(got) | set(want)):
                R.ob(("filter " + what, k), got.get(k) == want.get(k), o.where(), f"filter(type={k!r}): {got.get(k)}, expected {want.get(k)}")
        R.count("kinds of filter", len(types), 14)
    R.part("tables", p_tables)

    def p_calls():
        o = R.fn(C + "AnalyzeProc::<'o, 's>::visit_call")
        b = prep(o, closures=True, loops=True)
        where = o.where()
        P = lambda n: agg("dreammaker::ast::Parameter", "Parameter", var_type=("k", "vt"), name=("k", n), default=NONE, input_type=NONE, in_list=NONE, location=("k", "parameter"))
        PROC = ("k", "the proc")

        def call(args, name="theproc", root=False, exact=False, builtin=False, params=("foo", "bar"), values={}):
            pv = agg("dreammaker::objtree::ProcValue", "ProcValue", location=("k", "proc loc"), parameters=box(("list", tuple(P(x) for x in params))))

            def seed(t):
                n, a = tail(t), t[2]
                if a and a[0] == PROC:
                    if n in ("deref", "get"): return pv
                    if n == "name": return ("k", name)
                    if n == "is_builtin": return ("k", builtin)
                    if n == "ty": return ("k", "the type")
                    return ("call", "of the proc", a, 0)
                if n == "deref" and a[0] == ("k", "the type"): return a[0]
                if n == "is_root": return ("k", root)
                if n == "get_self_or_parent": return NONE
                if n == "visit_expression":
                    z = [v for k, v in values.items() if k == a[2]]
                    return agg(C + "Analysis", "Analysis", static_ty=("k", "static"), aset=("k", "aset"), value=z[0] if z else NONE, fix_hint=NONE, is_impure=NONE)
                if n == "get" and "return_type" in rend(a[0]): return NONE
                if n == "get" and "phf" in t[1]:
                    tb = types if mentions(a[0], lambda z: "VALID_FILTER_TYPES" in str(z)) else flags
                    return (some(tb[a[1][1]]) if a[1][1] in tb else NONE) if a[1][0] == "k" else None
            return play(b, {2: L, 3: ("k", "the source"), 4: PROC, 5: ("list", tuple(args)), 6: ("k", exact), 7: ("k", False)}, seed, multi=0)
        V = lambda i: base(T("Int", ("k", i)))
        K = lambda n, v: assign("Assign", base(T("Ident", ("k", n))), v)

        def arg(kind, name, i):
            """(the argument, the keyword it is passed by, the expression whose value is passed)"""
            v = V(i)
            if kind == "positional": return v, None, v
            if kind == "keyword": return K(name, v), name, v
            if kind == "string keyword": return assign("Assign", base(T("String", ("k", name))), v), name, v
            x = {"number = v": lambda: assign("Assign", base(T("Int", ("k", 5))), v), "name += v": lambda: assign("AddAssign", base(T("Ident", ("k", name))), v), "name.x = v": lambda: assign("Assign", base(T("Ident", ("k", name)), [("k", "field")]), v),
                 "arglist()": lambda: base(T("Call", ("k", "arglist"), box(("list", ()))))}[kind]()
            return x, None, x

        def model(args, name="theproc", root=False, exact=False, params=("foo", "bar")):
            n, used, after = 0, [], False
            for x, k, v in args:
                if k is not None:
                    after = True
                    if k not in params: n += 1
                    elif not exact: used.append(k)
                elif after and not (root and name == "animate"): n += 1
            return n, tuple(used), tuple(v for x, k, v in args)

        def seen(t, name):
            """(diagnostics, keywords marked as used, values visited, where)"""
            used = []
            for e in t.events:
                if tail(("call", e[0])) == "entry" and mentions(e[1][0], lambda z: z[0] == "fld" and z[2] == "called_at"):
                    key = subterm(e[1][0], lambda z: named(z, "entry"))
                    z = subterm(key[2][1], lambda z: named(z, "new") and "Arguments" in z[1]) if key else None
                    parts = fmt_parts(z) if z else None
                    used.append(e[1][1][1] if parts and "".join(p if isinstance(p, str) else "?" for p in parts) == "the source/proc/" + name and e[1][1][0] == "k" else "under another name")
            rs = reports(t)
            return len(rs) if all(w == rend(L) for w, m in rs) else "elsewhere", tuple(used), tuple(e[1][2] for e in t.events if tail(("call", e[0])) == "visit_expression")
        kinds = [("positional", ""), ("keyword", "foo"), ("keyword", "bad"), ("string keyword", "bar"), ("string keyword", "worse"), ("number = v", ""), ("name += v", "foo"), ("name.x = v", "foo"), ("arglist()", "")]
        lists = [()] + [(a,) for a in kinds] + list(itertools.product(kinds, kinds)) + [(kinds[1], kinds[0], kinds[3], kinds[0]), (kinds[0], kinds[0], kinds[2], kinds[1]), (kinds[2], kinds[4], kinds[6])]
        k = 0
        for ks in lists:
            args = [arg(kd, n, i) for i, (kd, n) in enumerate(ks)]
            for how, kw in (("", {}), ("exact", {"exact": True}), ("animate", {"name": "animate", "root": True, "params": ("foo", "bar")}), ("animate of a type", {"name": "animate"})):
                if how and len(ks) > 2 or how == "exact" and len(ks) == 2: continue
                k += 1
                got, want = {seen(t, kw.get('name', 'theproc')) for t in call([x for x, _, _ in args], **kw)}, model(args, **kw)
                R.ob(("call", how, *(" ".join(z) for z in ks)), got == {want}, where, f"{how}({', '.join(' '.join(z) for z in ks)}): {sorted(str(x[:2]) for x in got)}, expected {want[:2]}")
        R.count("calls", k, 180)

        # filter()
        S = lambda s: base(T("String", ("k", s)))
        st = lambda s: some(agg("dreammaker::constants::Constant", "String", **{"0": ("k", s)}))
        num = some(agg("dreammaker::constants::Constant", "Float", **{"0": ("k", 1)}))
        k = 0
        every = ("type", "name") + tuple(sorted({x for v in TYPES.values() for x in v.split()}))

        def filt(label, args, n, values={}, flag=None):
            nonlocal k
            k += 1
            out = set()
            for t in call(args, "filter", True, builtin=True, params=tuple({x[1] for a in args for x in subterms(a) if x[0] == "k" and x[1] in every}), values=values):
                rs = reports(t)
                out.add((len(rs) if all(w == rend(L) for w, m in rs) else "elsewhere", tuple((x[1][1], const(x[1][2]), x[1][3], const(x[1][4]), sorted(const(x[1][5])), const(x[1][6]), const(x[1][7])) for x in t.events if tail(("call", x[0])) == "check_filter_flag").__repr__()))
            want = (n, repr(() if flag is None else ((flag[0], flag[1], L, flag[2], sorted(flag[3]), flag[4], flag[5]),)))
            R.ob(("filter",) + label, out == {want}, where, f"filter: {str(sorted(out, key=str))[:300]}, expected {str(want)[:300]}")
        ty = S("x")
        filt(("without a type",), [K("x", V(0))], 1)
        filt(("without arguments",), [], 1)
        filt(("arglist",), [arg("arglist()", "", 0)[0]], 0)
        filt(("arglist after another",), [V(3), arg("arglist()", "", 0)[0]], 1)
        filt(("arglist after a keyword",), [K("x", V(1)), arg("arglist()", "", 0)[0]], 2)
        filt(("a type that is not known",), [K("type", ty)], 1)
        filt(("a number as type",), [K("type", ty)], 1, {ty: num})
        filt(("an unknown type",), [K("type", ty), K("x", V(0))], 1, {ty: st("mystery")})
        for name, ps in TYPES.items():
            for p in every:
                if p == "type": continue
                ok = p == "name" or p in ps.split()
                f = FLAGS.get(name)
                filt((name, p), [K("type", ty), K(p, V(7))], 0 if ok else 1, {ty: st(name)}, (V(7), f[2], name, f[3].split(), f[0], f[1]) if f and f[0] == p else None)
            filt((name, "alone"), [K("type", ty)], 0, {ty: st(name)})
            filt((name, "type last"), [K("name", V(1)), K(ps.split()[0], V(2)), K("type", ty)], 0, {ty: st(name)}, None)
        R.count("filter calls", k, 300)
    R.part("calls", p_calls)

    def p_overrides():
        o = R.fn(C + "AnalyzeObjectTree::<'o>::check_kwargs")
        b = prep(o, closures=True, loops=True)
        P = lambda n: agg("dreammaker::ast::Parameter", "Parameter", var_type=("k", "vt"), name=("k", n), default=NONE, input_type=NONE, in_list=NONE, location=("k", "parameter"))
        at = lambda kws: ("map", tuple((("k", x), agg(C + "CalledAt", "CalledAt", location=("k", "call of " + x), others=("k", 0))) for x in kws))
        k = 0

        def level(x):
            """how far up the proc a term is about is"""
            z = {y[1] for y in subterms(x) if y[0] == "k" and isinstance(y[1], str) and y[1].startswith("proc ")}
            return int(z.pop()[5:]) if len(z) == 1 else None
        for depth, has, params, kws in itertools.product((0, 1, 2, 3), ((), (0,), (1,), (2,), (1, 2), (1, 3), (0, 1, 2, 3)), ((), ("a",), ("a", "b"), ("b", "c")), ((), ("a",), ("a", "b"))):
            if any(x > depth for x in has): continue
            k += 1

            def seed(t):
                n, a = tail(t), t[2]
                if not a: return None
                l = level(a[0])
                if n in ("deref", "get") and a[0] == ("k", "proc 0"):
                    return agg("dreammaker::objtree::ProcValue", "ProcValue", location=("k", "the override"), parameters=box(("list", tuple(P(x) for x in params))))
                if n == "parent_proc" and l is not None: return NONE if l >= depth else some(("k", "proc %d" % (l + 1)))
                if n == "name" and l is not None: return ("k", "its name")
                if n in ("get_mut", "get") and len(a) == 2 and "used_kwargs" in rend(a[0]):
                    z = subterm(a[1], lambda y: named(y, "new") and "Arguments" in y[1])
                    p = fmt_parts(z) if z else None
                    if p is None or len(p) != 3 or not isinstance(p[0], tuple) or p[1:] != ["/proc/", "its name"] and p[1] + str(p[2]) != "/proc/its name": p = None
                    if p is None and not (named(a[1], "to_string") and level(a[1]) is not None): return ("k", "looked up under another name")
                    l = level(a[1]) if p is None else level(p[0][1])
                    return some(agg(C + "KwargInfo", "KwargInfo", location=("k", "its location"), called_at=at(kws), bad_overrides_at=("k", "info %d" % l))) if l in has else NONE
            info = lambda y: [x for x in subterms(y) if x[0] == "k" and isinstance(x[1], str) and x[1].startswith("info ")]
            missing = [x for x in kws if x not in params]
            out = set()
            for t in play(b, {2: ("k", "proc 0")}, seed):
                ins = []
                for e in t.events:
                    if tail(("call", e[0])) == "insert" and e[1] and info(e[1][0]):
                        v = e[1][2] if len(e[1]) == 3 else None
                        f = dict(zip(v[4], v[3])) if v and v[0] == "agg" else {}
                        ins.append((info(e[1][0])[0][1], level(e[1][1]), sorted(x[1] for x in f["missing"][1]) if f.get("missing", ("",))[0] == "list" else "?", f.get("location")))
                out.add(repr(sorted(ins)))
            want = repr([("info %d" % l, 0, sorted(missing), ("k", "the override")) for l in sorted(has) if l and missing])
            R.ob(("override", depth, str(has), " ".join(params), " ".join(kws)), out == {want}, o.where(), f"a proc with {depth} parents and parameters {params}, keywords {kws} used of {has}: {str(sorted(out))[:200]}, expected {want}")
        R.count("overrides", k, 200)

        # reported when there is anything to report
        o = R.fn(C + "AnalyzeObjectTree::<'o>::finish_check_kwargs")
        b = prep(o, closures=True, loops=True)
        k = 0
        for entries in ((), ((),), (("x",),), (("x", "y"),), (("x",), ()), ((), ("x",)), (("x",), ("y",))):
            for kws in ((), ("a",), ("a", "b")):
                k += 1
                bad = lambda xs: ("map", tuple((("k", x), agg(C + "BadOverride", "BadOverride", missing=("list", (("k", "a"),)), location=("k", x))) for x in xs))
                used = ("map", tuple((("k", "proc %d" % i), agg(C + "KwargInfo", "KwargInfo", location=("k", "place %d" % i), called_at=at(kws), bad_overrides_at=bad(xs))) for i, xs in enumerate(entries)))
                this = agg(C + "AnalyzeObjectTree", "AnalyzeObjectTree", **{f: used if f == "used_kwargs" else ("k", "its " + f) for f in [x["n"] if isinstance(x, dict) else x[0] for x in F.adt(C + "AnalyzeObjectTree")["variants"][0]["f"]]})
                got = {tuple(w for w, m in reports(t)) for t in play(b, {1: this}, multi=0)}
                R.ob(("missing keywords", str(entries), str(kws)), got == {tuple("'place %d'" % i for i, xs in enumerate(entries) if xs)}, o.where(), f"{entries}: {sorted(got)}")
        R.count("summaries", k, 20)

        # the passes over the procs
        o = R.fn(C + "run_inner")
        b = prep(o, closures=True, loops=True)
        order = ("gather_settings", "check_proc", "check_kwargs", "finish_check_kwargs", "check_proc_call_tree")
        k = 0
        for t in runs(b, lambda t: False if t == ("arg", 3) or t == ("var", 3) else None, visits=2):
            ev = [order.index(n) for n in (tail(("call", e[0])) for e in t.events) if n in order]
            k += len(ev)
            R.ob(("passes",), ev == sorted(ev) and ev[-2:] == [3, 4], o.where(), "the passes are made in the order " + " ".join(order[x] for x in ev))
        R.count("passes", k, 10)
    R.part("overrides", p_overrides)

    def p_every():
        o = R.fn(C + "run_inner")
        n = 0
        for b in [o] + list(o.closures):
            for c in b.calls_to("AnalyzeObjectTree::gather_settings") + b.calls_to("AnalyzeObjectTree::check_kwargs"):
                n += 1
                own = ("code",) if "gather" in c.fn else ()
                g = [x for x in b.guards(c.bb) if not (x[0][0] == "call" and x[0][1].endswith("next")) and not mentions(x[0], lambda y: y[0] == "fld" and y[2] in own)]
                R.ob(("every proc", c.fn.split("::")[-1]), not g, c.where(), "only done under a further condition: %s" % [(show(x[0], b), sorted(map(str, x[2]))) for x in g])
        R.count("passes over every proc", n, 2)
    R.part("every proc", p_every)
