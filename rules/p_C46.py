"""What a return type expression denotes."""
from itertools import product
from grammar import *
from grammar import agg as plain_agg

RULE = ("TypeExpr::compile and TypeExpr::evaluate are evaluated abstractly over their MIR, one after the other, on every type expression over a set of terms, accesses and operators and every sort of call: "
        "the type that comes out, or the error, is what a reference semantics of type expressions says; static_type on paths of flags, lists and types; InputType::to_typepath on every set of input types.")
D = "dreamchecker::"
TE = D + "type_expr::"
ST = D + "StaticType"
KNOWN = {("obj",): "/obj", ("mob", "living"): "/mob/living"}
FLAGS = ("static", "global", "const", "tmp", "final", "SpacemanDMM_final", "SpacemanDMM_private", "SpacemanDMM_protected")


class Bad(Exception):
    """not a type expression, or not a type"""


def static(path):
    """the static type that a declared path stands for"""
    while path and path[0] in FLAGS: path = path[1:]
    if not path: return None
    if path[0] == "list": return ("list", static(path[1:]))
    if tuple(path) in KNOWN: return ("type", KNOWN[tuple(path)])
    raise Bad


def denote(e):
    k = e[0]
    if k == "null": return ("static", None)
    if k == "p":
        if e[1] not in ("first", "second"): raise Bad
        return ("param", e[1])
    if k == "()": return denote(e[1])
    if k == "path": return ("static", static(e[1]))
    if k == "follow":
        t = denote(e[1])
        for f in e[2]:
            if t[0] != "param" or f not in ("[_]", ".type") or len(t) > 2 and t[2] == "type": raise Bad
            n = (t[3] if len(t) > 2 else 0) + (f == "[_]")
            t = ("param", t[1], "type" if f == ".type" else "value", n)
        return t
    if k == "||":
        a, b = denote(e[1]), denote(e[2])
        return ("?", a, a, b)
    if k == "&&":
        a, b = denote(e[1]), denote(e[2])
        return ("?", a, b, a)
    if k == "?": return ("?", denote(e[1]), denote(e[2]), denote(e[3]))
    raise Bad


def value(t, call):
    if t[0] == "static": return t[1]
    if t[0] == "?": return value(t[2] if value(t[1], call) is not None else t[3], call)
    a = call.get(t[1])
    if a is None: return None
    if len(t) > 2 and t[2] == "type":
        x = a["type"]
        for _ in range(t[3]): x = x[1] if x is not None and x[0] == "list" else None
        return x
    return static(a["value"]) if a["value"] is not None else None


def check(F, R):
    tree = ("k", "the tree")

    def agg(ty, v=None, **kw):
        """a value with its fields in their order"""
        try: fs = [x["f"] for x in F.adt(ty)["variants"] if x["n"] == v or v is None or len(F.adt(ty)["variants"]) == 1][0]
        except (KeyError, IndexError, AnchorMissing, TypeError): return plain_agg(ty, v, **kw)
        return ("agg", ty, v, tuple(kw.get(x["n"], ("k", "the " + x["n"])) for x in fs), tuple(x["n"] for x in fs))
    k = lambda x: ("k", x)
    words = lambda l: lst(*map(k, l))
    aggs = lambda ty, v, *a, **kw: agg(ty, v, **dict({str(i_): x for i_, x in enumerate(a)}, **kw))
    sp = lambda x: aggs(A + "Spanned", "Spanned", location=k(0), elem=x)

    def st(x):
        if x is None: return agg(ST, "None")
        if x == "proc": return agg(ST, "Proc")
        if x[0] == "type": return agg(ST, "Type", **{"0": k(x[1])})
        return agg(ST, "List", list=k("/list"), keys=box(st(x[1])))

    def base(term, *follow): return agg(A + "Expression", "Base", term=box(sp(term)), follow=lst(*[sp(f) for f in follow]))
    T = lambda v, *a: aggs(A + "Term", v, *a)
    ident = lambda x: T("Ident", k(x))

    def follow(f):
        if f == "[_]": return aggs(A + "Follow", "Index", agg(A + "ListAccessKind", "Normal"), box(base(ident("_"))))
        if f == "[x]": return aggs(A + "Follow", "Index", agg(A + "ListAccessKind", "Normal"), box(base(ident("x"))))
        if f == "[1]": return aggs(A + "Follow", "Index", agg(A + "ListAccessKind", "Normal"), box(base(T("Int", k(1)))))
        if f == "[_.type]": return aggs(A + "Follow", "Index", agg(A + "ListAccessKind", "Normal"), box(base(ident("_"), follow(".type"))))
        if f == "()": return aggs(A + "Follow", "Call", agg(A + "PropertyAccessKind", "Dot"), k("type"), lst())
        if f == "++": return aggs(A + "Follow", "Unary", agg(A + "UnaryOp", "PostIncr"))
        if f == "::type": return aggs(A + "Follow", "StaticField", k("type"))
        return aggs(A + "Follow", "Field", agg(A + "PropertyAccessKind", "Dot"), k(f[1:]))

    def ast(e):
        t = e[0]
        if t == "null": return base(T("Null"))
        if t == "p": return base(ident(e[1]))
        if t == "int": return base(T("Int", k(1)))
        if t == "()": return base(T("Expr", box(ast(e[1]))))
        if t == "path": return base(T("Prefab", box(agg(A + "Prefab", "Prefab", path=lst(*[tup(agg(A + "PathOp", "Slash"), k(x)) for x in e[1]]), vars=lst()))))
        if t == "follow":
            b = dict(zip(*reversed(ast(e[1])[3:5])))
            return agg(A + "Expression", "Base", term=b["term"], follow=lst(*[sp(follow(f)) for f in e[2]]))
        if t == "?": return agg(A + "Expression", "TernaryOp", cond=box(ast(e[1])), if_=box(ast(e[2])), else_=box(ast(e[3])))
        if t == "=": return agg(A + "Expression", "AssignOp", op=agg(A + "AssignOp", "Assign"), lhs=box(ast(e[1])), rhs=box(ast(e[2])))
        op = {"||": "Or", "&&": "And"}.get(t, t)
        return agg(A + "Expression", "BinaryOp", op=agg(A + "BinaryOp", op), lhs=box(ast(e[1])), rhs=box(ast(e[2])))

    params = lst(*[agg(A + "Parameter", "Parameter", name=k(x)) for x in ("first", "second")])

    def calls(fn, tf, a, places, e, write):
        n = tf.split("::")[-1]
        s_ = [plain(x) for x in a]
        if n in ("eq", "ne") and len(a) == 2 and isinstance(s_[0], str) and isinstance(s_[1], str): return k((s_[0] == s_[1]) == (n == "eq"))
        if n == "tree" and "Ref" in fn: return tree
        if n in ("type_by_path",) and a[0] == tree:
            p = tuple(plain(a[1])) if isinstance(plain(a[1]), (list, tuple)) else None
            if p is None: raise Undecided("which type")
            return some(k(KNOWN[p])) if p in KNOWN else NONE
        if n == "find" and a[0] == tree: return some(a[1])
        if n == "expect" and a[0] == tree: return a[1]
        if n in ("new", "error") and ("DMError" in fn or fn == D + "error"): return k("an error")
        if n == "new" and "boxed::Box" in fn: return box(a[0])
        if n == "deref" and "ProcRef" in fn: return agg("dreammaker::objtree::ProcValue", "ProcValue", parameters=params, name=k("f"))
        if n == "contains" and len(a) == 2 and isinstance(s_[0], (list, tuple)) and isinstance(s_[1], str): return k(s_[1] in [plain(x) for x in (a[0][1] if a[0][0] == "list" else a[0][3])])
        if n in ("clone", "to_owned", "as_str", "as_ref", "deref", "borrow") and len(a) == 1 and a[0][0] == "k": return a[0]
        if n in ("clone",) and len(a) == 1 and a[0][0] in ("agg", "list"): return a[0]
        if n == "get" and len(a) == 2 and a[0][0] == "map known":
            for x, y in a[0][1]:
                if x == plain(a[1]): return some(y)
            return NONE
        return None

    def result(ts, o):
        out = set()
        for t in ts:
            if t.end != "return": return "panic"
            r = t.result
            out.add(("error",) if r[2] == "Err" else ("ok", r[3][0]))
        if len(out) != 1: raise Undecided("%d outcomes of %s: %s" % (len(out), o.path, [str(c)[:200] for t in ts for c in t.conds][:3]))
        return out.pop()

    def unst(x):
        if x[2] == "None": return None
        if x[2] == "Proc": return "proc"
        if len(x) < 5: raise Undecided("what type this is: " + str(x)[:200])
        if x[2] == "Type": return ("type", plain(x[3][0]))
        d = dict(zip(x[4], x[3]))
        if plain(d["list"]) != "/list": return "?"
        y = d["keys"]
        while y[0] == "agg" and y[1] != ST and len(y[3]) >= 1: y = y[3][0]
        return ("list", unst(y))
    own = lambda b: b.path.startswith((TE, "<" + TE, D + "static_type", D + "StaticType")) or b.path.startswith("<" + D + "StaticType") or is_new(b) or b.name in ("as_term", "is_empty", "strip_list", "strip_lists", "is_truthy")
    M = Machine(F, calls, own, visits=40)

    def p_types():
        comp, ev = R.fn(TE + "TypeExpr::compile"), R.fn(TE + "TypeExpr::evaluate")
        first, second = ("p", "first"), ("p", "second")
        fl = ["[_]", ".type", ".other", "[x]", "[1]", "[_.type]", "()", "++", "::type"]
        atoms = [("null",), first, second, ("p", "third"), ("p", "First"), ("p", "firs"), ("p", "first2"), ("path", ("obj",)), ("path", ("list", "mob", "living")), ("path", ("list", "list", "obj")), ("path", ("list",)), ("path", ("nosuch",)), ("int",),
                 ("()", first), ("()", ("path", ("obj",))), ("()", ("follow", second, (".type",)))]
        words_ = list(atoms)
        for x in (first, second, ("null",), ("path", ("obj",)), ("()", first)):
            words_ += [("follow", x, fs) for n in (1, 2) for fs in product(fl, repeat=n)]
            words_ += [("follow", x, ("[_]",) * n + (".type",)) for n in (2, 3, 5)] + [("follow", x, (".%s" % n,)) for n in ("parent_type", "types", "Type", "vars", "")] + [("follow", x, (".type",) * 2), ("follow", x, ("[_]", ".type", "[_]"))]
        # a parameter's path with an index applied to it has no stated meaning
        words_ = [e for e in words_ if not (e[0] == "follow" and e[1][0] != "null" and e[2][-1] == "[_]" and set(e[2]) == {"[_]"})]
        small = [("null",), first, second, ("path", ("obj",)), ("follow", first, ("[_]", ".type")), ("follow", second, (".type",)), ("int",)]
        ops = sorted(x for x in F.variants(A + "BinaryOp") if x not in ("And", "Or"))
        words_ += [(op, x, y) for op in ("||", "&&") for x in small for y in small] + [(op, first, second) for op in ops] + [("=", first, second)]
        words_ += [("?", x, y, z) for x in small for y in small[:5] for z in small[:5]]
        pair = [("||", first, second), ("&&", first, second), ("?", first, second, ("path", ("obj",)))]
        words_ += [(op, x, y) for op in ("||", "&&") for x in pair for y in pair] + [("?", x, first, y) for x in pair for y in pair] + [("()", x) for x in pair] + [("?", ("()", pair[0]), pair[1], ("()", pair[2]))]
        types = [None, ("type", "/turf"), ("list", ("type", "/area")), ("list", ("list", ("type", "/sound"))), ("list", ("list", ("list", ("list", ("list", ("type", "/sound")))))), ("list", None), "proc"]
        args = [None] + [dict(type=t, value=v) for t in types for v in (None,)] + [dict(type=None, value=("obj",)), dict(type=("type", "/turf"), value=("mob", "living")), dict(type=("list", ("type", "/area")), value=("nosuch",)),
                                                                                 dict(type=None, value=("list", "obj"))]

        def analysis(a, other):
            v = NONE if a["value"] is None and not other else some(agg("dreammaker::constants::Constant", "Null", **{"0": NONE}) if a["value"] is None else
                                                                   aggs("dreammaker::constants::Constant", "Prefab", box(agg("dreammaker::constants::Pop", "Pop", path=words(a["value"]), vars=lst()))))
            return agg(D + "Analysis", "Analysis", static_ty=st(a["type"]), value=v)
        n = 0
        bad = {}
        for e in words_:
            try: want = denote(e)
            except Bad: want = None
            key, got = ("types", "compile", show(e)), None
            try: c = result(M.run(comp, [k("the proc"), k(0), ast(e)], {}), comp)
            except Undecided as u: c = ("undecided", str(u)[:300])
            n += 1
            if want is None or c[0] != "ok":
                if (c[0] == "error") != (want is None) or c[0] == "undecided": bad[key] = f"`{show(e)}` is {'accepted' if c[0] == 'ok' else str(c)}, should be {'an error' if want is None else 'accepted'}"
                continue
            one = "first" in show(e), "second" in show(e)
            k1, k2 = (args if one[0] else [None]), (args if one[1] and not (one[0] and len(show(e)) > 30) else args[:1] + args[5:9] if one[1] else [None])
            for a1, a2 in product(k1, k2):
                call = {"first": a1, "second": a2}
                for named in ((False, False), (True, False), (False, True), (True, True)) if len(show(e)) < 12 else ((False, True),):
                    if any(nm and call[x] is None for nm, x in zip(named, ("first", "second"))): continue
                    names = [(x, analysis(call[x], nm)) for nm, x in zip(named, ("first", "second")) if nm and call[x]]
                    idx = [(i_, analysis(call[x], True)) for i_, (nm, x) in enumerate(zip(named, ("first", "second"))) if not nm and call[x]]
                    if named == (True, False): idx += [(0, analysis(dict(type=("type", "/wrong"), value=("mob", "living")), False))]
                    ec = agg(TE + "TypeExprContext", "TypeExprContext", objtree=tree, param_name_map=("map known", tuple(names)), param_idx_map=("map known", tuple(idx)))
                    try:
                        w = ("ok", value(want, call))
                    except Bad: w = ("error",)
                    try:
                        g = result(M.run(ev, [c[1], k(0), ec], {}), ev)
                        if g[0] == "ok": g = ("ok", unst(g[1]))
                    except Undecided as u: g = ("undecided", str(u)[:300])
                    n += 1
                    if g != w: bad[("types", show(e))] = f"`{show(e)}`, called with {call}, is {g}, should be {w}"
        for x in list(bad)[:8]: R.ob(x, False, (comp if "compile" in x else ev).where(), bad[x])
        if not bad: R.ob(("types",), True, comp.where(), "")
        R.count("type expressions evaluated", n, 3000)
        for b in M.seen: R.saw(b)
    R.part("types", p_types)

    def p_static():
        o = R.fn(D + "static_type")
        n = 0
        ws = [()] + [x for m in (1, 2, 3) for x in product(("tmp", "list", "obj", "nosuch", "mob", "living"), repeat=m)] + [(f,) + x for f in FLAGS + ("var", "Static", "private") for x in ((), ("obj",), ("list", "obj"), ("list", f, "obj"))]
        for w in ws:
            try: want = ("ok", static(w))
            except Bad: want = ("error",)
            try:
                g = result(M.run(o, [tree, k(0), words(w)], {}), o)
                if g[0] == "ok": g = ("ok", unst(g[1]))
            except Undecided as u: g = ("undecided", str(u)[:300])
            n += 1
            R.ob(("static type", "/".join(w)), g == want, o.where(), f"/{'/'.join(w)} is {g}, should be {want}")
        R.count("declared paths", n, 200)
    R.part("static", p_static)

    def p_input():
        o = R.fn(A + "InputType::to_typepath")
        consts = {}
        import ast as _
        M2 = Machine(F, lambda *a: None, lambda b: True)
        names = {}
        f = R.fn(A + "InputType::from_str") if any(b.path == A + "InputType::from_str" for b in F.bodies) else [b for b in F.bodies if b.path == "<" + A + "InputType as core::str::traits::FromStr>::from_str"][0]
        for w in ("mob", "obj", "turf", "area", "list", "num", "text", "null", "anything"):
            t = M2.run(f, [k(w)], {})
            if len(t) != 1 or t[0].result[0] != "agg" or t[0].result[2] not in ("Ok", "Some"): raise Undecided("the input type %s" % w)
            names[w] = t[0].result[3][0]
        n = 0
        from itertools import combinations
        for m in range(len(names) + 1):
            for c in combinations(sorted(names), m):
                v = ("agg",) + list(names.values())[0][1:3] + ((k(sum(names[x][3][0][1] for x in c)),), ("bits",))
                t = M2.run(o, [v], {})
                if len(t) != 1: raise Undecided("the path of an input type")
                got = plain(t[0].result)
                s_ = set(c)
                want = None if not s_ or s_ - {"mob", "obj", "turf", "area"} and s_ != {"list"} else "/" + c[0] if m == 1 else "/atom/movable" if s_ <= {"mob", "obj"} else "/atom"
                R.ob(("input type", "|".join(c)), got == want, o.where(), f"as {'|'.join(c)} is taken for {got}, should be {want}")
                n += 1
        R.count("sets of input types", n, 512)
    R.part("input", p_input)


def show(e):
    if e[0] in ("null", "int"): return e[0]
    if e[0] == "p": return e[1]
    if e[0] == "path": return "/" + "/".join(e[1])
    if e[0] == "()": return "(" + show(e[1]) + ")"
    if e[0] == "follow": return show(e[1]) + "".join(e[2])
    if e[0] == "?": return f"{show(e[1])} ? {show(e[2])} : {show(e[3])}"
    return f"{show(e[1])} {e[0]} {show(e[2])}"
