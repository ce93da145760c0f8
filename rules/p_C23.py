"""Terms, calls and accesses are read as they are written."""
from grammar import *

RULE = ("term, group, follow, field, list_access, arguments, pick_arguments, prefab_ex, input_specifier and input_type are evaluated abstractly over their MIR on words of tokens, of which some "
        "stand for any expression, argument list, path, input type or access; every word over the tokens each place is asked for, until the function or a reference grammar of DM's terms has "
        "decided; syntax tree, rest of the input, locations and diagnostics agree.")
WORDS = ("new", "list", "alist", "call", "call_ext", "input", "locate", "pick", "null", "as", "__PROC__", "__TYPE__", "__IMPLIED_TYPE__")
SPECIAL = {"list": "List", "alist": "List"}
LITERAL = (("tok", "String", "a text"), ("tok", "Resource", "a file"), ("tok", "Int", 7), ("tok", "Float", 2.5))
BEGIN, PART, END = ("tok", "InterpStringBegin", "begin"), ("tok", "InterpStringPart", "part"), ("tok", "InterpStringEnd", "end")


def expr(k, i):
    if k == "in": return agg(A + "Expression", "BinaryOp", op=agg(A + "BinaryOp", "In"), lhs=box(("k", "left %d" % i)), rhs=box(("k", "list %d" % i)))
    return agg(A + "Expression", "TernaryOp", cond=box(("k", "cond %d" % i)), if_=box(("k", "if")), else_=box(("k", "else")))


def px(k, i): return plain(expr(k, i))


def arguments(k, i):
    return lst(*[expr("in" if x == "in" else "any", (i + 1) * 100 + j) for j, x in enumerate(k.split())])


class Empty:
    def __repr__(s): return "nothing"
    def __eq__(s, o): return o in ("default()", "", [], ())


EMPTY = Empty()


class Common(Ref):
    belongs = None

    def expr(s):
        h, q = s.head(), s.q
        return None if s.kind("E") is None else px(h[1], q)

    def args(s):
        h, q = s.head(), s.q
        return None if s.kind("A") is None else plain(arguments(h[1], q))

    def out(s, x):
        n = s.b if s.belongs is not None else None
        return ("nothing", s.q) if x is None else ("read", s.q, x, () if n is None else (("belongs to", n),), tuple(s.notes))


class TermRef(Common):
    belongs = True
    b = False

    def prefab(s, parts=()):
        """a path goes on with a separator"""
        s.head()
        q = s.kind("G")
        if q is None and not parts: return None
        return ("prefab", list(parts), q)

    def term(s):
        x = s.term_()
        return s.out(None if x is None else at(Loc(0), x))

    def field(s):
        return s.kind("D")

    def term_(s):
        h = s.head()
        s.asks(("all",))
        if h[0] == "G" and h[1] in ("Slash", "CloseColon"):
            return X("Prefab", s.prefab())
        if h[0] == "i":
            s.q += 1
            w = h[1]
            if w == "new":
                if s.p("Dot"):
                    i = s.ident()
                    if i is not None:
                        p = s.prefab([("Dot", i)])
                        return V("NewPrefab", prefab=p, args=s.args())
                    return V("NewMiniExpr", expr=V("MiniExpr", ident=".", fields=EMPTY), args=s.args())
                i = s.ident()
                if i is not None:
                    f = []
                    while True:
                        q = s.field()
                        if q is None: break
                        f.append(("field", q))
                    return V("NewMiniExpr", expr=V("MiniExpr", ident=i, fields=f), args=s.args())
                p = s.prefab()
                if p is not None: return V("NewPrefab", prefab=p, args=s.args())
                return V("NewImplicit", args=s.args())
            if w in SPECIAL:
                a = s.args()
                return X("Ident", w) if a is None else X(SPECIAL[w], a)
            if w == "call":
                return X("DynamicCall", s.need(s.args()), s.need(s.args()))
            if w == "call_ext":
                s.need(s.p("LParen"))
                a, b = s.need(s.expr()), None
                if s.p("Comma"): b = s.need(s.expr())
                s.need(s.p("RParen"))
                r = s.need(s.args())
                return V("ExternalCall", library=None if b is None else a, function=a if b is None else b, args=r)
            if w == "input":
                a = s.args()
                if a is None: return X("Ident", w)
                t = l = None
                h, q = s.head(), s.q
                if s.kind("Z") is not None: t, l = (("type", q) if "as" in h[1] else None), (px("any", q) if "in" in h[1] else None)
                return V("Input", args=a, input_type=t, in_list=l)
            if w == "locate":
                h = s.head()
                a = s.args()
                if a is None: return X("Ident", w)
                if h[1].split()[:1] == ["in"]: s.note("Warning")
                l = None
                if s.p("In"):
                    if len(a) > 1: s.note("Warning")
                    l = s.need(s.expr())
                return V("Locate", args=a, in_list=l)
            if w == "pick":
                q = s.kind("K")
                return X("Ident", w) if q is None else X("Pick", ("choices", q))
            if w == "null": return ("Null",)
            if w == "as":
                s.need(s.p("LParen"))
                q = s.kind("N")
                s.need(s.p("RParen"))
                return X("As", ("type", q) if q is not None else "empty")
            if w.startswith("__"): return (w,)
            a = s.args()
            if a is not None: return X("Call", w, a)
            s.b = True
            return X("Ident", w)
        if h == ("p", "Super"):
            s.q += 1
            return X("ParentCall", s.need(s.args()))
        if h == ("p", "Dot"):
            s.q += 1
            i = s.ident()
            if i is not None: return X("Prefab", s.prefab([("Dot", i)]))
            a = s.args()
            return X("Ident", ".") if a is None else X("SelfCall", a)
        if h == ("p", "Scope"):
            s.q += 1
            i = s.need(s.ident())
            a = s.args()
            return X("GlobalIdent", i) if a is None else X("GlobalCall", i, a)
        if h == ("p", "LParen"):
            s.q += 1
            if s.p("RParen"):
                s.note("Warning")
                return ("Null",)
            e = s.need(s.expr())
            s.need(s.p("RParen"))
            return X("Expr", e)
        if h == BEGIN:
            s.q += 1
            out = []
            while True:
                e = s.expr()
                h = s.head()
                s.asks(("all",))
                if h not in (PART, END): raise Err
                s.q += 1
                out.append((e, h[2]))
                if h == END: return X("InterpString", "begin", out)
        if h[0] == "tok" and len(h) > 2 and h in LITERAL:
            s.q += 1
            return X(h[1], h[2])
        return None


class Access(Common):
    """what follows a term"""
    KINDS = {"Dot": "Dot", "CloseColon": "Colon", "SafeDot": "SafeDot", "SafeColon": "SafeColon", "Scope": "Scope"}
    belongs = True

    def access(s, b, tern, index=True, calls=True):
        s.b = b
        x = s.access_(tern, index, calls)
        return s.out(x)

    def punct(s):
        h = s.head()
        s.asks(("all",))
        return h[1] if h[0] == "p" else None

    def access_(s, tern, index, calls):
        q = s.q
        h = s.punct()
        if index and h in ("LBracket", "SafeLBracket"):
            s.q += 1
            s.b = False
            e = s.need(s.expr())
            s.need(s.p("RBracket"))
            return at(Loc(q), X("Index", ("Normal" if h == "LBracket" else "Safe",), e))
        if index and not calls: return None
        if h not in s.KINDS or h == "Scope" and not calls: return None
        if h == "CloseColon" and tern and not s.b: return None
        s.q += 1
        i = s.ident()
        if i is None: s.note("Error")
        k = (s.KINDS[h],)
        if not calls: return V("Field", kind=k, ident=i or EMPTY)
        a = s.args()
        i = i or EMPTY
        if a is not None:
            s.b = False
            return at(Loc(q), X("ProcReference", i) if h == "Scope" else X("Call", k, i, a))
        return at(Loc(q), X("StaticField", i) if h == "Scope" else X("Field", k, i))


class Lists(Common):
    def separated(s, sep, end, item, empty):
        out, legal = [], False
        while True:
            if s.p(end): return out
            if s.p(sep):
                if legal: legal = False
                elif not empty: raise Err
            elif legal: raise Err
            else:
                out.append(s.need(item()))
                legal = True

    def call(s):
        if not s.p("LParen"): return s.out(None)
        return s.out(s.separated("Comma", "RParen", s.expr, True))

    def choice(s):
        e = s.expr()
        if e is None: return None
        return (e, s.need(s.expr())) if s.p("Semicolon") else (None, e)

    def pick(s):
        if not s.p("LParen"): return s.out(None)
        return s.out(s.separated("Comma", "RParen", s.choice, False))

    SEP = {"Slash": "Slash", "Dot": "Dot", "CloseColon": "Colon"}

    def sep(s):
        h = s.head()
        s.asks(("all",))
        if h[0] != "p" or h[1] not in s.SEP: return None
        s.q += 1
        return s.SEP[h[1]]

    def var(s):
        k = s.need(s.ident())
        s.need(s.p("Assign"))
        return (k, s.need(s.expr()))

    def prefab(s, parts):
        parts = [((a,), b) for a, b in parts]
        p = s.sep()
        if p is None: return s.out(V("Prefab", path=parts, vars=EMPTY) if parts else None)
        while p is not None:
            i = s.ident()
            if i is not None: parts.append(((p,), i))
            p = s.sep()
        if not parts: parts = [(("Slash",), "__PARSE_ERROR__")]
        v = []
        if s.p("LBrace"): v = s.separated("Semicolon", "RBrace", s.var, True)
        return s.out(V("Prefab", path=parts, vars=v))

    def type_(s):
        h = s.head()
        q = s.kind("N")
        return None if q is None else ("type", q)

    def specifier(s):
        t = l = None
        if s.i("as"): t = s.need(s.type_())
        if s.p("In"):
            l = s.need(s.expr())
            if s.i("as"):
                s.note("Warning")
                s.need(s.type_())
        return s.out((t, l))

    def input_type(s, known):
        if s.p("LParen"):
            s.need(s.p("RParen"))
            return s.out([])
        i = s.ident()
        if i is None: return s.out(None)
        out = set()
        while True:
            if i in known: out.add(i)
            else: s.note("Error")
            if not s.p("BitOr"): return s.out(sorted(out))
            i = s.need(s.ident())

    def group(s, tern):
        pre, post = [], []
        U = {"Sub": "Neg", "Not": "Not", "BitNot": "BitNot", "PlusPlus": "PreIncr", "MinusMinus": "PreDecr", "BitAnd": "Reference", "Mul": "Dereference"}
        W = {"PlusPlus": "PostIncr", "MinusMinus": "PostDecr"}
        while True:
            h = s.head()
            s.asks(("all",))
            if h[0] != "p" or h[1] not in U: break
            pre.append(at(Loc(s.q), X("Unary", (U[h[1]],))))
            s.q += 1
        q = s.kind("T")
        if q is None:
            if pre: raise Err
            return s.out(None)
        while True:
            h = s.head()
            s.asks(("all",))
            if h[0] == "p" and h[1] in W:
                post.append(at(Loc(s.q), X("Unary", (W[h[1]],))))
                s.q += 1
                continue
            s.log.append(tern)
            f = s.kind("F")
            if f is None: break
            post.append(("follow", f))
        x = s.out(V("Base", term=("term", q), follow=post + pre[::-1]))
        return x[:3] + (tuple(s.log),) + x[4:]


class Impl(Words):
    other = ("p", "Hash")
    stand_in = ("DocComment",)
    belongs = None

    def token(s, t, i):
        if t[0] == "G": return agg(TOK, "Punct", **{"0": agg(PUN, t[1])})
        if t[0] in ("E", "A", "D", "Z", "K", "N", "T", "F"): return agg(TOK, "DocComment", **{"0": ("k", ("stands for", t))})
        return super().token(t, i)

    def stands(s, t, i, n, a):
        if n == "expression": return expr(t[1], i)
        if n == "arguments": return arguments(t[1], i)
        if n == "pick_arguments": return tup(("k", "choices"), ("k", i))
        if n == "input_type": return tup(("k", "type"), ("k", i))
        if n == "field": return tup(("k", "field"), ("k", i))
        if n == "term": return tup(("k", "term"), ("k", i))
        if n == "follow": return tup(("k", "follow"), ("k", i))
        raise NotImplementedError

    def note(s, n, a, e):
        x = subterm(a[0], lambda z: named(z, "set_severity"))
        return x[2][1][2] if x is not None else "Error"

    def logged(s, n, i, a): return plain(a[2]) if n == "follow" else None

    def outcome(s, t):
        x = super().outcome(t)
        if x[0] == "read" and s.belongs is not None:
            l = t.env.get(s.belongs)
            return x[:3] + ((("belongs to", bool(l[1]) if l[0] == "list" else rend(l)[:60]),),) + x[4:]
        return x

    def impl(s, o, args, word, **kw):
        M = Machine(s.F, s.calls(word), lambda b: norm_path(b.path) in s.inline or is_new(b) or b.path in s.inline, seed=s.seed)
        env = {SELF: s.self_(**kw), "q": 0, "notes": (), "log": (), "blame": None}
        if s.belongs is not None: env[s.belongs] = lst(*[("k", x) for x in s.b0])
        out = M.run(o, [("at", (SELF,))] + args, env)
        for b in M.seen: s.R.saw(b)
        return out

    def more(s, n, fn, tf, a, e, places, write):
        if fn.startswith(PA) and n in ("prefab", "prefab_ex") and n not in s.own:
            parts = plain(a[1]) if n == "prefab_ex" else []
            t, i = s.word_at(e)
            s.ask_g(e)
            if t[0] != "G" and not parts: return ok(NONE)
            if t[0] == "G": e["q"] += 1
            else: i = None
            return ok(some(tup(("k", "prefab"), lst(*[tup(("k", x[0][0]), ("k", x[1])) for x in parts]), ("k", i))))
        if fn.startswith(PA) and n == "input_specifier" and n not in s.own:
            t, i = s.word_at(e)
            s.ask_k(e, "Z")
            if t[0] != "Z": return ok(some(tup(NONE, NONE)))
            e["q"] += 1
            return ok(some(tup(some(tup(("k", "type"), ("k", i))) if "as" in t[1] else NONE, some(expr("any", i)) if "in" in t[1] else NONE)))
        if "InputType" in tf + fn:
            if n == "empty": return ("k", "empty") if "input_type" not in s.own else lst()
            if n == "bitor_assign":
                write(places[0], lst(*sorted(set(a[0][1]) | set(a[1][1]))))
                return UNIT
            if n in ("bitor", "union"): return lst(*sorted(set(a[0][1]) | set(a[1][1])))
            if n == "insert":
                write(places[0], lst(*sorted(set(a[0][1]) | set(a[1][1]))))
                return UNIT
        if n == "from_str" and a and a[0][0] == "k" and "InputType" in tf + fn:
            return ok(lst(a[0])) if a[0][1] in s.known else err(UNIT)
        if n == "add_columns": return a[0]
        return None

    own = ()
    known = ("mob", "obj")

    def ask_g(s, e): s.ask_k(e, "G")

    def ask_k(s, e, k):
        if s.asked is not None and e["q"] == s.at_end: s.asked.add((k, "*"))


vals = {"E": ("expression",), "A": ("arguments",), "K": ("pick_arguments",), "N": ("input_type",)}
sep = [PA + "comma", PA + "semicolon", PA + "separated", PA + "path_separator", P + "success", P + "try_another", A + "Spanned::new", "<dreammaker::ast::Prefab as core::convert::From<alloc::vec::Vec<(dreammaker::ast::PathOp, dreammaker::ast::Ident)>>>::from"]
EX, ARGS = ("E", "any"), [("A", ""), ("A", "any"), ("A", "in"), ("A", "any any"), ("A", "in any"), ("A", "any in")]


def i(x): return ("i", x)
def p(x): return ("p", x)


def accesses(F, R):
    n = 0
    for name, index, calls in (("follow", True, True), ("field", False, False), ("list_access", True, False)):
        o = R.fn(PA + name)
        for b in (False, True):
            for tern in (False, True) if name != "list_access" else (False,):
                W = Impl(F, R, vals, inline=sep + ([PA + "list_access"] if name == "follow" else []) + ["dreammaker::ast::PropertyAccessKind::name"])
                W.belongs, W.b0 = SELF + 10 ** 6, ("x",) if b else ()
                alphabet = [p(x) for x in ("Dot", "CloseColon", "Colon", "SafeDot", "SafeColon", "Scope", "LBracket", "SafeLBracket", "RBracket", "LParen", "Super", "QuestionMark", "PlusPlus")]
                alphabet += [i("word"), i("new"), EX, ("A", ""), ("A", "any any"), ("eof",), ("tok", "String", "text")]
                args = [("at", (SELF + 10 ** 6,))] + ([("k", tern)] if name != "list_access" else [])
                n += W.explore((name, "after a name" if b else "after something else", "in a ternary" if tern else ""), o, args,
                               lambda r: r.access(b, tern, index, calls), alphabet, limit=6, ref=Access)
    R.count("words of accesses", n, 100)


def groups(F, R):
    n = 0
    for tern in (False, True):
        W = Impl(F, R, {"T": ("term",), "F": ("follow",)}, inline=sep)
        al = [p(x) for x in ("Sub", "Not", "BitNot", "PlusPlus", "MinusMinus", "BitAnd", "Mul", "Add", "LParen", "Dot")] + [("T", ""), ("F", ""), i("word")]
        few = [p(x) for x in ("PlusPlus", "MinusMinus", "Sub", "Add")] + al[-3:]
        al2 = lambda w: al if len(w) < 2 else few
        n += W.explore(("group", "in a ternary" if tern else ""), R.fn(PA + "group"), [("k", tern)], lambda r: r.group(tern), al2, limit=5, ref=Lists)
    R.count("words of groups", n, 200)


def check(F, R):
    def p_term():
        o = R.fn(PA + "term")
        W = Impl(F, R, dict(vals, D=("field",)), inline=sep)
        W.belongs, W.b0 = SELF + 10 ** 6, ()
        first = [i(w) for w in WORDS + ("word",)] + [p(x) for x in ("Super", "Dot", "Scope", "LParen", "RParen", "Sub", "LBracket", "Not", "CloseColon", "Colon", "Slash") if x not in ("Slash", "CloseColon")]
        first += list(LITERAL) + [BEGIN, PART, END, ("tok", "DocComment", "doc"), ("eof",), ("G", "Slash"), ("G", "CloseColon")]
        rest = [i("word"), i("new"), i("as"), EX, ("G", "Slash"), ("G", "CloseColon"), ("D", "."), ("K", ""), ("N", ""), PART, END, BEGIN]
        rest += [p(x) for x in ("LParen", "RParen", "Comma", "In", "Dot", "Scope", "LBracket")] + ARGS + [("Z", "as"), ("Z", "in"), ("Z", "as in")]
        n = W.explore(("term",), o, [("at", (SELF + 10 ** 6,))], lambda r: r.term(), lambda w: first if not w else rest, limit=9, ref=TermRef)
        R.count("words of terms", n, 300)
    R.part("term", p_term)

    R.part("access", lambda: accesses(F, R))

    def p_lists():
        no_empty = lambda w: not any(x in (p("LParen"), p("Comma")) and y == p("Comma") for x, y in zip(w, w[1:]))
        comma = [p(x) for x in ("LParen", "RParen", "Comma", "Semicolon", "Assign")] + [EX, i("word")]
        n = 0
        W = Impl(F, R, {"E": ("expression",)}, inline=sep)
        n += W.explore(("arguments",), R.fn(PA + "arguments"), [lst(), ("k", "proc")], lambda r: r.call(), comma, limit=8, keep=no_empty, ref=Lists)
        n += W.explore(("pick",), R.fn(PA + "pick_arguments"), [], lambda r: r.pick(), comma, limit=9, ref=Lists)
        W = Impl(F, R, {"E": ("expression",)}, inline=sep)
        W.own = ("prefab", "prefab_ex")
        al = [p(x) for x in ("Slash", "Dot", "CloseColon", "LBrace", "RBrace", "Assign", "Semicolon", "Colon", "Scope", "LParen")] + [EX, i("word")]
        o = R.fn(PA + "prefab_ex")
        inside = [p(x) for x in ("RBrace", "Assign", "Semicolon", "Slash")] + [EX, i("word")]
        al2 = lambda w: inside if p("LBrace") in w else al if len(w) < 2 else [p("Slash"), p("Colon"), p("LBrace"), i("word")] if len(w) < 4 else [p("LBrace")]
        for parts in ((), (("Dot", "start"),)):
            n += W.explore(("prefab", "from nothing" if not parts else "from .start"), o, [lst(*[tup(agg(A + "PathOp", a), ("k", b)) for a, b in parts])],
                           lambda r: r.prefab(parts), al2, limit=10, ref=Lists)
        W = Impl(F, R, {"E": ("expression",), "N": ("input_type",)}, inline=sep)
        W.own = ("input_specifier",)
        n += W.explore(("input specifier",), R.fn(PA + "input_specifier"), [], lambda r: r.specifier(), [i("as"), i("in"), i("word"), p("In"), p("Comma"), EX, ("N", "")], limit=7, ref=Lists)
        W = Impl(F, R, {}, inline=sep)
        W.own = ("input_type",)
        n += W.explore(("input type",), R.fn(PA + "input_type"), [], lambda r: r.input_type(W.known), [i("mob"), i("obj"), i("word"), p("BitOr"), p("LParen"), p("RParen"), p("Comma")], limit=7, ref=Lists)
        R.count("words of lists", n, 200)
    R.part("lists", p_lists)

    R.part("group", lambda: groups(F, R))
