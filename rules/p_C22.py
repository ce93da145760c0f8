"""Statements are read as they are written."""
from grammar import *

RULE = ("statement, simple_statement and block are evaluated abstractly over their MIR on words of tokens, of which some stand for any expression (of nine kinds), simple statement, path, block or input type: "
        "every word over the tokens each place is asked for, up to twelve tokens, until the function or a reference grammar of DM's statements has decided; syntax tree, rest of the input, locations, the in-for flag, "
        "loop contexts and diagnostics agree. for_range, case, separated, statement_terminator, skip_phantom_semicolons, comma, semicolon, into_term and as_term are evaluated within them.")
ANY = Loc(*range(100))


def expr(k, i):
    """what a token that stands for an expression of kind k stands for"""
    base = lambda t: agg(A + "Expression", "Base", term=box(agg(A + "Spanned", "Spanned", location=loc(i), elem=t)), follow=box(lst()))
    T = lambda v, *f: agg(A + "Term", v, **{str(j): x for j, x in enumerate(f)})
    binary = lambda op, l, r: agg(A + "Expression", "BinaryOp", op=agg(A + "BinaryOp", op), lhs=box(l), rhs=box(r))
    other = lambda n: agg(A + "Expression", "TernaryOp", cond=box(("k", "cond %s %d" % (n, i))), if_=box(("k", "if")), else_=box(("k", "else")))
    name = base(T("Ident", ("k", "name%d" % i)))
    if k == "any": return other("of")
    if k == "name": return name
    if k == "call": return base(T("Call", ("k", "proc"), lst()))
    if k == "name in list": return binary("In", name, other("list"))
    if k == "name in a to b": return binary("In", name, binary("To", other("low"), other("high")))
    if k == "other in list": return binary("In", other("left"), other("list"))
    if k == "name = value": return agg(A + "Expression", "AssignOp", op=agg(A + "AssignOp", "Assign"), lhs=box(name), rhs=box(other("value")))
    if k == "other = value": return agg(A + "Expression", "AssignOp", op=agg(A + "AssignOp", "Assign"), lhs=box(other("left")), rhs=box(other("value")))
    if k == "name += value": return agg(A + "Expression", "AssignOp", op=agg(A + "AssignOp", "AddAssign"), lhs=box(name), rhs=box(other("value")))
    raise KeyError(k)


def simple(k, i):
    S = lambda v, *f: agg(A + "Statement", v, **{str(j): x for j, x in enumerate(f)})
    var = lambda v: S("Var", box(agg(A + "VarStatement", "VarStatement", var_type=("k", "type%d" % i), name=("k", "var%d" % i), value=v)))
    if k == "var": return var(NONE)
    if k == "var = value": return var(some(expr("any", i)))
    if k == "return": return S("Return", NONE)
    return S("Expr", expr(k, i))


def px(k, i): return plain(expr(k, i))


class Stmt(Ref):
    """the statements of DM"""
    def expr(s):
        h, q = s.head(), s.q
        return None if s.kind("E") is None else (h[1], q)

    def block(s, ctx):
        q = s.kind("B")
        return s.need(None if q is None else ("block", q, ctx))

    def terminator(s):
        s.head()
        s.asks(("p", "RBrace"))
        if s.head() == ("p", "RBrace"): return
        s.need(s.p("Semicolon"))

    def phantom(s):
        while s.p("Semicolon"): pass

    def value(s, e): return None if e is None else px(*e)

    def cond(s):
        s.need(s.p("LParen"))
        l = s.q
        e = s.value(s.need(s.expr()))
        s.need(s.p("RParen"))
        return at(Loc(l - 1, l), e)

    def separated(s, item, empty=False):
        out, legal = [], False
        while True:
            if s.p("RParen"): return out
            if s.p("Comma"):
                if legal: legal = False
                elif not empty: raise Err
            elif legal: raise Err
            else:
                out.append(s.need(item()))
                legal = True

    def statement(s, ctx):
        x = s.statement_(ctx)
        return ("nothing", s.q) if x is None else ("read", s.q, at(Loc(0), x), tuple(s.log), tuple(s.notes))

    def statement_(s, ctx):
        if s.i("if"):
            arms, other = [(s.cond(), s.block(ctx))], None
            s.phantom()
            while s.i("else"):
                if not s.i("if"):
                    other = s.block(ctx)
                    break
                arms.append((s.cond(), s.block(ctx)))
                s.phantom()
            return V("If", arms=arms, else_arm=other)
        if s.i("while"): return V("While", condition=s.cond()[2], block=s.block("While"))
        if s.i("do"):
            b = s.block("DoWhile")
            s.phantom()
            s.need(s.i("while"))
            c = s.cond()
            s.terminator()
            return V("DoWhile", condition=c, block=b)
        if s.i("for"): return s.for_()
        if s.i("spawn"):
            d = None
            if s.p("LParen"):
                d = s.value(s.expr())
                s.need(s.p("RParen"))
            return V("Spawn", delay=d, block=s.block("None"))
        if s.i("switch"):
            e = s.cond()[2]
            s.need(s.p("LBrace"))
            cases, default = [], None
            while True:
                if s.i("if"):
                    s.need(s.p("LParen"))
                    l = s.q
                    what = s.separated(s.case)
                    if not what: s.note("diagnostic")
                    r = s.q
                    cases.append((at(ANY, what), s.block(ctx)))
                elif s.i("else"):
                    default = s.block(ctx)
                    break
                elif not s.p("Semicolon"): break
            s.need(s.p("RBrace"))
            return V("Switch", input=e, cases=cases, default=default)
        if s.i("try"):
            t, p = s.block(ctx), []
            s.phantom()
            s.need(s.i("catch"))
            if s.p("LParen"): p = s.separated(s.tree)
            return V("TryCatch", try_block=t, catch_params=p, catch_block=s.block(ctx))
        if s.i("set"):
            n = s.need(s.ident())
            m = "Assign" if s.p("Assign") else "In" if s.p("In") else s.need(None)
            v = s.value(s.need(s.expr()))
            s.terminator()
            return V("Setting", name=n, mode=(m,), value=v)
        for w in ("break", "continue"):
            if s.i(w):
                l = s.ident()
                s.terminator()
                return X(w.capitalize(), l)
        if s.i("del"):
            v = s.value(s.need(s.expr()))
            s.terminator()
            return X("Del", v)
        q, h = s.q, s.head()
        s.log.append(("simple_statement", q, False))
        if s.kind("S") is None: return None
        if h[1] == "name" and s.p("Colon"): return V("Label", name="name%d" % q, block=s.block(ctx))
        s.terminator()
        return plain(simple(h[1], q))

    def tree(s):
        q = s.kind("T")
        return None if q is None else [("part", q)]

    def case(s):
        a = s.need(s.expr())
        if s.i("to"): return X("Range", s.value(a), s.value(s.need(s.expr())))
        return X("Exact", s.value(a))

    def simple_(s, in_for):
        h, q = s.head(), s.q
        s.log.append(("simple_statement", q, in_for))
        return None if s.kind("S") is None else (h[1], q)

    def state(s, x): return None if x is None else plain(simple(*x))

    def astype(s):
        if not s.i("as"): return None
        return ("input type", s.need(s.kind("I")))

    def range_(s, t, n, a, b):
        step = s.value(s.need(s.expr())) if s.i("step") else None
        s.need(s.p("RParen"))
        return X("ForRange", V("ForRangeStatement", var_type=t, name=n, start=a, end=b, step=step, block=s.block("ForRange")))

    def list_(s, t, n, it, l):
        s.need(s.p("RParen"))
        return X("ForList", V("ForListStatement", var_type=t, name=n, input_type=it, in_list=l, block=s.block("ForList")))

    def loop(s, init, test, inc):
        s.need(s.p("RParen"))
        return V("ForLoop", init=s.state(init), test=s.value(test), inc=s.state(inc), block=s.block("ForLoop"))

    def for_(s):
        s.need(s.p("LParen"))
        init = s.simple_(True)
        it = s.astype()
        k, i = init or (None, 0)
        if s.p("Semicolon"):
            test = s.expr()
            return s.loop(init, test, s.simple_(False) if s.p("Semicolon") else None)
        if s.p("Comma"):
            test = s.expr()
            inc = s.simple_(False) if s.p("Comma") else None
            if inc is None and test is not None and test[0] in ("name in list", "other in list", "name in a to b"):
                if k not in ("var", "name") or test[0] == "other in list": raise Err
                t, n = ("type%d" % i, "var%d" % i) if k == "var" else (None, "name%d" % i)
                s.need(s.p("RParen"))
                l = dict(px(*test)[1:])["rhs"]
                return X("ForKeyValue", V("ForKeyValueStatement", var_type=t, key=n, key_input_type=it, value="name%d" % test[1], in_list=l, block=s.block("ForLoop")))
            return s.loop(init, test, inc)
        if init is None:
            s.need(s.p("RParen"))
            return V("ForInfinite", block=s.block("ForInfinite"))
        if k == "var": t, n = "type%d" % i, "var%d" % i
        elif k == "var = value":
            s.need(s.i("to"))
            return s.range_("type%d" % i, "var%d" % i, px("any", i), s.value(s.need(s.expr())))
        elif k == "name = value":
            s.need(s.i("to"))
            return s.range_(None, "name%d" % i, dict(px(k, i)[1:])["rhs"], s.value(s.need(s.expr())))
        elif k == "name in a to b":
            d = dict(dict(px(k, i)[1:])["rhs"][1:])
            return s.range_(None, "name%d" % i, d["lhs"], d["rhs"])
        elif k == "name in list": return s.list_(None, "name%d" % i, None, dict(px(k, i)[1:])["rhs"])
        elif k == "name": t, n = None, "name%d" % i
        else: raise Err
        l = None
        if s.p("In"):
            l = s.value(s.need(s.expr()))
            if s.i("to"): return s.range_(t, n, l, s.value(s.need(s.expr())))
        return s.list_(t, n, it, l)


class Simple(Ref):
    """a statement of one line, also the first part of for()"""
    def expr(s):
        q = s.kind("E")
        return None if q is None else px("any", q)

    def simple(s, in_for):
        x = s.simple_(in_for)
        return ("nothing", s.q) if x is None else ("read", s.q, x, (), tuple(s.notes))

    def simple_(s, in_for):
        if s.i("var"): return s.vars(in_for)
        if s.i("return"): return X("Return", s.expr())
        if s.i("CRASH"):
            s.need(s.p("LParen"))
            e = s.expr()
            s.need(s.p("RParen"))
            return X("Crash", e)
        if s.i("throw"): return X("Throw", s.need(s.expr()))
        if s.i("goto"): return X("Goto", s.need(s.ident()))
        e = s.expr()
        return None if e is None else X("Expr", e)

    def vars(s, in_for):
        out = []
        while True:
            h = s.head()
            q = s.need(s.kind("T"))
            if h[1] == "": raise Err
            flags = tuple(h[1].split())
            for f in ("tmp", "final", "private", "protected"):
                if f in flags: s.note(("Warning", {"tmp": "tmp_no_effect", "final": "final_no_effect", "private": "private_var", "protected": "protected_var"}[f]))
            h2 = s.head()
            k = s.kind("L")
            v = s.need(s.expr()) if s.p("Assign") else None if k is None else ("initialiser", k)
            if not in_for and s.kind("Z") is not None: s.note(("Warning", "as_local_var"))
            out.append(V("VarStatement", var_type=("var type", [*flags, "type of %d" % q], None if k is None else k), name="name %d" % q, value=v))
            if in_for or not s.p("Comma"): break
        return X("Var", out[0]) if len(out) == 1 else X("Vars", out)


class ImplSimple(Words):
    def stands(s, t, i, n, a):
        if n == "expression": return expr("any", i)
        if n == "tree_path": return tup(("k", True), lst(*([("k", x) for x in t[1].split()] + [("k", "type of %d" % i), ("k", "name %d" % i)])) if t[1] else lst())
        if n == "input_specifier": return tup(some(("k", "as")), NONE) if t[1] == "as" else tup(NONE, some(("k", "in")))
        raise NotImplementedError

    def note(s, n, a, e):
        sev, typ = "Error", None
        x = subterm(a[0], lambda z: named(z, "set_severity"))
        if x is not None: sev = x[2][1][2]
        x = subterm(a[0], lambda z: named(z, "with_errortype"))
        if x is not None: typ = x[2][1][1]
        return (sev, typ)

    def more(s, n, fn, tf, a, e, places, write):
        B = A + "VarTypeBuilder"
        if n == "var_suffix" and fn.startswith(PA):
            t, i = s.word_at(e)
            if t[0] != "L": return ok(some(("k", ("suffix", None))))
            e["q"] += 1
            return ok(some(("k", ("suffix", i))))
        if n == "input_specifier" and s.word_at(e)[0][0] != "Z": return ok(some(tup(NONE, NONE)))
        if n in ("collect", "from_iter") and a and a[0][0] in ("iter", "list"): return agg(B, "VarTypeBuilder", flags=a[0], suffix=("k", None))
        if a and a[0][0] == "agg" and a[0][1] == B:
            if n == "suffix":
                x = a[1][1][1] if a[1][0] == "k" else "?"
                v = agg(B, "VarTypeBuilder", flags=a[0][3][0], suffix=("k", x))
                write(places[0], v)
                return UNIT
            if n == "build": return tup(("k", "var type"), ("list", a[0][3][0][1]), a[0][3][1])
            if n == "clone": return a[0]
        if n in ("is_tmp", "is_final", "is_private", "is_protected") and a[0][0] in ("iter", "list"): return ("k", n[3:] in [x[1] for x in a[0][1]])
        if n == "into_initializer" and a[0][0] == "k": return NONE if a[0][1][1] is None else some(("k", ("initialiser", a[0][1][1])))
        return None


class Block(Ref):
    def block(s):
        x = s.block_()
        return ("read", s.q, x, tuple(s.log), ())

    def one(s):
        s.log.append(("statement", s.q, "its loop", Loc(s.q)))
        return ("statement", s.need(s.kind("C")))

    def block_(s):
        if s.p("LBrace"):
            out = []
            while not s.p("RBrace"):
                if not s.p("Semicolon"): out.append(s.one())
            return out
        s.asks(("p", "RBrace"))
        if s.head() == ("p", "RBrace") or s.p("Semicolon"): return []
        return [s.one()]


class ImplBlock(Words):
    def logged(s, n, i, a): return (n, i, plain(a[1]), plain(a[0][3][s.fields.index("location")]))

    def stands(s, t, i, n, a): return tup(("k", "statement"), ("k", i))


class Impl(Words):
    def logged(s, n, i, a): return (n, i, plain(a[1])) if n == "simple_statement" else None
    def stands(s, t, i, n, a):
        if n == "expression": return expr(t[1], i)
        if n == "simple_statement": return simple(t[1], i)
        if n == "block": return tup(("k", "block"), ("k", i), a[1] if a[1][0] == "k" else ("k", a[1][2]))
        if n == "tree_path": return tup(("k", True), lst(tup(("k", "part"), ("k", i))))
        if n == "input_type": return tup(("k", "input type"), ("k", i))
        raise NotImplementedError


KINDS = ("any", "name", "call", "name in list", "name in a to b", "other in list", "name = value", "other = value", "name += value")


PLAIN = [PA + x for x in ("for_range", "comma", "semicolon", "case", "separated", "statement_terminator", "skip_phantom_semicolons")] + [P + "success", P + "try_another", A + "Expression::into_term", A + "Expression::as_term", A + "Spanned::new"]


def check(F, R):
    W = Impl(F, R, {"E": ("expression",), "S": ("simple_statement",), "B": ("block",), "T": ("tree_path",), "I": ("input_type",)},
             inline=PLAIN)

    def p_statement():
        o = R.fn(PA + "statement")
        heads = ["if", "while", "do", "for", "spawn", "switch", "try", "set", "break", "continue", "del", "else", "word", "catch"]
        marks = ["LParen", "RParen", "LBrace", "RBrace", "Semicolon", "Comma", "Assign", "In", "Colon"]
        E = [("E", k) for k in ("any",)]
        S = [("S", k) for k in KINDS + ("var", "var = value", "return")]
        common = [("p", m) for m in marks] + E + [("B", "block"), ("S", "any"), ("T", "path"), ("I", "type"), ("i", "word")]

        def alphabet(w):
            if not w: return [("i", h) for h in heads] + S + [("p", m) for m in marks] + [("B", "block"), ("E", "any")]
            h = w[0][1] if w[0][0] == "i" else ""
            x = list(common) + [("i", k) for k in {"if": ("if", "else"), "do": ("while",), "for": ("as", "to", "step"), "switch": ("if", "else", "to"), "try": ("catch",)}.get(h, ())]
            if h == "for": x += [("S", k) for k in KINDS + ("var", "var = value", "return") if k != "any"] + [("E", k) for k in ("name in list", "other in list", "name in a to b", "name")]
            return x
        n = 0
        n = W.explore(("statement",), o, [("k", "the enclosing"), ("k", "vars")], lambda r: r.statement("the enclosing"), alphabet, limit=12, ref=Stmt)
        R.count("words of statements", n, 1000)
    R.part("statement", p_statement)

    def p_simple():
        o = R.fn(PA + "simple_statement")
        W2 = ImplSimple(F, R, {"E": ("expression",), "T": ("tree_path",), "Z": ("input_specifier",)}, inline=PLAIN)
        alpha = [("i", x) for x in ("var", "return", "CRASH", "throw", "goto", "word")] + [("p", x) for x in ("LParen", "RParen", "Assign", "Comma", "Semicolon", "In", "Colon")] + [("E", "any")] + \
            [("T", x) for x in ("", " ", "tmp", "final", "private", "protected", "tmp final", "const")] + [("L", "[]"), ("Z", "as"), ("Z", "in")]

        def alphabet(w):
            return alpha if len(w) < 3 else [x for x in alpha if x not in (("T", "final"), ("T", "private"), ("T", "protected"), ("T", "const"))]
        n = 0
        for in_for in (True, False):
            n += W2.explore(("simple statement", "in for" if in_for else "on its own"), o, [("k", in_for), ("k", "vars")], lambda r: r.simple(in_for), alphabet, limit=8, ref=Simple)
        R.count("words of simple statements", n, 300)
    R.part("simple statement", p_simple)

    def p_block():
        o = R.fn(PA + "block")
        W3 = ImplBlock(F, R, {"C": ("statement",)}, inline=PLAIN)
        n = W3.explore(("block",), o, [("k", "its loop")], lambda r: r.block(), [("p", x) for x in ("LBrace", "RBrace", "Semicolon", "Comma")] + [("C", "any"), ("i", "word")], limit=8, ref=Block)
        R.count("words of blocks", n, 100)
    R.part("block", p_block)
