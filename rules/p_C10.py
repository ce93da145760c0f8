"""Expressions are read with DM's operators, precedence and associativity."""
import re, itertools
from lib import *
import grammar, p_C23

RULE = """The spelling of every operator is followed through the compiled punctuation table and the compiled operator table to the operator it
builds and compared with DM's reference; the tree built for every sequence of up to three operators of lower, equal or higher strength is
computed on every path of the expression parser with its vectors and iterators modelled, and compared with the tree DM prescribes."""
P = "dreammaker::parser::"
L = "dreammaker::lexer::"
# DM reference, tightest first
CLASSES = [{"**": "BinaryOp::Pow"},
           {"*": "BinaryOp::Mul", "/": "BinaryOp::Div", "%": "BinaryOp::Mod", "%%": "BinaryOp::FloatMod"},
           {"+": "BinaryOp::Add", "-": "BinaryOp::Sub"},
           {"<": "BinaryOp::Less", ">": "BinaryOp::Greater", "<=": "BinaryOp::LessEq", ">=": "BinaryOp::GreaterEq", "<=>": "BinaryOp::LessOrGreater"},
           {"<<": "BinaryOp::LShift", ">>": "BinaryOp::RShift"},
           {"==": "BinaryOp::Eq", "!=": "BinaryOp::NotEq", "<>": "BinaryOp::NotEq", "~=": "BinaryOp::Equiv", "~!": "BinaryOp::NotEquiv"},
           {"&": "BinaryOp::BitAnd"}, {"^": "BinaryOp::BitXor"}, {"|": "BinaryOp::BitOr"}, {"&&": "BinaryOp::And"}, {"||": "BinaryOp::Or"},
           {"?": "TernaryOp::Conditional"},
           {"=": "AssignOp::Assign", "+=": "AssignOp::AddAssign", "-=": "AssignOp::SubAssign", "*=": "AssignOp::MulAssign", "/=": "AssignOp::DivAssign",
            "%=": "AssignOp::ModAssign", "%%=": "AssignOp::FloatModAssign", "&=": "AssignOp::BitAndAssign", "|=": "AssignOp::BitOrAssign", "^=": "AssignOp::BitXorAssign",
            "<<=": "AssignOp::LShiftAssign", ">>=": "AssignOp::RShiftAssign", ":=": "AssignOp::AssignInto", "&&=": "AssignOp::AndAssign", "||=": "AssignOp::OrAssign"},
           {"in": "BinaryOp::In"}]
PREFIX = {"-": "Neg", "!": "Not", "~": "BitNot", "++": "PreIncr", "--": "PreDecr", "&": "Reference", "*": "Dereference"}
POSTFIX = {"++": "PostIncr", "--": "PostDecr"}
TOKENS = {".": "Dot", "?.": "SafeDot", "?:": "SafeColon", "::": "Scope", "[": "LBracket", "]": "RBracket", "?[": "SafeLBracket", "-": "Sub", "!": "Not", "~": "BitNot", "++": "PlusPlus", "--": "MinusMinus", "&": "BitAnd", "*": "Mul", "..": "Super"}
ACCESS = {".": "Dot", "?.": "SafeDot", "?:": "SafeColon", "::": "Scope"}


def tail(t): return t[1].split("::")[-1] if t[0] == "call" else ""


def const(F, R, path):
    l = [x for x in F.bodies if x.npath == path and x.k in ("const", "static")]
    if len(l) != 1: raise AnchorMissing(path)
    R.saw(l[0])
    return l[0], traces(l[0])[0].result


def check(F, R):
    st = {}

    def p_tables():
        o, t = const(F, R, L + "PUNCT_TABLE")
        rows = [(const_of(x[3][0]), x[3][1][2]) for x in t[3]]
        R.count("punctuation_rows", len(rows), 70)
        sp = {}
        for s, v in rows: sp.setdefault(s, v)
        st["sp"] = sp
        sym = [s for s, v in rows if not any(ch.isalnum() for ch in s)]
        R.ob("spelling:distinct", len(set(sym)) == len(sym), o.where(), "a spelling is listed twice")
        R.ob("spelling:sorted", sym == sorted(sym), o.where(), "the spellings are not in order, so the longest operator is not always read")
        for s in sym:
            R.ob("spelling:prefix:%s" % s, len(s) == 1 or s[:-1] in sym, o.where(), "%r is read only if %r could be continued, but that is no spelling" % (s, s[:-1]))
        o2, t2 = const(F, R, L + "SPEEDY_TABLE")
        for c, x in enumerate(t2[3]):
            a, e = const_of(x[3][0]), const_of(x[3][1])
            want = [s for s in sym if ord(s[0]) == c]
            R.ob("first-byte:%d" % c, [s for s, v in rows[a:e]] == want, o2.where(), "starting with %r, only %s are read" % (chr(c), [s for s, v in rows[a:e]]))
        R.ob("first-byte:all", all(ord(s[0]) < len(t2[3]) for s in sym), o2.where(), "some operators are never read")
        o, t = const(F, R, P + "BINARY_OPS")
        strengths = list(F.variants(P + "Strength"))
        ops = {}
        for x in t[3]:
            g = lambda n: x[3][x[4].index(n)]
            tok, op = g("token")[2], g("oper")
            ops.setdefault(tok, (op[2] + "::" + op[3][0][2], strengths.index(g("strength")[2])))
            R.ob("operator:twice:%s" % tok, [y[3][y[4].index("token")][2] for y in t[3]].count(tok) == 1, o.where(), "%s is listed twice" % tok)
        R.count("operators", len(ops), 40)
        ranks = []
        for cls in CLASSES:
            rk = set()
            for s, want in cls.items():
                tok = sp.get(s)
                got = ops.get(tok)
                R.ob("operator:%s" % s, got is not None and got[0] == want, o.where(), "%s is read as %s" % (s, got[0] if got else "no operator"))
                if got: rk.add(got[1])
            R.ob("class:%s" % " ".join(sorted(cls)), len(rk) == 1, o.where(), "%s do not all bind equally" % ", ".join(sorted(cls)))
            ranks.append(min(rk) if rk else -1)
        for i in range(len(ranks) - 1):
            R.ob("order:%s" % i, ranks[i] < ranks[i + 1], o.where(), "%s does not bind tighter than %s" % (sorted(CLASSES[i]), sorted(CLASSES[i + 1])))
        for x, want in dict(TOKENS).items(): R.ob("token:%s" % x, sp.get(x) == want, o.where(), "%s is read as %s" % (x, sp.get(x)))
        known = {s for c in CLASSES for s in c}
        for tok in ops:
            s = [x for x, v in rows if v == tok]
            R.ob("operator:known:%s" % tok, any(x in known for x in s), o.where(), "%s is not a DM operator" % s)
        st["cond"], st["in"], st["assign"] = strengths[ranks[11]], strengths[ranks[13]], strengths[ranks[12]]
        # strengths compare by their rank
        cmps = [b for b in F.bodies if b.k == "fn" and "parser::Strength" in b.path and b.name in ("cmp", "partial_cmp", "eq", "lt", "gt")]
        R.count("strength_comparisons", len(cmps), 2)
        for c in cmps:
            for t in traces(prep(c)):
                ok = not mentions(t.result, lambda q: q[0] == "call" and len(q[2]) == 2 and mentions(q[2][0], lambda z: z == ("arg", 2)))
                R.ob("strength:%s" % c.name, ok, c.where(), "strengths are compared the wrong way round")
        # right associativity
        rb = R.fn(P + "Strength::right_binding")
        tr = traces(prep(rb))
        for s in strengths:
            ts = fit(tr, lambda t: s if t == ("arg", 1) else None)
            got = {evaluate(t.result, lambda t: s if t == ("arg", 1) else None) for t in ts}
            R.ob("associativity:%s" % s, got == {s == st["assign"]}, rb.where(), "%s operators associate %s" % (s, got))
        # names in messages and operator overloads
        for ty, kind in (("BinaryOp", "BinaryOp"), ("AssignOp", "AssignOp")):
            l = [x for x in F.bodies if x.k == "fn" and x.npath == "<dreammaker::ast::%s as core::fmt::Display>::fmt" % ty]
            if len(l) != 1: raise AnchorMissing("Display of %s" % ty)
            tr = traces(prep(l[0]))
            R.saw(l[0])
            for v in F.variants("dreammaker::ast::" + ty):
                ts = fit(tr, lambda t: v if t == ("arg", 1) else None)
                got = {const_of(e[1][-1]) for t in ts for e in t.events if emitted(e[0], e[1])} | {const_of(t.result[2][-1]) for t in ts if t.result and t.result[0] == "call" and not any(emitted(e[0], e[1]) for e in t.events)}
                want = {s for c in CLASSES for s, w in c.items() if w == kind + "::" + v} or ({"to"} if v == "To" else set())
                R.ob("name:%s" % v, len(got) == 1 and got <= want, l[0].where(), "%s is called %s" % (v, sorted(map(str, got))))
        bl = R.fn(P + "Op::build")
        tr = traces(prep(bl))
        for v, adt in (("BinaryOp", "BinaryOp"), ("AssignOp", "AssignOp")):
            ts = [t for t in fit(tr, lambda t: v if t == ("arg", 1) else None) if t.end == "return"]
            R.ob("build:%s" % v, bool(ts), bl.where(), "not built")
            for t in ts:
                r = t.result
                ok = r[0] == "agg" and r[2] == v and dict(zip(r[4], map(base, r[3]))) == {"op": ("fld", ("as", ("arg", 1), v), "0"), "lhs": ("arg", 2), "rhs": ("arg", 3)}
                R.ob("build:%s" % v, ok, bl.where(), "an operator is built as %s" % show(r))
    R.part("tables", p_tables)

    def p_words():
        """operands stand for any operand; every operator with every other"""
        sp = st["sp"]
        classes = [[(sp[x], w) for x, w in c.items()] for c in CLASSES]
        level = {tok: k for k, c in enumerate(classes) for tok, w in c}
        build = {tok: w for c in classes for tok, w in c}
        IN, COND, ASG = level[sp["in"]], level[sp["?"]], level[sp["="]]

        class Expr(grammar.Ref):
            def operand(s, tern):
                q = s.kind("G")
                if q is not None: s.log.append((q, tern))
                return None if q is None else ("operand", q)

            def op(s):
                h = s.head()
                s.asks(("all",))
                return h[1] if h[0] == "p" and h[1] in level else None

            def tree(s, tok, a, b):
                kind, v = build[tok].split("::")
                return grammar.V(kind, op=(v,), lhs=a, rhs=b)

            def climb(s, bound, tern):
                """an expression of operators that bind as tight as `bound` or tighter"""
                a = s.operand(tern)
                if a is None: return None
                while True:
                    tok = s.op()
                    if tok is None or level[tok] > bound: return a
                    s.q += 1
                    k = level[tok]
                    if k == COND: a = s.conditional(a)
                    elif k == ASG: a = s.tree(tok, a, s.need(s.climb(k, tern)))
                    elif k == IN:
                        b = s.need(s.climb(k - 1, tern))
                        if s.i("to"): b = grammar.V("BinaryOp", op=("To",), lhs=b, rhs=s.need(s.climb(IN, tern)))
                        a = s.tree(tok, a, b)
                    else: a = s.tree(tok, a, s.need(s.climb(k - 1, tern)))

            def conditional(s, cond):
                yes = s.need(s.climb(COND, True))
                h = s.head()
                s.asks(("all",))
                if h not in (("p", "Colon"), ("p", "CloseColon")): raise grammar.Err
                s.q += 1
                no = s.climb(COND, True)
                if no is None:
                    s.note("Warning")
                    no = "null"
                return grammar.V("TernaryOp", cond=cond, if_=yes, else_=no)

            def whole(s):
                a = s.climb(len(classes), False)
                return ("nothing", s.q) if a is None else ("read", s.q, a, tuple(sorted(s.log)), tuple(s.notes))

        class Impl(grammar.Words):
            other = ("p", "Hash")

            def stands(s, t, i, n, a): return grammar.tup(("k", "operand"), ("k", i))
            def logged(s, n, i, a): return (i, grammar.plain(a[1]))
            def note(s, n, a, e):
                x = grammar.subterm(a[0], lambda z: named(z, "set_severity"))
                return x[2][1][2] if x is not None else "Error"

            def more(s, n, fn, tf, a, e, places, write):
                if n in ("from", "into") and len(a) == 1 and a[0][0] == "agg" and a[0][1] == "dreammaker::ast::Term" and a[0][2] == "Null": return ("k", "null")
                return None

            def outcome(s, t):
                x = super().outcome(t)
                if x[0] == "read": x = x[:3] + (tuple(sorted(set(y for y in x[3] if s.word[y[0]][0] == "G"))),) + x[4:]
                return x

            def impl(s, o, args, word, **kw):
                s.word = word + (("eof",),)
                return super().impl(o, args, word, **kw)
        G, end = ("G", "operand"), ("p", "Hash")
        some_ops = [c[0][0] for c in classes]
        all_ops = [t for c in classes for t, w in c]
        p = lambda x: ("p", x)
        W = Impl(F, R, {"G": ("group",)}, inline=[P + "Parser::expression_ex", P + "Parser::expression_part", P + "success", P + "try_another", P + "OpInfo::matches", P + "Op::build", P + "Strength::right_binding"]
                 + [b.path for b in F.bodies if "parser::Strength" in b.path and b.k == "fn"] + [b.path for b in F.bodies if b.k == "fn" and "Punctuation as core::cmp::PartialEq" in b.path])
        o = R.fn(P + "Parser::expression")
        few = [sp[x] for x in ("**", "+", "?", "=", "in")]

        def alphabet(w):
            ops = [x[1] for x in w if x[0] == "p" and x[1] in level]
            k = len(ops)
            if w and w[-1][0] == "p" and w[-1][1] in level or not w: return [G] + ([p("Not"), p("Colon"), ("i", "word")] if k < 2 and all(t in few for t in ops) else [])
            x = [("i", "to")] * (sp["in"] in ops) + [p("Colon")] * (sp["?"] in ops) + ([p("CloseColon"), ("i", "word"), p("Colon"), ("i", "to"), p("Not"), G] if k < 2 and all(t in few for t in ops) else [])
            if w[-1][0] != "G": x.append(G)
            if k < 2: return x + [p(t) for t in (all_ops if len(w) < 5 else some_ops if len(w) < 6 else few)]
            if k == 2 and all(t in few for t in ops): return x + [p(t) for t in few]
            return x
        n = W.explore(("expression",), o, [], lambda r: r.whole(), alphabet, limit=10, ref=Expr,
                      # an operator right after an omitted else arm belongs to nothing
                      keep=lambda w: not any(x in (p("Colon"), p("CloseColon")) and y[0] == "p" and y[1] in level for x, y in zip(w, w[1:])))
        R.count("words of operators", n, 2000)
    R.part("words", p_words)

    R.part("group", lambda: p_C23.groups(F, R))

    def p_group():
        un = R.fn("dreammaker::ast::UnaryOp::name")
        tr2 = traces(prep(un))
        for v in F.variants("dreammaker::ast::UnaryOp"):
            got = {const_of(t.result) for t in fit(tr2, lambda t: v if t == ("arg", 1) else None)}
            want = {s for d in (PREFIX, POSTFIX) for s, w in d.items() if w == v}
            R.ob("name:%s" % v, got == want, un.where(), "%s is called %s" % (v, got))
    R.part("unary", p_group)

    def p_names():
        nm = R.fn("dreammaker::ast::PropertyAccessKind::name")
        tn = traces(prep(nm))
        for v in F.variants("dreammaker::ast::PropertyAccessKind"):
            got = {const_of(t.result) for t in fit(tn, lambda t: v if t == ("arg", 1) else None)}
            R.ob("name:%s" % v, got == {dict({w: s for s, w in ACCESS.items()}, Colon=":").get(v)}, nm.where(), "%s access is written %s" % (v, got))
    R.part("names", p_names)
    R.part("access", lambda: p_C23.accesses(F, R))


def sub(t):
    out, work = [], [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): out.append(x)
            work.extend(y for y in x if isinstance(y, tuple))
    return out


def subterm(t, name):
    return [q for q in sub(t) if q[0] == "call" and q[1].split("::")[-1] == name][0]
