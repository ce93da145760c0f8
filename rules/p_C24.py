"""Declarations are recorded as they are written."""
import p_C23
from grammar import *
from p_C23 import EMPTY, i, p

RULE = ("tree_entries, tree_entry, tree_path, try_read_operator_name, proc_params_and_body, proc_parameter, var_suffix and return_type are evaluated abstractly over their MIR on words of tokens, of "
        "which some stand for any path, expression, parameter or documentation comment; every word over the tokens each place is asked for, in every kind of enclosing block, until the function or a "
        "reference grammar of DM's declarations has decided; what is recorded in the object tree, the rest of the input and diagnostics agree.")
TREE = "dreammaker::objtree::ObjectTreeBuilder::"
VAR_FLAGS = {"global": "static", "static": "static", "const": "const", "tmp": "tmp", "final": "final", "SpacemanDMM_final": "final", "SpacemanDMM_private": "private", "SpacemanDMM_protected": "protected"}
PROC_FLAGS = {"final": "final"}
OPERATORS = {"Mod": "%", "ModAssign": "%=", "FloatMod": "%%", "FloatModAssign": "%%=", "BitAnd": "&", "BitAndAssign": "&=", "Mul": "*", "Pow": "**", "MulAssign": "*=", "Slash": "/", "DivAssign": "/=",
             "Add": "+", "PlusPlus": "++", "AddAssign": "+=", "Sub": "-", "MinusMinus": "--", "SubAssign": "-=", "Less": "<", "LShift": "<<", "LShiftAssign": "<<=", "LessEq": "<=", "LessOrGreater": "<=>",
             "Greater": ">", "GreaterEq": ">=", "RShift": ">>", "RShiftAssign": ">>=", "BitXor": "^", "BitXorAssign": "^=", "BitOr": "|", "BitOrAssign": "|=", "BitNot": "~", "Equiv": "~=", "AssignInto": ":="}
FIND, ENC = ("D", "doc"), ("C", "doc")
EX = ("E", "any")


def parts(t): return [x for x in t.lstrip("/").split("/") if x]


class VarType:
    def __init__(s, flags=(), path=()): s.flags, s.path = tuple(flags), tuple(path)
    def copy(s): return VarType(s.flags, s.path)


def vt_plain(v, suffix=0, inp=None):
    return V("VarType", flags=sorted(set(v.flags)), type_path=["list"] * (suffix > 0) + list(v.path), input_type=inp if inp is not None else EMPTY)


def size(k, i, j): return ("size", i, j)


def initialiser(q, sizes):
    """var/L[2][][3] is new /list(2, 3)"""
    a = [size(0, q, j) for j, x in enumerate(sizes) if x == "n"]
    return X("new list", a) if a else None


class Decl(Ref):
    def docs(s, k):
        out = []
        while True:
            s.head()
            q = s.kind(k)
            if q is None: return out
            out.append(("doc", q))

    def spec(s):
        h = s.head()
        q = s.kind("Z")
        return (None, None) if q is None else (("type", q) if "as" in h[1] else None, ("in list", q) if "in" in h[1] else None)

    def suffix(s):
        h = s.head()
        q = s.kind("L")
        return (None, []) if q is None else (q, h[1].split())

    def expr(s):
        q = s.kind("E")
        return None if q is None else ("expr", q)

    def terminator(s):
        s.head()
        s.asks(("p", "RBrace"))
        if s.head() == ("p", "RBrace"): return True
        return s.p("Semicolon")

    def done(s, x=()): return ("read", s.q, x, tuple(s.log), tuple(s.notes))

    def builder(s, pb): return None if pb is None else V("ProcDeclBuilder", kind=(pb[0],), flags=sorted(set(pb[1])))
    def vars(s, vt): return None if vt is None else V("VarTypeBuilder", flags=sorted(set(vt.flags)), type_path=list(vt.path), input_type=None)

    def entry(s, cur, pb, vt, strict):
        vt = vt.copy() if vt else None
        docs = s.docs("D")
        h = s.head()
        if s.kind("T") is None:
            if docs: raise Err
            return ("nothing", s.q)
        absolute, path, tq = h[1].startswith("/"), parts(h[1]), s.q - 1
        if absolute and cur:
            s.note("Warning")
            cur = ""
        if not path:
            s.note("Error")
            return s.done()
        st = {"cur": cur, "pb": pb, "vt": vt, "rel": False}
        here = lambda: Loc(*range(tq, s.q + 1))

        def step(x):
            if x == "var": st["vt"] = VarType()
            elif st["vt"]:
                v = st["vt"]
                if x in VAR_FLAGS: v.flags += (VAR_FLAGS[x],)
                else: v.path += (x,)
            elif x in ("proc", "verb"): st["pb"] = (x.capitalize(), ())
            elif st["pb"]:
                if x in PROC_FLAGS: st["pb"] = (st["pb"][0], st["pb"][1] + (PROC_FLAGS[x],))
                else: s.note("Error")
            else: add(x)

        def add(x, last=False):
            s.log.append(("type", here(), st["cur"], x, st["cur"].count("/") + len(path)))
            st["cur"] += "/" + x
            if not absolute and not last: st["rel"] = strict

        def relative():
            if st["rel"]: s.note("Warning")
        for x in path[:-1]: step(x)
        last = path[-1]
        if last == "operator":
            h2 = s.head()
            if s.kind("O") is not None: last = h2[1]
        sq, sizes = s.suffix() if st["vt"] else (None, [])
        docs += s.docs("C")
        h3 = s.head()
        s.asks(("all",))
        if h3 == ("p", "LBrace"):
            s.q += 1
            step(last)
            relative()
            docs += s.docs("C")
            if docs and (st["pb"] or st["vt"]): s.note("Warning")
            if docs: s.log.append(("docs", st["cur"], docs))
            s.log.append(("entries", st["cur"], s.builder(st["pb"]), s.vars(st["vt"]), "RBrace"))
            s.need(s.kind("N") is not None)
            return s.done()
        if h3 == ("p", "Assign"):
            at_ = s.q
            s.q += 1
            relative()
            e = s.need(s.expr())
            t, _ = s.spec()
            docs += s.docs("C")
            s.need(s.terminator())
            if st["vt"]: s.log.append(("declare", st["cur"], last, Loc(*range(tq, at_ + 1)), docs, vt_plain(st["vt"], len(sizes), t), e))
            else: s.log.append(("override", st["cur"], last, Loc(*range(tq, at_ + 1)), docs, e))
            return s.done()
        if h3[0] == "P":
            s.q += 1
            s.log.append(("proc", st["cur"], s.builder(st["pb"]), last, Loc(0), absolute, docs))
            return s.done()
        t = s.spec()[0] if st["vt"] else None
        docs += s.docs("C")
        if last == "var": s.note("Warning")
        elif st["vt"]:
            if last in VAR_FLAGS: s.note("Warning")
            else: s.log.append(("declare", st["cur"], last, here(), docs, vt_plain(st["vt"], len(sizes), t), initialiser(sq, sizes)))
        elif last in ("proc", "verb"): s.note("Warning")
        elif st["pb"]: s.note("Error")
        else:
            relative()
            add(last, True)
            if docs: s.log.append(("docs", st["cur"], docs))
        return s.done()

    def entries(s, root, end):
        while True:
            if root:
                q = s.kind("C")
                if q is not None:
                    s.log.append(("module doc", ("doc", q)))
                    continue
            h = s.head()
            s.asks(("all",))
            if h == ("eof",) or h == end:
                s.q += 1
                return s.done()
            if s.p("Semicolon"): continue
            s.log.append("entry")
            s.need(s.kind("N") is not None)

    # -- paths
    def lead(s):
        h = s.head()
        s.asks(("all",))
        if h == ("p", "Slash"):
            s.q += 1
            return True, False
        if h in (("p", "Dot"), ("p", "Colon"), ("p", "CloseColon")):
            s.q += 1
            s.note("Warning")
            return False, True
        return False, False

    def path(s):
        absolute, spurious = s.lead()
        out = []
        x = s.ident()
        if x is None:
            if not (absolute or spurious): return ("nothing", s.q)
            s.note("Error")
            return s.done((absolute, []))
        out.append(x)
        while True:
            a, b = s.lead()
            if not (a or b): break
            x = s.ident()
            if x is not None: out.append(x)
            elif out[-1] == "operator": out[-1] = "operator/"
        return s.done((absolute, out))

    def operator(s):
        h = s.head()
        s.asks(("all",))
        if h[0] == "p" and h[1] in OPERATORS:
            s.q += 1
            return s.done("operator" + OPERATORS[h[1]])
        if h == ("p", "LBracket"):
            s.q += 1
            s.need(s.p("RBracket"))
            return s.done("operator[]=" if s.p("Assign") else "operator[]")
        if h == ("tok", "String", ""):
            s.q += 1
            return s.done('operator""')
        return ("nothing", s.q)

    # -- procs
    def sizes(s):
        out = []
        while s.p("LBracket"):
            out.append(s.expr())
            s.need(s.p("RBracket"))
        return s.done(V("VarSuffix", list=out))

    def returns(s, decl):
        if not s.i("as"): return ("nothing", s.q)
        if not decl: s.note("Error")
        s.head()
        q = s.kind("I")
        if q is not None: return s.done(X("InputType", ("type", q)))
        s.need(s.p("Slash"))
        out = [s.need(s.ident())]
        while s.p("Slash"): out.append(s.need(s.ident()))
        return s.done(X("TypePath", out))

    def parameter(s):
        q = s.q
        if s.p("Ellipsis"): return s.done(V("Parameter", name="...", location=Loc(0), var_type=EMPTY, default=EMPTY, input_type=EMPTY, in_list=EMPTY))
        h = s.head()
        if s.kind("T") is None: return ("nothing", s.q)
        path = parts(h[1])
        name = path.pop() if path else None
        if name is None: s.note("Error")
        if path and path[0] == "var":
            path = path[1:]
            s.note("Hint")
        v = VarType()
        while path and path[0] in VAR_FLAGS: v.flags += (VAR_FLAGS[path.pop(0)],)
        v.path = tuple(path)
        if "static" in v.flags: s.note("Warning")
        sq, sizes = s.suffix()
        d = s.need(s.expr()) if s.p("Assign") else None
        t, l = s.spec()
        if s.p("Semicolon"): s.note("Warning")
        return s.done(V("Parameter", var_type=vt_plain(v, len(sizes)), name=name if name is not None else EMPTY, default=d, input_type=t, in_list=l, location=Loc(*range(s.q + 1))))

    def proc(s, name, absolute, strict, procs, kind):
        s.pb = s.builder(kind)
        if not s.p("LParen"): return ("nothing", s.q)
        args, legal = [], False
        while not s.p("RParen"):
            if s.p("Comma"):
                if not legal: raise Err
                legal = False
            elif legal: raise Err
            else:
                s.head()
                q = s.kind("X")
                args.append(("parameter", s.need(q is not None) and q))
                legal = True
        s.head()
        q = s.kind("Y")
        ret = ("return type", q) if q is not None else EMPTY
        docs = [("doc", 77)] + s.docs("C")
        body = []
        if s.terminator(): body = [("p", "Semicolon")]
        elif s.p("LBrace"):
            body.append(("p", "LBrace"))
            docs += s.docs("C")
            while not s.p("RBrace"): s.tt(body)
            body.append(("p", "RBrace"))
        else:
            while not s.terminator(): s.tt(body)
            body.append(("p", "Semicolon"))
        bad = ("i", "bad") in body
        if procs and bad: s.note("Error")
        s.log.append(("register", Loc(0), "/mob", name, s.pb, args, ret, None if bad or not procs else ("code", body)))
        if name == "clash": s.note("Error")
        else:
            s.log.append(("proc docs", docs))
            if strict and not absolute: s.note("Warning")
        return s.done()

    PAIRS = {("p", "LParen"): ("p", "RParen"), ("p", "LBrace"): ("p", "RBrace"), ("p", "LBracket"): ("p", "RBracket")}

    def tt(s, out):
        """one token, or everything up to its partner"""
        h = s.head()
        s.asks(("all",))
        if h == ("eof",): raise Err
        s.q += 1
        out.append(h)
        if h in s.PAIRS:
            while s.head() != s.PAIRS[h]: s.tt(out)
            s.asks(("all",))
            out.append(s.take())


class Impl(Words):
    other = ("p", "Hash")
    strict = False
    own = ()

    def token(s, t, i):
        if t[0] == "P": return agg(TOK, "Punct", **{"0": agg(PUN, "LParen")})
        if t[0] in ("E", "T", "D", "C", "O", "L", "Z", "N", "X", "Y", "I"): return agg(TOK, "DocComment", **{"0": ("k", ("stands for", t))})
        return super().token(t, i)

    def note(s, n, a, e):
        x = subterm(a[0], lambda z: named(z, "set_severity"))
        return x[2][1][2] if x is not None else "Error"

    def stands(s, t, i, n, a):
        T = lambda *x: tup(*[("k", y) for y in x])
        if n == "expression": return T("expr", i)
        if n in ("following_doc_comment", "enclosing_doc_comment"): return T("doc", i)
        if n == "tree_path": return tup(("k", t[1].startswith("/")), lst(*[("k", x) for x in parts(t[1])]))
        if n == "proc_parameter": return T("parameter", i)
        if n == "input_type": return T("type", i)
        if n == "return_type": return T("return type", i)
        if n in ("tree_entries", "tree_entry", "proc_params_and_body"): return UNIT
        raise NotImplementedError

    def logged(s, n, i, a):
        if n == "tree_entries":
            t = plain(a[4])
            return ("entries", plain(a[1]), s.tidy(plain(a[2])), s.tidy(plain(a[3])), t[1][1][0] if t[0] == "Punct" else t[0])
        if n == "tree_entry": return "entry"
        if n == "proc_params_and_body" : return ("proc", plain(a[1]), s.tidy(plain(a[2])), plain(a[3]), plain(a[4]), plain(a[5]), plain(a[6]))
        return None

    def tidy(s, x):
        """flags are a set; nothing is nothing however it is written"""
        if isinstance(x, tuple) and x and x[0] in ("VarTypeBuilder", "ProcDeclBuilder", "VarType"):
            d = dict(x[1:])
            d["flags"] = sorted(set(d["flags"])) if isinstance(d["flags"], list) else []
            return (x[0],) + tuple(sorted(d.items()))
        return x

    def impl(s, o, args, word, **kw):
        s.word = word
        return super().impl(o, args, word, **dict(dict(procs_good=("k", 0), procs_bad=("k", 0)), **kw))

    def outcome(s, t):
        x = super().outcome(t)
        if x[0] == "read": x = x[:2] + (s.deep(x[2]),) + tuple(x[3:])
        return x

    def deep(s, x):
        if isinstance(x, tuple): return s.tidy(tuple(s.deep(y) for y in x))
        if isinstance(x, list): return [s.deep(y) for y in x]
        return x

    def log(s, e, x): e["log"] = e["log"] + (x,)

    def more(s, n, fn, tf, a, e, places, write):
        if fn.startswith(TREE) or tf.startswith(TREE):
            if n == "root_index": return ("k", "")
            if n == "get_path": return a[1]
            if n == "subtype_or_add":
                s.log(e, ("type", plain(a[1]), plain(a[2]), plain(a[3]), plain(a[4])))
                return ("k", a[2][1] + "/" + a[3][1])
            if n == "extend_docs":
                if plain(a[2]): s.log(e, ("docs", plain(a[1]), plain(a[2])))
                return UNIT
            if n == "declare_var":
                s.log(e, ("declare", plain(a[1]), plain(a[2]), plain(a[3]), plain(a[4]), s.tidy(plain(a[5])), plain(a[6])))
                return UNIT
            if n == "override_var":
                s.log(e, ("override", plain(a[1]), plain(a[2]), plain(a[3]), plain(a[4]), plain(a[5])))
                return UNIT
            if n == "register_proc":
                s.log(e, ("register", plain(a[2]), plain(a[3]), plain(a[4]), s.tidy(plain(a[5])), plain(a[6]), plain(a[7]), plain(a[8])))
                return err(("k", "clash")) if plain(a[4]) == "clash" else ok(tup(("k", 0), ("k", "the proc")))
            return None
        if fn.startswith(PA) or tf.startswith(PA):
            t = None
            if n == "try_read_operator_name" and n not in s.own:
                t, i = s.word_at(e)
                s.ask_k(e, "O")
                if t[0] != "O": return ok(NONE)
                e["q"] += 1
                return ok(some(("k", t[1])))
            if n == "var_suffix" and n not in s.own:
                t, i = s.word_at(e)
                s.ask_k(e, "L")
                l = []
                if t[0] == "L":
                    e["q"] += 1
                    l = [some(tup(("k", "size"), ("k", i), ("k", j))) if x == "n" else NONE for j, x in enumerate(t[1].split())]
                return ok(some(agg(A + "VarSuffix", "VarSuffix", list=lst(*l))))
            if n == "input_specifier" and n not in s.own:
                t, i = s.word_at(e)
                s.ask_k(e, "Z")
                if t[0] != "Z": return ok(some(tup(NONE, NONE)))
                e["q"] += 1
                T = lambda *x: some(tup(*[("k", y) for y in x]))
                return ok(some(tup(T("type", i) if "as" in t[1] else NONE, T("in list", i) if "in" in t[1] else NONE)))
            if n in ("from_static", "from_nonstatic") and a and isinstance(plain(a[0]), str): return ("k", plain(a[0]))
            if n == "new": return agg(P + "Parser", "Subparser", input=a[1], annotations=NONE)
            if n == "block":
                toks = [s.untoken(x) for x in a[0][3][0][1]]
                if ("i", "bad") in toks: return err(("k", "bad body"))
                return ok(some(tup(("k", "code"), lst(*[tup(*[("k", y) for y in x]) for x in toks]))))
            if n == "into_iter": return None
        if n in ("from_static", "from_nonstatic") and a and isinstance(plain(a[0]), str): return ("k", plain(a[0]))
        if n == "into_initializer" and "VarSuffix" in fn:
            l = [x[3][0] for x in a[0][3][0][1] if x[2] == "Some"]
            return some(agg("x", "new list", **{"0": lst(*l)})) if l else NONE
        if n == "from_name" and a and isinstance(plain(a[0]), str):
            a = (("k", plain(a[0])),)
            for ty, tab in (("VarTypeFlags", VAR_FLAGS), ("ProcFlags", PROC_FLAGS)):
                if ty in fn: return some(lst(("k", tab[a[0][1]]))) if a[0][1] in tab else NONE
        if n == "is_static" and a and a[0][0] == "list": return ("k", ("k", "static") in a[0][1])
        if n == "bitor_assign" and "Flags" in fn + tf:
            write(places[0], lst(*((a[0][1] if a[0][0] == "list" else ()) + a[1][1])))
            return UNIT
        if n in ("bitor", "union") and "Flags" in fn + tf: return lst(*((a[0][1] if a[0][0] == "list" else ()) + a[1][1]))
        if n == "insert" and "Flags" in fn:
            write(places[0], lst(*((a[0][1] if a[0][0] == "list" else ()) + a[1][1])))
            return UNIT
        if n == "default" and not a:
            if "Flags" in fn: return lst()
            if fn.startswith("<" + A + "VarTypeBuilder "): return agg(A + "VarTypeBuilder", "VarTypeBuilder", flags=lst(), type_path=lst(), input_type=NONE)
            if "DocCollection" in fn: return lst()
            if fn.startswith("<" + A + "Parameter "): return agg(A + "Parameter", "Parameter", **{x: ("call", "core::default::Default::default", (), 0) for x in ("var_type", "name", "default", "input_type", "in_list", "location")})
            if "VarSuffix" in fn: return agg(A + "VarSuffix", "VarSuffix", list=lst())
        if n in ("unwrap_or_default", "unwrap_or") and a and a[0][0] == "agg" and a[0][2] in ("Some", "None"): return a[0][3][0] if a[0][2] == "Some" else a[1] if len(a) > 1 else ("call", "core::default::Default::default", (), 0)
        if "DocCollection" in fn and a and a[0][0] == "list":
            if n == "push":
                write(places[0], lst(*(a[0][1] + (a[1],))))
                return UNIT
            if n == "is_empty": return ("k", not a[0][1])
        if n == "extend" and a and a[0][0] != "list" and mentions(a[0], lambda x: x == ("k", "the proc")):
            s.log(e, ("proc docs", plain(a[1]) if a[1][0] != "iter" else [plain(x) for x in a[1][1]]))
            return UNIT
        if n == "push" and a and a[0][0] != "list" and mentions(a[0], lambda x: x == ("k", "the parser's module_docs")):
            s.log(e, ("module doc", plain(a[1])[1]))
            return UNIT
        if n == "config" and "Context" in fn:
            f = s.F.adt("dreammaker::config::CodeStandards")["variants"][0]["f"]
            cs = ("agg", "dreammaker::config::CodeStandards", "CodeStandards", tuple(("k", s.strict and s.which in x["n"]) for x in f), tuple(x["n"] for x in f))
            f = s.F.adt("dreammaker::config::Config")["variants"][0]["f"]
            return ("agg", "dreammaker::config::Config", "Config", tuple(cs if x["n"] == "code_standards" else ("k", "the " + x["n"]) for x in f), tuple(x["n"] for x in f))
        if n == "split_last_mut" and a and a[0][0] == "list" and places[0] is not None:
            l = a[0][1]
            if not l: return NONE
            return some(tup(("at", tuple(places[0]) + (("el", len(l) - 1),)), lst(*l[:-1])))
        if n == "from_token" and "TTKind" in fn: return None
        if n in ("eq", "ne") and len(a) == 2 and a[0][0] == a[1][0] == "agg" and a[0][1] == TOK: return ("k", (plain(a[0]) == plain(a[1])) == (n == "eq"))
        if n in ("eq", "ne") and len(a) == 2 and isinstance(plain(a[0]), str) and isinstance(plain(a[1]), str): return ("k", (plain(a[0]) == plain(a[1])) == (n == "eq"))
        if n in ("eq", "ne") and len(a) == 2 and a[0][0] == a[1][0] == "k": return ("k", (a[0] == a[1]) == (n == "eq"))
        if n in ("into_owned", "to_owned", "clone", "to_vec") and len(a) == 1 and a[0][0] in ("k", "list", "agg"): return a[0]
        if n == "chars" and a and isinstance(plain(a[0]), str): return ("iter", tuple(("k", c) for c in plain(a[0])))
        if n == "push" and "String" in fn and a[0][0] == "k" and isinstance(a[0][1], str) and a[1][0] == "k":
            write(places[0], ("k", a[0][1] + (chr(a[1][1]) if isinstance(a[1][1], int) else a[1][1])))
            return UNIT
        return None

    def untoken(s, x):
        """the word's token that this located token came from"""
        t = plain(dict(zip(x[4], x[3]))["token"])
        if t[0] == "Punct": return ("p", t[1][1][0])
        if t[0] == "Ident": return ("i", dict(t[1:])["0"])
        if t[0] == "DocComment": return dict(t[1:])["0"][1] if isinstance(dict(t[1:])["0"], tuple) else ("?",)
        return ("?", str(t)[:40])

    which = "type"

    def ask_k(s, e, k):
        if s.asked is not None and e["q"] == s.at_end: s.asked.add((k, "*"))


def check(F, R):
    base = [PA + x for x in ("comma", "semicolon", "separated", "statement_terminator", "possible_leading_slash", "slash", "read_any_tt")] + [P + "success", P + "try_another"]
    base += [P + "TTKind::" + x for x in ("from_token", "end", "is_end")] + [A + x for x in ("VarTypeBuilder::suffix", "VarTypeBuilder::build", "ProcDeclKind::from_name", "ProcDeclBuilder::new")]
    base += [b.path for b in F.bodies if b.k == "fn" and ("VarTypeBuilder as core::iter" in b.path or b.path.startswith("dreammaker::lexer::LocatedToken::new"))]

    def W(values, own=(), **kw):
        w = Impl(F, R, values, inline=base)
        w.own = own
        for k, v in kw.items(): setattr(w, k, v)
        return w

    PB = lambda b: NONE if b is None else some(agg(A + "ProcDeclBuilder", "ProcDeclBuilder", kind=agg(A + "ProcDeclKind", b[0]), flags=lst(*[("k", x) for x in b[1]])))

    def p_path():
        o = R.fn(PA + "tree_path")
        al = [p(x) for x in ("Slash", "Dot", "Colon", "CloseColon", "Scope", "LParen")] + [i("operator"), i("word"), ("tok", "Int", 3)]
        n = W({}).explore(("path",), o, [("k", False)], lambda r: r.path(), lambda w: al if len(w) < 2 else [p("Slash"), p("Dot"), i("operator"), i("word")] if len(w) < 4 else [p("Slash"), i("word"), p("Scope")], limit=7, ref=Decl)
        o = R.fn(PA + "try_read_operator_name")
        every = [p(v) for v in F.variants(PUN)] + [("tok", "String", ""), ("tok", "String", "x"), ("tok", "Int", 1), i("word"), ("eof",)]
        n += W({}, own=("try_read_operator_name",)).explore(("operator name",), o, [], lambda r: r.operator(), every, limit=4, ref=Decl)
        R.count("words of paths", n, 300)
    R.part("path", p_path)

    def p_entry():
        o = R.fn(PA + "tree_entry")
        n = 0
        vals = {"E": ("expression",), "T": ("tree_path",), "D": ("following_doc_comment",), "C": ("enclosing_doc_comment",), "N": ("tree_entries",), "P": ("proc_params_and_body",)}
        full = ["", "obj", "mob/obj", "x", "var", "var/x", "var/obj/item/x", "var/tmp/x", "var/tmp", "var/const/obj/static/x", "var/global/x", "proc", "verb", "proc/f", "verb/f", "proc/final/f", "proc/junk/f", "proc/final",
                "mob/proc/f", "mob/var/x", "operator", "mob/proc/operator", "tmp/x", "final/f", "mob/tmp", "/", "/mob", "/mob/x", "/var/x", "/proc/f", "/mob/proc/f", "a/b/c", "var/SpacemanDMM_private/x", "proc/var/x"]
        some_ = ["", "obj", "x", "tmp/x", "tmp", "var", "var/x", "proc/f", "/mob/x", "final/f", "mob/x", "operator", "/proc/f", "verb", "final"]
        VB = lambda v: NONE if v is None else some(agg(A + "VarTypeBuilder", "VarTypeBuilder", flags=lst(*[("k", x) for x in v.flags]), type_path=lst(*[("k", x) for x in v.path]), input_type=NONE))
        for cur, pb, vt, strict, paths in (("", None, None, False, full), ("/mob", None, None, False, full), ("", None, None, True, some_), ("/mob/living", None, None, True, some_), ("", ("Proc", ()), None, False, some_),
                                           ("/mob", ("Verb", ("final",)), None, False, some_), ("", None, VarType(), False, some_), ("/mob", None, VarType(("tmp",), ("obj",)), False, some_), ("/mob", ("Proc", ()), VarType(), False, some_)):
            rest = [EX, FIND, ENC, ("N", "entries"), ("P", "proc"), ("O", "operator+"), ("L", "n"), ("L", "n  e n".replace("  ", " ")), ("L", "e"), ("Z", "as"), ("Z", "in")] + [p(x) for x in ("LBrace", "Assign", "Semicolon", "RBrace")]

            def alphabet(w):
                if all(x == FIND for x in w): return [("T", x) for x in paths if len(w) < 1 or x in ("x", "var/x", "", "mob/proc/f", "proc")] + ([FIND] if len(w) < 2 else []) + [i("word")]
                return [x for x in rest if x != FIND]

            def keep(w):
                """few embellishments at once, more for some of the paths"""
                odd, t = sum(x[0] in "DCLZO" for x in w), [x[1] for x in w if x[0] == "T"]
                plain_ = not t or t[0] in ("x", "var/x", "mob/proc/f")
                return w.count(ENC) < 3 and odd < (4 if plain_ and cur != "/mob/living" else 2) and (plain_ or t[0].startswith(("var", "/var")) or ("L", "e") not in w)
            w = W(vals, strict=strict)
            n += w.explore(("entry", "in " + (cur or "/") + ("/" + pb[0].lower() if pb else "") + ("/var" if vt else "") + (" strictly" if strict else ""),), o, [("k", cur), PB(pb), VB(vt)],
                           lambda r: r.entry(cur, pb, vt, strict), alphabet, limit=9, keep=keep, deeper=keep, ref=Decl)
        R.count("words of declarations", n, 2000)
    R.part("entry", p_entry)

    def p_entries():
        o = R.fn(PA + "tree_entries")
        n = 0
        for root, end in ((True, ("eof",)), (False, ("p", "RBrace")), (True, ("p", "RBrace"))):
            w = W({"C": ("enclosing_doc_comment",), "N": ("tree_entry",)})
            n += w.explore(("entries", "of the root" if root else "of a type", str(end[-1])), o, [("k", "" if root else "/mob"), NONE, NONE, w.token(end, 0)], lambda r: r.entries(root, end),
                           [("N", "entry"), ENC, p("Semicolon"), p("RBrace"), p("LBrace"), ("eof",)], limit=5, ref=Decl)
        R.count("words of blocks", n, 50)
    R.part("entries", p_entries)

    def p_proc():
        n = 0
        vals = {"E": ("expression",), "T": ("tree_path",), "C": ("enclosing_doc_comment",), "X": ("proc_parameter",), "Y": ("return_type",), "I": ("input_type",)}
        n += W(vals, own=("var_suffix",)).explore(("sizes",), R.fn(PA + "var_suffix"), [], lambda r: r.sizes(), [p("LBracket"), p("RBracket"), EX, p("Comma")], limit=9, ref=Decl)
        for decl in (True, False):
            n += W(vals).explore(("return type", "of a declaration" if decl else "of an override"), R.fn(PA + "return_type"), [some(("k", "builder")) if decl else NONE], lambda r: r.returns(decl),
                                 [i("as"), i("word"), ("I", ""), p("Slash"), p("LBrace")], limit=8, ref=Decl)
        paths = [("T", x) for x in ("", "x", "obj/x", "var/x", "var/obj/item/x", "tmp/x", "static/x", "const/obj/tmp/x", "var/global/obj/x", "var", "var/tmp/const/x", "/mob/x", "obj/var/x", "tmp/var/x", "list/list/x", "obj/tmp/x", "final/SpacemanDMM_final/x")]
        al = paths + [p(x) for x in ("Ellipsis", "Assign", "Semicolon", "Comma")] + [EX, ("L", "n"), ("L", "e"), ("Z", "as"), ("Z", "in"), ("Z", "as in")]
        n += W(vals).explore(("parameter",), R.fn(PA + "proc_parameter"), [], lambda r: r.parameter(), al, limit=7, ref=Decl)
        o = R.fn(PA + "proc_params_and_body")
        for name, absolute, strict, procs in (("f", True, True, True), ("f", False, True, True), ("f", False, False, True), ("clash", False, True, True), ("f", False, False, False)):
            kind = {"f": None, "clash": ("Verb", ("final",))}[name]
            args_ = [("k", "/mob"), PB(kind), ("k", name), ("k", ("at", 0)), ("k", absolute), lst(tup(("k", "doc"), ("k", 77)))]
            key = ("proc", name, "absolute" if absolute else "", "strictly" if strict else "", "" if procs else "without bodies")
            deep = (name, absolute, strict, procs) == ("f", False, False, True)
            run = lambda part, al, keep, limit: W(vals, strict=strict, which="proc").explore(key + (part,), o, args_, lambda r: r.proc(name, absolute, strict, procs, kind), al, limit=limit, keep=keep, deeper=keep, ref=Decl, procs=("k", procs))
            if deep: n += run("parameters", [p(x) for x in ("LParen", "RParen", "Comma", "Semicolon")] + [("X", ""), i("word")], lambda w: p("RParen") not in w[:-1] or w.index(p("RParen")) == len(w) - 2 and w[-1] == p("Semicolon"), 7)
            empty = (p("LParen"), p("RParen"))
            marks = [p(x) for x in ("LParen", "RParen", "LBrace", "RBrace", "LBracket", "RBracket")]

            def keep(w):
                """every sort of mark once, then whatever closes them"""
                t = w[2:]
                if w[:2] != empty[:len(w)]: return False
                st, odd = [], t.count(i("word")) + t.count(i("bad")) + t.count(p("Hash")) + max(0, t.count(ENC) - 1)
                for x in t:
                    if x in Decl.PAIRS: st.append(Decl.PAIRS[x])
                    elif st and st[-1] == x: st.pop()
                    elif x in Decl.PAIRS.values() or x == p("Semicolon") and x != t[-1]: odd += 1
                    if len(st) > 2: return False
                if t.count(ENC) > 2 or ("Y", "") in t[1:]: return False
                if ("Y", "") in t: odd += len(t) > 3
                return odd < 2
            n += run("body", marks + [p("Semicolon"), ("Y", ""), ENC, i("word"), i("bad")], keep, 7 if deep else 5)
        R.count("words of procs", n, 500)
    R.part("proc", p_proc)

    def p_keywords():
        """which words are flags, and how flags are written out again"""
        n = 0
        for ty, tab in (("VarTypeFlags", VAR_FLAGS), ("ProcFlags", PROC_FLAGS)):
            M = Machine(F, lambda *a: None, lambda b: True)
            from_name = R.fn(A + ty + "::from_name")
            flags, spelt = {}, {}

            def run(o, args, M=M, **env):
                ts = M.run(o, args, env.get("env", {}))
                if len(ts) != 1 or ts[0].end != "return": raise Undecided("%d outcomes of %s: %s" % (len(ts), o.path, [str(c)[:300] for t in ts for c in t.conds][:2]))
                return ts[0]
            words = sorted(set(VAR_FLAGS) | set(PROC_FLAGS)) + ["", "Final", "var", "proc", "private", "protected", "SpacemanDMM_", "SpacemanDMM_tmp", "finals", "obj", "readonly", "operator", "list"]
            words += sorted(x for x in strings_of(from_name) if x not in words)
            for w in words:
                v = run(from_name, [("k", w)]).result
                if v[0] != "agg": raise Undecided("what %s is" % w)
                R.ob(("keyword", ty, w), (v[2] == "Some") == (w in tab), from_name.where(), f"`{w}` " + ("is not a flag" if w in tab else "is taken for a flag"))
                if v[2] == "Some" and w in tab: flags.setdefault(tab[w], set()).add(v[3][0])
                n += 1
            bits = {k: list(v)[0] for k, v in flags.items()}
            R.ob(("flags", ty), all(len(v) == 1 for v in flags.values()) and len(set(bits.values())) == len(flags), from_name.where(), "different flags are the same, or the same flag is different ones: %s" % {k: [rend(x) for x in v] for k, v in flags.items()})
            names = sorted(bits)
            merge = lambda f: ("agg",) + list(bits.values())[0][1:3] + ((("k", sum(bits[x][3][0][1] for x in f)),), ("bits",))
            fmt = [b for b in F.bodies if b.path == "<" + A + ty + " as core::fmt::Display>::fmt"]
            ask = [b for b in F.bodies if b.k == "fn" and b.path.startswith(A + ty + "::is_") and b.name not in ("is_empty", "is_all")]
            nexts = [b for b in F.bodies if b.path.endswith("Iterator>::next") and ("::" + ty + "Iter as ") in b.path]
            R.ob(("written", ty), len(fmt) == 1 and len(nexts) == 1, from_name.where(), "flags are not written out")
            for m in range(1 << len(names)):
                f = {x for i_, x in enumerate(names) if m >> i_ & 1}
                v = merge(f)
                for b in ask:
                    want = {"normal": not f & {"const", "static", "protected"}, "const_evaluable": "const" in f or not f & {"static", "protected"}}.get(b.name[3:], b.name[3:] in f)
                    got = run(b, [v]).result
                    R.ob((ty, b.name), got == ("k", want), b.where(), f"{b.name} of {sorted(f)} is {rend(got)}")
                out = []

                def calls(fn, tf, a, places, e, write):
                    if tf.split("::")[-1] in ("write_str", "write_char"):
                        out.append(a[1][1])
                        return ok(UNIT)
                    return None
                for b in fmt:
                    run(b, [v, ("k", "f")], Machine(F, calls, lambda b: True))
                    R.ob((ty, "Display"), sorted(("".join(out) if ty == "VarTypeFlags" else "".join(out)[1:] + "/" * bool(f)).split("/")[:-1]) == sorted(spell_flag(x) for x in f) and "".join(out)[-1 if ty == "VarTypeFlags" else 0:][:1] in ("", "/"), b.where(), f"{sorted(f)} are written as {''.join(out)}")
                for b in nexts:
                    got, env = [], {SELF: ("agg", "it", "it", (v,), ("0",))}
                    for k in range(len(f) + 1):
                        t = run(b, [("at", (SELF,))], env=env)
                        env = {SELF: t.env[SELF]}
                        if t.result[2] == "None": break
                        got.append(t.result[3][0][1])
                    R.ob((ty, "iter"), sorted(got) == sorted(spell_flag(x) for x in f), b.where(), f"{sorted(f)} are listed as {got}")
                n += 1
        o = R.fn(A + "ProcDeclKind::from_name")
        M = Machine(F, lambda *a: None, lambda b: True)
        for w in ["proc", "verb", "Proc", "", "procs", "var"] + sorted(strings_of(o)):
            v = M.run(o, [("k", w)], {})
            got = plain(v[0].result) if len(v) == 1 else "?"
            R.ob(("kind", w), v[0].result[2] == ("Some" if w in ("proc", "verb") else "None") and (w not in ("proc", "verb") or v[0].result[3][0][2] == w.capitalize()), o.where(), f"`{w}` is {got}")
            n += 1
        R.count("words and sets of flags", n, 100)
    R.part("keywords", p_keywords)


def spell_flag(x): return "SpacemanDMM_" + x if x in ("private", "protected") else x


def strings_of(o):
    """the words that a function knows"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get("str"), str): out.add(x["str"])
            for y in x.values(): walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x: walk(y)
    walk(o.blocks)
    return out
