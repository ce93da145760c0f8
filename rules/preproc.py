"""The preprocessor's token stream as a scenario: what the rules of C13 and C14 share."""
import re
from lib import *

P = "dreammaker::preprocessor::"
PP = P + "Preprocessor::"
PUNCT = {"nl": "Newline", "(": "LParen", ")": "RParen", ",": "Comma", "...": "Ellipsis", "#": "Hash", "##": "TokenPaste", "+": "Add", "[": "LBracket"}
DIRECTIVES = ("if", "ifdef", "ifndef", "elif", "else", "endif", "include", "define", "undef", "warn", "error", "pragma")


def kind(x):
    """(variant of Token, detail) of one piece of a script"""
    if x in PUNCT: return "Punct", PUNCT[x]
    if x.startswith("'"): return "String", None
    if x == "doc": return "DocComment", None
    if x == "int": return "Int", None
    return "Ident", None


def tk(t):
    """text of a term with the k-th token read written T<k>"""
    def sub(x):
        if not isinstance(x, tuple) or not x: return x
        if x[0] == "call" and named(x, "inner_next") and x[3] >= SEQ: return ("tok", x[3] - SEQ)
        return tuple(sub(y) for y in x)
    s = rend(sub(t)) if isinstance(t, tuple) else str(t)
    s = re.sub(r"\('tok', (\d+)\)", r"T\1", s)
    return s.replace("index_mut(", "index(").replace("get_mut(", "get(")


class Script:
    """answers questions about the tokens that will be read; `read` is the token being handled"""
    def __init__(self, read, toks, extra=None, strict=True):
        self.read, self.toks, self.extra, self.strict = read, toks, extra, strict

    def __call__(self, t):
        if self.extra is not None:
            v = self.extra(t)
            if v is not None: return v
        if t[0] not in ("call", "fld", "as", "arg"): return None
        if named(t, "inner_next"): return "Some" if t[3] - SEQ < len(self.toks) else "None"
        if named(t, "eq", "ne"):
            s = tk(t)
            m = re.fullmatch(r"(?:eq|ne)\((.*), '(.*)'\)", s)
            if m:
                w = self.word(m[1])
                if w is not None: return (w == m[2]) == (tail(t) == "eq")
            m = re.fullmatch(r"(?:eq|ne)\((?:(.*), Punct\((\w+)\)|Punct\((\w+)\), (.*))\)", s)
            if m:
                x, rest = self.piece(m[1] or m[4])
                if x is not None and rest == "": return (kind(x) == ("Punct", m[2] or m[3])) == (tail(t) == "eq")
            m = re.fullmatch(r"(?:eq|ne)\((?:(.*@Punct(?:\.0)?), (\w+)|(\w+), (.*@Punct(?:\.0)?))\)", s)
            if m:
                x, rest = self.piece(m[1] or m[4])
                if x is not None and rest in ("@Punct", "@Punct.0"): return (kind(x) == ("Punct", m[2] or m[3])) == (tail(t) == "eq")
            return None
        if t[0] in ("fld", "arg"):
            s = tk(t)
            return self.field(s)
        return None

    def piece(self, s):
        m = re.fullmatch(r"T(\d+)\.token(.*)", s)
        if m and int(m[1]) < len(self.toks): return self.toks[int(m[1])], m[2]
        m = re.fullmatch(r"#2(@.*)?", s)
        if m: return self.read, m[1] or ""
        return None, None

    def field(self, s):
        x, rest = self.piece(s)
        if x is None: return None
        k, d = kind(x)
        if rest == "": return k
        if rest == "@Punct" and k == "Punct": return d
        if rest == "@Ident.1" and k == "Ident": return x.endswith("~")
        return None

    def word(self, s):
        s = re.sub(r"^index\((.*), RangeFull\)$", r"\1", s)
        s = re.sub(r"^as_str\((.*)\)$", r"\1", s)
        x, rest = self.piece(s)
        if x is None or rest not in ("@Ident", "@Ident.0"): return None
        return x.rstrip("~")


def calls(t, *names): return [e for e in t.events if e[0].split("::")[-1] in names]


def run(b, read, toks, extra=None, visits=8, lists=False, **kw):
    return runs(b, Script(read, toks, extra), visits=visits, lists=lists, seq=("inner_next",), **kw)


# --- known tokens as values

TOK, PCT = "dreammaker::lexer::Token", "dreammaker::lexer::Punctuation"


def token(x):
    """the value of a piece of a script"""
    k, d = kind(x)
    if k == "Punct": return ("agg", TOK, k, (("agg", PCT, d, (), ()),), ("0",))
    if k == "Ident": return ("agg", TOK, k, (("k", x.rstrip("~")), ("k", x.endswith("~"))), ("0", "1"))
    if k == "Int": return ("agg", TOK, k, (("k", 7),), ("0",))
    if k == "String": return ("agg", TOK, k, (("k", x.strip("'")),), ("0",))
    return ("agg", TOK, k, (("var", 900),), ("0",))


def text(t):
    """the characters of a string value; tokens by their piece"""
    if t[0] == "list": return "".join(text(x) for x in t[1])
    if t[0] == "k": return str(t[1])
    return untoken(t)


def untoken(t):
    """the piece a value stands for, else its text"""
    if t[0] == "agg" and t[1] == TOK:
        if t[2] == "Punct" and t[3][0][0] == "agg": return {v: k for k, v in PUNCT.items()}.get(t[3][0][2], t[3][0][2])
        if t[2] == "Ident":
            w = t[3][0]
            return text(w) + {"True": "~", "False": ""}.get(tk(t[3][1]), "?")
        if t[2] == "Int" and t[3][0] == ("k", 7): return "int"
        if t[2] == "String": return "'%s'" % text(t[3][0])
    return tk(t)


def lst(xs): return ("list", tuple(xs))


def macro(params, subst, variadic=False):
    """the value of a table entry"""
    s = lst(token(x) for x in subst)
    d = ("agg", P + "Define", "Constant", (s, ("var", 901)), ("subst", "docs")) if params is None else ("agg", P + "Define", "Function", (lst(("k", p) for p in params), s, ("k", variadic), ("var", 901)), ("params", "subst", "variadic", "docs"))
    return ("agg", "tuple", "", (("var", 902), d), ())


def same(a, b):
    """are two values equal? None: not known"""
    if a[0] == b[0] == "k": return a[1] == b[1]
    if a[0] == b[0] == "agg" and a[1] == b[1]:
        if a[2] != b[2]: return False
        r = [same(x, y) for x, y in zip(a[3], b[3])]
        return False if False in r else None if None in r else True
    return None


class Known:
    """what is assumed of the calls: the tokens read, the macros that are defined"""
    def __init__(self, toks, defines, extra=None): self.toks, self.defines, self.extra = toks, defines, extra

    def __call__(self, v):
        if self.extra is not None:
            r = self.extra(v)
            if r is not None: return r
        n = tail(v)
        if n in ("deref", "as_str", "borrow", "to_owned", "clone", "into", "from", "as_ref", "to_string", "from_static") and len(v[2]) == 1 and v[2][0][0] in ("k", "agg", "list"): return v[2][0]
        if n == "index" and len(v[2]) == 2 and v[2][0][0] == "k" and "RangeFull" in rend(v[2][1]): return v[2][0]
        if n == "index" and len(v[2]) == 2 and v[2][0][0] == "list" and v[2][1][0] == "k" and v[2][1][1] < len(v[2][0][1]): return v[2][0][1][v[2][1][1]]
        if n == "new" and v[1].endswith("string::String::new"): return lst(())
        if n in ("format", "must_use"):
            if v[2][0][0] == "list": return v[2][0]
            ps = fmt_parts(v[2][0])
            if ps is not None: return lst([("k", x) if isinstance(x, str) else x[1] for x in ps])
        if n in ("is_some", "is_none") and v[2][0][0] == "agg": return ("k", (v[2][0][2] == "Some") == (n == "is_some"))
        if n == "position" and len(v[2]) == 1 and v[2][0][0] == "k":
            for d in self.defines.values():
                ps = dict(zip(d[3][1][4], d[3][1][3])).get("params")
                if ps is not None and v[2][0] in ps[1]: return ("k", ps[1].index(v[2][0]))
        if n == "inner_next" and v[3] >= SEQ:
            k = v[3] - SEQ
            return ("agg", "core::option::Option", "Some", (("agg", "dreammaker::lexer::LocatedToken", "LocatedToken", (("loc", k), token(self.toks[k])), ("location", "token")),), ("0",)) if k < len(self.toks) else NONE
        if n in ("get", "get_mut", "remove", "contains_key") and len(v[2]) == 2 and rend(v[2][0]).endswith(".defines") and v[2][1][0] == "k":
            d = self.defines.get(v[2][1][1])
            if n == "contains_key": return ("k", d is not None)
            return NONE if d is None else ("agg", "core::option::Option", "Some", (d,), ("0",))
        if n in ("eq", "ne") and len(v[2]) == 2:
            r = same(*v[2])
            return None if r is None else ("k", r == (n == "eq"))
        return None


def play(b, read, toks, defines, env=None, extra=None, visits=40, **kw):
    """run the handling of the token `read` with these tokens to come and these macros defined"""
    return runs(b, env or (lambda t: None), visits=visits, lists=True, seq=("inner_next",), seed=Known(toks, defines, extra), init={2: token(read), 3: ("k", False)}, **kw)
