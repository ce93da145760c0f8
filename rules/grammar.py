"""The parser's functions over words of tokens; some of the tokens stand for anything of a kind."""
import sys
from machine import *

sys.setrecursionlimit(10000)

P = "dreammaker::parser::"
PA = P + "Parser::"
A = "dreammaker::ast::"
TOK = "dreammaker::lexer::Token"
PUN = "dreammaker::lexer::Punctuation"


def agg(adt, v, **f): return ("agg", adt, v, tuple(f.values()), tuple(f))
def some(x): return ("agg", "core::option::Option", "Some", (x,), ("0",))
NONE = ("agg", "core::option::Option", "None", (), ())
def ok(x): return ("agg", "core::result::Result", "Ok", (x,), ("0",))
def err(x): return ("agg", "core::result::Result", "Err", (x,), ("0",))
def box(x): return agg("alloc::boxed::Box", "Box", **{"0": x})
def lst(*x): return ("list", tuple(x))
UNIT = ("agg", "tuple", "", (), ())
def tup(*x): return ("agg", "tuple", "", tuple(x), ())


def loc(i): return ("k", ("at", i))


class Loc:
    """one of these tokens' locations"""
    def __init__(s, *i): s.i = set(i)
    def __repr__(s): return "at " + "/".join(map(str, sorted(s.i)))


def plain(x):
    """a term as Python data: boxes do not matter; None for what is absent"""
    if x[0] == "k": return x[1]
    if x[0] == "list": return [plain(y) for y in x[1]]
    if x[0] == "agg":
        if x[1].endswith("Box") and len(x[3]) == 1 and x[2] == "Box": return plain(x[3][0])
        if x[2] == "Some": return plain(x[3][0])
        if x[2] == "None" and x[1].endswith("Option"): return None
        if x[1] == "tuple": return tuple(plain(y) for y in x[3])
        if x[1] == "array": return [plain(y) for y in x[3]]
        if x[1].endswith("::Spanned"): return ("@",) + tuple(plain(dict(zip(x[4], x[3]))[f]) for f in ("location", "elem"))
        return (x[2],) + tuple(sorted((f, plain(y)) for f, y in zip(x[4], x[3])))
    if x[0] == "call" and tail(x) in ("new", "into", "from", "to_owned", "clone", "into_boxed_slice", "borrow", "as_ref", "from_static", "from_nonstatic") and len(x[2]) == 1: return plain(x[2][0])
    return rend(x)[:160]


def agree(want, got):
    if isinstance(want, Loc): return isinstance(got, tuple) and len(got) == 2 and got[0] == "at" and got[1] in want.i
    if isinstance(want, (tuple, list)): return type(want) is type(got) and len(want) == len(got) and all(agree(a, b) for a, b in zip(want, got))
    return want == got and (type(want) is type(got) or not isinstance(want, (str, int, float, bool, type(None))))


def V(_variant, **f): return (_variant,) + tuple(sorted(f.items()))
def X(_variant, *f): return (_variant,) + tuple((str(i), x) for i, x in enumerate(f))
def at(l, x): return ("@", l, x)


class Err(Exception): pass


class Ref:
    """the reference parser reads the same words"""
    def __init__(s, word): s.w, s.q, s.notes, s.log = word, 0, [], []

    def head(s):
        if s.q >= len(s.w): raise Beyond
        return s.w[s.q]

    def take(s):
        h = s.head()
        s.q += 1
        return h

    asked = None

    def asks(s, t):
        if s.asked is not None and s.q == len(s.w) - 1: s.asked.add(t)

    def is_(s, t):
        s.asks(t)
        if s.head() == t:
            s.q += 1
            return True
        return False

    def p(s, n): return s.is_(("p", n))
    def i(s, n): return s.is_(("i", n))

    def need(s, x):
        if x is None or x is False: raise Err()
        return x

    def ident(s):
        h = s.head()
        s.asks(("i", "*"))
        if h[0] == "i":
            s.q += 1
            return h[1]
        return None

    def kind(s, k):
        """what a token that stands for a k stands for"""
        s.head()
        s.asks((k, "*"))
        if s.head()[0] == k:
            s.q += 1
            return s.q - 1
        return None

    def note(s, what): s.notes.append(what)


class Words:
    other = ("tok", "Float")
    """what a place was asked for decides which tokens are tried there; `other` stands for all the rest"""
    """compares a function with a reference on every word up to where either gives up"""
    def __init__(s, F, R, values, inline=()):
        s.F, s.R, s.values = F, R, values
        s.inline = set(inline)
        s.fields = [f["n"] for f in F.adt(P + "Parser")["variants"][0]["f"]]
        s.n = 0
        s.notes = {}

    def token(s, t, i):
        if t[0] == "i": return agg(TOK, "Ident", **{"0": ("k", t[1]), "1": ("k", False)})
        if t[0] == "p": return agg(TOK, "Punct", **{"0": agg(PUN, t[1])})
        if t[0] == "eof": return agg(TOK, "Eof")
        if t[0] == "tok": return agg(TOK, t[1], **({"0": ("k", "the text of %d" % i)} if len(t) < 3 else {"0": ("k", t[2])}))
        return agg(TOK, "Int", **{"0": ("k", ("stands for", t))})

    def calls(s, word):
        """the model of the functions that read the queue"""
        def self_field(e, f, v=None):
            x = e[SELF]
            k = s.fields.index(f)
            if v is not None: e[SELF] = x[:3] + (x[3][:k] + (v,) + x[3][k + 1:],) + x[4:]
            return x[3][k]

        def peek(e):
            q = e["q"]
            if q >= len(word): raise Beyond
            self_field(e, "location", loc(q))
            return word[q]

        def asks(e, t):
            if s.asked is not None and e["q"] == len(word) - 1: s.asked.add(t)

        s.word_at = lambda e: (peek(e), e["q"])

        def model(fn, tf, a, places, e, write):
            n = fn.split("::")[-1]
            if not fn.startswith(PA) and not tf.startswith(PA):
                if tf.endswith("HasLocation::location") and a and a[0][0] == "agg" and a[0][1] == P + "Parser": return self_field(e, "location")
                if n in ("describe_parse_error",): return ("k", "error")
                if n in ("register", "register_error") and "::error::" in tf + fn:
                    e["notes"] = e["notes"] + (s.note(n, a, e),)
                    return UNIT
                return s.more(n, fn, tf, a, e, places, write)
            r = s.more(n, fn, tf, a, e, places, write)
            if r is not None: return r
            if n == "peek":
                peek(e)
                asks(e, ("all",))
                return s.token(peek(e), e["q"])
            if n == "take":
                asks(e, ("all",))
                t = peek(e)
                e["q"] += 1
                return s.token(t, e["q"] - 1)
            if n in ("exact", "exact_ident", "ident", "ident_in_seq"):
                t, i = peek(e), e["q"]
                if n == "exact":
                    x = plain(a[1])
                    asks(e, ("p", x[1][1][0]) if x[0] == "Punct" else ("all",))
                    hit, v = x == plain(s.token(t, i)), UNIT
                elif n == "exact_ident":
                    asks(e, ("i", a[1][1]))
                    hit, v = t == ("i", a[1][1]), UNIT
                else: asks(e, ("i", "*"))
                if n in ("ident", "ident_in_seq"): hit, v = t[0] == "i", ("k", t[1])
                if hit: e["q"] += 1
                return ok(some(v) if hit else NONE)
            if n == "updated_location":
                peek(e)
                return self_field(e, "location")
            if n == "expected": return UNIT
            if n in ("annotate", "annotate_precise"): return UNIT
            if n in ("describe_parse_error",):
                e["blame"] = self_field(e, "location")
                return ("k", "the parse error")
            if n == "parse_error":
                e["blame"] = self_field(e, "location")
                return err(("k", "the parse error"))
            if n == "require":
                x = a[1]
                if x[0] != "agg": return None
                if x[2] == "Err": return x
                if x[3][0][2] == "Some": return ok(x[3][0][3][0])
                e["blame"] = self_field(e, "location")
                return err(("k", "the parse error"))
            for k, names in s.values.items():
                if n in names:
                    t, i = peek(e), e["q"]
                    asks(e, (k, "*"))
                    l = s.logged(n, i, a)
                    if l is not None: e["log"] = e["log"] + (l,)
                    if t[0] != k: return ok(NONE)
                    e["q"] += 1
                    return ok(some(s.stands(t, i, n, a)))
            return None
        return model

    def logged(s, n, i, a): return None
    def more(s, n, fn, tf, a, e, places, write): return None
    def note(s, n, a, e): return "diagnostic"
    def stands(s, t, i, n, a): raise NotImplementedError

    def self_(s, **kw):
        v = {f: kw.get(f, NONE if f in ("annotations", "next", "skipping_location") else lst() if f == "expected" else ("k", "the parser's " + f)) for f in s.fields}
        v["location"] = loc(kw.get("at", 0))
        return ("agg", P + "Parser", "Parser", tuple(v.values()), tuple(v))

    def impl(s, o, args, word, **kw):
        M = Machine(s.F, s.calls(word), lambda b: norm_path(b.path) in s.inline or is_new(b) or b.path in s.inline, seed=s.seed)
        env = {SELF: s.self_(**kw), "q": 0, "notes": (), "log": (), "blame": None}
        out = M.run(o, [("at", (SELF,))] + args, env)
        for b in M.seen: s.R.saw(b)
        return out

    def seed(s, t): return strings(t)

    def outcome(s, t):
        x = t.result
        if t.end != "return": return ("panic",)
        e = t.env
        if x[0] == "agg" and x[2] == "Err": return ("error",)
        if x[0] == "agg" and x[2] == "Ok" and x[3][0][0] == "agg" and x[3][0][2] == "None": return ("nothing", e["q"])
        if x[0] == "agg" and x[2] == "Ok": return ("read", e["q"], plain(x[3][0]), e["log"], e["notes"])
        return ("?", rend(x)[:100])

    def explore(s, key, o, args, want_, alphabet, limit=14, keep=lambda w: True, deeper=lambda w: True, ref=Ref, **kw):
        """every word over the alphabet that neither side gives up on"""
        todo = [()]
        n = words = 0
        bad, ahead, seen = set(), {}, set()
        while todo:
            w = todo.pop()
            if w in seen: continue
            seen.add(w)
            n += 1
            s.asked = asked = set() if w and w[-1] == s.other else None
            s.at_end = len(w) - 1
            r = ref(w)
            r.asked = asked
            try: want = want_(r)
            except Err: want = ("error",)
            except Beyond: want = "more"
            try:
                ts = s.impl(o, args, w, **kw)
                got = [s.outcome(t) for t in ts]
            except Beyond: got = "more"
            except Undecided as u: got = [("undecided", str(u))]
            if asked and w[:-1] not in ahead:
                # what could have been there instead: what this place was asked for
                todo += [w[:-1] + (a,) for a in (alphabet(w[:-1]) if callable(alphabet) else alphabet) if keep(w[:-1] + (a,)) and (a in asked or (a[0], "*") in asked or ("all",) in asked)]
            if want == "more" and got == "more":
                if len(w) < limit and deeper(w): todo.append(w + (s.other,))
                continue
            if want == "more" or got == "more":
                # one of them knows earlier: longer words show what the other comes to
                if ahead.get(w, 0) < 3:
                    for x in (alphabet(w) if callable(alphabet) else alphabet):
                        if not keep(w + (x,)): continue
                        ahead[w + (x,)] = ahead.get(w, 0) + 1
                        todo.append(w + (x,))
                    continue
                good = False
            else: good = bool(got) and all(agree(want, g) for g in got)
            words += 1
            if not good:
                if len(bad) < 6: s.R.ob(key + (spell(w),), False, o.where(), f"`{spell(w)}` is read as {str(got)[:400]}, should be {str(want)[:400]}")
                bad.add(w)
        if not bad: s.R.ob(key, True, o.where(), "")
        s.n += words
        return words


def spell(w): return " ".join(x[1] if x[0] in ("i", "p") else "<" + " ".join(map(str, x)) + ">" for x in w)
