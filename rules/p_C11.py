"""Text is split into tokens as written."""
from lib import *
from automaton import *
from p_C44 import agg, reports

RULE = ("Each reading function of the lexer is evaluated abstractly over its MIR for every byte in every state, from its start until no new state is reached, and its transitions simulate a reference automaton: "
        "the text collected, the bytes put back, the reports and the result agree with the written form of strings (escapes, partial terminators, interpolation), raw strings, resources, comments (nested block comments, "
        "escaped line ends, documentation), numbers (bases, floats, infinities), punctuation (longest match), identifiers and white space; the value a number stands for follows from the standard parsers' answers; "
        "the byte reader and the line and column counter are evaluated for every byte; and next() is evaluated for every punctuation and every byte in every combination of directive, nesting and closing state.")
LX = "dreammaker::lexer::Lexer"
SELF = 10 ** 7


class String:
    """text up to end, with \\ for escapes and [ for interpolation"""
    def __init__(s, end, closed): s.end, s.closed, s.idx, s.esc, s.buf = end, closed, 0, False, []
    def key(s): return (s.idx, s.esc)

    def done(s, opened, eff=()):
        return "end", tuple(eff), ({(True, True): "InterpStringPart", (True, False): "InterpStringBegin", (False, True): "InterpStringEnd", (False, False): "String"}[opened, s.closed], tuple(s.buf))

    def feed(s, c):
        if c is None: return s.done(False, [("error", "start", "unterminated string literal")])
        if not s.esc:
            # a partial end
            if c == s.end[s.idx]:
                s.idx += 1
                return s.done(False) if s.idx == len(s.end) else ("more", ())
            k = s.idx
            while k:  # the longest part of the end that is a suffix of what was read
                k -= 1
                if tuple(s.end[:k + 1]) == (tuple(s.end[:s.idx]) + (c,))[-k - 1:]:
                    s.buf += list(s.end[:s.idx - k])
                    s.idx = k + 1
                    return "more", ()
            s.buf += list(s.end[:s.idx])
            s.idx = 0
        else:
            s.buf += list(s.end[:s.idx])
            s.idx = 0
        if s.esc:
            s.esc = False
            if c in (10, 13): return "more", (("skip whitespace",), ("put back", "what follows"))
            s.buf += [92, c]
        elif c == 91: return s.done(True, [("interpolation", tuple(s.end), 1)])
        elif c == 92: s.esc = True
        else: s.buf.append(c)
        return "more", ()


class Resource:
    def __init__(s): s.esc, s.buf = False, []
    def key(s): return s.esc

    def feed(s, c):
        if c is None: return "end", (("error", "start", "unterminated resource literal"),), tuple(s.buf)
        if s.esc: s.esc = False
        elif c == 92:
            s.esc = True
            return "more", ()
        elif c == 39: return "end", (), tuple(s.buf)
        s.buf.append(c)
        return "more", ()


class Block:
    """the rest of a block comment; comments nest"""
    def __init__(s): s.first, s.prev, s.depth, s.doc, s.buf = True, 0, 1, None, []
    def key(s): return (s.first, s.prev, min(s.depth, 4), s.doc)
    def end(s, eff=()): return "end", eff, (s.doc, "Block", tuple(s.buf)) if s.doc and s.buf else None

    def feed(s, c):
        if s.first:
            s.first = False
            if c == 42: s.doc = "FollowingItem"
            if c == 33: s.doc, c = "EnclosingItem", 0
            s.prev = c or 0
            return "more", ()
        if c is None: return s.end((("error", "now", "still skipping comments at end of file"),))
        if (s.prev, c) == (47, 42): s.depth += 1
        if (s.prev, c) == (42, 47):
            s.depth -= 1
            if not s.depth: return s.end()
        if s.prev and s.doc: s.buf.append(s.prev)
        s.prev = c
        return "more", ()


class Line:
    """the rest of a line comment"""
    def __init__(s): s.first, s.esc, s.doc, s.buf = True, False, None, []
    def key(s): return (s.first, s.esc, s.doc)
    def end(s, eff=()): return "end", eff, (s.doc, "Line", tuple(s.buf)) if s.doc else None

    def feed(s, c):
        if s.first and c in (47, 33):
            s.first, s.doc = False, "FollowingItem" if c == 47 else "EnclosingItem"
            return "more", ()
        if c is None: return ("more", ()) if s.first and not setattr(s, "first", False) else s.end()
        first, s.first = s.first, False
        if c == 10:
            if not s.esc: return s.end((("put back", 10),))
            s.esc = False
            return "more", (("error", "now", "backslash in line comment may be commenting out the following line"),)
        if c == 13: return "more", ()
        if s.doc and not first: s.buf.append(c)
        s.esc = c == 92 and not s.esc
        return "more", ()


class Raw:
    def __init__(s, end): s.end, s.buf = list(end), []
    def key(s): return ()

    def feed(s, c):
        if c is None: return "end", (("error", "start", "unterminated raw string"),), ("String", tuple(s.buf))
        s.buf.append(c)
        if s.buf[-len(s.end):] == s.end: return "end", (), ("String", tuple(s.buf[:-len(s.end)]))
        return "more", ()


class RawStart:
    """after the @"""
    def __init__(s): s.state, s.buf = 0, []
    def key(s): return s.state
    def error(s, m): return "end", (("error", "now", m),), ("String", ())
    def text(s, end, eff=()): return "end", eff, ("until", tuple(end))

    def feed(s, c):
        if s.state == 0:
            if c in (10, None): return s.error("unterminated raw string")
            if c in b"({":
                s.state = c
                return "more", ()
            return s.text([c])
        if s.state == 123: return s.text(b'"}') if c == 34 else s.text(b"{", (("put back", c if c is not None else "nothing"),))
        if c is None: return s.error("unterminated raw string terminator")
        if c == 41: return s.text(s.buf) if s.buf else s.error("empty raw string terminator")
        s.buf.append(c)
        return "more", ()


class Number:
    def __init__(s, first):
        s.buf, s.radix, s.int, s.exp, s.state = [first], 8 if first == 48 else 10, True, False, "prefix" if first == 48 else ""
    def key(s): return (s.radix, s.int, s.exp, s.state)
    fixed = False

    def feed(s, c):
        st, s.state = s.state, ""
        if st == "prefix" and c == 120:
            s.radix = 16
            return "more", ()
        if st in ("#", "#I", "#IN"):
            if c is not None: s.buf.append(c)
            if c is not None and st != "#IN" and chr(c) in {"#": "I", "#I": "N"}[st]:
                s.state = st + chr(c)
                return "more", ()
            return "end", (), (False, 10, "inf" if c == 70 and st == "#IN" else "NaN" if c == 68 and st == "#IN" else tuple(s.buf))
        if c == 95: return "more", ()
        if c is not None and c in b".eE":
            if s.radix != 16:
                s.int = False
                s.exp |= c != 46
            s.buf.append(c)
        elif c is not None and c in b"+-" and s.exp: s.buf.append(c)
        elif c == 35:
            s.buf.append(c)
            s.state, s.fixed = "#", True
        elif c is not None and (c in b"0123456789" or s.radix == 16 and c in b"abcdefABCDEF"):
            s.exp = False
            s.buf.append(c)
        else: return "end", (("put back", c if c is not None else "nothing"),), (s.int, s.radix, tuple(s.buf))
        return "more", ()


class Punct:
    """the longest spelling that begins here"""
    def __init__(s, table, first): s.t, s.s, s.buf, s.found = table, chr(first), [], None

    def key(s): return s.s
    def more(s): return [x for x in s.t if x.startswith(s.s) and x != s.s]
    def now(s): return s.t.get(s.s)

    def feed(s, c):
        if c is not None and any(x.startswith(s.s + chr(c)) for x in s.t):
            s.s += chr(c)
            if not s.more(): return "end", (), s.now()
            return "more", ()
        return "end", (("put back", c),) if c is not None else (), s.now()


class Space:
    """white space before a token; lines: how it treats line breaks, head: nothing but white space was read on this line"""
    def __init__(s, lines, head, close): s.lines, s.head, s.close, s.buf = 2 if lines else 0, head, close, []
    def key(s): return (s.lines, s.close)

    def feed(s, c):
        if c == 13: return "more", ()
        if c is not None and c in b" \t" and (not s.head or s.lines): s.close = False
        elif c == 10 and s.lines == 2: s.lines, s.close = 1, True
        else: return "end", (), (c, s.close)
        return "more", ()


class Ident:
    def __init__(s): s.n, s.buf = 1, []
    def key(s): return s.n

    def feed(s, c):
        if c is not None and (chr(c).isalnum() and c < 128 or c == 95):
            s.n += 1
            return "more", ()
        return "end", (("put back", c if c is not None else "nothing"),), (s.n, c is not None and c in b" \t")


def check(F, R):
    fs = [f["n"] for f in F.adt(LX)["variants"][0]["f"]]

    def lexer(**kw):
        v = dict(context=("k", "ctx"), input=("k", "input"), next=NONE, final_newline=("k", False), at_line_head=("k", False), close_allowed=("k", False), directive=agg("dreammaker::lexer::Directive", "None"), interp_stack=("list", ()))
        v.update(kw)
        return ("agg", LX, "Lexer", tuple(v[f] for f in fs), tuple(fs))

    def automaton(name, args, seed=None, lx=None, inline=()):
        o = R.fn(LX + "::" + name)
        b = prep(o, closures=True, loops=True, also=inline or ())
        init = {1: ("at", (SELF,)), SELF: lx or lexer()}
        init.update({2 + i: a for i, a in enumerate(args)})

        def sd(t):
            if named(t, "location"): return A.phase
            if named(t, "skip_ws") and t[2][1:] == (("k", True),): return ("k", "what follows")
            if named(t, "error") and len(t[2]) == 2: return ("call", "dreammaker::error::DMError::new", (A.phase, t[2][-1]), 0)
            return seed(t) if seed else None
        A = Automaton(b, lambda n: n == LX + "::next", init, sd)
        return o, A

    def effects(t):
        out = []
        for e in t.events:
            n = tail(("call", e[0]))
            if n in ("register", "register_error"):
                w = [x for a in e[1] for x in [subterm(a, lambda z: named(z, "new") and "DMError" in z[1])] if x is not None]
                out.append(("error", w[0][2][0][1] if w and w[0][2][0][0] == "k" else "?", w[0][2][1][1] if w and w[0][2][1][0] == "k" else "?"))
            if n == "skip_ws": out.append(("skip whitespace",))
            if n == "put_back": out.append(("put back", byte(e[1][1][3][0]) if e[1][1][0] == "agg" and e[1][1][2] == "Some" else byte(e[1][1]) if e[1][1][0] == "k" else "nothing"))
        st = t.env.get(SELF) if t.env else None
        if st is not None:
            f = dict(zip(st[4], st[3]))
            for x in f["interp_stack"][1]:
                g = dict(zip(x[4], x[3]))
                out.append(("interpolation", tuple(byte(y) for y in g["end"][1]), g["bracket_depth"][1]))
        return tuple(out)

    def result(t):
        x = t.result
        c = subterm(x, lambda z: named(z, "from_utf8_or_latin1"))
        return (x[2] if x[0] == "agg" else "?", tuple(byte(y) for y in c[2][0][1]) if c is not None and c[2][0][0] == "list" else rend(x))

    def p_strings():
        n = 0
        for end in (b'"', b'"}', b"\n"):
            for closed in (False, True):
                o, A = automaton("read_string", [("list", tuple(("k", x) for x in end)), ("k", closed)])
                st, m = simulate(R, ("string", end.decode(), closed), A, String(list(end), closed), effects, result, o.where())
                n += m
        R.count("string transitions", n, 2000)
    R.part("strings", p_strings)

    def doc(t):
        x = t.result
        if x[0] == "agg" and x[2] == "None": return None
        c = subterm(x, lambda z: named(z, "from_utf8_or_latin1"))
        n = subterm(x, lambda z: named(z, "new") and "DocComment" in z[1])
        if c is None and n is not None:
            w = [v for p, v in t.writes if p[0] == "fld" and p[1:] == (n, "text")]
            c = subterm(w[-1], lambda z: named(z, "from_utf8_or_latin1")) if w else None
        return (rend(x)[:300],) if n is None else (n[2][1][2], n[2][0][2], tuple(byte(y) for y in c[2][0][1]) if c is not None else rend(x)[:200])

    def p_comments():
        n = 0
        for name, ref, bs in (("skip_block_comments", Block(), None), ("skip_line_comment", Line(), range(256))):
            o, A = automaton(name, [])
            st, m = simulate(R, name, A, ref, effects, doc, o.where(), bytes_=bs or [x for x in representatives(A.b) if x], bound=lambda r: getattr(r, "depth", 0) > 3)
            n += m
        R.count("comment transitions", n, 1)
    R.part("comments", p_comments)

    def p_resource():
        o, A = automaton("read_resource", [])
        st, m = simulate(R, "resource", A, Resource(), effects, lambda t: tuple(byte(y) for y in t.result[2][0][1]) if named(t.result, "from_utf8_or_latin1") else rend(t.result), o.where())
        R.count("resource transitions", m, 500)
    R.part("resource", p_resource)

    def p_raw():
        n = 0
        for end in (b'"', b'"}', b"{", b"end", b"aab"):
            o, A = automaton("read_raw_string_inner", [("list", tuple(("k", x) for x in end))])
            st, m = simulate(R, ("raw string up to", end.decode()), A, Raw(end), effects, result, o.where(), bytes_=sorted(set(representatives(A.b, end))), keep=len(end))
            n += m

        def until(t):
            x = t.result
            if named(x, "read_raw_string_inner"): return ("until", tuple(byte(y) for y in x[2][1][1]) if x[2][1][0] == "list" else tuple(byte(y) for y in x[2][1][3]) if x[2][1][:2] == ("agg", "array") else rend(x[2][1]))
            return ("String", () if x[0] == "agg" and x[2] == "String" and (named(x[3][0], "new") or x[3][0] in (("list", ()), ("k", ""))) else rend(x))
        o, A = automaton("read_raw_string", [], inline=False)
        st, m = simulate(R, "raw string", A, RawStart(), effects, until, o.where())
        R.count("raw string transitions", n + m, 500)
    R.part("raw strings", p_raw)

    def p_numbers():
        n = 0

        def sd(t):
            if named(t, "new") and "String" in t[1]: return ("list", ())
            if named(t, "is_digit") and isinstance(byte(t[2][0]), int) and t[2][1][0] == "k":
                c, r = byte(t[2][0]), t[2][1][1]
                return ("k", c < 128 and chr(c).isalnum() and int(chr(c), 36) < r)
            if named(t, "contains") and t[2][1][0] == "list" and t[2][0][:2] == ("agg", "array"): return ("k", "".join(chr(byte(x)) for x in t[2][1][1]) in [x[1] for x in t[2][0][3]])
            if named(t, "eq", "ne") and t[2][0][0] == "list" and t[2][1][0] == "k" and isinstance(t[2][1][1], str): return ("k", ("".join(chr(byte(x)) for x in t[2][0][1]) == t[2][1][1]) == (tail(t) == "eq"))
            return None

        def number(t):
            x = t.result
            if x[:2] != ("agg", "tuple"): return rend(x)[:200]
            i, r, s = x[3]
            return (i[1], r[1], tuple(byte(y) for y in s[1]) if s[0] == "list" else s[1] if s[0] == "k" else rend(s))
        for first in range(48, 58):
            o, A = automaton("read_number_inner", [("k", first)], sd)
            st, m = simulate(R, ("number", chr(first)), A, Number(first), effects, number, o.where(), bytes_=range(256) if first in (48, 49) else sorted(set(representatives(A.b, b"0123456789abcdefgxABCDEFGINF"))))
            n += m
        R.count("number transitions", n, 2000)
    R.part("numbers", p_numbers)

    def p_values():
        o = R.fn(LX + "::read_number")
        b = prep(o, closures=True, loops=True)
        n = 0

        def run(integer, radix, fits, isfloat, back):
            TEXT = ("k", "F10" if back else "TXT")

            def seed(t):
                m = tail(t)
                if m == "read_number_inner": return ("agg", "tuple", "", (("k", integer), ("k", radix), TEXT), ()) if t[2][-1] == ("k", 50) else None
                if m in ("from_str_radix", "from_ascii_radix") and t[2][0] == TEXT: return result(fits, "I", t[2][1])
                if m in ("from_str", "parse") and t[2][0] == TEXT: return result(isfloat, "F", ("k", 10))
                if m == "format" and len(t[2]) == 1:
                    p = [x for x in fmt_parts(t[2][0]) or () if x != ""]
                    if len(p) == 1 and p[0][0] == "hole" and mentions(p[0][1], lambda x: x == ("k", "F10")): return ("k", "F10")
                return strings(t)

            def result(ok, what, radix): return ("agg", "core::result::Result", "Ok" if ok else "Err", (("k", (what if ok else what + " error ") + str(radix[1])),), ("0",))
            out = []
            for t in runs(b, compare, visits=3, lists="maps", seed=seed, init={1: ("at", (SELF,)), SELF: lexer(), 2: ("k", 50)}):
                x = t.result
                v = (x[2],) + tuple(y[1] if y[0] == "k" else rend(y) for y in x[3]) if x[0] == "agg" else rend(x)[:80]
                rep, sev, typ = [], "Error", None
                for e in t.events:
                    m = tail(("call", e[0]))
                    if m in ("register", "register_error"): rep.append((sev, typ))
                    if m == "set_severity": sev = e[1][1][2]
                    if m in ("with_errortype", "set_errortype"): typ = e[1][1][1]
                out.append((v, rep))
            return out
        for integer in (True, False):
            for radix in (2, 8, 10, 16, 36):
                for fits in (True, False):
                    for isfloat in (True, False):
                        for back in (True, False):
                            if integer and fits: want = (("Int", "I%d" % radix), [])
                            elif isfloat and (not integer or radix == 10): want = (("Float", "F10"), [("Warning", "integer_precision_loss")] if integer and not back else [])
                            else: want = (("Int", 0) if integer else ("Float", ("f32", "0.0")), [("Error", None)])
                            got = run(integer, radix, fits, isfloat, back)
                            R.ob(("value", integer, radix, fits, isfloat, back), got == [want], o.where(), f"a number (integer form: {integer}, base {radix}, fits an integer: {fits}, is a float: {isfloat}, prints back unchanged: {back}) is read as {str(got)[:300]}, should be {want}")
                            n += 1
        R.count("number values", n, 80)
    R.part("number values", p_values)

    def p_punct():
        t = next((x for x in [b for b in F.bodies if b.npath == "dreammaker::lexer::PUNCT_TABLE"]), None)
        rows = [(x[3][0][1], x[3][1][2]) for x in traces(t)[0].result[3]]
        sp = {}
        for s, v in rows:
            if not any(c.isalnum() for c in s): sp.setdefault(s, v)
        n = 0

        def sd(t):
            if named(t, "eq", "ne", "starts_with") and len(t[2]) == 2 and t[2][0][0] == "k" and isinstance(t[2][0][1], str) and t[2][1][0] == "list":
                x, y = t[2][0][1].encode(), bytes(byte(z) for z in t[2][1][1])
                return ("k", x.startswith(y) if tail(t) == "starts_with" else (x == y) == (tail(t) == "eq"))
            return None
        opt = lambda t: None if t.result is None else t.result[3][0][2] if t.result[0] == "agg" and t.result[2] == "Some" else None if t.result[0] == "agg" and t.result[2] == "None" else rend(t.result)[:200]
        for c in range(256):
            o, A = automaton("read_punct", [("k", c)], sd, inline={"dreammaker::lexer::filter_punct", "dreammaker::lexer::filter_punct_table"})
            ref = Punct(sp, c)
            if ref.more():
                st, m = simulate(R, ("punctuation", chr(c)), A, ref, effects, opt, o.where())
                n += m
            else:
                ts = A.go(0, A.init, "start")
                R.ob(("punctuation", chr(c)), [(t.end, opt(t), effects(t)) for t in ts] == [("return", ref.now(), ())], o.where(), f"{chr(c)!r} is read as {[(t.end, t.result and opt(t), effects(t)) for t in ts][:2]}, should be {ref.now()}")
        R.count("punctuation transitions", n, 3000)
    R.part("punctuation", p_punct)

    def lx(t, f):
        st = t.env.get(SELF)
        return st[3][st[4].index(f)] if st is not None else ("?",)

    def opt_byte(x): return byte(x[3][0]) if x[0] == "agg" and x[2] == "Some" else None if x[0] == "agg" and x[2] == "None" else rend(x)

    def p_space():
        n = 0
        for lines in (False, True):
            for head in (False, True):
                for close in (False, True):
                    o, A = automaton("skip_ws", [("k", lines)], lx=lexer(at_line_head=("k", head), close_allowed=("k", close)))
                    A.more = None
                    st, m = simulate(R, ("white space", "across lines" if lines else "on the line", "at its head" if head else "within", close), A, Space(lines, head, close), effects, lambda t: (opt_byte(t.result), lx(t, "close_allowed")[1]), o.where())
                    n += m
        R.count("white space transitions", n, 2000)
    R.part("white space", p_space)

    def ascii_(t):
        n, c = tail(t), byte(t[2][0]) if t[2] else None
        if n.startswith("is_ascii") and isinstance(c, int):
            x = chr(c)
            return ("k", c < 128 and {"is_ascii_lowercase": x.islower(), "is_ascii_uppercase": x.isupper(), "is_ascii_digit": x.isdigit(), "is_ascii_alphabetic": x.isalpha(), "is_ascii_alphanumeric": x.isalnum(), "is_ascii": True}.get(n, False))
        return None

    def p_ident():
        n = 0
        for first in b"_azAZm":
            inner = ("list", tuple(("k", x) for x in [first, "b1", "b2", "b3", "b4", "b5", "b6"]))
            tf = [f["n"] for f in F.adt("dreammaker::lexer::LocationTracker")["variants"][0]["f"]]
            tr = ("agg", "dreammaker::lexer::LocationTracker", "LocationTracker", tuple({"inner": inner, "offset": ("k", 1)}.get(f, ("k", f)) for f in tf), tuple(tf))
            o, A = automaton("read_ident", [("k", first)], ascii_, lx=lexer(input=tr), inline={"dreammaker::lexer::is_ident", "dreammaker::lexer::is_digit"})

            def word(t):
                c = subterm(t.result, lambda z: z[0] == "list")
                return (len(c[1]) if c is not None and c[1] == inner[1][:len(c[1])] else rend(t.result)[:200], t.result[3][1][1])
            st, m = simulate(R, ("identifier", chr(first)), A, Ident(), effects, word, o.where(), bound=lambda r: r.n > 4)
            n += m
        R.count("identifier transitions", n, 2000)
    R.part("identifiers", p_ident)

    def p_close():
        o = R.fn(LX + "::check_close")
        for p in F.variants("dreammaker::lexer::Punctuation"):
            for c in (32, 9, 13, 10, 11, 58, 97, None):
                o, A = automaton("check_close", [agg("dreammaker::lexer::Punctuation", p)], inline={"dreammaker::lexer::Punctuation::close"})
                ts = A.go(0, A.init, c) if 0 in A.sites else [t for s in A.go(0, A.init, "start") for t in (A.go(s.blocks[-1], s.env, c) if s.end == "stop" else [s])]
                want = ("CloseColon" if c is None or c not in b" \t\r\n" else "Colon", (("put back", c if c is not None else "nothing"),)) if p == "Colon" else (p, ())
                got = {(t.result[2] if t.result and t.result[0] == "agg" else str(t.result)[:80], effects(t)) for t in ts}
                R.ob(("closing", p, c), got == {want}, o.where(), f"{p} before {c} is read as {str(got)[:150]}, should be {want}")
        R.count("punctuation that may close", len(F.variants("dreammaker::lexer::Punctuation")), 70)
    R.part("closing colons", p_close)

    def p_byte():
        o = R.fn(LX + "::next")
        b = prep(o, closures=True, loops=True)
        loc = lambda l: agg("dreammaker::error::Location", "Location", file=("k", 1), line=("k", l), column=("k", 5))
        n = 0
        D = ("None", "Hash", "Ordinary", "Stringy")
        for back in (None, 65, 32):
            for c in [None] + list(range(256)):
                for adv in (False, True):
                    for head in (False, True):
                        for d in D if c in (None, 32, 65) else D[1:2]:
                            if back is not None and c not in (None, 66, 32): continue

                            def seed(t):
                                if named(t, "location"): return loc(2 if adv and t[3] - SEQ >= 1 else 1)
                                if named(t, "next") and t[1] != LX + "::next": return NONE if c is None else some(("k", c))
                                return strings(t)
                            ts = runs(b, compare, visits=4, lists="maps", seq=("location",), seed=seed, init={1: ("at", (SELF,)), SELF: lexer(next=some(("k", back)) if back is not None else NONE, at_line_head=("k", head), directive=agg("dreammaker::lexer::Directive", d))})
                            got = {(opt_byte(t.result) if t.end == "return" else t.end, lx(t, "next")[2], lx(t, "at_line_head")[1], lx(t, "directive")[2]) for t in ts}
                            h = head or adv
                            want = (back, "None", head, d) if back is not None else (c, "None", h and (c is None or c in b"\t "), "None" if adv else d)
                            R.ob(("byte", back, c, "new line" if adv else "same line", head, d), got == {want}, o.where(), f"{str(got)[:200]}, should be {want}")
                            n += 1
        R.count("bytes", n, 1000)
        o = R.fn(LX + "::put_back")
        for v in (NONE, some(("k", 7))):
            ts = runs(prep(o), compare, lists="maps", seed=strings, init={1: ("at", (SELF,)), SELF: lexer(), 2: v})
            R.ob(("put back", v[2]), [lx(t, "next") for t in ts if t.end == "return"] == [v], o.where(), "what is put back is not what is read next")
    R.part("bytes", p_byte)

    def p_location():
        T = "dreammaker::lexer::LocationTracker"
        o = R.saw(next(v for v in F.bodies if v.path.startswith("<" + T) and v.path.endswith("Iterator>::next")))
        b = prep(o, closures=True, loops=True)
        tf = [f["n"] for f in F.adt(T)["variants"][0]["f"]]
        L0 = lambda l, c: agg("dreammaker::error::Location", "Location", **{f["n"]: {"file": ("k", 1), "line": ("k", l), "column": ("k", c)}[f["n"]] for f in F.adt("dreammaker::error::Location")["variants"][0]["f"]})

        def tracker(**kw): return ("agg", T, "LocationTracker", tuple(kw[f] for f in tf), tuple(tf))
        fold = lambda t: ((some(("k", t[2][0][1] + t[2][1][1])) if t[2][0][1] + t[2][1][1] < (1 << 32 if "u32" in t[1] or t[2][0][1] > 65535 else 1 << 16) else NONE) if named(t, "checked_add") and t[2][0][0] == "k" else strings(t))
        for c in list(range(256)) + [None]:
            for at_end in (False, True):
                for l, col in ((0, 0), (3, 7)):
                    ts = runs(b, compare, visits=4, lists="maps", seed=fold, init={1: ("at", (SELF,)), SELF: tracker(inner=("list", (("k", "x"),) + ((("k", c),) if c is not None else ())), offset=("k", 1), location=L0(l, col), at_line_end=("k", at_end))})
                    got = set()
                    for t in ts:
                        st = dict(zip(tf, t.env[SELF][3]))
                        w = dict(zip(st["location"][4], st["location"][3])) if st["location"][0] == "agg" else {}
                        got.add((t.end, opt_byte(t.result), st["offset"][1], w.get("line", "?")[1], w.get("column", "?")[1], st["at_line_end"][1]))
                    line, column = (l + 1, 0) if at_end else (l, col)
                    want = ("return", c, 1 + (c is not None), line, column + (c is not None), c == 10)
                    if c is None: want = want[:5] + (False,)
                    R.ob(("location", c, "after a line break" if at_end else "within a line", l), got == {want}, o.where(), f"{str(got)[:200]}, should be {want}")
        R.count("locations", 257 * 4, 1000)
        o = R.fn(T + "::new")
        for bom in (False, True):
            ts = runs(prep(o, closures=True, loops=True), compare, lists="maps", seed=strings, init={1: ("k", 1), 2: ("list", tuple(("k", x) for x in (b"\xef\xbb\xbfab" if bom else b"\xef\xbbab")))})
            got = set()
            for t in ts:
                x = dict(zip(t.result[4], t.result[3])) if t.result[0] == "agg" else {}
                w = dict(zip(x["location"][4], x["location"][3])) if x else {}
                got.add((x.get("offset", "?")[1], w.get("line", "?")[1], w.get("column", "?")[1], x.get("at_line_end", "?")[1], w.get("file", "?")[1]))
            R.ob(("start", "with a mark" if bom else "without a mark"), got == {(3 if bom else 0, 0, 0, True, 1)}, o.where(), f"reading starts with {got}")
    R.part("locations", p_location)

    def p_tokens():
        o = R.saw(next(v for v in F.bodies if v.path.startswith("<" + LX) and v.path.endswith("Iterator>::next")))
        b = prep(o, closures=True, loops=True)
        DIR, PU, INT = "dreammaker::lexer::Directive", "dreammaker::lexer::Punctuation", "dreammaker::lexer::Interpolation"
        inf = [f["n"] for f in F.adt(INT)["variants"][0]["f"]]
        interp = lambda d: ("agg", INT, "Interpolation", tuple({"end": ("k", "the end"), "bracket_depth": ("k", d)}[f] for f in inf), tuple(inf))
        lf = [f["n"] for f in F.adt("dreammaker::error::Location")["variants"][0]["f"]]
        LOC = ("agg", "dreammaker::error::Location", "Location", tuple({"file": ("k", 1), "line": ("k", 2), "column": ("k", 3)}[f] for f in lf), tuple(lf))
        called = ("read_string", "read_raw_string", "read_resource", "read_number", "read_ident", "skip_block_comments", "skip_line_comment", "put_back", "skip_ws", "read_punct", "check_close", "register_error", "register", "error")

        def run(first, punct, d="None", close=False, stack=(), ident=("word", False), doc=None, final=False, second=None):
            def seed(t):
                n = tail(t)
                if named(t, "location"): return LOC
                if n == "skip_ws":
                    i = t[3] - SEQ + (1 if t[2][-1] == ("k", True) else 0)
                    return (some(("k", first)) if first is not None else NONE) if i == 0 else some(("k", second)) if i == 1 and second is not None else NONE
                if n == "read_punct":
                    if t[2][-1] == ("k", first) and (punct is None or first != second): return NONE if punct is None else some(agg(PU, punct))
                    return some(agg(PU, "Semicolon"))
                if n == "check_close": return agg(PU, "CloseColon") if t[2][-1][0] == "agg" and t[2][-1][2] == "Colon" else t[2][-1]
                if n in ("skip_block_comments", "skip_line_comment"): return some(("k", "a doc comment")) if doc else NONE
                if n == "read_ident": return ("agg", "tuple", "", (("k", ident[0]), ("k", ident[1])), ())
                if n in ("read_string", "read_raw_string", "read_resource", "read_number"): return ("call", n, t[2][1:], 0)
                return strings(t)
            ts = runs(b, lambda t: compare(t), visits=6, lists="maps", seq=("skip_ws",), seed=seed, init={1: ("at", (SELF,)), SELF: lexer(directive=agg(DIR, d), close_allowed=("k", close), final_newline=("k", final), at_line_head=("k", True), interp_stack=("list", tuple(interp(x) for x in stack)))})
            out = []
            for t in ts:
                x = t.result
                tok, w = None, None
                if t.end != "return": tok = t.end
                elif x[0] == "agg" and x[2] == "Some":
                    y = x[3][0]
                    w, tok = (y[2] if named(y, "new") else (y[3][y[4].index("location")], y[3][y[4].index("token")]))
                    w = "at" if w == LOC else "one further" if w[0] == "agg" and w[3][w[4].index("column")] == ("k", 4) and w[3][w[4].index("line")] == ("k", 2) else rend(w)[:80]
                    tok = name(tok)
                ev = [(n,) + tuple(name(a) for a in e[1][1:]) for e in t.events for n in [tail(("call", e[0]))] if n in called]
                st = dict(zip(t.env[SELF][4], t.env[SELF][3]))
                out.append((tok, w, [e for e in ev if e[0] not in ("read_punct", "check_close")], (st["directive"][2], st["close_allowed"][1], tuple(g[3][inf.index("bracket_depth")][1] for g in st["interp_stack"][1]), st["final_newline"][1])))
            return out

        def name(x):
            if x[0] == "agg" and x[2] in ("Punct", "Resource", "String", "Some", "Ok"): return (x[2] + " " if x[2] != "Some" else "") + str(name(x[3][0]))
            if x[0] == "agg" and x[2] == "Ident": return "Ident %s %s" % (name(x[3][0]), name(x[3][1]))
            if x[0] == "agg": return x[2] or "array " + "".join(chr(byte(y)) if isinstance(byte(y), int) else "?" for y in x[3])
            if x[0] == "list": return "array " + "".join(chr(byte(y)) for y in x[1])
            if x[0] == "call": return x[1] + "(" + ", ".join(str(name(a)) for a in x[2]) + ")"
            return str(x[1]) if x[0] == "k" else rend(x)[:80]

        def expect(key, got, tok, w, ev, d="None", close=False, stack=(), final=False):
            want = (tok, w, [("skip_ws", "False")] + ev, (d, close, stack, final))
            R.ob(("token",) + key, got == [want], o.where(), f"{' '.join(map(str, key))}: {str(got)[:300]}, should be {str(want)[:300]}")
            count[0] += 1
        count = [0]
        sp = {"BlockComment": "skip_block_comments", "LineComment": "skip_line_comment"}
        quotes = {"DoubleQuote": 'read_string(array ", False)', "BlockString": 'read_string(array "}, False)', "SingleQuote": "Resource read_resource()"}
        CALLS = {"DoubleQuote": ("read_string", 'array "', "False"), "BlockString": ("read_string", 'array "}', "False"), "SingleQuote": ("read_resource",)}
        for p in F.variants(PU):
            if p in ("CloseColon", "In"): continue
            for d in ("None", "Hash", "Ordinary"):
                for close in (False, True):
                    for stack in ((), (1,), (2,), (3, 1)):
                        k = (p, d, close, stack)
                        if p in sp:
                            for doc in (True, False):
                                got = run(200, p, d, close, stack, doc=doc, final=True)
                                if doc: expect(k + ("documentation",), got, "a doc comment", "at", [(sp[p],)], d, close, stack, True)
                                else: expect(k, got, None, None, [(sp[p],), ("skip_ws", "False")], d, close, stack, True)
                            continue
                        got = run(200, p, d, close, stack)
                        tok, ev, d2, c2, s2 = "Punct " + ("CloseColon" if p == "Colon" and close else p), [], d, close, stack
                        if p in quotes: tok, ev = quotes[p], [CALLS[p]]
                        elif p == "Hash" and d == "None": d2 = "Hash"
                        elif p in ("LBracket", "SafeLBracket") and stack: s2 = stack[:-1] + (stack[-1] + 1,)
                        elif p == "RBracket" and stack and stack[-1] == 1: tok, ev, s2 = "read_string(the end, True)", [("read_string", "the end", "True")], stack[:-1]
                        elif p == "RBracket":
                            c2 = True
                            if stack: s2 = stack[:-1] + (stack[-1] - 1,)
                        elif p == "RParen": c2 = True
                        expect(k, got, tok, "at", ev, d2, c2, s2)
        for c in range(256):
            x = chr(c)
            for d in ("None", "Hash", "Ordinary") if c in b"aZ_0@ " else ("None", "Hash"):
                k = (c, d)
                if c < 128 and x.isdigit(): expect(k, run(c, None, d), "read_number(%d)" % c, "at", [("read_number", str(c))], d)
                elif c < 128 and (x.isalpha() or x == "_"):
                    for w in ("word", "warn", "error", "in", "define"):
                        for ws in (False, True):
                            tok = "Punct In" if w == "in" else "Ident %s %s" % (w, ws)
                            expect(k + (w, ws), run(c, None, d, ident=(w, ws)), tok, "at", [("read_ident", str(c))], ("Stringy" if w in ("warn", "error") else "Ordinary") if d == "Hash" else d, w != "in")
                elif x == "@": expect(k, run(c, None, d), "read_raw_string()", "at", [("read_raw_string",)], d)
                elif x == "\\": expect(k, run(c, None, d, final=True), None, None, [("skip_ws", "True")], d, final=True)
                else:
                    for got, what in ((run(c, None, d, final=True), "alone"), (run(c, None, d, second=c, final=True), "twice")):
                        n = [e for t in got for e in t[2] if e[0] in ("register", "register_error")]
                        skips = [e for t in got for e in t[2] if e[0] == "skip_ws"]
                        R.ob(("illegal", c, d, what), len(n) == 1 and len(skips) == (2 if what == "alone" else 3) and len(got) == 1 and got[0][0] is None, o.where(), f"an illegal byte {c} ({what}) is reported {len(n)} times and read as {str([t[0] for t in got])}")
        for d in ("None", "Hash", "Ordinary", "Stringy"):
            expect(("the end", d), run(None, None, d), "Punct Newline", "one further", [], d, final=True)
            expect(("after the end", d), run(None, None, d, final=True), None, None, [], d, final=True)
        for c in (97, 34, 48, 47, 10):
            expect(("the text of #warn", c), run(c, "Semicolon", "Stringy"), "read_string(array \n, False)", "at", [("put_back", str(c)), ("read_string", "array \n", "False")])
        R.count("token scenarios", count[0], 2000)
    R.part("tokens", p_tokens)
