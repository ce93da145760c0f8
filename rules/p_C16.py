"""Indentation becomes balanced braces."""
from lib import *
from p_C44 import agg, some, NONE, reports
from text import strings, compare

RULE = """IndentProcessor::new and next (with everything next calls in that file) are evaluated abstractly over their MIR: starting from what new returns, next is run on every word (line breaks, indentation, one token)
from every state that can be reached, whatever the fields hold, and its output and diagnostics are compared with a reference model (a simulation check, up to the bound on depth)."""
M = "dreammaker::indents::"
N = M + "IndentProcessor::"
TOK, PU, LT = "dreammaker::lexer::Token", "dreammaker::lexer::Punctuation", "dreammaker::lexer::LocatedToken"
SELF = 10 ** 7
LOC = {"NL": "nl", "NL2": "nl2"}
KINDS = {"NL": "Newline", "NL2": "Newline", "TAB": "Tab", "SP": "Space", "{": "LBrace", "}": "RBrace", "(": "LParen", ")": "RParen", ";": "Semicolon", "[": "LBracket"}


class Beyond(Exception): pass


def token(F, x):
    if x in KINDS: return agg(TOK, "Punct", **{"0": agg(PU, KINDS[x])})
    return agg(TOK, "Ident", **{"0": ("k", x), "1": ("k", False)})


def located(F, x, loc):
    fs = [f["n"] for f in F.adt(LT)["variants"][0]["f"]]
    return ("agg", LT, "LocatedToken", tuple({"location": ("k", loc), "token": token(F, x)}[f] for f in fs), tuple(fs))


def out(t):
    """(what, where) of an item that was returned"""
    if t[0] != "agg" or t[2] != "Some": return None
    x = t[3][0]
    if x[0] == "agg" and x[2] == "LocatedToken": loc, tok = x[3][x[4].index("location")], x[3][x[4].index("token")]
    elif named(x, "new") and len(x[2]) == 2: loc, tok = x[2]
    else: return ("?", rend(x)[:60])
    if tok[0] == "agg" and tok[2] == "Punct": n = [k for k, v in KINDS.items() if k != "NL2" and tok[3][0][2] == v] or ["?" + rend(tok)]
    elif tok[0] == "agg" and tok[2] == "Ident": n = [tok[3][0][1]]
    else: n = ["?" + rend(tok)[:60]]
    return n[0], loc[1] if loc[0] == "k" else rend(loc)[:60]


class Model:
    """what the output should be"""
    def __init__(s, st=(None, None, 0, None)): s.unit, s.spaces, s.par, s.eol = st
    # unit: None or (spaces per indent, indents)

    def feed(s, x, loc, o, e):
        if x in ("NL", "NL2"):
            if s.par == 0: s.spaces = 0
            s.eol = s.eol or loc
            return
        if x in ("TAB", "SP"):
            if s.spaces is not None: s.spaces += 1
            return
        if x in ("{", "}"): s.spaces = None
        if s.spaces is not None:
            old = s.unit[1] if s.unit else 0
            if s.spaces == 0: new, s.unit = 0, None
            elif s.unit is None: new, s.unit = 1, (s.spaces, 1)
            else:
                if s.spaces % s.unit[0]: e.append(loc)
                new = s.spaces // s.unit[0]
                s.unit = (s.unit[0], new)
            if new > old + 1: e.append(loc)
            at = s.eol or loc
            o += [("{", at)] * (new - old) + [("}", at)] * (old - new) + ([(";", at)] if new == old else [])
            s.spaces = None
        if x == "{": s.unit = (s.unit[0], s.unit[1] + 1) if s.unit else (1, 1)
        elif x == "}":
            if s.unit is None or s.unit[1] == 0:
                e.append(loc)
                s.unit = None
            else: s.unit = (s.unit[0], s.unit[1] - 1) if s.unit[1] > 1 else None
        elif x == "(": s.par += 1
        elif x == ")": s.par = max(0, s.par - 1)
        s.eol = None
        o.append((x, loc))

    def end(s, loc, o):
        o += [(";", loc)] + [("}", loc)] * (s.unit[1] if s.unit else 0) + [None]
        s.unit = None

    def key(s): return (s.unit, s.spaces, s.par, s.eol)


PRE = {"": (), "line": ("NL",), "other line": ("NL2",), "1": ("NL", "TAB"), "2": ("NL", "SP", "TAB"), "3": ("NL",) + ("TAB",) * 3, "4": ("NL",) + ("SP",) * 4, "blank lines": ("NL", "TAB", "TAB", "NL2", "NL2", "TAB"), "space": ("SP",)}
DEPTH, PARENS = 3, 2


def check(F, R):
    def p_sim():
        new = R.fn(N + "new")
        nx = R.saw(next(v for v in F.bodies if v.path.startswith("<" + N[:-2]) and v.path.endswith("Iterator>::next")))
        also = {v.npath for v in F.bodies if v.path.startswith(M)}
        bn, b = prep(new, closures=True, loops=True, also=also), prep(nx, closures=True, loops=True, also=also)
        ts = runs(bn, compare, lists="maps", init={1: ("k", "ctx"), 2: ("k", "inner")}, seed=lambda t: t[2][0] if named(t, "into_iter") and t[2][0] == ("k", "inner") else named(t, "default") and ("k", "nowhere") or strings(t))
        R.ob("start", len(ts) == 1, new.where(), "new takes several paths")
        memo = {}

        def step(st, script):
            """next() from state st with these tokens coming: (state, item, how many tokens were read, errors), or None if it wants to read more"""
            k = (st, script)
            if k in memo: return memo[k]
            read = [0]

            def seed(t):
                if named(t, "next") and t[2][:1] == (("k", "inner"),):
                    i = t[3] - SEQ
                    if i >= len(script): raise Beyond()
                    read[0] = max(read[0], i + 1)
                    return NONE if script[i] == "EOF" else some(located(F, script[i], LOC.get(script[i], "at")))
                return strings(t)
            try: ts = runs(b, compare, visits=14, lists="maps", seq=("next",), init={1: ("at", (SELF,)), SELF: st}, seed=seed)
            except Beyond: memo[k] = None
            else:
                if len(ts) != 1: memo[k] = (st, "several paths: %s" % str([rend(c[0]) for t in ts for c in t.conds])[:200], 0, ())
                elif ts[0].end != "return": memo[k] = (st, ts[0].end, 0, ())
                else: memo[k] = (ts[0].env.get(SELF), out(ts[0].result), read[0], tuple(w.strip("'") for w, m in reports(ts[0])))
            return memo[k]
        first, m0 = ts[0].result, Model()
        todo, seen, n = [(first, m0.key())], {(first, m0.key())}, 0
        while todo and n < 30000:
            st, mk = todo.pop()
            for pn, pre in PRE.items():
                for x in ("x", "{", "}", "(", ")", "EOF"):
                    m, wo, we, script = Model(mk), [], [], pre + (x,)
                    for c in script[:-1] if x == "EOF" else script: m.feed(c, LOC.get(c, "at"), wo, we)
                    if x == "EOF":
                        script = script + ("EOF",) * 2
                        m.end("?", wo)
                    cur, left, go, ge = st, script, [], []
                    for i in range(40):
                        r = step(cur, left)
                        if r is None or len(go) > len(wo): break
                        cur, left = r[0], left[r[2]:]
                        go.append(r[1])
                        ge += r[3]
                        if isinstance(r[1], str) or x == "EOF" and r[1] is None: break
                    if x == "EOF": go, wo = [(y[0], "?") if isinstance(y, tuple) else y for y in go], [(y[0], "?") if y else y for y in wo]
                    n += 1
                    R.ob(("word", pn, x, "in", str(mk)), go == wo and ge == we, nx.where(), f"after {mk} the tokens {' '.join(script)} give {str(go)[:150]} with errors at {ge}, should give {str(wo)[:150]} with errors at {we}")
                    if x != "EOF" and go == wo and (m.unit is None or m.unit[1] <= DEPTH) and m.par <= PARENS and (cur, m.key()) not in seen:
                        seen.add((cur, m.key()))
                        todo.append((cur, m.key()))
        R.ob("bounded", not todo, nx.where(), "the states do not stay within bounds")
        R.count("states", len(seen), 40)
        R.count("words", n, 1500)
    R.part("simulation", p_sim)
