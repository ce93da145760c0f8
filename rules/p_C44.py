"""Code is reported unreachable only when nothing gets to it."""
import itertools
from lib import *

RULE = """visit_statement and visit_block are evaluated abstractly over their MIR for every kind of statement with blocks of every outcome (the four flags) that can arise, to a fixpoint:
nested and repeated without bound. Beside each outcome the ways a program can really leave such a block are carried (at most and at least); a block reported as never coming to its end must not be able to,
and one in which every path returns must be reported."""
C = "dreamchecker::"
S = "dreammaker::ast::Statement"
FLAGS = ("returns", "continues", "breaks", "fuzzy")


def agg(adt, v, **f): return ("agg", adt, v, tuple(f.values()), tuple(f))
def some(x): return ("agg", "core::option::Option", "Some", (x,), ("0",))
NONE = ("agg", "core::option::Option", "None", (), ())
def box(x): return agg("alloc::boxed::Box", "Box", **{"0": x})
def tup(*x): return ("agg", "tuple", "", tuple(x), ())
def sp(x): return agg("dreammaker::ast::Spanned", "Spanned", location=("k", "location of " + x), elem=("k", x))
def flow(f): return ("agg", C + "ControlFlow", "ControlFlow", tuple(("k", bool(x)) for x in f), FLAGS)


def unflow(t):
    if t[0] != "agg" or not t[1].endswith("ControlFlow"): return None
    d = dict(zip(t[4], t[3]))
    if any(d[x][0] != "k" for x in FLAGS): return None
    return tuple(bool(d[x][1]) for x in FLAGS)


def reports(t):
    """(where, message) of the diagnostics a run registered"""
    out = []
    for fn, args, ln, bb, tf in t.events:
        if tail(("call", fn)) != "register" or not args: continue
        e = subterm(args[0], lambda z: named(z, "error", "new") and len(z[2]) == 2)
        if e is None: out.append(("?", "?"))
        else: out.append((rend(e[2][0]), e[2][1][1] if e[2][1][0] == "k" else rend(e[2][1])))
    return out


def seedfor(blocks, truthy, rng):
    tri = {True: some(("k", True)), False: some(("k", False)), None: NONE}

    def seed(t):
        n, a = tail(t), t[2]
        if n in ("visit_block", "visit_statement") and len(a) > 2:
            z = [x for y in a[1:3] for x in subterms(y) if x[0] == "k" and isinstance(x[1], str) and x[1] in blocks]
            if len(set(z)) == 1: return flow(blocks[z[0][1]])
        if n == "is_truthy":
            z = [x for x in subterms(a[0]) if x[0] == "k" and x[1] in truthy]
            return tri[truthy[z[0][1]]] if z else None
        if n == "as_term" and a[0][0] == "k": return some(a[0])
        if n == "valid_for_range": return tri[rng]
        if n in ("deref", "as_str", "as_ref", "borrow") and a and a[0][0] == "k": return a[0]
        if n == "starts_with" and all(x[0] == "k" for x in a): return ("k", a[0][1].startswith(a[1][1]))
        if n == "first":
            z = [x for x in subterms(a[0]) if x[0] == "k" and x[1] in blocks]
            if z: return some(sp("first of " + z[0][1]))
        return None
    return seed


def play(b, stmt, blocks, truthy={}, rng=None):
    """the distinct (flags, reports) of visiting this statement when its blocks come out as given"""
    ts = runs(b, None, visits=6, lists=True, seed=seedfor(blocks, truthy, rng), init={3: stmt}, seq=("next",))
    out = set()
    for t in ts:
        f = unflow(t.result)
        if f is None: raise Odd("%s gives %s" % (stmt[2], rend(t.result)[:120]))
        out.add((f, tuple(reports(t))))
    if not out: raise Odd("%s gives nothing" % stmt[2])
    return out


class Odd(Exception): pass


N, RET, BRK, CNT, OUT = "comes to its end", "returns", "breaks", "continues", "leaves otherwise"


def loop(body, once):
    """how a loop ends whose body ends so; once: the body is known to run"""
    return frozenset(([N] if not once or body & {N, BRK, CNT} else []) + [x for x in (RET, OUT) if x in body])


FROM = {}


def keep(table, key, s, smaller, why=""):
    """adds s to the antichain of table[key]; True if it was new"""
    l = table.setdefault(key, set())
    if any((x <= s if smaller else x >= s) for x in l): return False
    for x in [x for x in l if (s <= x if smaller else s >= x)]: l.discard(x)
    l.add(s)
    FROM.setdefault((smaller, key, s), why() if callable(why) else why)
    return True


def check(F, R):
    flowfns = [x.npath for x in F.bodies if "::ControlFlow::" in x.npath]
    o, ob = R.fn(C + "AnalyzeProc::visit_statement"), R.fn(C + "AnalyzeProc::visit_block")
    b, bb = prep(o, closures=True, loops=True, also=flowfns), prep(ob, closures=True, loops=True, also=flowfns)
    cnt = {"statement outcomes": 0, "block outcomes": 0}
    UNREACH = "possible unreachable code here"

    E = ("list", ())

    def struct(v, adt, **f): return agg(S, v, **{"0": box(agg("dreammaker::ast::" + adt, adt, **f))})
    B0 = ("k", "B0")
    SIMPLE = {
        "return": (agg(S, "Return", **{"0": NONE}), {RET}), "return value": (agg(S, "Return", **{"0": some(("k", "e"))}), {RET}),
        "crash": (agg(S, "Crash", **{"0": some(("k", "e"))}), {RET}), "crash bare": (agg(S, "Crash", **{"0": NONE}), {RET}),
        "break": (agg(S, "Break", **{"0": NONE}), {BRK}), "continue": (agg(S, "Continue", **{"0": NONE}), {CNT}),
        "break label": (agg(S, "Break", **{"0": some(("k", "l"))}), {BRK}), "continue label": (agg(S, "Continue", **{"0": some(("k", "l"))}), {CNT}),
        "del": (agg(S, "Del", **{"0": ("k", "e")}), {N}), "throw": (agg(S, "Throw", **{"0": ("k", "e")}), {OUT, N}), "goto": (agg(S, "Goto", **{"0": ("k", "l")}), {OUT, N}),
        "var": (agg(S, "Var", **{"0": box(("k", "v"))}), {N}), "vars": (agg(S, "Vars", **{"0": ("list", (("k", "v"),))}), {N}), "expression": (agg(S, "Expr", **{"0": ("k", "e")}), {N}),
        "setting": (agg(S, "Setting", name=("k", "hidden"), mode=agg("dreammaker::ast::SettingMode", "Assign"), value=("k", "e")), {N}),
        "setting in": (agg(S, "Setting", name=("k", "src"), mode=agg("dreammaker::ast::SettingMode", "In"), value=("k", "e")), {N}),
    }
    kv = dict(var_type=NONE, key=("k", "k"), key_input_type=NONE, value=("k", "v"), in_list=NONE, block=B0)
    ONE = {
        "while": agg(S, "While", condition=("k", "cond"), block=B0), "do while": agg(S, "DoWhile", block=B0, condition=box(sp("cond"))), "for": agg(S, "ForInfinite", block=B0),
        "for loop": agg(S, "ForLoop", init=NONE, test=some(box(("k", "test"))), inc=NONE, block=B0), "for in": struct("ForList", "ForListStatement", var_type=NONE, name=("k", "i"), input_type=NONE, in_list=NONE, block=B0),
        "for key, value": struct("ForKeyValue", "ForKeyValueStatement", **kv), "spawn": agg(S, "Spawn", delay=NONE, block=B0), "label": agg(S, "Label", name=("k", "l"), block=B0),
        "for range": struct("ForRange", "ForRangeStatement", var_type=NONE, name=("k", "i"), start=("k", "start"), end=("k", "end"), step=NONE, block=B0),
        "try": agg(S, "TryCatch", try_block=B0, catch_params=box(E), catch_block=("k", "B1")), "catch": agg(S, "TryCatch", try_block=("k", "B1"), catch_params=box(E), catch_block=B0),
    }

    poss, cons = {}, {}     # of blocks: flags -> antichains
    rep = {(): None}        # statement flags that lead to these block flags

    said = set()
    def one(label, where, good, msg):
        if (label, bool(good)) in said: return
        said.add((label, bool(good)))
        R.ob(label, good, where, msg)

    memo = {}
    def block(flags):
        """(flags, index reported at or None) of a block whose statements come out so"""
        if flags not in memo:
            cnt["block outcomes"] += 1
            xs = ("list", tuple(agg("dreammaker::ast::Spanned", "Spanned", location=("k", "at S%d" % k), elem=agg(S, "Del", **{"0": ("k", "S%d" % k)})) for k in range(len(flags))))
            ts = runs(bb, None, visits=12, lists=True, seed=seedfor({"S%d" % k: f for k, f in enumerate(flags)}, {}, None), init={2: xs, 4: ("k", False)}, seq=("next",))
            res = set()
            for t in ts:
                f, r = unflow(t.result), reports(t)
                if f is None: raise Odd("a block gives %s" % rend(t.result)[:100])
                at = [k for k in range(len(flags)) if any(w == "'at S%d'" % k and m == UNREACH for w, m in r)]
                if len(at) != len(r): raise Odd("a block reports %s" % (r,))
                seen = [k for k in range(len(flags)) if any(tail(("call", e[0])) == "visit_statement" and "'S%d'" % k in rend(e[1][2]) for e in t.events)]
                res.add((f, tuple(at), tuple(seen)))
            if len(res) != 1: raise Odd("a block comes out in %d ways" % len(res))
            memo[flags] = res.pop()
        return memo[flags]

    stm = {}                # statement outcome: (label, block flags..) -> [(flags, poss, cons)]
    pm = {}
    def outcome(label, st, bl, truthy={}, rng=None):
        key = (label, tuple(sorted(bl.items())), tuple(sorted(truthy.items())), rng)
        if key not in pm:
            cnt["statement outcomes"] += 1
            pm[key] = play(b, st, bl, truthy, rng)
        return pm[key]

    def p_all():
        sflags = {}         # statement flags -> {"p": antichain, "c": antichain}
        SP, SC = {}, {}
        def emit(flags, p, c, why):
            x = keep(SP, flags, frozenset(p), False, why)
            y = keep(SC, flags, frozenset(c), True, why)
            return x or y
        for label, (st, ends) in SIMPLE.items():
            for f, r in outcome(label, st, {}): emit(f, ends, ends, label)
        # blocks: state flags -> (antichains, representative)
        BP, BC, REP = {}, {}, {}
        f0, at, seen = block(())
        keep(BP, f0, frozenset([N]), False); keep(BC, f0, frozenset([N]), True); REP[f0] = ()
        done1 = set()
        for rounds in range(30):
            changed = False
            # extend blocks by a statement
            grow = True
            while grow:
                grow = False
                for bf in list(BP):
                    for sf in list(SP):
                        nf, at, seen = block(REP[bf] + (sf,))
                        k = len(REP[bf])
                        for p in list(BP[bf]):
                            one("unreachable:%s" % code(REP[bf]), ob.where(), not (k in at and N in p), "the code after a block with the outcomes [%s] is reported as unreachable although such a block can come to its end: %s" % (code(REP[bf]), show(False, bf, p)[:300]))
                        for c in list(BC[bf]):
                            if c == {RET}: one("reported:%s" % code(REP[bf]), ob.where(), at == (k,), "the code after a block with the outcomes [%s] is not reported as unreachable although every path returns: %s" % (code(REP[bf]), show(True, bf, c)[:300]))
                        one("visited:%s" % code(REP[bf]), ob.where(), at == (k,) and k not in seen or not at and k in seen or bool(at) and at[0] < k, "a statement that is not reported as unreachable is not visited")
                        if at: continue
                        for p in list(BP[bf]):
                            for sp_ in list(SP[sf]):
                                q = (p - {N}) | (sp_ if N in p else frozenset())
                                if keep(BP, nf, frozenset(q), False, lambda: show(False, bf, p) + show(False, sf, sp_) + "; "): grow = changed = True
                        for c in list(BC[bf]):
                            for sc in list(SC[sf]):
                                q = (c - {N}) | (sc if N in c else frozenset())
                                if keep(BC, nf, frozenset(q), True, lambda: show(True, bf, c) + show(True, sf, sc) + "; "): grow = changed = True
                        if nf not in REP: REP[nf] = REP[bf] + (sf,)
                        BP.setdefault(nf, set()); BC.setdefault(nf, set())
            fl = sorted(BP)
            for label, st in ONE.items():
                for f in fl:
                    for rng in ((True, False, None) if label == "for range" else (None,)):
                        for g, r in outcome(label, st, {"B0": f, "B1": f0}, {}, rng):
                            never = any("without ever reaching" in str(m) for w, m in r)
                            if label == "do while":
                                one("do while:%s" % code((f,)), o.where(), not never or not any(N in p for p in BP[f]), "the condition of a do while loop is reported as never reached although the body (%s) gets there" % code((f,)))
                                one("do while reported:%s" % code((f,)), o.where(), never or not any(c == {RET} for c in BC[f]), "the condition of a do while loop is not reported as never reached although the body always returns")
                            if label == "for range": one("for range:%s" % rng, o.where(), rng is None or any("never reached" in str(m) for w, m in r) == (rng is False), "a for loop over a constant range that is %s reports %s" % ("valid" if rng else "empty" if rng is False else "unknown", list(r)))
                            once = label == "do while" or rng is True
                            for p in list(BP[f]):
                                pp = p if label == "label" else (p | {N}) if label in ("try", "catch") else frozenset([N]) if label == "spawn" or rng is False else loop(p, once)
                                changed |= keep(SP, g, frozenset(pp), False, lambda: "%s%s {%s}" % (label, "" if rng is None else " (valid)" if rng else " (invalid)", show(False, f, p)))
                            for c in list(BC[f]):
                                cc = c | {N} if label in ("label", "try", "catch") else frozenset([N]) if label == "spawn" or rng is False else loop(c, once)
                                changed |= keep(SC, g, cc, True, lambda: "%s%s {%s}" % (label, "" if rng is None else " (valid)" if rng else " (invalid)", show(True, f, c)))
                            SP.setdefault(g, set()); SC.setdefault(g, set())
            for kind in ("if", "switch"):
                for k in (1, 2) if kind == "if" else (0, 1, 2):
                    for fs in itertools.product(fl, repeat=k):
                        for ef in [None] + fl:
                            for tr in itertools.product((None, True, False), repeat=k) if kind == "if" else [(None,) * k]:
                                els = NONE if ef is None else some(("k", "BE"))
                                bl = {"B%d" % j: x for j, x in enumerate(fs)}
                                if ef is not None: bl["BE"] = ef
                                if kind == "if": st = agg(S, "If", arms=("list", tuple(tup(sp("c%d" % j), ("k", "B%d" % j)) for j in range(k))), else_arm=els)
                                else: st = agg(S, "Switch", input=box(("k", "input")), cases=box(("list", tuple(tup(agg("dreammaker::ast::Spanned", "Spanned", location=("k", "l%d" % j), elem=E), ("k", "B%d" % j)) for j in range(k)))), default=els)
                                for g, r in outcome(kind, st, bl, {"c%d" % j: x for j, x in enumerate(tr)}):
                                    if kind == "if":
                                        want = [("c%d" % j, "always %s" % str(x).lower()) for j, x in enumerate(tr) if x is not None]
                                        want += [("c%d" % j, "unreachable if") for j in range(k) if True in tr[:j]] + ([("first of BE", "unreachable else")] if ef is not None and True in tr else [])
                                        good = len(r) == len(want) and all(any(w == "'location of %s'" % x and y in str(m) for w, m in r) for x, y in want)
                                        one("if:%s%s" % (",".join(str(x) for x in tr), "" if ef is None else ",else"), o.where(), good, "an if whose conditions are %s reports %s" % (tr, list(r)))
                                    # the arms that can be taken; for what must be reported: conditions known to be true do not count
                                    arms, arms2, fall = [], [], True
                                    for j in range(k):
                                        if tr[j] is False: continue
                                        arms2.append(j)
                                        if fall: arms.append(j)
                                        if tr[j] is True: fall = False
                                    for sel, src, dst, small, end in ((arms, BP, SP, False, fall), (arms2, BC, SC, True, True)):
                                        fl2 = [fs[j] for j in sel] + ([ef] if ef is not None and end else [])
                                        opts = [src[fs[j]] for j in sel] + ([src[ef] if ef is not None else {frozenset([N])}] if end else [])
                                        for combo in itertools.product(*opts):
                                            changed |= keep(dst, g, frozenset().union(*combo), small, lambda: "%s (%s) {%s}%s" % (kind, ", ".join(str(x) for x in tr), "} else {".join(show(small, x, y) for x, y in zip(fl2, combo)), "" if ef is not None else " no else"))
                                    SP.setdefault(g, set()); SC.setdefault(g, set())
            if not changed: break
        else: raise Odd("no fixpoint")
        R.count("statement states", len(SP), 4)
        R.count("block states", len(BP), 4)

    def show(small, flags, ends): return FROM.get((small, flags, ends), "")
    def code(fs): return ",".join("".join(c if x else "-" for c, x in zip("rcbf", f)) for f in fs)

    def guard(f):
        def g():
            try: f()
            except Odd as e: R.ob("understood:" + f.__name__, False, o.where(), str(e))
        return g
    R.part("flow", guard(p_all))

    def p_set():
        kinds = {"X": agg(S, "Setting", name=("k", "SpacemanDMM_should_sleep"), mode=agg("dreammaker::ast::SettingMode", "Assign"), value=("k", "e")), "Y": SIMPLE["setting"][0], "Z": SIMPLE["del"][0], "R": SIMPLE["expression"][0]}
        for k in (1, 2, 3):
            for xs in itertools.product("XYZR", repeat=k):
                for top in (True, False):
                    l = ("list", tuple(agg("dreammaker::ast::Spanned", "Spanned", location=("k", "at S%d" % j), elem=agg(*kinds[x][1:3], **dict(zip(kinds[x][4], kinds[x][3])))) for j, x in enumerate(xs)))
                    def seed(t):
                        if tail(t) == "visit_statement": return flow((0, 0, 0, 0))
                        return seedfor({}, {}, None)(t)
                    ts = runs(bb, None, visits=12, lists=True, seed=seed, init={2: l, 4: ("k", top)}, seq=("next",))
                    want = {"'at S%d'" % j for j, x in enumerate(xs) if x == "X" and not (top and all(y in "XY" for y in xs[:j]))}
                    got = {frozenset(w for w, m in reports(t)) for t in ts}
                    R.ob("set:%s%s" % ("top:" if top else "", "".join(xs)), got == {frozenset(want)}, ob.where(), "set statements for SpacemanDMM are reported as not at the top at %s, not at %s" % ([sorted(x) for x in got], sorted(want)))
    R.part("settings", guard(p_set))
    R.count("outcomes", cnt["statement outcomes"] + cnt["block outcomes"], 100)
