"""MIR-to-MIR rewrites (inlining, closure expansion, jump threading) and trace partitioning."""
import copy, json
from core import *


# ------------------------------------------------------------------ renaming
def mp_place(p, base):
    out = [p[0] + base]
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "i":
            out.append(["i", e[1] + base])
        else:
            out.append(e)
    return out


def mp_op(o, base):
    return [o[0], mp_place(o[1], base)] if o[0] in ("c", "m") else o


def mp_rv(r, base):
    k = r[0]
    if k == "use": return ["use", mp_op(r[1], base)]
    if k == "repeat": return ["repeat", mp_op(r[1], base), r[2]]
    if k == "ref": return ["ref", r[1], mp_place(r[2], base)]
    if k == "rawptr": return ["rawptr", mp_place(r[1], base)]
    if k == "cast": return ["cast", r[1], mp_op(r[2], base), r[3]]
    if k == "bin": return ["bin", r[1], mp_op(r[2], base), mp_op(r[3], base)]
    if k == "un": return ["un", r[1], mp_op(r[2], base)]
    if k == "discr": return ["discr", mp_place(r[1], base)] + r[2:]
    if k == "agg": return ["agg", r[1], [mp_op(o, base) for o in r[2]]]
    if k == "item": return ["item", [mp_op(o, base) for o in r[1]]]
    return r


def mp_block(b, base, bo):
    st = []
    for s in b["s"]:
        if s[0] == "=":
            st.append(["=", mp_place(s[1], base), mp_rv(s[2], base), s[3]])
        elif s[0] == "dead":
            st.append(["dead", s[1] + base])
        elif s[0] == "setd":
            st.append(["setd", mp_place(s[1], base)] + s[2:])
    t = dict(b["t"])
    k = t["k"]
    if k == "goto": t["t"] += bo
    elif k == "switch":
        t["d"] = mp_op(t["d"], base)
        t["v"] = [[v, x + bo] for v, x in t["v"]]
        t["o"] += bo
    elif k == "drop":
        t["p"] = mp_place(t["p"], base)
        t["t"] += bo
        t["u"] = None if t.get("u") is None else t["u"] + bo
    elif k == "call":
        t["a"] = [mp_op(o, base) for o in t["a"]]
        t["dst"] = mp_place(t["dst"], base)
        if "fop" in t:
            t["fop"] = mp_op(t["fop"], base)
        if t["t"] is not None: t["t"] += bo
        t["u"] = None if t.get("u") is None else t["u"] + bo
    elif k == "tailcall":
        t["a"] = [mp_op(o, base) for o in t["a"]]
    elif k == "assert":
        t["c"] = mp_op(t["c"], base)
        if "mo" in t:
            t["mo"] = [mp_op(o, base) for o in t["mo"]]
        t["t"] += bo
        t["u"] = None if t.get("u") is None else t["u"] + bo
    elif k == "multi":
        t["ts"] = [x + bo for x in t["ts"]]
    nb = {"s": st, "t": t}
    if b.get("cl"): nb["cl"] = True
    if "file" in b: nb["file"] = b["file"]
    if "org" in b: nb["org"] = b["org"]
    return nb


class MBody(Body):
    """a rewritten body"""


def _clone(body):
    j = dict(body.j)
    j["blocks"] = [mp_block(b, 0, 0) for b in body.blocks]
    j["locals"] = list(body.locals)
    j["names"] = list(body.j.get("names", []))
    nb = MBody(body.facts, body.crate, j)
    nb.closures = list(body.closures)
    return nb


OPT, RES, CFL = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"


def _adapter(nb, i, t):
    """name of the Option/Result/bool adapter called at block i (or None), operand index of its closure"""
    fn = t.get("fn") or ""
    for pre, tag in (("core::option::Option::<", "o"), ("core::result::Result::<", "r"), ("core::bool::", "b"), ("bool::", "b")):
        if fn.startswith(pre):
            return tag, fn.split("::")[-1]
    if fn.endswith("Try>::branch") or fn.endswith("Try::branch"):
        return "t", "branch"
    if fn.endswith("::from_residual"):
        return "t", "from_residual"
    return None, None


def _desugar(nb, i, t, chain, level):
    """rewrite an Option/Result adapter call into a branch on its operand; True when rewritten"""
    tag, name = _adapter(nb, i, t)
    if tag is None or t.get("t") is None or not t["a"]:
        return False
    x = t["a"][0]
    if x[0] not in ("c", "m") or len(x[1]) != 1:
        return False
    xl = x[1][0]
    xty = nb.ty(xl)
    ln = t["ln"]
    crate = nb.crate

    def clos(k):
        if len(t["a"]) <= k: return None
        o = t["a"][k]
        if o[0] in ("c", "m") and len(o[1]) == 1:
            ty = nb.ty(o[1][0])
            if ty.k == "closure" and ty.j.get("h") in nb.facts.by_hash:
                return o, nb.facts.by_hash[ty.j["h"]]
        if o[0] == "k" and "fn" in o[1]:
            return o, None
        return None

    def result_of(cl, ty):
        """a local for the result of a closure or function item"""
        if cl[1] is not None: return local(cl[1].locals[0])
        return None if ty is None else local(ty.i)

    def local(ty):
        nb.locals.append(ty)
        return len(nb.locals) - 1

    def block(stmts, term):
        nb.blocks.append({"s": stmts, "t": term, "file": nb.srcfile(i)})
        chain[len(nb.blocks) - 1] = chain[i]
        return len(nb.blocks) - 1

    def goto(st):
        return block(st, {"k": "goto", "t": t["t"], "ln": ln})

    dst = t["dst"]

    def put(rv):
        return goto([["=", dst, rv, ln]])

    def pay(var):
        return ["m", [xl, ["v", var], ["f", "0", 0, ""]]]

    def call(cl, payload, to, byref=False):
        """block that runs closure cl on payload (operand or None), stores into place `to` and continues at `then`"""
        o, c = cl
        if c is None:
            k = o[1]
            if byref or payload is None and "ctor" in k: return None
            if "ctor" in k: return lambda then: block([["=", to, ["agg", k["ctor"], [payload]], ln]], {"k": "goto", "t": then, "ln": ln})
            return lambda then: block([], {"k": "call", "fn": k["fn"], "h": k.get("h"), "ga": k.get("ga", []), "a": [] if payload is None else [payload], "dst": to, "t": then, "u": None, "ln": ln})
        st, a = [], [o]
        if payload is not None:
            q = local(c.locals[2]) if len(c.locals) > 2 and c.argc >= 2 else None
            if q is None: return None
            st.append(["=", [q], ["ref", "shared", payload[1]] if byref else ["use", payload], ln])
            a.append(["m", [q]])
        return lambda then: block(st, {"k": "call", "fn": "closure", "h": c.h, "ga": [], "a": a, "dst": to, "t": then, "u": None, "ln": ln, "splice": True})

    def agg(var, ops, adt=None):
        adt = adt or (OPT if var in ("Some", "None") else RES if var in ("Ok", "Err") else CFL)
        return ["agg", ["adt", adt, var, ["0"] if ops else []], ops]

    if tag == "b":
        if name != "then" or clos(1) is None:
            return False
        cl = clos(1)
        if cl[1] is None: return False
        r = local(cl[1].locals[0])
        yes = call(cl, None, [r])(put(agg("Some", [["m", [r]]])))
        no = put(agg("None", []))
        nb.blocks[i]["t"] = {"k": "switch", "d": x, "ty": xty.i, "v": [[0, no]], "o": yes, "ln": ln}
        return True
    if tag == "t":
        if level < 2:
            return False
        if name == "branch":
            if xty.d == OPT: good, bad = "Some", "None"
            elif xty.d == RES: good, bad = "Ok", "Err"
            else: return False
            tag = "o" if good == "Some" else "r"
            G = put(agg("Continue", [pay(good)]))
            rt = nb.ty(dst[0]) if len(dst) == 1 else None
            if rt is None or not rt.args: return False
            r = local(rt.args[0].i)
            B = goto([["=", [r], agg(bad, [] if bad == "None" else [pay("Err")]), ln], ["=", dst, agg("Break", [["m", [r]]]), ln]])
        else:
            if xty.d == OPT:
                nb.blocks[i]["t"] = {"k": "goto", "t": put(agg("None", [])), "ln": ln}
                return True
            if xty.d == RES:
                nb.blocks[i]["t"] = {"k": "goto", "t": put(agg("Err", [pay("Err")])), "ln": ln}
                return True
            return False
    else:
        good, bad = ("Some", "None") if tag == "o" else ("Ok", "Err")
        if xty.d != (OPT if tag == "o" else RES):
            return False
        P = pay(good)
        E = None if tag == "o" else pay("Err")
        badval = agg(bad, [] if tag == "o" else [E])
        c1, c2 = clos(1), clos(2)
        need1 = {"map", "and_then", "map_err", "unwrap_or_else", "ok_or_else", "or_else", "filter", "is_some_and", "is_ok_and", "is_none_or", "inspect", "inspect_err"}
        if name in need1 and c1 is None or name == "map_or" and c2 is None or name == "map_or_else" and (c1 is None or c2 is None):
            return False

        dty = nb.ty(dst[0]) if len(dst) == 1 else None

        def through(cl, payload, wrap):
            want = wrap(["m", [0]])[1][2]
            r = result_of(cl, None if dty is None or not dty.args else dty.args[1 if want == "Err" and len(dty.args) > 1 else 0])
            if r is None: return None
            mk = call(cl, payload, [r])
            return mk(put(wrap(["m", [r]]))) if mk else None

        def direct(cl, payload):
            mk = call(cl, payload, dst)
            return mk(t["t"]) if mk else None
        KB = lambda v: ["use", ["k", {"t": nb.ty(dst[0]).i, "val": {"bool": v}}]]
        if name == "map": G, B = through(c1, P, lambda r: agg(good, [r])), put(badval)
        elif name == "and_then": G, B = direct(c1, P), put(badval)
        elif name == "map_or": G, B = direct(c2, P), put(["use", t["a"][1]])
        elif name == "map_or_else": G, B = direct(c2, P), direct(c1, E)
        elif name == "unwrap_or_else": G, B = put(["use", P]), direct(c1, E)
        elif name == "ok_or_else": G, B = put(agg("Ok", [P])), through(c1, None, lambda r: agg("Err", [r]))
        elif name == "or_else": G, B = put(agg(good, [P])), direct(c1, E)
        elif name == "map_err" and tag == "r": G, B = put(agg("Ok", [P])), through(c1, E, lambda r: agg("Err", [r]))
        elif name in ("is_some_and", "is_ok_and"): G, B = direct(c1, P), put(KB(False))
        elif name == "is_none_or": G, B = direct(c1, P), put(KB(True))
        elif name == "filter" and tag == "o":
            if c1[1] is None: return False
            r = local(c1[1].locals[0])
            some, none = put(agg("Some", [P])), put(agg("None", []))
            sw = block([], {"k": "switch", "d": ["m", [r]], "ty": c1[1].locals[0] if isinstance(c1[1].locals[0], int) else c1[1].locals[0].i, "v": [[0, none]], "o": some, "ln": ln})
            mk = call(c1, P, [r], byref=True)
            G, B = (mk(sw) if mk else None), none
        elif name in ("inspect", "inspect_err"):
            if c1[1] is None or name == "inspect_err" and tag == "o": return False
            r = local(c1[1].locals[0])
            same = put(["use", x])
            mk = call(c1, P if name == "inspect" else E, [r], byref=True)
            if mk is None: return False
            run = mk(same)
            G, B = (run, same) if name == "inspect" else (same, run)
        elif level >= 2 and name == "ok_or": G, B = put(agg("Ok", [P])), put(agg("Err", [t["a"][1]]))
        elif level >= 2 and name == "unwrap_or": G, B = put(["use", P]), put(["use", t["a"][1]])
        elif level >= 2 and name == "ok" and tag == "r": G, B = put(agg("Some", [P])), put(agg("None", []))
        elif level >= 2 and name == "err" and tag == "r": G, B = put(agg("None", [])), put(agg("Some", [E]))
        elif level >= 2 and name in ("is_some", "is_ok"): return False
        else:
            return False
    if G is None or B is None:
        return False
    isz = _isize(crate)
    d = local(isz)
    m = nb.facts.discr_map(xty) or {}
    inv = {n: v for v, n in m.items()}
    if good not in inv or bad not in inv:
        return False
    nb.blocks[i]["s"].append(["=", [d], ["discr", [xl], xty.i], ln])
    nb.blocks[i]["t"] = {"k": "switch", "d": ["m", [d]], "ty": isz, "v": [[inv[bad], B], [inv[good], G]], "o": _unreach(nb, chain, i, ln), "ln": ln}
    return True


def _isize(crate):
    for i, j in enumerate(crate.types):
        if j["s"] == "isize":
            return i
    crate.types.append({"s": "isize", "k": "int"})
    return len(crate.types) - 1


def _unreach(nb, chain, i, ln):
    nb.blocks.append({"s": [], "t": {"k": "unreachable", "ln": ln}, "file": nb.srcfile(i)})
    chain[len(nb.blocks) - 1] = chain[i]
    return len(nb.blocks) - 1


ITER = "core::iter::traits::iterator::Iterator::"
LAZY = ("map", "filter", "filter_map", "inspect", "take_while", "map_while")
COPY = ("cloned", "copied")
EAGER = ("fold", "try_fold", "for_each", "try_for_each", "any", "all", "find", "find_map", "position", "collect", "sum", "count", "next")


def _iter_call(t):
    fn = t.get("fn") or ""
    if t["k"] != "call" or t.get("virtual"): return None
    m = re.search(r"(?:^|[:> ])Iterator>?::(\w+)$", fn)
    return m.group(1) if m else None


def _stages(nb, l, depth=0):
    """the lazy adapters an iterator local was built from: (base operand, [(kind, closure operand)], [blocks])"""
    if depth > 6: return None
    defs = []
    for bi, blk in enumerate(nb.blocks):
        for s in blk["s"]:
            if s[0] == "=" and s[1] == [l]: defs.append(("s", s[2]))
        if blk["t"]["k"] == "call" and blk["t"]["dst"] == [l]: defs.append(("c", bi))
    if len(defs) != 1: return None
    k, d = defs[0]
    if k == "s":
        if d[0] == "use" and d[1][0] in ("c", "m") and len(d[1][1]) == 1: return _stages(nb, d[1][1][0], depth + 1)
        return None
    t = nb.blocks[d]["t"]
    n = _iter_call(t)
    if n is None and str(t.get("fn")).endswith("IntoIterator::into_iter") and t["a"] and t["a"][0][0] in ("c", "m") and len(t["a"][0][1]) == 1: return _stages(nb, t["a"][0][1][0], depth + 1)
    if n not in LAZY and n not in COPY: return None
    o = t["a"][0]
    inner = _stages(nb, o[1][0], depth + 1) if o[0] in ("c", "m") and len(o[1]) == 1 else None
    if n in COPY: return (inner[0], inner[1] + [(n, o)], inner[2] + [d]) if inner else None
    if inner: return inner[0], inner[1] + [(n, t["a"][1])], inner[2] + [d]
    return o, [(n, t["a"][1])], [d]


def _closure_of(nb, o):
    if o[0] in ("c", "m") and len(o[1]) == 1:
        ty = nb.ty(o[1][0])
        if ty.k == "closure" and ty.j.get("h") in nb.facts.by_hash:
            c = nb.facts.by_hash[ty.j["h"]]
            return c if c.crate is nb.crate else None
    return None


def _loopify(nb, i, t, chain):
    """rewrite an eager iterator adapter (fold, for_each, any, collect of a map, ...) into the loop it stands for; True when rewritten"""
    name = _iter_call(t)
    if name not in EAGER or t.get("t") is None or not t["a"] or len(t["dst"]) != 1: return False
    src = t["a"][0]
    if src[0] not in ("c", "m") or len(src[1]) != 1: return False
    byref = nb.ty(src[1][0]).k == "refmut"
    st = None if byref else _stages(nb, src[1][0])
    if name == "next":
        # the next item of a lazy adapter: the adapter's local is the one behind the reference
        r, it = src[1][0], None
        for _ in range(4):
            ds = [s2[2] for blk in nb.blocks for s2 in blk["s"] if s2[0] == "=" and s2[1] == [r]]
            if len(ds) != 1: break
            if ds[0][0] == "ref" and len(ds[0][2]) == 1:
                it = ds[0][2][0]
                break
            if ds[0][0] == "ref" and len(ds[0][2]) == 2 and ds[0][2][1] == "*": r = ds[0][2][0]
            elif ds[0][0] == "use" and ds[0][1][0] in ("c", "m") and len(ds[0][1][1]) == 1: r = ds[0][1][1][0]
            else: break
        st = _stages(nb, it) if it is not None else None
        if st is None or st[0][0] not in ("c", "m") or len(st[0][1]) != 1: return False
        byref = nb.ty(st[0][1][0]).k == "refmut"
    base, stages, at = st if st else (src, [], [])
    if name in ("collect", "sum", "count", "next") and not stages: return False
    cls = [(n, o, _closure_of(nb, o)) for n, o in stages]
    if any(c is None and n not in COPY and not (n == "map" and o[0] == "k" and "fn" in o[1]) for n, o, c in cls): return False
    fin = None
    if name in ("fold", "try_fold") and len(t["a"]) < 3: return False
    if name in ("fold", "try_fold"): fin = (t["a"][2], _closure_of(nb, t["a"][2]))
    elif name not in ("collect", "sum", "count", "next"):
        if len(t["a"]) < 2: return False
        fin = (t["a"][1], _closure_of(nb, t["a"][1]))
    if fin is not None and fin[1] is None: return False
    if base[0] not in ("c", "m") or len(base[1]) != 1: return False
    ln, dst, crate = t["ln"], t["dst"], nb.crate
    dty = nb.ty(dst[0])
    isz = _isize(crate)

    def mkty(j):
        for k, x in enumerate(crate.types):
            if x == j: return k
        crate.types.append(j)
        return len(crate.types) - 1

    def tyi(x): return x.i if isinstance(x, Ty) else x

    def local(ti):
        nb.locals.append(Ty(crate, tyi(ti)))
        return len(nb.locals) - 1

    def block(stmts, term):
        nb.blocks.append({"s": stmts, "t": term, "file": nb.srcfile(i)})
        chain[len(nb.blocks) - 1] = chain[i]
        return len(nb.blocks) - 1

    def goto(b): return {"k": "goto", "t": b, "ln": ln}

    def call(fn, args, to, then, **kw):
        return dict({"k": "call", "fn": fn, "h": None, "ga": [], "a": args, "dst": to, "t": then, "u": None, "ln": ln}, **kw)

    def clcall(o, c, args, to, then):
        if c is None: return call(o[1]["fn"], args, to, then, h=o[1].get("h"), ga=o[1].get("ga", [])) if "ctor" not in o[1] else None
        return call("closure", [["c", o[1]]] + args, to, then, h=c.h, splice=True)

    def optty(ti): return mkty({"s": "Option<%s>" % crate.types[ti]["s"], "k": "adt", "d": OPT, "a": [ti]})

    def discr(l, ti, arms, other=None):
        """switch on the variant of local l"""
        m = nb.facts.discr_map(Ty(crate, ti))
        inv = {n: v for v, n in m.items()}
        d = local(isz)
        un = _unreach(nb, chain, i, ln)
        return [["=", [d], ["discr", [l], ti], ln]], {"k": "switch", "d": ["m", [d]], "ty": isz, "v": [[inv[n], b] for n, b in arms], "o": un, "ln": ln}

    # the item type: from the first closure
    first = cls[0][2] if cls else None
    if first is not None: ity = tyi(first.locals[2])
    elif fin is not None and not cls: ity = tyi(fin[1].locals[3 if name in ("fold", "try_fold") else 2])
    else: return False
    if cls and cls[0][0] in ("filter", "inspect", "take_while") or not cls and name == "find":
        x = Ty(crate, ity)
        if x.k not in ("ref",): return False
        ity = x.args[0].i
    oty = optty(ity)
    n = local(oty)
    itl = base[1][0]
    unit = mkty({"s": "()", "k": "tuple", "a": []})
    boolt = next((k for k, x in enumerate(crate.types) if x["k"] == "bool"), None)
    if boolt is None: return False
    KB = lambda v: ["use", ["k", {"t": boolt, "val": {"bool": v}}]]
    after = t["t"]
    head = block([], goto(after))   # filled in below
    start = []
    # ---- what happens when the items run out, and per item
    acc = None
    if name in ("fold", "try_fold"):
        acc = local(nb.ty(t["a"][1][1][0]) if t["a"][1][0] in ("c", "m") and len(t["a"][1][1]) == 1 else t["a"][1][1]["t"] if t["a"][1][0] == "k" else fin[1].locals[2])
        start.append(["=", [acc], ["use", t["a"][1]], ln])
    if name in ("any", "all", "for_each", "fold"):
        done = block([["=", dst, KB(name == "all") if name in ("any", "all") else ["use", ["m", [acc]]] if name == "fold" else ["agg", ["tuple"], []], ln]], goto(after))
    elif name in ("find", "find_map", "position", "next"):
        done = block([["=", dst, ["agg", ["adt", OPT, "None", []], []], ln]], goto(after))
    elif name in ("try_fold", "try_for_each"):
        good = {OPT: "Some", RES: "Ok"}.get(dty.d)
        if good is None: return False
        done = block([["=", dst, ["agg", ["adt", dty.d, good, ["0"]], [["m", [acc]] if acc is not None else ["k", {"t": unit, "val": {"unit": 0}}]]], ln]], goto(after))
    elif name == "collect":
        wrap = {OPT: "Some", RES: "Ok"}.get(dty.d)
        last = cls[-1]
        if wrap is None and dty.d in (OPT, RES): return False
        cty = dty.args[0] if wrap else dty
        acc = local(cty)
        start.append(None)
        fb = [["=", dst, ["agg", ["adt", dty.d, wrap, ["0"]], [["m", [acc]]]] if wrap else ["use", ["m", [acc]]], ln]]
        done = block(fb, goto(after))
        if cty.d != "alloc::vec::Vec":
            c2 = local(cty)
            nb.blocks[done]["s"] = []
            f2 = block([["=", dst, ["agg", ["adt", dty.d, wrap, ["0"]], [["m", [c2]]]] if wrap else ["use", ["m", [c2]]], ln]], goto(after))
            nb.blocks[done]["t"] = call("core::iter::traits::collect::FromIterator::from_iter", [["m", [acc]]], [c2], f2)
    else:
        return False

    def final(x, xt):
        """block that consumes one item x (a local of type xt)"""
        if name == "for_each":
            r = local(unit)
            return block([], clcall(fin[0], fin[1], [["m", [x]]], [r], head))
        if name == "fold":
            r = local(nb.ty(acc))
            b2 = block([["=", [acc], ["use", ["m", [r]]], ln]], goto(head))
            return block([], clcall(fin[0], fin[1], [["m", [acc]], ["m", [x]]], [r], b2))
        if name == "find_map":
            r = local(dty)
            hit = block([["=", dst, ["use", ["m", [r]]], ln]], goto(after))
            ss, sw = discr(r, dty.i, [("None", head), ("Some", hit)])
            return block([], clcall(fin[0], fin[1], [["m", [x]]], [r], block(ss, sw)))
        if name == "next": return block([["=", dst, ["agg", ["adt", OPT, "Some", ["0"]], [["m", [x]]]], ln]], goto(after))
        if name in ("any", "all", "find", "find_map", "position"):
            r = local(boolt)
            if name in ("any", "all"): hit = block([["=", dst, KB(name == "any"), ln]], goto(after))
            elif name == "find": hit = block([["=", dst, ["agg", ["adt", OPT, "Some", ["0"]], [["m", [x]]]], ln]], goto(after))
            else:
                p = local(dty.args[0])
                h2 = block([["=", dst, ["agg", ["adt", OPT, "Some", ["0"]], [["m", [p]]]], ln]], goto(after))
                hit = block([], call(ITER + "position", [["c", [x]]], [p], h2))
            sw = block([], {"k": "switch", "d": ["m", [r]], "ty": boolt, "v": [[0, head if name != "all" else hit]], "o": hit if name != "all" else head, "ln": ln})
            if name == "find":
                q = local(mkty({"s": "&" + crate.types[xt]["s"], "k": "ref", "a": [xt]}))
                return block([["=", [q], ["ref", "shared", [x]], ln]], clcall(fin[0], fin[1], [["m", [q]]], [r], sw))
            return block([], clcall(fin[0], fin[1], [["m", [x]]], [r], sw))
        if name in ("try_fold", "try_for_each"):
            r = local(dty)
            bad = "None" if dty.d == OPT else "Err"
            out = block([["=", dst, ["use", ["m", [r]]], ln]], goto(after))
            go_on = block([["=", [acc], ["use", ["m", [r, ["v", good], ["f", "0", 0, ""]]]], ln]] if acc is not None else [], goto(head))
            ss, sw = discr(r, dty.i, [(bad, out), (good, go_on)])
            b2 = block(ss, sw)
            return block([], clcall(fin[0], fin[1], ([["m", [acc]]] if acc is not None else []) + [["m", [x]]], [r], b2))
        # collect
        rm = local(mkty({"s": "&mut " + cty.s, "k": "refmut", "a": [cty.i]}))
        u = local(unit)

        def push(o): return block([["=", [rm], ["ref", "mut", [acc]], ln]], call("alloc::vec::Vec::<T, A>::push", [["m", [rm]], o], [u], head))
        if not wrap: return push(["m", [x]])
        bad = "None" if dty.d == OPT else "Err"
        out = block([["=", dst, ["agg", ["adt", dty.d, bad, [] if bad == "None" else ["0"]], [] if bad == "None" else [["m", [x, ["v", "Err"], ["f", "0", 0, ""]]]]], ln]], goto(after))
        ss, sw = discr(x, xt, [(bad, out), (wrap, push(["m", [x, ["v", wrap], ["f", "0", 0, ""]]]))])
        return block(ss, sw)

    def chain_from(k, x, xt):
        if k == len(cls): return final(x, xt)
        kind, o, c = cls[k]
        if kind == "map":
            if c is not None: rt = tyi(c.locals[0])
            elif k == len(cls) - 1 and name == "collect" and wrap: rt = mkty({"s": "R", "k": "adt", "d": dty.d, "a": [cty.args[0].i if cty.args else unit] + [a.i for a in dty.args[1:]]})
            elif k == len(cls) - 1 and name == "collect" and cty.args: rt = cty.args[0].i
            else: return None
            r = local(rt)
            nx = chain_from(k + 1, r, rt)
            if nx is None: return None
            cc = clcall(o, c, [["m", [x]]], [r], nx)
            if cc is None: return block([["=", [r], ["agg", o[1]["ctor"], [["m", [x]]]], ln]], goto(nx))
            return block([], cc)
        if kind in COPY:
            q = Ty(crate, xt)
            if q.k != "ref": return None
            r = local(q.args[0])
            nx = chain_from(k + 1, r, q.args[0].i)
            return None if nx is None else block([], call("core::clone::Clone::clone", [["m", [x]]], [r], nx))
        if kind in ("filter", "inspect", "take_while"):
            nx = chain_from(k + 1, x, xt)
            if nx is None: return None
            q = local(mkty({"s": "&" + crate.types[xt]["s"], "k": "ref", "a": [xt]}))
            r = local(boolt if kind != "inspect" else unit)
            sw = block([], {"k": "switch", "d": ["m", [r]], "ty": boolt, "v": [[0, head if kind == "filter" else done]], "o": nx, "ln": ln}) if kind != "inspect" else nx
            return block([["=", [q], ["ref", "shared", [x]], ln]], clcall(o, c, [["m", [q]]], [r], sw))
        if kind in ("filter_map", "map_while"):
            rt = tyi(c.locals[0])
            r = local(rt)
            pt = Ty(crate, rt).args[0].i
            y = local(pt)
            nx = chain_from(k + 1, y, pt)
            if nx is None: return None
            b1 = block([["=", [y], ["use", ["m", [r, ["v", "Some"], ["f", "0", 0, ""]]]], ln]], goto(nx))
            ss, sw = discr(r, rt, [("None", head if kind == "filter_map" else done), ("Some", b1)])
            return block([], clcall(o, c, [["m", [x]]], [r], block(ss, sw)))
        return None

    x = local(ity)
    bodyb = chain_from(0, x, ity)
    if bodyb is None: return False
    item = block([["=", [x], ["use", ["m", [n, ["v", "Some"], ["f", "0", 0, ""]]]], ln]], goto(bodyb))
    ss, sw = discr(n, oty, [("None", done), ("Some", item)])
    test = block(ss, sw)
    if byref:
        rr = local(nb.ty(itl))
        hs = [["=", [rr], ["use", ["c", [itl]]], ln]]
    else:
        rr = local(mkty({"s": "&mut " + nb.ty(itl).s, "k": "refmut", "a": [nb.ty(itl).i]}))
        hs = [["=", [rr], ["ref", "mut", [itl]], ln]]
    nb.blocks[head] = {"s": hs, "t": call(ITER + "next", [["m", [rr]]], [n], test), "file": nb.srcfile(i)}
    if start and start[0] is None:
        nb.blocks[i]["t"] = call("alloc::vec::Vec::<T>::new", [], [acc], head)
    else:
        nb.blocks[i]["s"].extend(start)
        nb.blocks[i]["t"] = goto(head)
    for d in at: nb.blocks[d]["t"] = dict(nb.blocks[d]["t"], noexpand=True)
    return True


def inline(body, want, depth=6, expand_closures=False, maxblocks=6000, desugar=1, loops=False):
    """inline calls to same-crate bodies selected by want(callee); optionally splice closures in at HOF calls"""
    nb = _clone(body)
    J = nb.j
    stack = {0: (body.h,)}  # block -> inlining stack
    chain = {i: (body.h,) for i in range(len(nb.blocks))}
    i = 0
    closure_done = set()
    while i < len(nb.blocks):
        t = nb.blocks[i]["t"]
        if t["k"] == "call" and not nb.blocks[i].get("cl") and len(nb.blocks) < maxblocks:
            h = t.get("rh") or t.get("h")
            callee = nb.facts.by_hash.get(h)
            if loops and _iter_call(t) in LAZY:
                # its closure runs where the iterator is consumed
                for j in range(i + 1, len(nb.blocks)):
                    tj = nb.blocks[j]["t"]
                    if _iter_call(tj) in EAGER:
                        nb._c = {}
                        _loopify(nb, j, tj, chain)
                if nb.blocks[i]["t"].get("noexpand"):
                    i += 1
                    continue
            if loops and _iter_call(t) in EAGER:
                nb._c = {}
                if _loopify(nb, i, t, chain):
                    continue
            if desugar and not t.get("virtual"):
                nb._c = {}
                if _desugar(nb, i, t, chain, desugar):
                    i += 1
                    continue
            if callee is not None and callee.blocks and callee.crate is nb.crate and callee.h not in chain[i] and len(chain[i]) <= depth and not t.get("virtual") and not t.get("unresolved") and (t.get("splice") or want(callee) or (callee.k == "closure" and expand_closures)):
                _splice_call(nb, i, t, callee, chain)
            elif expand_closures and i not in closure_done:
                closure_done.add(i)
                nb._c = {}
                cl = _closure_args(nb, i, t)
                for op, c in cl:
                    if c.h not in chain[i] and len(chain[i]) <= depth:
                        _splice_closure(nb, i, op, c, chain, closure_done)
        i += 1
    nb._c = {}
    return nb


def _closure_args(nb, i, t):
    out = []
    for o in t["a"]:
        if o[0] in ("c", "m"):
            l = o[1][0]
            if len(o[1]) > 1:
                continue
            ty = nb.ty(l).peel()
            if ty.k == "closure" and ty.j.get("h") in nb.facts.by_hash:
                out.append((o, nb.facts.by_hash[ty.j["h"]]))
            elif ty.d == "core::option::Option":
                pass
    return out


def _append(nb, callee, chain, base_chain):
    base, bo = len(nb.locals), len(nb.blocks)
    nb.locals.extend(Ty(callee.crate, x) if not isinstance(x, Ty) else x for x in callee.locals)
    nb.j["names"].extend([n, mp_place(p, base)] for n, p in callee.j.get("names", []))
    for b in callee.blocks:
        x = mp_block(b, base, bo)
        x["file"] = b.get("file", callee.file)
        x["org"] = b.get("org", callee.h)
        nb.blocks.append(x)
        chain[len(nb.blocks) - 1] = base_chain + (callee.h,)
    nb.closures = nb.closures + [c for c in callee.closures if c not in nb.closures]
    return base, bo


def _splice_call(nb, i, t, callee, chain):
    base, bo = _append(nb, callee, chain, chain[i])
    ln = t["ln"]
    st = nb.blocks[i]["s"]
    args = list(t["a"])
    if callee.k == "closure" and (t.get("trait") or "").startswith("core::ops::function::Fn"):
        st.append(["=", [base + 1], ["use", args[0]], ln])
        tup = args[1]
        for k in range(2, callee.argc + 1):
            if tup[0] in ("c", "m"):
                st.append(["=", [base + k], ["use", [tup[0], tup[1] + [["f", str(k - 2), k - 2, ""]]]], ln])
    else:
        for k, a in enumerate(args):
            st.append(["=", [base + 1 + k], ["use", a], ln])
    nb.blocks[i]["t"] = {"k": "goto", "t": bo, "ln": ln}
    for b in nb.blocks[bo:]:
        if b["t"]["k"] == "return":
            if t["t"] is None:
                b["t"] = {"k": "unreachable", "ln": b["t"]["ln"]}
            else:
                b["s"].append(["=", t["dst"], ["use", ["m", [base]]], ln])
                b["t"] = {"k": "goto", "t": t["t"], "ln": ln}


# std functions that run the function they are given no more than once
ONCE = ("or_insert_with", "or_insert_with_key", "and_modify", "get_or_insert_with", "unwrap_or_else", "ok_or_else", "map_or_else", "is_some_and", "is_none_or", "then", "get_or_init", "with_context")


def _splice_closure(nb, i, op, callee, chain, done):
    """block i: call f(.., closure, ..)  ==>  i: multi{closure body -> i' ; i'}   i': call"""
    t = nb.blocks[i]["t"]
    ln = t["ln"]
    # move the call to a fresh block
    nb.blocks.append({"s": [], "t": t, "file": nb.srcfile(i)})
    ci = len(nb.blocks) - 1
    chain[ci] = chain[i]
    done.add(ci)
    base, bo = _append(nb, callee, chain, chain[i])
    others = [a for a in t["a"] if a is not op]
    fn = norm_path(t.get("fn") or "?")
    once = fn.split("::")[-1] in ONCE and fn.startswith(("core::", "alloc::", "std::", "hashbrown::", "indexmap::"))
    # header block (loop): choose to run the closure again or to go on
    nb.blocks.append({"s": [], "t": {"k": "multi", "ts": [], "ln": ln}, "file": nb.srcfile(i)})
    hd = len(nb.blocks) - 1
    chain[hd] = chain[i]
    pre = [["=", [base + 1], ["use", ["c", op[1]]], ln]]
    for k in range(2, callee.argc + 1):
        pre.append(["=", [base + k], ["item", others], ln])
    nb.blocks.append({"s": pre, "t": {"k": "goto", "t": bo, "ln": ln}, "file": nb.srcfile(i)})
    en = len(nb.blocks) - 1
    chain[en] = chain[i]
    nb.blocks[hd]["t"].update(ts=[en, ci], once=once)
    for b in nb.blocks[bo:bo + len(callee.blocks)]:
        if b["t"]["k"] == "return":
            b["t"] = {"k": "goto", "t": ci if once else hd, "ln": ln}
    nb.blocks[i]["t"] = {"k": "goto", "t": hd, "ln": ln}


# extra rvalue: "item"
_old_rterm = Body.rterm


def _rterm(self, r, b, i, depth=0):
    if r[0] == "item":
        return ("item", tuple(self.term(o, b, i, depth + 1) for o in r[1]))
    return _old_rterm(self, r, b, i, depth)


Body.rterm = _rterm


# ------------------------------------------------------------------ jump threading
def _known(body, l, bb, upto=None):
    """constant (switch value) that whole local l holds after the statements of bb, or ('none',) / None=unknown write"""
    st = body.blocks[bb]["s"]
    for s in reversed(st if upto is None else st[:upto]):
        if s[0] == "=" and s[1][0] == l:
            if len(s[1]) != 1:
                return ("unk",)
            r = s[2]
            if r[0] == "use" and r[1][0] == "k":
                v = r[1][1].get("val")
                if v is None: return ("unk",)
                if "bool" in v: return ("val", int(v["bool"]))
                if "int" in v: return ("val", v["int"])
                if "char" in v: return ("val", v["char"])
                if "adt" in v: return ("var", v["adt"], v["v"])
                return ("unk",)
            if r[0] == "agg" and r[1][0] == "adt":
                return ("var", r[1][1], r[1][2])
            if r[0] == "use" and r[1][0] in ("c", "m") and len(r[1][1]) == 1:
                return ("copy", r[1][1][0], body.blocks[bb]["s"].index(s))
            return ("unk",)
    return None


def thread(body, rounds=12, maxblocks=8000):
    nb = _clone(body)
    for _ in range(rounds):
        ch = False
        nb._c = {}
        preds = nb.preds()
        for s in list(nb.reachable()):
            blk = nb.blocks[s]
            t = blk["t"]
            if t["k"] != "switch" or t["d"][0] not in ("c", "m") or len(t["d"][1]) != 1:
                continue
            if len(blk["s"]) > 12:
                continue
            l = t["d"][1][0]
            # find what is tested, in this block
            tested, isd = l, None
            k = _known(nb, l, s)
            if k is not None:
                if k[0] == "copy":
                    tested = k[1]
                else:
                    # discriminant of a local?
                    d = None
                    for st in reversed(blk["s"]):
                        if st[0] == "=" and st[1] == [l]:
                            if st[2][0] == "discr" and len(st[2][1]) == 1:
                                d = st[2]
                            break
                    if d is None:
                        continue
                    tested, isd = d[1][0], d[2] if len(d) > 2 else None
                    # tested must not be redefined in the block
                    if any(x[0] == "=" and x[1][0] == tested for x in blk["s"]):
                        continue
            for p in list(preds[s]):
                if len(nb.blocks) >= maxblocks:
                    break
                if nb.blocks[p]["t"]["k"] not in ("goto", "drop"):
                    continue
                kv = _known(nb, tested, p)
                hops = 0
                tl = tested
                while kv is not None and kv[0] == "copy" and hops < 4:
                    tl = kv[1]
                    kv = _known(nb, tl, p, kv[2])
                    hops += 1
                if kv is None:
                    # tail-duplicate small pass-through blocks with several predecessors
                    if nb.blocks[p]["t"]["k"] == "goto" and len(preds[p]) > 1 and len(nb.blocks[p]["s"]) <= 8 and p != s:
                        if any(_known(nb, tl, q) is not None for q in preds[p]):
                            for q in preds[p][1:]:
                                if nb.blocks[q]["t"]["k"] in ("goto", "drop"):
                                    nb.blocks.append(copy.deepcopy(nb.blocks[p]))
                                    nb.blocks[q]["t"]["t"] = len(nb.blocks) - 1
                                    ch = True
                            if ch:
                                break
                    continue
                val = None
                if kv[0] == "val" and isd is None:
                    val = kv[1]
                elif kv[0] == "var" and isd is not None:
                    m = nb.facts.discr_map(Ty(nb.crate, isd))
                    if m:
                        for d, n in m.items():
                            if n == kv[2]: val = d
                if val is None:
                    continue
                tgt = t["o"]
                for v, x in t["v"]:
                    if v == val: tgt = x
                nb.blocks.append({"s": copy.deepcopy(blk["s"]), "t": {"k": "goto", "t": tgt, "ln": t["ln"]}, **({"file": blk["file"]} if "file" in blk else {}), **({"org": blk["org"]} if "org" in blk else {})})
                nb.blocks[p]["t"]["t"] = len(nb.blocks) - 1
                ch = True
            if ch:
                break
        if not ch:
            break
    # thread() restarts after each structural change; allow many rounds
    nb._c = {}
    return nb


def threaded(body):
    b = thread(body, rounds=400)
    return b


# ------------------------------------------------------------------ provenance (may-flow)
def expand(body, t, seen=None, depth=0):
    """replace ('var', l) by the union of everything that may flow into l"""
    seen = frozenset() if seen is None else seen
    if depth > 40 or not isinstance(t, tuple):
        return t
    if t and t[0] == "var":
        l = t[1]
        if l in seen:
            return t
        full, partial, mref = body.defs()
        s2 = seen | {l}
        parts = []
        for d in full.get(l, []):
            parts.append(expand(body, body.dterm(d), s2, depth + 1))
        for (b, i, p, r) in partial.get(l, []):
            if r is not None:
                parts.append(expand(body, body.rterm(r, b, i), s2, depth + 1))
        if l in mref:
            for c in mut_users(body, l):
                for o in c.t["a"]:
                    tt = body.term(o, c.bb)
                    if tt != ("var", l):
                        parts.append(expand(body, tt, s2, depth + 1))
        return ("phi", l, tuple(dict.fromkeys(parts)))
    return tuple(expand(body, x, seen, depth + 1) if isinstance(x, tuple) else x for x in t)


def mut_users(body, l):
    """calls that receive &mut to local l"""
    m = body._c.setdefault("mutusers", {})
    if not m:
        for c in body.calls():
            for o in c.t["a"]:
                if o[0] in ("c", "m"):
                    ty = body.ty(o[1][0]) if len(o[1]) == 1 else None
                    tt = body.term(o, c.bb)
                    r = tt
                    while r[0] in ("fld", "as", "idx"):
                        r = r[1]
                    if r[0] == "var" and ty is not None and ty.k == "refmut":
                        m.setdefault(r[1], []).append(c)
        m.setdefault(-1, [])
    return m.get(l, [])


# ------------------------------------------------------------------ trace partitioning
class Trace:
    __slots__ = ("conds", "events", "result", "end", "blocks", "writes", "env")

    def __init__(self, conds, events, result, end, blocks, writes, env=None):
        self.conds, self.events, self.result, self.end, self.blocks, self.writes = conds, events, result, end, blocks, writes
        self.env = env or {}

    def val(self, l):
        """value of local l at the end of the trace (its start value is ("var", l))"""
        return self.env.get(l, ("var", l))

    def stored(self, place):
        """value last stored to a place term (None: unchanged)"""
        v = None
        for p, x in self.writes:
            if p == place: v = x
        return v


class TooBig(Exception):
    pass


OPT = "core::option::Option"


def some(x): return ("agg", OPT, "Some", (x,), ("0",))


NONE = ("agg", OPT, "None", (), ())
LISTY = ("list", "iter")


def _hash(e): return tuple(e) if isinstance(e, list) else e


MAPS = re.compile(r"HashMap|BTreeMap|HashSet|BTreeSet|IndexMap")


def map_model(tail, fn, args):
    """the same for a map or set with known constant keys"""
    a = args[0] if args else None
    if tail in ("new", "default", "with_capacity") and MAPS.search(fn) and not re.search("Entry|Iter", fn): return ("map", ()), None
    if a is None or not isinstance(a, tuple) or a[0] != "map": return None
    m = a[1]
    if tail in ("deref", "deref_mut", "as_ref", "borrow", "clone", "by_ref"): return a, None
    if tail == "len": return ("k", len(m)), None
    if tail == "is_empty": return ("k", not m), None
    if tail == "clear": return ("k", ()), ("map", ())
    order = sorted(m, key=lambda kv: (str(type(kv[0][1])), kv[0][1])) if "BTree" in fn and all(k[0] == "k" for k, v in m) else m
    if tail in ("keys", "into_keys") or tail in ("iter", "into_iter") and "Set" in fn: return ("iter", tuple(k for k, v in order)), None
    if tail in ("values", "into_values"): return ("iter", tuple(v for k, v in order)), None
    if tail in ("iter", "into_iter"): return ("iter", tuple(("agg", "tuple", "", (k, v), ()) for k, v in order)), None
    if len(args) >= 2 and args[1][0] == "k" and all(k[0] == "k" for k, v in m):
        old = [v for k, v in m if k == args[1]]
        rest = tuple((k, v) for k, v in m if k != args[1])
        if tail == "insert" and "Set" in fn: return ("k", not old), ("map", m if old else m + ((args[1], ("k", ())),))
        if tail == "insert" and len(args) == 3:
            return (some(old[0]) if old else NONE), ("map", tuple((k, args[2] if k == args[1] else v) for k, v in m) if old else m + ((args[1], args[2]),))
        if tail == "get" and len(args) == 2: return (some(old[0]) if old else NONE), None
        if tail in ("contains_key", "contains") and len(args) == 2: return ("k", bool(old)), None
        if tail == "remove" and len(args) == 2: return (("k", bool(old)) if "Set" in fn else some(old[0]) if old else NONE), ("map", rest)
        if tail == "index" and len(args) == 2 and old: return old[0], None
    return None


BOXES = re.compile(r"alloc::boxed::|core::ptr::unique::|core::ptr::non_null::")


def moved(tail, args):
    """mem::take and mem::replace of a known value"""
    a = args[0]
    if tail == "replace" and len(args) == 2 and a[0] in ("k", "agg", "list"): return a, args[1]
    if tail == "take" and len(args) == 1:
        if a[0] == "list": return a, ("list", ())
        if a[0] == "agg" and a[2] in ("Some", "None") and a[1].endswith("Option"): return a, NONE
        if a[0] == "k" and isinstance(a[1], (bool, int, str)): return a, ("k", type(a[1])())
    return None


def list_model(tail, fn, args, adv, place=None):
    """what a call on a vector or iterator with known elements returns: (value, new value of the first argument or None); None if not modelled.
    adv(k, v): stores v through the reference that is argument k"""
    a = args[0] if args else None
    if tail in ("new", "with_capacity", "default") and ("Vec" in fn or "VecDeque" in fn) and "::String" not in fn:
        return ("list", ()), None
    if a is None or not isinstance(a, tuple) or not a: return None
    if tail in ("unwrap", "expect") and a[0] == "agg" and a[2] in ("Some", "Ok"): return a[3][0], None
    if a[0] == "agg" and a[1] == OPT and "Option" in fn:
        if tail == "as_mut" and len(args) == 1 and place is not None and "*" not in place: return (some(("at", tuple(_hash(e) for e in place) + (("v", "Some"), ("f", "0", 0)))) if a[2] == "Some" else NONE), None
        if tail == "take" and len(args) == 1: return a, NONE
        if tail == "replace" and len(args) == 2: return a, some(args[1])
    if a[0] == "agg" and a[1].endswith(("ops::range::Range", "ops::Range")) and len(a[3]) == 2 and all(x[0] == "k" and isinstance(x[1], int) for x in a[3]):
        i, j = a[3][0][1], a[3][1][1]
        r = lambda i, j: ("agg", a[1], a[2], (("k", i), ("k", j)), a[4])
        if tail == "next": return (some(("k", i)), r(i + 1, j)) if i < j else (NONE, a)
        if tail == "next_back": return (some(("k", j - 1)), r(i, j - 1)) if i < j else (NONE, a)
        if tail in ("rev", "enumerate", "zip", "skip", "take", "chain", "step_by") and j - i <= 256: a = ("iter", tuple(("k", x) for x in range(i, j)))
        elif tail in ("into_iter", "by_ref"): return a, None
        elif tail == "len": return ("k", max(0, j - i)), None
    if a[0] == "call" and a[1].endswith("RangeInclusive::new") and tail in ("into_iter", "rev") and all(x[0] == "k" and isinstance(x[1], int) for x in a[2]) and a[2][1][1] - a[2][0][1] <= 256:
        a = ("iter", tuple(("k", x) for x in range(a[2][0][1], a[2][1][1] + 1)))
    if a[0] == "agg" and a[1] == "array" and tail in ("into_iter", "iter", "into_vec", "get", "index", "len", "is_empty", "first", "last", "starts_with", "ends_with", "as_slice"): a = ("list", a[3])
    if a[0] not in LISTY: return None
    if len(args) == 2 and args[1][:2] == ("agg", "array") and tail in ("starts_with", "ends_with", "extend_from_slice", "extend", "chain", "zip"): args = (args[0], ("list", args[1][3]))
    xs = a[1]
    if tail in ("into_vec", "into_boxed_slice", "as_slice", "deref", "deref_mut", "as_mut_slice", "as_ref", "borrow", "clone", "to_vec", "collect", "into", "from", "by_ref", "from_iter", "to_owned"):
        return (("list" if tail == "collect" or a[0] == "list" else "iter"), xs), None
    if tail in ("push", "push_back") and len(args) == 2: return ("k", ()), ("list", xs + (args[1],))
    if tail == "push_front" and len(args) == 2: return ("k", ()), ("list", (args[1],) + xs)
    if tail in ("pop", "pop_back"): return (some(xs[-1]), ("list", xs[:-1])) if xs else (NONE, ("list", ()))
    if tail == "pop_front": return (some(xs[0]), ("list", xs[1:])) if xs else (NONE, ("list", ()))
    if tail in ("len", "count"): return ("k", len(xs)), None
    if tail == "is_empty": return ("k", not xs), None
    if tail in ("index", "index_mut") and len(args) == 2 and "RangeFull" in str(args[1]): return a, None
    if tail in ("index", "index_mut", "get") and len(args) == 2 and args[1][0] == "agg" and re.search(r"ops::(range::)?Range(To|From|Inclusive|ToInclusive)?$", args[1][1]) and args[1][4] and all(x[0] == "k" and isinstance(x[1], int) for x in args[1][3]):
        d = dict(zip(args[1][4], (x[1] for x in args[1][3])))
        i, j = d.get("start", 0), d.get("end", len(xs)) + (1 if "Inclusive" in args[1][1] and "end" in d else 0)
        if 0 <= i <= j <= len(xs): return (some(("list", xs[i:j])) if tail == "get" else ("list", xs[i:j])), None
        if tail == "get": return NONE, None
    if tail in ("ends_with", "starts_with") and len(args) == 2 and args[1][0] in LISTY and all(x[0] == "k" for x in xs + args[1][1]):
        n = len(args[1][1])
        return ("k", (xs[len(xs) - n:] if tail == "ends_with" else xs[:n]) == args[1][1] if n <= len(xs) else False), None
    if tail == "clear": return ("k", ()), ("list", ())
    if tail == "truncate" and len(args) == 2 and args[1][0] == "k": return ("k", ()), ("list", xs[:args[1][1]])
    if tail in ("last", "first") and len(args) == 1: return (some(xs[-1 if tail == "last" else 0]) if xs else NONE), None
    if tail in ("into_iter", "iter", "iter_mut", "cloned", "copied", "fuse", "peekable") and len(args) == 1: return ("iter", xs), None
    if tail == "drain" and len(args) == 2 and "RangeFull" in str(args[1]): return ("iter", xs), ("list", ())
    if tail == "drain" and len(args) == 2 and args[1][0] == "agg" and all(x[0] == "k" for x in args[1][3]):
        r = args[1]
        d = dict(zip(r[4], (x[1] for x in r[3])))
        i, j = d.get("start", 0), d.get("end", len(xs)) + (1 if "Inclusive" in r[1] and "end" in d else 0)
        return ("iter", xs[i:j]), ("list", xs[:i] + xs[j:])
    if tail in ("last_mut", "first_mut", "back_mut", "front_mut") and len(args) == 1 and place is not None:
        return (some(("ptr", tuple(map(_hash, place)), len(xs) - 1 if tail in ("last_mut", "back_mut") else 0)) if xs else NONE), None
    if tail == "flatten" and all(x[0] == "agg" and x[2] in ("Some", "None") for x in xs): return ("iter", tuple(x[3][0] for x in xs if x[2] == "Some")), None
    if tail == "rev": return ("iter", xs[::-1]), None
    if tail == "enumerate": return ("iter", tuple(("agg", "tuple", "", (("k", i), x), ()) for i, x in enumerate(xs))), None
    if tail == "zip" and len(args) == 2 and args[1][0] in LISTY:
        ys = args[1][1]
        adv(1, ("iter", ys[len(xs):]))
        return ("iter", tuple(("agg", "tuple", "", (x, y), ()) for x, y in zip(xs, ys))), None
    if tail == "chain" and len(args) == 2 and args[1][0] in LISTY: return ("iter", xs + args[1][1]), None
    if tail in ("skip", "take") and len(args) == 2 and args[1][0] == "k": return ("iter", xs[args[1][1]:] if tail == "skip" else xs[:args[1][1]]), None
    if tail == "next" and a[0] == "iter": return (some(xs[0]), ("iter", xs[1:])) if xs else (NONE, ("iter", ()))
    if tail == "next_back" and a[0] == "iter": return (some(xs[-1]), ("iter", xs[:-1])) if xs else (NONE, ("iter", ()))
    if tail in ("write_fmt", "push_str", "write_str", "write_char") and len(args) == 2:
        from lib import emitted
        ps = emitted(fn.split(" ")[-1], args)
        if ps is not None: return ("agg", RES, "Ok", (("k", ()),), ("0",)), ("list", xs + tuple(("k", x) if isinstance(x, str) else x[1] for x in ps))
    if tail == "extend" and len(args) == 2 and args[1][0] == "agg" and args[1][2] in ("Some", "None"): return ("k", ()), ("list", xs + args[1][3])
    if tail == "split_off" and len(args) == 2 and args[1][0] == "k": return ("list", xs[args[1][1]:]), ("list", xs[:args[1][1]])
    if tail == "join" and len(args) == 2 and args[1][0] == "k" and isinstance(args[1][1], str) and not any(x[0] in LISTY for x in xs):
        return ("list", tuple(y for k, x in enumerate(xs) for y in ((args[1],) if k else ()) + (x,))), None
    if tail == "join" and len(args) == 2 and all(x[0] in LISTY for x in xs):
        sep = args[1][1] if args[1][0] in LISTY else (args[1],)
        return ("list", tuple(y for k, x in enumerate(xs) for y in ((sep if k else ()) + x[1]))), None
    if len(args) == 2 and args[1][0] == "k" and isinstance(args[1][1], int) and not isinstance(args[1][1], bool):
        k = args[1][1]
        if tail == "index" and k < len(xs): return xs[k], None
        if tail == "get" : return (some(xs[k]) if k < len(xs) else NONE), None
        if tail == "remove" and k < len(xs) and a[0] == "list" and "Map" not in fn and "Set" not in fn: return xs[k], ("list", xs[:k] + xs[k + 1:])
        if tail == "swap_remove" and k < len(xs) and a[0] == "list": return xs[k], ("list", xs[:k] + xs[-1:] + xs[k + 1:-1] if k < len(xs) - 1 else xs[:-1])
        if tail == "nth" and a[0] == "iter": return (some(xs[k]) if k < len(xs) else NONE), ("iter", xs[k + 1:])
        if tail == "step_by" and k: return ("iter", xs[::k]), None
    if tail == "insert" and len(args) == 3 and args[1][0] == "k" and isinstance(args[1][1], int) and "Vec" in fn: return ("k", ()), ("list", xs[:args[1][1]] + (args[2],) + xs[args[1][1]:])
    if tail == "reverse" and len(args) == 1 and a[0] == "list": return ("k", ()), ("list", xs[::-1])
    if tail == "concat" and len(args) == 1 and all(x[0] in LISTY for x in xs): return ("list", tuple(y for x in xs for y in x[1])), None
    if tail == "back" and len(args) == 1: return (some(xs[-1]) if xs else NONE), None
    if tail == "front" and len(args) == 1: return (some(xs[0]) if xs else NONE), None
    if tail in ("extend", "append", "extend_from_slice") and len(args) == 2 and args[1][0] in LISTY: return ("k", ()), ("list", xs + args[1][1])
    return None


def table(F, k):
    """a static that is an array, as the list of its elements"""
    if not hasattr(F, "_tables"): F._tables = {}
    if k not in F._tables:
        bs = [b for b in F.bodies if b.k == "static" and b.npath == k[1]]
        r = traces(bs[0])[0].result if len(bs) == 1 and len(bs[0].blocks) < 8 else None
        F._tables[k] = ("list", r[3]) if r is not None and r[0] == "agg" and r[1] == "array" else k
    return F._tables[k]


SEQ = 10 ** 9


def traces(body, limit=20000, visits=1, pure=None, start=0, stops=(), lists=False, env=None, seq=(), seed=None, init=None, multi=None, hook=None):
    """forward analysis partitioned by branch decisions: every acyclic (loops cut after `visits`) path with the
    branch conditions it took, the calls it made and the term it returns.  end: return | panic | cut.
    Calls named in seq are numbered SEQ, SEQ + 1, .. in the order they happen on the path with these arguments, wherever they are made.
    multi: how often a closure is run by a function that is not known (None: as often as visits allows).
    seed(call term): what is assumed of a call's result (None: nothing); init: what is assumed of the arguments.
    hook(fn, trait fn, args, places, env, write, body): a call's result, with the state it changes (None: nothing is known of it)."""
    out = []
    count = [0]
    facts = body.facts
    scenario = env
    if scenario is not None:
        from lib import evaluate
    full, partial, mref = body.defs()

    def place(p, env):
        t = env.get(p[0])
        if t is None:
            t = ("arg", p[0]) if 1 <= p[0] <= body.argc else ("var", p[0])
            if p[0] == 1 and body.k == "closure": t = ("env",)
        if lists:
            # what a reference to a vector or iterator points to now
            q = env.get(("r", p[0]))
            if q is not None and len(q) == 1:
                z = env.get(q[0])
                if z is not None and z[0] in LISTY and t[0] in LISTY: t = z
                elif z is not None and z[0] == "agg" and t[0] == "agg" and t[1:3] == z[1:3] and lists and len(p) > 1 and p[1] == "*": t = z
        for e in p[1:]:
            if e == "*":
                if t[0] == "at": t = place(list(t[1]), env)
                elif t[0] == "ptr": t = pointed(t, env)
            elif e[0] == "f":
                # a box is what is in it
                if not (len(e) > 3 and BOXES.match(str(e[3])) and t[0] in ("agg", "list", "k") and not BOXES.match(str(t[1]))): t = fld(t, e[1], e[2])
            elif e[0] == "v":
                t = down(t, e[1])
            elif e[0] == "i":
                t = element(t, place([e[1]], env), env)
            elif e[0] == "ci":
                t = element(t, ("k", e[1] if not e[2] else -e[1]), env)
            elif e[0] == "el":
                t = t[1][e[1]] if t[0] == "list" and e[1] < len(t[1]) else t[3][e[1]] if t[:2] == ("agg", "array") and e[1] < len(t[3]) else ("el", t, e[1])
            elif e[0] == "sub":
                t = ("sub", t, e[1], e[2])
            t = mem(t, env)
        return t

    def pointed(t, env):
        """what a reference to an element of a vector points to now"""
        whole = place([list(e) if isinstance(e, tuple) else e for e in t[1]], env)
        return whole[1][t[2]] if whole[0] == "list" and t[2] < len(whole[1]) else t

    def element(t, i, env):
        if lists and t[0] == "list" and i[0] == "k" and isinstance(i[1], int) and not isinstance(i[1], bool) and -len(t[1]) <= i[1] < len(t[1]) and ("m", ("idx", t, i)) not in env: return t[1][i[1]]
        if t[0] == "agg" and t[1] == "array" and i[0] == "k" and isinstance(i[1], int) and 0 <= i[1] < len(t[3]): return t[3][i[1]]
        return ("idx", t, i)

    def mem(t, env):
        return env.get(("m", t), t)

    def op(o, env):
        if o[0] == "k":
            k = body.kterm(o[1])
            if hook is not None and getattr(hook, "const", None): k = hook.const(k)
            if lists == "maps" and k[0] == "static": return table(facts, k)
            if k[0] == "promoted" and hook is not None and lists == "maps":
                pb = body.promoted(o[1])
                ts = traces(pb, limit=50, visits=2, lists="maps", hook=hook) if pb is not None else []
                if len(ts) == 1 and ts[0].end == "return" and ts[0].result[0] in ("agg", "k", "list"): return ts[0].result
            return k
        if o[0] in ("c", "m"):
            return place(o[1], env)
        return ("rt",)

    def rval(r, env):
        k = r[0]
        if k == "use": return op(r[1], env)
        if k == "ref": return place(r[2], env)
        if k == "rawptr": return place(r[1], env)
        if k == "cast":
            if "BoxDeref" in r[1] and hook is not None and lists == "maps":
                q = lent(r[2][1], env)
                if q is not None: return ("at", q)
            x = op(r[2], env)
            if hook is not None and lists == "maps" and x[0] == "discr" and x[1][0] == "agg" and x[1][1] in facts.adts:
                ds = [v["d"] for v in facts.adts[x[1][1]]["variants"] if v["n"] == x[1][2] and isinstance(v.get("d"), int)]
                if len(ds) == 1: x = ("k", ds[0])
            if hook is not None and lists == "maps" and x[0] == "k":
                c = convert(x[1], Ty(body.crate, r[3]).s)
                if c is not None: return ("k", c)
            if lists == "maps" and x[0] == "k" and isinstance(x[1], int) and not isinstance(x[1], bool) and 0 <= x[1] < 256 and Ty(body.crate, r[3]).s in ("usize", "u64", "u32", "u16", "u8", "isize", "i64", "i32", "i16"): return x
            if "Pointer" in r[1] or "PtrToPtr" in r[1] or "Subtype" in r[1] or "Transmute" in r[1]: return x
            return ("cast", Ty(body.crate, r[3]).s, x)
        if k == "bin": return foldbin(r[1].replace("WithOverflow", ""), op(r[2], env), op(r[3], env))
        if k == "un":
            x = op(r[2], env)
            if r[1] == "Not" and x[0] == "k" and isinstance(x[1], bool): return ("k", not x[1])
            if r[1] == "Neg" and x[0] == "k" and isinstance(x[1], int): return ("k", -x[1])
            if r[1] == "PtrMetadata" and lists and x[0] in LISTY: return ("k", len(x[1]))
            return ("un", r[1], x)
        if k == "discr": return ("discr", place(r[1], env))
        if k == "agg":
            kd = r[1]
            f = tuple(op(o, env) for o in r[2])
            if kd[0] == "adt": return ("agg", kd[1], kd[2], f, tuple(kd[3]))
            if kd[0] == "closure":
                if hook is not None: f = tuple(("at", tuple(map(_hash, env[("r", o[1][0])]))) if o[0] in ("c", "m") and len(o[1]) == 1 and x[0] != "at" and body.ty(o[1][0]).k == "refmut" and env.get(("r", o[1][0])) is not None else x for o, x in zip(r[2], f))
                return ("agg", "closure", kd[1], f, ())
            return ("agg", kd[0], "", f, ())
        if k == "repeat":
            if lists and str(r[2]).isdigit() and int(r[2]) <= 16: return ("agg", "array", "", (op(r[1], env),) * int(r[2]), ())
            return ("repeat", op(r[1], env), r[2])
        if k == "item": return ("item", tuple(op(o, env) for o in r[1]))
        return ("?r", k)

    def lent(p, env):
        """the place of what is in a box, if that is known"""
        p = list(p)
        while len(p) > 1 and not isinstance(p[-1], str) and p[-1][0] == "f" and len(p[-1]) > 3 and BOXES.match(str(p[-1][3])): p.pop()
        if "*" in p:
            if p[1] != "*" or "*" in p[2:]: return None
            t = env.get(p[0], ("",))
            q = t[1] if t[0] == "at" else env.get(("r", p[0])) if len(p) > 2 else None
            if q is None or "*" in q: return None
            p = list(q) + p[2:]
        if env.get(p[0], ("",))[0] not in ("agg", "list"): return None
        t = place([list(e) if isinstance(e, tuple) else e for e in p], env)
        if t[0] != "agg": return None
        if BOXES.match(t[1]) and len(t[3]) == 1: p.append(["f", "0", 0, t[1]])
        return tuple(map(_hash, p))

    def setpath(base, proj, v):
        """a known aggregate with the part at proj replaced, or None"""
        if not proj: return v
        e = proj[0]
        if base is not None and base[0] == "list" and e[0] == "el" and e[1] < len(base[1]):
            x = setpath(base[1][e[1]], proj[1:], v)
            return None if x is None else ("list", base[1][:e[1]] + (x,) + base[1][e[1] + 1:])
        if base is not None and base[:2] == ("agg", "array") and e[0] == "el" and e[1] < len(base[3]): e = ["f", None, e[1]]
        if base is None or base[0] != "agg" or isinstance(e, str): return None
        if e[0] == "v": return setpath(base, proj[1:], v) if base[2] == e[1] else None
        if e[0] != "f" or e[2] is None or e[2] >= len(base[3]): return None
        x = setpath(base[3][e[2]], proj[1:], v)
        if x is None: return None
        f = list(base[3])
        f[e[2]] = x
        return base[:3] + (tuple(f),) + base[4:]

    def known(p, env):
        """a place with the elements of vectors by number, where their index is known"""
        if hook is None or not any(e != "*" and not isinstance(e, (str, tuple)) and e[0] == "i" for e in p[1:]): return p
        out = [p[0]]
        for e in p[1:]:
            if e != "*" and e[0] == "i":
                i = place([e[1]], env)
                if i[0] == "k" and type(i[1]) is int and i[1] >= 0: e = ["el", i[1]]
            out.append(e)
        return out

    def write(p, v, env, writes):
        p = known(p, env)
        if lists and len(p) > 1:
            q = env.get(p[0])
            if p[1] == "*" and q is not None and q[0] == "at": p = [list(e) if isinstance(e, tuple) else e for e in q[1]] + list(p[2:])
            elif p[1] == "*" and env.get(("r", p[0])) is not None and (len(env[("r", p[0])]) > 1 or len(p) > 2 and env.get(env[("r", p[0])][0], "?")[0] == "agg"): p = list(env[("r", p[0])]) + list(p[2:])
            elif p[1] == "*" and q is not None and q[0] == "ptr":
                p = [list(e) if isinstance(e, tuple) else e for e in q[1]] + [["el", q[2]]] + list(p[2:])
                if len(p) > 2 and p[1] == "*" and env.get(p[0], "?")[0] == "at": p = [list(e) if isinstance(e, tuple) else e for e in env[p[0]][1]] + p[2:]
            x = setpath(env.get(p[0]), p[1:], v) if (len(p) > 2 or p[1][0] == "el") and "*" not in p else None
            if x is not None:
                env[p[0]] = x
                return
        if len(p) == 1:
            env[p[0]] = v
            if p[0] < 10 ** 6 and "Enumerate" in body.ty(p[0]).s: env[("n", p[0])] = 0
        else:
            # field of a local aggregate: functional update when the aggregate is known
            base = env.get(p[0])
            if base is not None and base[0] == "agg" and len(p) == 2 and isinstance(p[1], list) and p[1][0] == "f" and p[1][2] < len(base[3]):
                f = list(base[3])
                f[p[1][2]] = v
                env[p[0]] = base[:3] + (tuple(f),) + base[4:]
                return
            if base is not None and base[0] == "agg" and base[1] == "array" and len(p) == 2 and isinstance(p[1], list) and p[1][0] in ("i", "ci"):
                ix = place([p[1][1]], env) if p[1][0] == "i" else ("k", p[1][1])
                if ix[0] == "k" and isinstance(ix[1], int) and not isinstance(ix[1], bool) and 0 <= ix[1] < len(base[3]) and not (p[1][0] == "ci" and p[1][2]):
                    f = list(base[3])
                    f[ix[1]] = v
                    env[p[0]] = base[:3] + (tuple(f),) + base[4:]
                    return
            t = place(p[:-1], env)
            e = p[-1]
            if e == "*": tt = t
            elif e[0] == "f": tt = ("fld", t, e[1])
            elif e[0] == "v": tt = down(t, e[1])
            elif e[0] == "i": tt = ("idx", t, place([e[1]], env))
            else: tt = ("?", t)
            env[("m", tt)] = v
            writes.append((tt, v))

    def refs(l, r, env):
        """remember which place a reference local points to"""
        key = ("r", l)
        env.pop(key, None)
        p = None
        if r[0] == "ref": p = r[2]
        elif r[0] == "use" and r[1][0] in ("c", "m") and len(r[1][1]) == 1: 
            q = env.get(("r", r[1][1][0]))
            if q is not None: env[key] = q
            return
        if p is not None:
            q = env.get(("r", p[0])) if len(p) > 1 and p[1] == "*" else None
            if len(p) > 1 and p[1] == "*" and env.get(p[0], ("",))[0] == "at": q = [list(e) if isinstance(e, tuple) else e for e in env[p[0]][1]]
            if q is None and lists and len(p) > 1 and p[1] == "*" and env.get(p[0], ("",))[0] == "ptr" and "*" not in env[p[0]][1]: q = [list(e) if isinstance(e, tuple) else e for e in env[p[0]][1]] + [["el", env[p[0]][2]]]
            env[key] = known(list(q) + list(p[2:]) if q is not None else list(p), env)

    def go(bb, env, conds, events, seen, blocks, writes):
        while True:
            count[0] += 1
            if count[0] > limit * 20 or len(out) > limit:
                if os.environ.get("RULE_DEBUG"):
                    und = {}
                    for c in [c[0] for t in out for c in t.conds] + [c[0] for c in conds]: und[str(c)[:300]] = und.get(str(c)[:300], 0) + 1
                    for c, m in sorted(und.items(), key=lambda x: -x[1])[:12]: print("undecided", m, c)
                raise TooBig("%s: too many traces" % body.path)
            n = seen.get(bb, 0)
            if bb in stops and blocks:
                out.append(Trace(conds, events, None, "stop", blocks + (bb,), writes, env))
                return
            if n >= visits:
                out.append(Trace(conds, events, None, "cut", blocks, writes))
                return
            seen = dict(seen)
            seen[bb] = n + 1
            blocks = blocks + (bb,)
            blk = body.blocks[bb]
            for s in blk["s"]:
                if s[0] == "=":
                    write(s[1], rval(s[2], env), env, writes)
                    if len(s[1]) == 1:
                        refs(s[1][0], s[2], env)
            t = blk["t"]
            k = t["k"]
            if k == "goto":
                bb = t["t"]
                continue
            if k == "drop":
                bb = t["t"]
                continue
            if k == "assert":
                bb = t["t"]
                continue
            if k == "return":
                out.append(Trace(conds, events, env.get(0, ("k", ())), "return", blocks, writes, env))
                return
            if k in ("unreachable", "resume", "other"):
                return
            if k == "call":
                args = tuple(op(o, env) for o in t["a"])
                places = None
                if hook is not None:
                    places = tuple(a[1] if a[0] == "at" else tuple(map(_hash, env[("r", o[1][0])])) if o[0] in ("c", "m") and len(o[1]) == 1 and env.get(("r", o[1][0])) is not None and body.ty(o[1][0]).k in ("refmut", "ref") else None for a, o in zip(args, t["a"]))
                if lists and not TRANSPARENT.search(norm_path(t.get("fn") or "?")): args = tuple(place(list(a[1]), env) if a[0] == "at" else a for a in args)
                h = t.get("rh") or t.get("h")
                bd = facts.by_hash.get(h)
                fn = norm_path(bd.path) if bd is not None else norm_path(t.get("rfn") or t.get("fn") or "?")
                tf = norm_path(t.get("fn") or "?")
                if hook is not None and "fop" in t and not t.get("fn"):
                    # a call of a function value
                    args, places = (op(t["fop"], env), ("agg", "tuple", "", args, ())), (None, None)
                    fn = tf = "core::ops::function::FnOnce::call_once"
                md = at = None
                if hook is not None:
                    hook.ga = [Ty(body.crate, x) for x in t.get("ga") or ()]
                    hv = hook(fn, tf, args, places, env, lambda p, v: write([list(e) if isinstance(e, tuple) else e for e in p], v, env, writes), bd)
                    if hv is not None:
                        events = events + ((fn, args, t["ln"], bb, tf),)
                        if t["t"] is None or hv[0] == "panic":
                            out.append(Trace(conds, events, hv, "panic", blocks, writes, env))
                            return
                        write(t["dst"], hv, env, writes)
                        if len(t["dst"]) == 1: env.pop(("r", t["dst"][0]), None)
                        bb = t["t"]
                        continue
                if lists:
                    if tf.endswith("box_assume_init_into_vec_unsafe") and args:
                        ks = [x for x in env if isinstance(x, tuple) and x[0] == "m" and below(x[1], args[0]) and env[x][0] == "agg" and env[x][1] == "array"]
                        if ks: md = (("list", env[ks[-1]][3]), None)
                    else:
                        at = None
                        if args and t["a"][0][0] in ("c", "m") and len(t["a"][0][1]) == 1: at = env.get(("r", t["a"][0][1][0]))
                        inner = None
                        if args and args[0][0] == "ptr":
                            # an element of a vector, by reference
                            inner = args[0]
                            args = (pointed(inner, env),) + args[1:]

                        def adv(k, nv):
                            o = t["a"][k]
                            if k == 0 and inner is not None:
                                env["ptr"] = inner
                                write(["ptr", "*"], nv, env, writes)
                                del env["ptr"]
                                return
                            if o[0] in ("c", "m") and len(o[1]) == 1 and env.get(("r", o[1][0])) is not None: write(list(env[("r", o[1][0])]), nv, env, writes)
                        md = moved(tf.split("::")[-1], args) if lists == "maps" and inner is None and tf in ("core::mem::take", "core::mem::replace") and at is not None else None
                        if md is None: md = map_model(tf.split("::")[-1], tf + " " + fn, args) if lists == "maps" else None
                        if md is None: md = list_model(tf.split("::")[-1], tf + " " + fn, args, adv, at)
                if md is not None:
                    v = md[0]
                    if md[1] is not None: adv(0, md[1])
                elif TRANSPARENT.search(tf) and len(args) == 1 and bd is None:
                    v = args[0]
                elif pure and pure(fn, tf):
                    v = ("call", fn, args, -1)
                else:
                    nm = fn.split("::")[-1]
                    v = ("call", fn, args, SEQ + sum(1 for e in events if e[0].split("::")[-1] == nm and e[1] == args) if nm in seq else bb * 10 + n)
                    if seed is not None:
                        sv = seed(v)
                        if sv is not None: v = sv
                    events = events + ((fn, args, t["ln"], bb, tf),)
                    # &mut arguments: forget what is known below them
                    for o, a in zip(t["a"], args):
                        if o[0] in ("c", "m") and len(o[1]) == 1 and body.ty(o[1][0]).k == "refmut":
                            for key in [x for x in env if isinstance(x, tuple) and x[0] == "m" and below(x[1], a)]:
                                env[key] = ("upd", key[1], bb * 10 + n)
                            pl = env.get(("r", o[1][0]))
                            if (a[0] in LISTY or a[0] == "map") and pl is not None: write(list(pl), ("upd", ("var", pl[0]), bb * 10 + n), env, writes)
                            ep = env.get(("ep", a), 0)
                            if a[0] == "var" or a[0] in ("arg", "fld"):
                                for l in list(env):
                                    if isinstance(l, int) and env[l] == a and a[0] == "var" and l == a[1]:
                                        pass
                if tf.endswith("Iterator::next") and len(t["a"]) == 1 and t["a"][0][0] in ("c", "m") and len(t["a"][0][1]) == 1:
                    # the counter of enumerate() is known when the loop was entered on this path
                    pl = env.get(("r", t["a"][0][1][0]))
                    if pl is not None and len(pl) == 1 and ("n", pl[0]) in env:
                        env[("m", ("fld", fld(down(v, "Some"), "0", 0), "0"))] = ("k", env[("n", pl[0])])
                        env[("n", pl[0])] += 1
                if t["t"] is None:
                    out.append(Trace(conds, events, v, "panic", blocks, writes))
                    return
                if md is None and tf in ("core::mem::take", "core::mem::replace") and t["a"][0][0] in ("c", "m") and len(t["a"][0][1]) == 1:
                    pl = env.get(("r", t["a"][0][1][0]))
                    if pl is not None:
                        write(list(pl), ("default",) if tf.endswith("take") else args[1], env, writes)
                write(t["dst"], v, env, writes)
                if md is not None and len(t["dst"]) == 1:
                    env.pop(("r", t["dst"][0]), None)
                    if at is not None and tf.split("::")[-1] in ("deref_mut", "as_mut_slice", "as_mut", "borrow_mut"): env[("r", t["dst"][0])] = at
                if len(t["dst"]) == 1 and t["dst"][0] in mref and not TRANSPARENT.search(tf):
                    env[t["dst"][0]] = v
                bb = t["t"]
                continue
            if k == "multi":
                for x in t["ts"][1:] if multi is not None and n >= multi and not t.get("once") else t["ts"]:
                    go(x, dict(env), conds, events, seen, blocks, list(writes))
                return
            if k == "switch":
                term = op(t["d"], env)
                tg = [(v, x) for v, x in t["v"]]
                names = body.discr_names(bb) if term[0] == "discr" else None
                ty = Ty(body.crate, t["ty"])
                cv = constval(term, names)
                if cv is not None:
                    nxt = t["o"]
                    for v, x in tg:
                        if v == cv: nxt = x
                    bb = nxt
                    continue
                vals = [v for v, _ in tg]
                known = [c for c in conds if c[0] == (term[1] if term[0] == "discr" else term)]
                conv = (lambda v: names.get(v, v)) if names else ((lambda v: bool(v)) if ty.k == "bool" else ((lambda v: chr(v)) if ty.k == "char" else (lambda v: v)))
                key = term[1] if term[0] == "discr" else term
                alts = []
                want = evaluate(key, scenario) if scenario is not None else None
                for v, x in tg:
                    alts.append((("in", frozenset([conv(v)])), x))
                if names:
                    rest = frozenset(n2 for d, n2 in names.items() if d not in vals)
                    if rest: alts.append((("in", rest), t["o"]))
                elif ty.k == "bool":
                    rest = frozenset({True, False} - {bool(v) for v in vals})
                    if rest: alts.append((("in", rest), t["o"]))
                else:
                    alts.append((("not", frozenset(conv(v) for v in vals)), t["o"]))
                for a, x in alts:
                    if body._dead_end(x):
                        continue
                    if not compatible(known, a):
                        continue
                    if want is not None and (a[0] == "in") != (want in a[1]):
                        continue
                    go(x, dict(env), conds + ((key, a[0], a[1], bb),), events, seen, blocks, list(writes))
                return
            return

    go(start, dict(init or {}), (), (), {}, (), [])
    if os.environ.get("RULE_UND"):
        for c in {str(c[0])[:int(os.environ["RULE_UND"])] for t in out for c in t.conds}: print("undecided", body.path.split("::")[-1], c)
    return out


def below(t, root):
    while True:
        if t == root: return True
        if t[0] in ("fld", "as", "idx", "sub"): t = t[1]
        else: return False


def compatible(known, a):
    for _, m, s, *_ in known:
        if m == "in" and a[0] == "in" and not (s & a[1]): return False
        if m == "in" and a[0] == "not" and s <= a[1]: return False
        if m == "not" and a[0] == "in" and a[1] <= s: return False
    return True


def constval(t, names):
    if t[0] == "k":
        if isinstance(t[1], bool): return int(t[1])
        if isinstance(t[1], int): return t[1]
        if isinstance(t[1], str) and len(t[1]) == 1: return ord(t[1])
    if t[0] == "discr" and t[1][0] == "agg" and names:
        for d, n in names.items():
            if n == t[1][2]: return d
    return None


INT = re.compile(r"^([iu])(8|16|32|64|128|size)$")


def f32(x):
    import struct
    return struct.unpack("f", struct.pack("f", x))[0]


def convert(v, ty):
    """a known number as a number of a type: integers wrap, floats saturate"""
    m = INT.match(ty)
    if m:
        w = 64 if m[2] == "size" else int(m[2])
        if isinstance(v, int) and not isinstance(v, bool):
            v &= (1 << w) - 1
            return v - (1 << w) if m[1] == "i" and v >> (w - 1) else v
        if isinstance(v, tuple) and len(v) == 2 and v[0] in ("f32", "f64"):
            x = float(v[1])
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if m[1] == "i" else (0, (1 << w) - 1)
            return 0 if x != x else lo if x < lo else hi if x > hi else int(x)
    if ty in ("f32", "f64"):
        if isinstance(v, int) and not isinstance(v, bool): return (ty, f32(float(v)) if ty == "f32" else float(v))
        if isinstance(v, tuple) and len(v) == 2 and v[0] in ("f32", "f64"): return (ty, f32(float(v[1])) if ty == "f32" else float(v[1]))
    return None


def foldbin(o, a, b):
    if a[0] == "k" and b[0] == "k" and o in ("Add", "Sub", "Mul", "Div") and all(isinstance(x[1], tuple) and len(x[1]) == 2 and x[1][0] in ("f32", "f64") for x in (a, b)) and a[1][0] == b[1][0]:
        x, y = float(a[1][1]), float(b[1][1])
        if o != "Div" or y:
            v = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y}[o]()
            return ("k", (a[1][0], f32(v) if a[1][0] == "f32" else v))
    if a[0] == "k" and b[0] == "k" and isinstance(a[1], int) and isinstance(b[1], int):
        x, y = a[1], b[1]
        r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Eq": lambda: x == y, "Ne": lambda: x != y,
             "Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y, "Ge": lambda: x >= y,
             "BitOr": lambda: x | y, "BitAnd": lambda: x & y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y}.get(o)
        if r: return ("k", r())
        if o in ("Div", "Rem") and x >= 0 and y > 0: return ("k", x // y if o == "Div" else x % y)
    if o == "BitAnd":
        for x, y in ((a, b), (b, a)):
            if x[:2] == ("un", "Not") and x[2][0] == y[0] == "k" and type(x[2][1]) is type(y[1]) is int and y[1] >= 0 and x[2][1] >= 0: return ("k", y[1] & ~x[2][1])
    if a[0] == "k" and b[0] == "k" and o in ("Eq", "Ne") and isinstance(a[1], str) and isinstance(b[1], str): return ("k", (a[1] == b[1]) == (o == "Eq"))
    if a[0] == "k" and b[0] == "k" and o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and all(isinstance(x[1], tuple) and x[1] and x[1][0] in ("f32", "f64") for x in (a, b)):
        x, y = float(a[1][1]), float(b[1][1])
        return ("k", {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[o])
    if o in ("Eq", "Ne") and a[0] == b[0] == "discr" and a[1][0] == b[1][0] == "agg" and a[1][1] == b[1][1]: return ("k", (a[1][2] == b[1][2]) == (o == "Eq"))
    return ("bin", o, a, b)
