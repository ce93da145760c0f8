"""The interval tree, operation by operation, on every tree shape."""
import re
from functools import lru_cache
from grammar import *
from grammar import agg as plain_agg

RULE = ("The operations of the interval tree are evaluated abstractly over their MIR on every balanced tree of up to nine keys: insert at every position and on every key, remove of every key and of every key that is absent, "
        "lookups, and the range and owning iterators on every range; the tree that comes out holds what it should, in order, balanced, with the heights and the maxima that its shape gives.")
I = "interval_tree::"
NODE = I + "node::Node"


@lru_cache(None)
def shapes(n):
    """the balanced shapes with n keys: None or (left, right)"""
    if n == 0: return [None]
    return [(l, r) for i in range(n) for l in shapes(i) for r in shapes(n - 1 - i) if abs(height(l) - height(r)) <= 1]


def height(s): return 0 if s is None else 1 + max(height(s[0]), height(s[1]))
def size(s): return 0 if s is None else 1 + size(s[0]) + size(s[1])


def check(F, R):
    k = lambda x: ("k", x)

    def agg(ty, v=None, **kw):
        fs = [x["f"] for x in F.adt(ty)["variants"] if x["n"] == v or v is None or len(F.adt(ty)["variants"]) == 1][0]
        if set(x["n"] for x in fs) != set(kw): raise AnchorMissing("the fields of " + ty)
        return ("agg", ty, v, tuple(kw[x["n"]] for x in fs), tuple(x["n"] for x in fs))
    rng = lambda r: agg(I + "range::RangeInclusive", "RangeInclusive", start=k(r[0]), end=k(r[1]))

    def tree(s, keys, data):
        """the term of a tree, and the maximum of its ends"""
        if s is None: return NONE, None
        m = size(s[0])
        l, a = tree(s[0], keys[:m], data)
        r, b = tree(s[1], keys[m + 1:], data)
        mx = max(x for x in (a, b, keys[m][1]) if x is not None)
        return some(agg(NODE, "Node", key=rng(keys[m]), data=lst(*map(k, data(keys[m]))), height=k(height(s)), max=k(mx), left=l, right=r)), mx

    def unbox(x):
        while x[0] == "agg" and x[1] != NODE and len(x[3]) >= 1: x = x[3][0]
        return x

    class Wrong(Exception): pass

    def fields(x):
        x = unbox(x)
        if x[0] != "agg" or x[1] != NODE: raise Undecided("a node: " + rend(x)[:200])
        return dict(zip(x[4], x[3]))

    def pair(x):
        d = dict(zip(x[4], x[3])) if x[0] == "agg" and x[1] == I + "range::RangeInclusive" else None
        if d is None or d["start"][0] != "k" or d["end"][0] != "k": raise Undecided("a range: " + rend(x)[:200])
        return d["start"][1], d["end"][1]

    def walk(x):
        """the entries of a tree in order, its height and its maximum"""
        if x[0] != "agg" or x[2] not in ("Some", "None"): raise Undecided("a subtree: " + rend(x)[:200])
        if x[2] == "None": return [], 0, None
        d = fields(x[3][0])
        l, lh, lm = walk(d["left"])
        r, rh, rm = walk(d["right"])
        key = pair(d["key"])
        h, m = 1 + max(lh, rh), max(y for y in (lm, rm, key[1]) if y is not None)
        if plain(d["height"]) != h: raise Wrong(f"the height of the node {key} is recorded as {plain(d['height'])}, is {h}")
        if plain(d["max"]) != m: raise Wrong(f"the maximum below the node {key} is recorded as {plain(d['max'])}, is {m}")
        if abs(lh - rh) > 1: raise Wrong(f"the node {key} is out of balance")
        return l + [(key, plain(d["data"]))] + r, h, m

    def calls(fn, tf, a, places, e, write):
        n = tf.split("::")[-1]
        if n == "new" and "boxed::Box" in fn: return a[0]
        if n in ("max", "min") and len(a) == 2 and a[0][0] == a[1][0] == "k" and tf.startswith("core::cmp"): return k((max if n == "max" else min)(a[0][1], a[1][1]))
        if n == "with_capacity" and "Vec" in fn: return lst()
        if n == "clone" and len(a) == 1 and a[0][0] == "k": return a[0]
        if n == "clone_from" and len(a) == 2 and places[0] is not None and a[1][0] == "k":
            write(places[0], a[1])
            return UNIT
        if n == "into_iter" and a[0][0] == "list" and "Vec" in tf: return ("iter", a[0][1])
        return None
    M = Machine(F, calls, lambda b: b.path.startswith((I, "<" + I)), visits=60)
    T, RI, II = I + "tree::IntervalTree", I + "iterators::RangePairIter", I + "iterators::IntoIter"

    def method(ty, name):
        l = [b for b in F.bodies if b.k != "closure" and b.name == name and re.sub("<[^<>]*>", "", norm_path(b.path).lstrip("<")).startswith((ty + "::", ty + " as "))]
        if len(l) != 1: raise AnchorMissing(f"{len(l)} functions {ty}::{name}")
        return l[0]
    root = lambda t: agg(T, "IntervalTree", root=t)

    def one(o, args, env):
        ts = M.run(o, args, env)
        if len(ts) != 1: raise Undecided(f"{len(ts)} outcomes of {o.path}: {[str(c)[:160] for t in ts for c in t.conds][:3]}")
        if ts[0].end == "panic": raise Wrong(f"{o.path} panics")
        return ts[0]

    def worlds(most):
        for n in range(most + 1):
            keys = [(10 * i, 10 * i + 1) for i in range(1, n + 1)]
            variants = [keys]
            if 0 < n < 8: variants += [[(a, 500) if i == j else (a, b) for i, (a, b) in enumerate(keys)] for j in sorted({0, n // 2, n - 1})]
            if 1 < n < 8: variants += [[(10 + 10 * (i // 2), 11 + 10 * (i % 2)) for i in range(n)]]
            for s in shapes(n):
                for ks in variants: yield s, ks
    data = lambda key: [key[0] * 1000 + key[1]] if key[0] % 20 else [key[0], key[1]]
    show = lambda s: "." if s is None else "(%s%s)" % (show(s[0]), show(s[1])) if s != (None, None) else "o"

    def at(f, o, key, say):
        try: msg = f()
        except Undecided as u: msg = "undecided: " + str(u)[:300]
        except Wrong as u: msg = str(u)
        R.ob(key, msg is None, o.where(), f"{say}: {msg}")

    def p_change():
        ins, rem, merge = method(T, "insert"), method(T, "remove"), None
        count = [0, 0]
        for s, keys in worlds(9):
            t, _ = tree(s, keys, data)
            have = [(x, data(x)) for x in keys]
            absent = sorted({(a + d, b + d) for a, b in keys for d in (-5, 5)} | {(a, b + 3) for a, b in keys[:2]} | {(a, a) for a, b in keys[-1:]} | ({(3, 4)} if not keys else set()) - set(keys))
            absent = [x for x in absent if x not in keys]
            for x in keys + absent + [(9, 900)]:
                def insert():
                    r = one(ins, [("at", (SELF,)), rng(x), k("new")], {SELF: root(t)})
                    got = walk(dict(zip(r.env[SELF][4], r.env[SELF][3]))["root"])[0]
                    want = sorted([y for y in have if y[0] != x] + [(x, (data(x) if x in keys else []) + ["new"])], key=lambda y: y[0])
                    return None if got == want else f"it holds {got}, should hold {want}"
                at(insert, ins, ("insert", show(s), str(keys), str(x)), f"{x} inserted into {show(s)} of {keys}")
                count[0] += 1
            for x in keys + absent[:3]:
                def remove():
                    r = one(rem, [("at", (SELF,)), rng(x)], {SELF: root(t)})
                    got = walk(dict(zip(r.env[SELF][4], r.env[SELF][3]))["root"])[0]
                    want = [y for y in have if y[0] != x]
                    return None if got == want else f"it holds {got}, should hold {want}"
                at(remove, rem, ("remove", show(s), str(keys), str(x)), f"{x} removed from {show(s)} of {keys}")
                count[1] += 1
        R.count("insertions", count[0], 4000)
        R.count("removals", count[1], 2000)
        for b in M.seen: R.saw(b)
    R.part("change", p_change)

    def opt(x, f):
        if x[0] != "agg" or x[2] not in ("Some", "None"): raise Undecided("an option: " + rend(x)[:200])
        return None if x[2] == "None" else f(x[3][0])

    def p_read():
        get, has, mn, mx, emp = (method(T, x) for x in ("get", "contains", "min", "max", "is_empty"))
        n = 0
        for s, keys in worlds(6):
            t, _ = tree(s, keys, data)
            for x in keys + [(a + 5, b) for a, b in keys] + [(a, b + 3) for a, b in keys] + [(3, 4)]:
                want = data(x) if x in keys else None

                def lookup():
                    g = opt(one(get, [root(t), rng(x)], {}).result, plain)
                    if g != want: return f"get gives {g}, should give {want}"
                    c = plain(one(has, [root(t), rng(x)], {}).result)
                    if c != (x in keys): return f"contains says {c}"
                at(lookup, get, ("get", show(s), str(keys), str(x)), f"{x} looked up in {show(s)} of {keys}")
                n += 1

            def ends():
                for o, w in ((mn, keys[:1]), (mx, keys[-1:])):
                    g = opt(one(o, [root(t)], {}).result, lambda y: (pair(y[3][0]), plain(y[3][1])))
                    if g != ((w[0], data(w[0])) if w else None): return f"{o.name} gives {g}"
                g = plain(one(emp, [root(t)], {}).result)
                if g != (not keys): return f"is_empty says {g}"
            at(ends, mn, ("ends", show(s), str(keys)), f"{show(s)} of {keys}")
        R.count("lookups", n, 500)
        for b in M.seen: R.saw(b)
    R.part("read", p_read)

    def p_iter():
        ran, al, nxt, own, onx = method(T, "range"), method(T, "iter"), method(RI, "next"), method(T, "into_iter"), method(II, "next")
        n = 0

        def drain(it, o, most):
            out, e = [], {SELF: it}
            for _ in range(most + 1):
                r = one(o, [("at", (SELF,))], e)
                e = {SELF: r.env[SELF]}
                y = opt(r.result, lambda y: (pair(y[3][0]), plain(y[3][1])))
                if y is None: return out
                out.append(y)
            return out
        for s, keys in worlds(5):
            t, _ = tree(s, keys, data)
            flat = [(x, d) for x in keys for d in data(x)]
            edges = sorted({a for x in keys for a in (x[0], x[1])} | {5, 14, 600}) if len(keys) < 4 else sorted({x[0] for x in keys} | {x[1] for x in keys} | {14})
            for a in edges:
                for b in edges:
                    if b < a: continue
                    want = [y for y in flat if y[0][1] >= a and y[0][0] <= b]

                    def rangeq():
                        it = one(ran, [root(t), rng((a, b))], {}).result
                        got = drain(it, nxt, len(flat) + 1)
                        return None if got == want else f"it yields {got}, should yield {want}"
                    at(rangeq, nxt, ("range", show(s), str(keys), a, b), f"{a}..={b} of {show(s)} of {keys}")
                    n += 1

            def everything():
                got = drain(one(al, [root(t)], {}).result, nxt, len(flat) + 1)
                if got != flat: return f"iter yields {got}"
                got = drain(one(own, [root(t)], {}).result, onx, len(flat) + 1)
                if got != flat: return f"into_iter yields {got}"
            at(everything, nxt, ("iter", show(s), str(keys)), f"{show(s)} of {keys}")
        R.count("ranges", n, 500)
        for b in M.seen: R.saw(b)
    R.part("iter", p_iter)
