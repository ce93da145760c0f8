"""Functions over a queue of tokens, evaluated abstractly: a token may stand for anything of a kind (an expression, a block), which is what the function that reads that kind is taken to return."""
import os, re
from lib import *
from text import strings, compare

SELF = 10 ** 7


class Beyond(Exception):
    """more tokens are wanted than are known"""


class Undecided(Exception):
    """the outcome depends on something that is not known"""


UNIT_ = ("agg", "tuple", "", (), ())


class Machine:
    """calls(fn path, args, places, env, write): the result of a call, None if the machine is to look at its body or knows nothing of it.
    inline(path): is this function evaluated in place of its call?"""
    def __init__(s, F, calls, inline, seed=None, visits=12):
        s.F, s.calls, s.inline, s.seed, s.visits = F, calls, inline, seed or strings, visits
        s.bodies = {}
        s.next = SELF
        s.seen = set()

    def body(s, o):
        if o.h not in s.bodies:
            s.bodies[o.h] = b = prep(o)
            # collect() into a type of this crate is that type's from_iter
            for bl in b.blocks if "own collect" not in b._c else ():
                t = bl["t"]
                if t["k"] == "call" and (t.get("fn") or "").endswith("Iterator::collect") and len(t["dst"]) == 1 and b.ty(t["dst"][0]).d:
                    l = [c for c in s.F.bodies if c.k == "fn" and c.path.startswith("<%s as core::iter::traits::collect::FromIterator" % b.ty(t["dst"][0]).d)]
                    if len(l) == 1: t.update(fn=l[0].path, h=l[0].h, rfn=None, rh=None)
            b._c["own collect"] = True
        return s.bodies[o.h]

    def function(s, f):
        """the body of a function that is passed as a value"""
        return s.F.by_hash.get(f[2]) if f[0] == "fn" and len(f) > 2 else None

    def run(s, o, args, env, depth=0):
        """evaluate the body o with these arguments in state env: [(result, env, trace)]"""
        if depth > 40: raise Undecided("recursion in " + o.path)
        b = s.body(o)
        s.seen.add(o)
        init = {k: v for k, v in env.items() if k == SELF or isinstance(k, str) or isinstance(k, int) and k >= SELF}
        for i, a in enumerate(args): init[i + 1] = a

        def hook(fn, tf, a, places, e, write, bd):
            s.ga = hook.ga
            r = s.calls(fn, tf, a, places, e, write)
            if r is not None: return r
            n = tf.split("::")[-1]
            if n in ("call", "call_mut", "call_once") and "ops::function" in tf and a:
                f = a[0]
                c = s.F.by_hash.get(f[2]) if f[0] == "agg" and f[1] == "closure" else s.function(f)
                if c is None: return None
                rest = list(a[1][3]) if len(a) > 1 and a[1][:2] == ("agg", "tuple") else list(a[1:])
                if c.k == "closure": return s.enter(c, [f] + rest, [places[0]] + [None] * len(rest), e, write, depth, True)
                r = s.calls(norm_path(c.path), norm_path(c.path), tuple(rest), (None,) * len(rest), e, write)
                return r if r is not None else s.enter(c, rest, [None] * len(rest), e, write, depth, False)
            if n == "unwrap_or_default" and a[0][0] == "agg" and a[0][2] in ("Some", "Ok"): return a[0][3][0]
            if n == "unwrap_or_default" and a[0][0] == "agg" and hook.ga: return s.default(hook.ga[0], e, write, depth)
            if n in ("cmp", "partial_cmp", "lt", "le", "gt", "ge") and len(a) == 2 and "core::cmp" in tf:
                r = s.order(n, [s.index(x) for x in a], bd is not None, e, write, depth)
                if r is not None: return r
            if n in s.EACH and tf.startswith(("core::iter", "<")) and len(a) >= 2 and a[0][0] in ("iter", "list") and (a[-1][:2] == ("agg", "closure") or a[-1][0] == "fn"):
                return s.each(n, a, places, e, write, depth)
            if n in ("add", "sub", "mul", "div", "rem") and tf.startswith("core::ops::arith") and len(a) == 2 and a[0][0] == a[1][0] == "k":
                r = foldbin(n.capitalize(), a[0], a[1])
                if r[0] == "k": return r
            if n == "contains" and len(a) == 2 and "Range" in tf and a[1][0] == "k" and type(a[1][1]) is int:
                x, v = a[0], a[1][1]
                if x[0] == "call" and x[1].endswith("RangeInclusive::new") and all(y[0] == "k" for y in x[2]): return ("k", x[2][0][1] <= v <= x[2][1][1])
                if x[0] in ("iter", "list") and all(y[0] == "k" for y in x[1]): return ("k", a[1] in x[1])
                if x[0] == "agg" and "Range" in x[1]:
                    d = dict(zip(x[4], x[3])) if len(x) > 4 and x[4] else {}
                    if d and all(y[0] == "k" for y in d.values()): return ("k", ("start" not in d or d["start"][1] <= v) and ("end" not in d or (v <= d["end"][1] if "Inclusive" in x[1] else v < d["end"][1])))
            if n in ("min", "max", "clamp") and tf.startswith("core::cmp") and all(x[0] == "k" and type(x[1]) is int for x in a): return ("k", min(a[0][1], a[1][1]) if n == "min" else max(a[0][1], a[1][1]) if n == "max" else max(a[1][1], min(a[0][1], a[2][1])))
            if n == "zip" and len(a) == 2:
                # an open range beside something that ends
                op_ = lambda x: x[0] == "agg" and x[1].endswith("RangeFrom") and x[3][0][0] == "k" and isinstance(x[3][0][1], int)
                if op_(a[0]) or op_(a[1]):
                    fin = a[1] if op_(a[0]) else a[0]
                    if fin[0] == "agg" and fin[1].endswith(("::Range", "RangeInclusive")) and all(y[0] == "k" for y in fin[3][:2]):
                        fin = ("iter", tuple(("k", i) for i in range(fin[3][0][1], fin[3][1][1] + fin[1].endswith("RangeInclusive"))))
                    if fin[0] in ("iter", "list"):
                        st = (a[0] if op_(a[0]) else a[1])[3][0][1]
                        return ("iter", tuple(("agg", "tuple", "", ((("k", st + i), x) if op_(a[0]) else (x, ("k", st + i))), ()) for i, x in enumerate(fin[1])))
            if n in ("sort", "sort_unstable") and len(a) == 1 and a[0][0] == "list" and places[0] is not None and all(x[0] == "k" and type(x[1]) in (int, str) for x in a[0][1]) and len(set(type(x[1]) for x in a[0][1])) < 2:
                write(places[0], ("list", tuple(sorted(a[0][1], key=lambda x: x[1]))))
                return UNIT_
            if n in ("retain", "retain_mut", "sort_by_key", "sort_by_cached_key", "sort_unstable_by_key", "sort_by", "sort_unstable_by") and len(a) == 2 and a[0][0] == "list" and places[0] is not None and (a[1][:2] == ("agg", "closure") or a[1][0] == "fn"):
                r = s.arrange(n, a, places, e, write, depth)
                if r is not None: return r
            if n in ("eq", "ne") and len(a) == 2 and a[0][0] == "agg" and a[1][0] == "k" and isinstance(a[1][1], str) and "core::cmp::impls" in fn:
                l = [x for x in s.F.bodies if x.path == "<%s as core::cmp::PartialEq<str>>::eq" % a[0][1]]
                if len(l) == 1:
                    r = s.enter(l[0], a, [None, None], e, write, depth, False)
                    if r[0] == "k": return ("k", r[1] == (n == "eq"))
            if n == "default" and not a and hook.ga and (hook.ga[0].d == "alloc::vec::Vec" or re.fullmatch("[iu](8|16|32|64|128|size)|bool|f32|f64|&str", hook.ga[0].s)): return s.default(hook.ga[0], e, write, depth)
            if n == "clone_from" and len(a) == 2 and places[0] is not None and "core::clone" in tf:
                write(places[0], a[1])
                return UNIT_
            if n == "iter_mut" and len(a) == 1 and a[0][0] == "list" and places[0] is not None or n == "into_iter" and len(a) == 1 and a[0][0] == "list" and places[0] is not None and re.match("<&('\\w+ )?mut ", fn):
                return ("iter", tuple(("at", tuple(places[0]) + (("el", i),)) for i in range(len(a[0][1]))))
            if bd is not None and s.inline(bd): return s.enter(bd, a, places, e, write, depth, False)
            return None
        hook.const = s.const
        out = []
        for t in traces(b, limit=4000, visits=s.visits, lists="maps", env=compare, seed=s.seed, init=init, hook=hook):
            if t.end in ("return", "panic"): out.append(t)
            else: raise Undecided("a loop in " + o.path)
        return out

    def default(s, ty, e, write, depth):
        if re.fullmatch("[iu](8|16|32|64|128|size)", ty.s): return ("k", 0)
        if ty.s == "bool": return ("k", False)
        if ty.s in ("f32", "f64"): return ("k", (ty.s, 0.0))
        if ty.s in ("&str", "alloc::string::String", "String"): return ("k", "")
        if ty.d in ("alloc::vec::Vec",): return ("list", ())
        if ty.d and ty.d.endswith("option::Option"): return ("agg", ty.d, "None", (), ())
        l = [b for b in s.F.bodies if b.k == "fn" and ty.d and re.sub("<('[a-z_]+(, )?)+>", "", b.path) == "<%s as core::default::Default>::default" % ty.d]
        return s.enter(l[0], [], [], e, write, depth, False) if len(l) == 1 else None

    def index(s, x):
        """the discriminant of a known variant is its position"""
        if x[0] == "discr" and x[1][0] == "agg":
            v = list(s.F.variants(x[1][1]))
            return ("k", v.index(x[1][2])) if x[1][2] in v else x
        return x

    def order(s, n, a, own, e, write, depth):
        x, y = a
        if x[0] == y[0] == "k" and type(x[1]) is type(y[1]) is int: c = (x[1] > y[1]) - (x[1] < y[1])
        elif x[0] == y[0] == "agg" and x[1] == y[1] and not own and n != "cmp":
            l = [b for b in s.F.bodies if norm_path(b.path) == "<%s as core::cmp::PartialOrd>::partial_cmp" % x[1]]
            if len(l) != 1: return None
            r = s.enter(l[0], a, [None, None], e, write, depth, False)
            if r[0] != "agg" or r[2] != "Some" or r[3][0][0] != "agg": raise Undecided("an order")
            c = {"Less": -1, "Equal": 0, "Greater": 1}[r[3][0][2]]
        else: return None
        if n in ("cmp", "partial_cmp"):
            r = ("agg", "core::cmp::Ordering", {-1: "Less", 0: "Equal", 1: "Greater"}[c], (), ())
            return r if n == "cmp" else ("agg", "core::option::Option", "Some", (r,), ("0",))
        return ("k", {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[n])

    EACH = ("find", "position", "any", "all", "map", "filter", "filter_map", "find_map", "for_each", "fold", "try_fold", "try_for_each", "take_while", "skip_while")

    def each(s, n, a, places, e, write, depth):
        """iterator adaptors over known elements, in the order in which they would run for one consumer that takes everything"""
        f = a[-1]
        c = s.F.by_hash.get(f[2]) if f[1] == "closure" or f[0] == "fn" else None
        if c is None: return None

        def call(*x):
            r = s.calls(norm_path(c.path), norm_path(c.path), tuple(x), (None,) * len(x), e, write) if c.k != "closure" else None
            if r is not None: return r
            return s.enter(c, [f] + list(x), [places[-1]] + [None] * len(x), e, write, depth, True) if c.k == "closure" else s.enter(c, list(x), [None] * len(x), e, write, depth, False)

        def true(x):
            if x[0] != "k" or not isinstance(x[1], bool): raise Undecided("a test of an element: " + rend(x)[:300])
            return x[1]
        some = lambda x: ("agg", "core::option::Option", "Some", (x,), ("0",))
        none = ("agg", "core::option::Option", "None", (), ())
        items, out = a[0][1], []
        if n == "fold":
            acc = a[1]
            for x in items: acc = call(acc, x)
            return acc
        if n in ("try_fold", "try_for_each"):
            acc, r, k = a[1] if n == "try_fold" else UNIT_, None, 0
            for k, x in enumerate(items, 1):
                r = call(acc, x) if n == "try_fold" else call(x)
                if r[0] != "agg" or r[2] not in ("Ok", "Some", "Err", "None", "Continue", "Break"): raise Undecided("the outcome for an element")
                if r[2] in ("Err", "None", "Break"): break
                acc = r[3][0]
            if places[0] is not None: write(places[0], (a[0][0], tuple(items[k:])))
            if r is not None: return r
            ty = c.ty(0).d or ""
            for w, v in (("Result", "Ok"), ("Option", "Some"), ("ControlFlow", "Continue")):
                if ty.endswith("::" + w): return ("agg", ty, v, (acc,), ("0",))
            raise Undecided("a fold of nothing")
        k = 0
        for k, x in enumerate(items):
            r = call(x)
            if n == "map": out.append(r)
            elif n == "for_each": pass
            elif n in ("filter_map", "find_map"):
                if r[0] != "agg" or r[2] not in ("Some", "None"): raise Undecided("an element")
                if r[2] == "Some":
                    if n == "find_map": break
                    out.append(r[3][0])
            else:
                if true(r):
                    if n in ("find", "position", "any"): break
                    if n in ("filter", "take_while"): out.append(x)
                elif n in ("all", "take_while"): break
                if n == "skip_while" and not true(r):
                    out = list(items[k:])
                    break
        else: k = len(items)
        if n in ("find", "position", "any", "all", "find_map"):
            if places[0] is not None: write(places[0], (a[0][0], tuple(items[k + 1:])))
            hit = k < len(items)
            return {"find": lambda: some(items[k]) if hit else none, "position": lambda: some(("k", k)) if hit else none, "any": lambda: ("k", hit), "all": lambda: ("k", not hit),
                    "find_map": lambda: r if hit else none}[n]()
        if n == "for_each": return ("agg", "tuple", "", (), ())
        return ("iter", tuple(out))

    def arrange(s, n, a, places, e, write, depth):
        """retain and the sorts; of equal elements a sort that is not stable takes the last first"""
        f = a[1]
        c = s.F.by_hash.get(f[2])
        if c is None: return None
        from functools import cmp_to_key
        call = lambda *x: s.enter(c, ([f] if c.k == "closure" else []) + list(x), ([places[1]] if c.k == "closure" else []) + [None] * len(x), e, write, depth, c.k == "closure")

        def comp(x, y):
            if x[:2] == y[:2] == ("agg", "tuple"):
                for u, v in zip(x[3], y[3]):
                    r = comp(u, v)
                    if r: return r
                return 0
            if x[0] == y[0] == "agg" and x[1] == y[1] and x[1].endswith("cmp::Reverse"): return comp(y[3][0], x[3][0])
            if x[0] == y[0] == "k" and type(x[1]) is type(y[1]): return (x[1] > y[1]) - (x[1] < y[1])
            r = None
            if x[0] == "agg":
                l = [b for b in s.F.bodies if norm_path(b.path) == "<%s as core::cmp::Ord>::cmp" % x[1]]
                if len(l) == 1: r = s.enter(l[0], [x, y], [None, None], e, write, depth, False)
            if r is None: r = s.order("cmp", (x, y), False, e, write, depth)
            if r is None: raise Undecided("an order of " + rend(x)[:100])
            return {"Less": -1, "Equal": 0, "Greater": 1}[r[2]]
        xs = list(a[0][1])
        if n.startswith("retain"):
            out = []
            for x in xs:
                r = call(x)
                if r[0] != "k" or not isinstance(r[1], bool): raise Undecided("whether an element stays")
                if r[1]: out.append(x)
        else:
            if "unstable" in n: xs.reverse()
            if "key" in n:
                ks = [call(x) for x in xs]
                out = [xs[i] for i in sorted(range(len(xs)), key=cmp_to_key(lambda i, j: comp(ks[i], ks[j])))]
            else:
                def by(x, y):
                    r = call(x, y)
                    if r[0] != "agg" or r[2] not in ("Less", "Equal", "Greater"): raise Undecided("an order of elements")
                    return {"Less": -1, "Equal": 0, "Greater": 1}[r[2]]
                out = sorted(xs, key=cmp_to_key(by))
        write(places[0], ("list", tuple(out)))
        return UNIT_

    def enter(s, c, args, places, e, write, depth, closure):
        env = {k: v for k, v in e.items() if k == SELF or isinstance(k, str) or isinstance(k, int) and k >= SELF}
        back = []

        def lend(pl):
            if pl[0] == SELF or isinstance(pl[0], int) and pl[0] >= SELF: return ("at", pl)
            s.next += 1
            env[s.next] = s.read(e, pl)
            back.append((s.next, pl))
            return ("at", (s.next,))

        def conv(x):
            if x[0] == "at": return lend(x[1])
            if x[0] == "agg" and x[1] == "closure": return x[:3] + (tuple(conv(y) for y in x[3]),) + x[4:]
            return x
        o = s.body(c)
        new = []
        for i, (a, pl) in enumerate(zip(args, places)):
            if pl is not None and o.ty(i + 1).k == "refmut": new.append(lend(pl))
            else: new.append(conv(a))
        if closure and new[0][0] != "at":
            s.next += 1
            env[s.next] = new[0]
            new[0] = ("at", (s.next,)) if o.ty(1).k in ("ref", "refmut") else env[s.next]
        elif closure and new[0][0] == "at": env[new[0][1][0]] = conv(env[new[0][1][0]]) if len(new[0][1]) == 1 else env[new[0][1][0]]
        key = s.key(o, c, new, env)
        if key is not None and key in s.memo: return s.memo[key]
        ts = s.run(c, new, env, depth + 1)
        if len(ts) != 1 and os.environ.get("RULE_DEBUG"):
            for t in ts[:3]: print("OUTCOME", rend(t.result)[:200], [(rend(x[0])[:200],) + tuple(x[1:]) for x in t.conds][-3:])
        if len(ts) != 1: raise Undecided("%d outcomes of %s" % (len(ts), c.path))
        t = ts[0]
        gone = set(env) - set(e)
        if gone and mentions(t.result, lambda x: x[0] == "at" and isinstance(x[1], tuple) and x[1][0] in gone): gone = set()
        for k, v in t.env.items():
            if (k == SELF or isinstance(k, str) or isinstance(k, int) and k >= SELF) and k not in gone: e[k] = v
        for k, pl in back: write(pl, t.env[k])
        if key is not None and t.end == "return" and not mentions(t.result, lambda x: x[0] == "at" and isinstance(x[1], tuple)): s.memo[key] = t.result
        return t.result if t.end == "return" else ("panic", rend(t.result))

    memo = {}
    const = None

    def key(s, o, c, args, env):
        """what a function that sees nothing but values depends on"""
        if any(o.ty(i + 1).k == "refmut" for i in range(len(args))): return None
        out = []

        def value(x, d=0):
            if x[0] == "at":
                if x[1][0] == SELF or d > 3: raise KeyError
                return value(s.read(env, x[1]), d + 1)
            if x[0] == "agg" and x[1] == "closure": return x[:3] + (tuple(value(y, d) for y in x[3]),)
            if x[0] in ("k", "fn"): return x
            if x[0] == "agg": return x[:3] + (tuple(value(y, d) for y in x[3]),)
            raise KeyError
        try: return (s.F, o.h if hasattr(o, "h") else c.h, tuple(map(value, args)))
        except KeyError: return None

    def read(s, e, pl):
        t = e.get(pl[0], ("var", pl[0]))
        for x in pl[1:]:
            if x == "*":
                if t[0] == "at": t = s.read(e, t[1])
            elif x[0] == "f":
                if t[0] == "agg" and x[2] is not None and x[2] < len(t[3]): t = t[3][x[2]]
                else: t = ("fld", t, x[1])
            elif x[0] == "el" and t[0] == "list": t = t[1][x[1]]
            elif x[0] == "el" and t[:2] == ("agg", "array"): t = t[3][x[1]]
            else: t = ("?", t)
        return t
