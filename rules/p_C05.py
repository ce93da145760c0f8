"""Map coordinates, grid layout and keys form one consistent addressing."""
from lib import *
import string

RULE = """Decision tables and closed forms from MIR: the raw grid index of a coordinate and its inverse as affine forms, the bounds under
which a coordinate panics, the axis order of every grid that is created or iterated, the digits a key is formatted with (for every key
length) against the digits the reader assigns to the same letters, and the key length chosen for every boundary key number."""
D = "dmm_tools::dmm::"
ALPHA = string.ascii_lowercase + string.ascii_uppercase


def arg(n): return ("arg", n)


def lin(t):
    return linear(t)


def proj(t, *fs):
    for f in fs:
        t = ("fld", t, f)
    return t


def check(F, R):
    def results(path, ends=("return",), visits=1, **kw):
        o = R.fn(path)
        b = prep(o, **kw)
        return o, b, [t for t in traces(b, visits=visits) if t.end in ends]

    def tup(t, n):
        return t is not None and t[0] == "agg" and len(t[3]) == n

    def affine(key, o, b, t, want, msg):
        """want: (coefficients by leaf path)"""
        got = lin(t)
        R.ob(key, got == lin(want), o.where(), "%s is %s" % (msg, show(t, b)))

    def p_coords():
        x, y, z = (proj(arg(1), c) for c in "xyz")
        k1 = ("k", 1)
        sub = lambda a, b_: ("bin", "Sub", a, b_)
        add = lambda a, b_: ("bin", "Add", a, b_)
        # Coord2: dims (y, x); Coord3: dims (z, y, x)
        for ty, dims in (("Coord2", "yx"), ("Coord3", "zyx")):
            o, b, tr = results(D + ty + "::to_raw", ("return", "panic"))
            dim = {c: proj(arg(2), str(i)) for i, c in enumerate(dims)}
            rets = [t for t in tr if t.end == "return"]
            R.ob(ty + ":index", bool(rets), o.where(), "never returns")
            for t in rets:
                ok = tup(t.result, len(dims))
                R.ob(ty + ":index-shape", ok, o.where(), "the index is %s" % show(t.result, b))
                if not ok: continue
                for i, c in enumerate(dims):
                    want = sub(dim["y"], y) if c == "y" else sub(proj(arg(1), c), k1)
                    affine("%s:index:%s" % (ty, c), o, b, t.result[3][i], want, "the %s index of a coordinate" % c)
            # bounds, with a different size in every direction
            size = {"x": 5, "y": 9, "z": 14}
            for c in dims:
                for v in (-3, 0, 1, 2, size[c] - 1, size[c], size[c] + 1, size[c] + 2):
                    fine = 1 <= v <= size[c]

                    def env(t, c=c, v=v):
                        for c2 in dims:
                            if base(t) == proj(arg(1), c2) or t == proj(arg(1), c2): return v if c2 == c else 2
                            if t == dim[c2]: return size[c2]
                        return None
                    ts = fit(tr, env)
                    ends = {t.end for t in ts}
                    R.ob("%s:bounds:%s:%d" % (ty, c, v), ends == ({"return"} if fine else {"panic"}), o.where(), "%s = %d in a map of size %d is %s" % (c, v, size[c], "rejected" if fine else "accepted"))
            o, b, tr = results(D + ty + "::from_raw")
            for t in tr:
                ok = tup(t.result, len(dims))
                R.ob(ty + ":from-shape", ok, o.where(), "the coordinate is %s" % show(t.result, b))
                if not ok: continue
                names = list(t.result[4]) if len(t.result) > 4 and t.result[4] else ["x", "y", "z"][:len(dims)]
                for n, v in zip(names, t.result[3]):
                    i = str(dims.index(n))
                    want = sub(proj(arg(2), i), proj(arg(1), i)) if n == "y" else add(proj(arg(1), i), k1)
                    affine("%s:from:%s" % (ty, n), o, b, v, want, "the %s coordinate of an index" % n)
        # conversions and steps
        o, b, tr = results(D + "Coord2::z")
        for t in tr:
            names = list(t.result[4]) if len(t.result) > 4 and t.result[4] else list("xyz")
            for n, v in zip(names, t.result[3]):
                R.ob("Coord2::z:" + n, base(v) == (arg(2) if n == "z" else proj(arg(1), n)), o.where(), "%s of the coordinate is %s" % (n, show(v, b)))
        o, b, tr = results(D + "Coord3::xy")
        for t in tr:
            for n, v in zip(t.result[4] or "xy", t.result[3]):
                R.ob("Coord3::xy:" + n, base(v) == proj(arg(1), n), o.where(), "%s of the coordinate is %s" % (n, show(v, b)))
        for ty in ("Coord2", "Coord3"):
            for m in ("new",):
                o, b, tr = results(D + ty + "::new")
                for t in tr:
                    for i, (n, v) in enumerate(zip(t.result[4] or "xyz", t.result[3])):
                        R.ob("%s::new:%s" % (ty, n), base(v) == arg("xyz".index(n) + 1), o.where(), "%s is %s" % (n, show(v, b)))
        adds = [x for x in F.bodies if x.npath.startswith("<" + D + "Coord2 as core::ops::arith::Add") and x.k == "fn"]
        R.count("coordinate_steps", len(adds), 1)
        for o in adds:
            R.saw(o)
            b = prep(o)
            for t in traces(b):
                ok = t.end == "return" and tup(t.result, 2)
                R.ob("step:shape", ok, o.where(), "a step gives %s" % show(t.result, b))
                if not ok: continue
                for n, v in zip(t.result[4] or "xy", t.result[3]):
                    l = lin(v)
                    i = "01"["xy".index(n)]
                    okv = len(l) == 2 and l.get(canon(proj(arg(1), n))) == 1 and any(k and k[0] == "fld" and k[2] == i and mentions(k, lambda q: q[0] == "call" and q[1].endswith("Dir::offset")) and c == 1 for k, c in l.items())
                    R.ob("step:" + n, okv, o.where(), "a step changes %s to %s" % (n, show(v, b)))
    R.part("coordinates", p_coords)

    def p_access():
        grid = lambda t: base(t) == proj(arg(1), "grid") or t == proj(arg(1), "grid")
        for ty, c in (("Map", "Coord3"), ("ZLevel", "Coord2")):
            l = [x for x in F.bodies if x.k == "fn" and x.npath.startswith("<" + D + ty) and "Index<" in x.npath and x.npath.endswith("::index")]
            R.count("index:" + ty, len(l), 1)
            for o in l:
                R.saw(o)
                b = prep(o)
                for t in traces(b):
                    r = eta(t.result)
                    ok = r is not None and r[0] == "call" and r[1].endswith("::index") and grid(r[2][0]) and r[2][1][0] == "call" and r[2][1][1].endswith(c + "::to_raw") and r[2][1][2][0] == arg(2) \
                        and r[2][1][2][1][0] == "call" and r[2][1][2][1][1].endswith("::dim") and grid(r[2][1][2][1][2][0])
                    R.ob("index:" + ty, ok, o.where(), "indexing a %s by coordinate reads %s" % (ty, show(r, b)))
        # top-down iteration
        o = R.fn(D + "ZLevel::iter_top_down")
        b = prep(o)
        for t in traces(b):
            r = t.result
            dim = lambda q: q[0] == "call" and q[1].endswith("::dim") and grid(q[2][0])
            ok = r[0] == "call" and r[1].endswith("::map") and r[2][0][0] == "call" and r[2][0][1].endswith("::indexed_iter") and grid(r[2][0][2][0]) and r[2][1][0] == "agg" and len(r[2][1][3]) == 1 and dim(r[2][1][3][0])
            R.ob("top-down", ok, o.where(), "the level is iterated as %s" % show(r, b))
        for c in o.closures:
            cb = prep(c)
            for t in traces(cb):
                ok = tup(t.result, 2) and t.result[3][0][0] == "call" and t.result[3][0][1].endswith("Coord2::from_raw") and t.result[3][0][2][0] == proj(arg(2), "0") and t.result[3][0][2][1][0] in ("fld", "up") and base(t.result[3][1]) == proj(arg(2), "1")
                R.ob("top-down:item", ok, c.where(), "the item is %s" % show(t.result, cb))
        # levels
        o, b, tr = results(D + "Map::iter_levels")
        for t in tr:
            r = t.result
            ax = axis_of(r)
            ok = r[0] == "call" and r[1].endswith("::map") and r[2][0][0] == "call" and r[2][0][1].endswith("::enumerate") and ax == 0
            R.ob("levels", ok, o.where(), "the levels are iterated as %s" % show(r, b))
        for c in o.closures:
            cb = prep(c)
            for t in traces(cb):
                ok = tup(t.result, 2) and lin(t.result[3][0]) == lin(("bin", "Add", proj(arg(2), "0"), ("k", 1))) and mentions(t.result[3][1], lambda q: q == proj(arg(2), "1"))
                R.ob("levels:item", ok, c.where(), "the level is %s" % show(t.result, cb))
        o, b, tr = results(D + "Map::z_level")
        for t in tr:
            c = [q for q in subterms(t.result) if q[0] == "call" and q[1].endswith("::index_axis")]
            ok = len(c) == 1 and grid(c[0][2][0]) and const_num(c[0][2][1]) == 0 and base(c[0][2][2]) == arg(2)
            R.ob("z-level", ok, o.where(), "the level is %s" % show(t.result, b))
        o, b, tr = results(D + "Map::dim_xyz")
        for t in tr:
            ok = tup(t.result, 3) and all(v[0] == "fld" and v[2] == i and v[1][0] == "call" and v[1][1].endswith("::dim") and grid(v[1][2][0]) for v, i in zip(t.result[3], "210"))
            R.ob("dim-xyz", ok, o.where(), "the size is %s" % show(t.result, b))
        o, b, tr = results(D + "Map::dim_z")
        for t in tr:
            v = t.result
            R.ob("dim-z", v[0] == "fld" and v[2] == "0" and v[1][0] == "call" and v[1][1].endswith("::dim") and grid(v[1][2][0]), o.where(), "the height is %s" % show(v, b))
        for n in ("Map::new", "Map::with_empty_dictionary"):
            o, b, tr = results(D + n)
            R.ob(n + ":returns", bool(tr), o.where(), "never returns")
            for t in tr:
                c = [q for q in subterms(t.result) if q[0] == "agg" and q[1] == "tuple" and len(q[3]) == 3]
                ok = len(c) == 1 and [base(q) for q in c[0][3]] == [arg(3), arg(2), arg(1)]
                R.ob(n + ":axes", ok, o.where(), "the grid is created as %s" % show(t.result, b))
    R.part("access", p_access)

    def p_keys():
        # reader digits
        o, b, tr = results(D + "base_52_reverse", ("return",))
        for i, ch in enumerate(ALPHA):
            ts = fit(tr, lambda t: ord(ch) if t == arg(1) else None)
            vals = {evaluate(t.result[3][0], lambda q: ord(ch) if q == arg(1) else None) if t.result[0] == "agg" and t.result[2] == "Ok" else "error" for t in ts}
            R.ob("digit:" + ch, vals == {i}, o.where(), "the key letter %r is read as %s, not %d" % (ch, sorted(map(str, vals)), i))
        # accumulation
        o, b, tr = results(D + "advance_key")
        n = 0
        for t in tr:
            if t.result[0] == "agg" and t.result[2] == "Ok":
                n += 1
                l = lin(strip_checked(t.result[3][0]))
                R.ob("advance", l == {arg(1): 52, arg(2): 1}, o.where(), "the next key value is %s" % show(t.result, b))
        R.count("advances", n, 1)
        # writer digits
        o = [x for x in F.bodies if x.k == "fn" and x.npath.startswith("<" + D + "FormatKey as core::fmt::Display")]
        R.count("formatters", len(o), 1)
        o = o[0]
        R.saw(o)
        b = prep(o)
        tr = traces(b, visits=5)
        klen, key = proj(arg(1), "0"), proj(proj(arg(1), "1"), "0")
        for L in (1, 2, 3):
            def env(t, L=L):
                if base(t) == klen: return L
                if t[0] == "call" and t[1].endswith("::pow"):
                    x, y = evaluate(t[2][0], env), evaluate(t[2][1], env)
                    return x ** y if isinstance(x, int) and isinstance(y, int) and 0 <= y < 10 else None
                return None
            ok_ts = [t for t in fit(tr, env, ("return",)) if t.result[0] == "agg" and t.result[2] == "Ok" or t.result[0] == "call" and not t.result[1].endswith("from_residual")]
            writes = lambda t: [e for e in t.events if emitted(e[0], e[1])]
            full = [t for t in ok_ts if len(writes(t)) == L]
            R.ob("format:%d" % L, bool(full), o.where(), "no key of length %d is formatted" % L)
            for t in full:
                for p, e in enumerate(writes(t)):
                    v = base(e[1][-1])
                    okd, why = False, show(v, b)
                    if v[0] == "idx" and v[1][0] == "k":
                        tab = v[1][1]
                        tab = tab.decode() if isinstance(tab, bytes) else tab
                        c = canon(v[2])
                        okd = tab == ALPHA and c[0] == "bin" and c[1] == "Rem" and c[3] == ("k", 52) and _divided(c[2], key, 52 ** (L - 1 - p), env)
                    R.ob("format:%d:%d" % (L, p), okd, o.where(), "digit %d of a key of length %d is %s" % (p, L, why))
        its = [c for c in b.calls() if c.name == "into_iter"]
        counts = {len([e for e in t.events if emitted(e[0], e[1])]) for t in fit(tr, lambda q: 2 if base(q) == klen else None, ("return",)) if t.result[0] == "agg" and t.result[2] == "Ok"}
        okr = counts == {2} or len(its) == 1 and its[0].arg(0)[0] == "agg" and [evaluate(x, lambda t: 7 if base(t) == klen else None) for x in its[0].arg(0)[3]] == [0, 7]
        R.ob("format:count", okr, o.where(), "the number of letters of a key is not its length")
        # out of range keys never alias another key
        for L, top in ((1, 52), (2, 2704)):
            for v, fine in ((0, 1), (top - 1, 1), (top, 0), (top + 5, 0), (60000, 0)):
                def env(t, L=L, v=v):
                    if base(t) == klen: return L
                    if base(t) == key: return v
                    if t[0] == "call" and t[1].endswith("::pow"):
                        x, y = evaluate(t[2][0], env), evaluate(t[2][1], env)
                        return x ** y if isinstance(x, int) and isinstance(y, int) and 0 <= y < 10 else None
                    return None
                ends = {t.end for t in fit(tr, env, ("return", "panic"))}
                R.ob("format:range:%d:%d" % (L, v), ("panic" in ends) == (not fine) and ("return" in ends) == bool(fine), o.where(), "key %d of length %d is %s" % (v, L, "rejected" if fine else "written as another key"))
        # length chosen for a dictionary
        o = R.fn(D + "Map::adjust_key_length")
        b = prep(o)
        tr = traces(b)
        mx = lambda t: t[0] == "call" and t[1].split("::")[-1] in ("max", "last", "next_back", "last_key_value")
        for v, want in ((0, 1), (51, 1), (52, 2), (53, 2), (2703, 2), (2704, 3), (2705, 3), (65534, 3)):
            def env(t, v=v):
                if mx(t): return "Some"
                if t[0] == "fld" and mentions(t, mx): return v
                return None
            ts = fit(tr, env, ("return",))
            got = set()
            for t in ts:
                w = [x for x in t.writes if x[0] == proj(arg(1), "key_length")]
                got.add(evaluate(w[-1][1], env) if w else "unchanged")
            R.ob("length:%d" % v, got == {want}, o.where(), "the key length for %d keys is %s, not %d" % (v + 1, sorted(map(str, got)), want))
        src = [c for c in b.calls() if mx(("call", c.fn, ()))]
        R.ob("length:source", bool(src) and all(mentions(c.arg(0), lambda q: q == proj(arg(1), "dictionary")) for c in src), o.where(), "the key length does not depend on the largest key")
        o, b, tr = results(D + "Map::format_key")
        for t in tr:
            R.ob("format-key", t.result[0] == "agg" and [base(q) for q in t.result[3]] == [proj(arg(1), "key_length"), arg(2)], o.where(), "a key is formatted as %s" % show(t.result, b))
    R.part("keys", p_keys)


def _divided(t, key, n, env):
    """t is key / n (n == 1: key itself allowed)"""
    if base(t) == key: return n == 1
    if t[0] == "bin" and t[1] == "Div" and base(t[2]) == key:
        return evaluate(t[3], env) == n
    if t[0] == "bin" and t[1] == "Div" and t[2][0] == "bin":
        d = evaluate(t[3], env)
        return isinstance(d, int) and d > 0 and n % d == 0 and _divided(t[2], key, n // d, env)
    return False


def strip_checked(t):
    """(checked_op(a, b) as Some).0 -> a op b"""
    if not isinstance(t, tuple): return t
    if t[0] == "fld" and t[1][0] == "as" and t[1][1][0] == "call" and t[1][1][1].split("::")[-1] in CHECKED:
        c = t[1][1]
        return ("bin", CHECKED[c[1].split("::")[-1]], strip_checked(c[2][0]), strip_checked(c[2][1]))
    return tuple(strip_checked(x) if isinstance(x, tuple) else x for x in t)


def subterms(t):
    out = []
    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): out.append(x)
            for y in x: go(y)
    go(t)
    return out


def const_num(t):
    c = const_of(t)
    while isinstance(c, (tuple, list)):
        n = [x for x in c if isinstance(x, (int, tuple, list)) and not isinstance(x, bool)]
        if len(n) != 1: return None
        c = n[0]
    return c


def eta(t):
    """(p.0, p.1, ..) -> p"""
    if not isinstance(t, tuple): return t
    t = tuple(eta(x) if isinstance(x, tuple) else x for x in t)
    if len(t) > 3 and t[0] == "agg" and t[1] == "tuple" and len(t[3]) > 1 and all(v[0] == "fld" and v[2] == str(i) and v[1] == t[3][0][1] for i, v in enumerate(t[3])):
        return t[3][0][1]
    return t


def axis_of(t):
    for q in subterms(t):
        if q[0] == "call" and q[1].endswith("::axis_iter"):
            return const_num(q[2][1])
    return None
