"""Compass algebra of the direction type, decided on decision tables extracted from MIR."""
from lib import *

RULE = """Decision tables (variant -> constant) are extracted from the match trees of every direction operation and the
finite algebra is decided exhaustively over the 8 variants: integer codes are the BYOND bit encoding (N1 S2 E4 W8) and
from_int/to_int are inverse, opposite/mirror/rotation tables satisfy their defining laws with respect to the offset
vectors, and the direction lists partition the variants."""

D = "dreammaker::dmi::Dir"
VEC = {"North": (0, 1), "South": (0, -1), "East": (1, 0), "West": (-1, 0),
       "Northeast": (1, 1), "Northwest": (-1, 1), "Southeast": (1, -1), "Southwest": (-1, -1)}
INV = {v: k for k, v in VEC.items()}


def code(x, y):
    return (1 if y > 0 else 2 if y < 0 else 0) | (4 if x > 0 else 8 if x < 0 else 0)


def check(F, R):
    adt = F.adt(D)
    disc = {v["n"]: v["d"] for v in adt["variants"]}
    R.ob("variants", set(disc) == set(VEC), "", "direction variants %s" % sorted(disc))
    names = list(disc)
    where = lambda b: b.where()

    for n in names:
        if n in VEC:
            R.ob("encoding:%s" % n, disc[n] == code(*VEC[n]), "", "%s has integer code %s, bit encoding of its vector is %s" % (n, disc[n], code(*VEC[n])))

    def tab(fname):
        b = R.fn(D + "::" + fname)
        return prep(b), b

    def t_offset():
        b, o = tab("offset")
        t = const_table(F, b, {("arg", 1): names})
        for n in names:
            R.ob("offset:%s" % n, t[n] == VEC.get(n), where(o), "offset(%s) = %s, expected %s" % (n, t[n], VEC.get(n)))
    R.part("offset", t_offset)

    def law(fname, f):
        def run():
            b, o = tab(fname)
            t = const_table(F, b, {("arg", 1): names})
            for n in names:
                x, y = VEC[n]
                exp = INV[f(x, y)]
                R.ob("%s:%s" % (fname, n), t[n] == exp, where(o), "%s(%s) = %s, expected %s" % (fname, n, t[n], exp))
        R.part(fname, run)

    def rot45(x, y, s):
        ring = [(0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1)]
        return ring[(ring.index((x, y)) + s) % 8]

    law("flip", lambda x, y: (-x, -y))
    law("flip_ns", lambda x, y: (x, -y))
    law("flip_ew", lambda x, y: (-x, y))
    law("clockwise_45", lambda x, y: rot45(x, y, 1))
    law("counterclockwise_45", lambda x, y: rot45(x, y, -1))
    law("clockwise_90", lambda x, y: (y, -x))
    law("counterclockwise_90", lambda x, y: (-y, x))

    def t_diag():
        b, o = tab("is_diagonal")
        t = const_table(F, b, {("arg", 1): names})
        for n in names:
            x, y = VEC[n]
            R.ob("is_diagonal:%s" % n, t[n] == (x != 0 and y != 0), where(o), "is_diagonal(%s) = %s" % (n, t[n]))
    R.part("is_diagonal", t_diag)

    def t_from():
        b, o = tab("from_int")
        # every returning trace is a finite integer case or the catch-all
        seen = {}
        for tr in traces(b):
            if tr.end != "return":
                continue
            v = const_of(tr.result)
            if v is None:
                raise AnchorMissing("from_int result is not constant")
            ints = None
            for c in tr.conds:
                if c[0] == ("arg", 1) and c[1] == "in":
                    ints = set(c[2]) if ints is None else ints & set(c[2])
            if ints is None:
                R.ob("from_int:other", v == "None", where(o), "from_int of any other integer yields %s" % (v,))
            else:
                for i in ints:
                    seen[i] = v
        for n in names:
            R.ob("from_int:%s" % n, seen.get(disc[n]) == ("Some", n), where(o), "from_int(%d) = %s, expected Some(%s)" % (disc[n], seen.get(disc[n]), n))
        for i, v in seen.items():
            R.ob("from_int-range:%d" % i, v == "None" or (isinstance(v, tuple) and disc.get(v[1]) == i), where(o), "from_int(%s) = %s" % (i, v))
    R.part("from_int", t_from)

    def t_to():
        b, o = tab("to_int")
        for tr in traces(b):
            if tr.end == "return":
                t = canon(tr.result)
                ok = t in (("discr", ("arg", 1)), ("arg", 1))
                if not ok:
                    # a table is fine as well
                    t2 = const_table(F, b, {("arg", 1): names})
                    ok = all(t2[n] == disc[n] for n in names)
                R.ob("to_int", ok, where(o), "to_int is %s" % show(tr.result, b))
    R.part("to_int", t_to)

    def t_contains():
        b, o = tab("contains")
        for tr in traces(b):
            t = canon(tr.result)
            ti = lambda a: ("call", D + "::to_int", (("arg", a),))
            alts = []
            for f in (ti, lambda a: ("arg", a), lambda a: ("discr", ("arg", a))):
                alts.append(canon(("bin", "Ne", ("bin", "BitAnd", f(1), f(2)), ("k", 0))))
                alts.append(canon(("bin", "Lt", ("k", 0), ("bin", "BitAnd", f(1), f(2)))))
            R.ob("contains", t in alts, where(o), "contains is %s" % show(tr.result, b))
    R.part("contains", t_contains)

    def t_lists():
        for cname, pred in (("CARDINALS", lambda x, y: x == 0 or y == 0), ("DIAGONALS", lambda x, y: x != 0 and y != 0), ("ALL", lambda x, y: True)):
            v = [e.v for e in F.const(D + "::" + cname)]
            exp = sorted(n for n in names if pred(*VEC[n]))
            R.ob("list:%s" % cname, sorted(v) == exp, "", "%s = %s, expected exactly %s" % (cname, v, exp))
    R.part("lists", t_lists)
    R.count("table_entries", len([1 for k, *_ in R.obs if ":" in k]), 80)
