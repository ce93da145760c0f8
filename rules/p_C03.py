"""Icon metadata is read as written; malformed metadata is an error."""
import itertools
from lib import *
from core import Enum

RULE = """The metadata parser is evaluated abstractly over its MIR with the lines of the description as known values, for every pair of lines of a vocabulary of
well-formed and malformed ones at the start of a description and within a state, and for longer descriptions; the result is compared with a reference model."""
D = "dreammaker::dmi::"
LINES = ['width = 16', 'width = bad', 'height = 48', 'height = 0', 'width = 0', 'state = "a"', 'state = "b"', 'state = a"', 'state = "a', 'state = "a\\"', 'state = "a"b"', "state = ''", 'dirs = 1', 'dirs = 4', 'dirs = 8',
         'dirs = 2', 'dirs = bad', 'frames = 3', 'frames = bad', 'delay = 1,1', 'delay = 1,2.5', 'delay = 2,1,1,1', 'delay = 1,bad', 'loop = 1', 'loop = bad', 'rewind = 1', 'rewind = 0', 'rewind = 2', 'rewind = bad',
         'movement = 1', 'movement = 0', 'movement = 2', 'movement = bad', 'loop = 3', 'hotspot = 1,2,3', 'color = 1', 'garbage', '# END DMI']
SINGLES = ["dirs = %d" % n for n in (0, 3, 5, 6, 7, 9, 10, 12, 15, 16)] + ["\tdirs = 4", "\tframes = 3", "  width = 16", "width = 16 ", "\tdelay = 1,2.5", "delay = 0.5", "delay = 1,0.5", "delay = 0,0", "delay = 1.0,1", "delay = 1", "delay = 3", "frames = 1", "frames = 0",
           "delay = 0.5,1,1", "frames=3", "frames =3", "Width = 16", "State = \"c\"", "state = c", "state = \"\"", "state = \"a b\"", "delay = 1,,1", "delay = ,1", "movement = 3", "rewind = 3", "loop = 0", "loop = 7", "width = 1", "height = 1"]
STATE = "state = \"a\""
LONG = [[STATE, 'dirs = 4', 'frames = 3', STATE, 'dirs = 8', 'state = "b"'], [STATE, 'frames = 3', 'delay = 1,1,1', 'state = "b"', 'dirs = 4'], [STATE, 'delay = 1,2.5', 'dirs = 4', 'state = "b"'],
        [STATE, 'frames = 3', 'delay = 1,2.5', 'delay = 1,1'], [STATE, 'frames = 3', 'delay = 2,1,1,1', 'state = "b"', 'state = "c"'], [STATE, 'delay = 1,1', 'frames = 3'], [STATE, 'frames = 3', 'frames = 3'],
        ['width = 16', 'height = 48', STATE, STATE, STATE], [STATE, 'dirs = 4', 'loop = 1', 'rewind = 1', 'movement = 1', 'state = "b"', '# END DMI', 'garbage'], [STATE, 'delay = 1,2.5', 'delay = 1,2.5']]


class Bad(Exception): pass


def number(s):
    try: return float(s) if "." in s else int(s)
    except ValueError: raise Bad


def model(lines):
    """what a description with these lines after the header means"""
    m = {"width": 32, "height": 32}
    states, cur, so_far, dup, names = [], None, 0, {}, {}
    def count(s): return {"One": lambda: 1, "Count": lambda: s["frames"][1], "Delays": lambda: len(s["frames"][1])}[s["frames"][0]]() * s["dirs"]
    for l in lines:
        if l.startswith("# END DMI"): break
        l = l.strip()
        if " = " not in l: raise Bad
        k, v = l.split(" = ", 1)
        if k in m: m[k] = number(v)
        elif k == "state":
            if cur:
                so_far += count(cur)
                states.append(cur)
            if len(v) < 2 or v[0] != '"' or v[-1] != '"' or '\\' in v or '"' in v[1:-1]: raise Bad
            n = v[1:-1]
            cur = dict(name=n, offset=so_far, loop_=0, duplicate_index=dup.get(n, 0), rewind=False, movement=False, dirs=1, frames=("One",))
            names[n, dup.get(n, 0)] = len(states)
            dup[n] = dup.get(n, 0) + 1
        elif k == "hotspot": pass
        elif cur is None and k in ("dirs", "frames", "delay", "loop", "rewind", "movement"): raise Bad
        elif k == "dirs":
            if number(v) not in (1, 4, 8): raise Bad
            cur["dirs"] = number(v)
        elif k == "frames":
            if cur["frames"][0] != "One": raise Bad
            cur["frames"] = ("Count", number(v))
        elif k == "delay":
            ds = [number(x) for x in v.split(",")]
            if cur["frames"][0] == "Delays": raise Bad
            if cur["frames"][0] == "Count": ds = ds[:cur["frames"][1]]
            if any(d != 1 for d in ds): cur["frames"] = ("Delays", ds)
            elif cur["frames"][0] == "One": cur["frames"] = ("Count", len(ds))
        elif k == "loop": cur["loop_"] = number(v)
        elif k in ("rewind", "movement"): cur[k] = number(v) != 0
        else: raise Bad
    if cur: states.append(cur)
    if not m["width"] or not m["height"]: raise Bad
    return m, states, names


def some(x): return ("agg", "core::option::Option", "Some", (x,), ("0",))
def ok(x): return ("agg", "core::result::Result", "Ok", (x,), ("0",))
NONE = ("agg", "core::option::Option", "None", (), ())
ERR = ("agg", "core::result::Result", "Err", (("k", "bad number"),), ("0",))
def text(x): return x[1] if x[0] == "k" and isinstance(x[1], str) else None


def play(b, lines, empty=False):
    """(traces, env) of the parser on these lines"""
    def seed(t):
        n, a = tail(t), t[2]
        if n == "lines": return ("iter", tuple(("k", x) for x in lines))
        if not a: return None
        z = subterm(a[0], lambda z: named(z, "split") and len(z[2]) == 2 and text(z[2][0]) is not None) if n == "collect" else None
        if z:
            try: return ok(("list", tuple(("k", number(x)) for x in text(z[2][0]).split(","))))
            except Bad: return ERR
        if n == "count" and a[0][0] == "agg" and a[0][1].startswith(D):
            v, p = a[0][2], a[0][3]
            x = {"One": 1, "Four": 4, "Eight": 8}.get(v) or (p[0][1] if v == "Count" and p[0][0] == "k" else len(p[0][1]) if v == "Delays" and p[0][0] == "list" else None)
            return None if x is None else ("k", x)
        if n == "get_state_name_index" and a[0][0] == "agg":
            f = dict(zip(a[0][4], a[0][3]))
            return ("agg", D + "StateIndex", "StateIndex", (f["name"], f["duplicate_index"]), ("0", "1"))
        s = text(a[0])
        o = text(a[1]) if len(a) > 1 else None
        if len(a) > 1 and a[1][0] == "k" and isinstance(a[1][1], tuple) and a[1][1][0] == "char": o = a[1][1][1]
        if n == "parse" and s is not None:
            try: return ok(("k", number(s)))
            except Bad: return ERR
        if n == "from_str" and s is not None:
            try: return ok(("k", number(s)))
            except Bad: return ERR
        if s is not None and n in ("trim", "trim_start", "trim_end"): return ("k", {"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}[n]())
        if s is not None and n in ("to_owned", "to_string", "clone", "into", "from"): return a[0]
        if s is not None and n == "len": return ("k", len(s))
        if s is not None and n == "is_empty": return ("k", s == "")
        if s is not None and o is not None:
            if n == "starts_with": return ("k", s.startswith(o))
            if n == "ends_with": return ("k", s.endswith(o))
            if n == "contains": return ("k", o in s)
            if n == "split_once": return some(("agg", "tuple", "", tuple(("k", x) for x in s.split(o, 1)), ())) if o in s else NONE
            if n == "strip_prefix": return some(("k", s[len(o):])) if s.startswith(o) else NONE
            if n == "strip_suffix": return some(("k", s[:-len(o)])) if s.endswith(o) else NONE
            if n in ("eq", "ne"): return ("k", (s == o) == (n == "eq"))
        if n in ("or_insert", "or_default", "or_insert_with") and t[3] >= SEQ:
            return ("call", "times seen", tuple(x for x in a[0][2] if text(x) is not None) if named(a[0], "entry") else a[:1], t[3] - SEQ)
        if n in ("checked_mul", "checked_add", "saturating_mul") and all(x[0] == "k" and isinstance(x[1], int) for x in a): return some(("k", a[0][1] * a[1][1] if "mul" in n else a[0][1] + a[1][1]))
        return None

    def const(x):
        if x[0] == "k": return x[1]
        if x[0] == "agg" and x[1] == "tuple": return tuple(const(y) for y in x[3])
        if x[0] == "agg" and x[2] in ("Some", "None"): return ("Some", const(x[3][0])) if x[3] else ("None",)
        raise ValueError

    def env(t):
        if named(t, "eq", "ne") and len(t[2]) == 2:
            try: return (const(t[2][0]) == const(t[2][1])) == (tail(t) == "eq")
            except ValueError: return None
        if t[0] == "bin" and t[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            try: x, y = (float(z[1][1]) if isinstance(z[1], tuple) and z[1][0] == "f32" else z[1] for z in t[2:4])
            except (IndexError, TypeError, ValueError): return None
            if not all(isinstance(z, (int, float)) for z in (x, y)): return None
            return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[t[1]]
        if named(t, "is_empty") and rend(t) == "is_empty(#1)": return empty
        if named(t, "entry"): return 0 if "btree" in t[1] else 1  # the discriminant of Vacant
        return None
    return runs(b, env, visits=12, seed=seed, seq=("or_insert", "or_default", "or_insert_with"))


class Odd(Exception): pass


def whole(t):
    """an integer made of constants, sums and how often a name was seen"""
    if t[0] == "k": return t[1]
    if named(t, "times seen"): return 0
    if t[0] == "bin" and t[1] in ("Add", "AddWithOverflow", "Mul", "Sub"):
        a, b = whole(t[2]), whole(t[3])
        return a * b if t[1] == "Mul" else a - b if t[1] == "Sub" else a + b
    if t[0] == "cast": return whole(t[2] if isinstance(t[2], tuple) else t[1])
    raise Odd(rend(t))


def fields(t):
    if t[0] != "agg": raise Odd(rend(t))
    return dict(zip(t[4], t[3]))


def meaning(tr):
    """what a run produced: None for an error, else the metadata in the model's form"""
    if tr.end != "return" or tr.result[0] != "agg": raise Odd("%s %s" % (tr.end, rend(tr.result)))
    if tr.result[2] == "Err": return None
    f = fields(tr.result[3][0])
    m = {k: whole(f[k]) for k in ("width", "height")}
    if f["states"][0] != "list": raise Odd(rend(f["states"]))
    states = []
    for s in f["states"][1]:
        g = fields(s)
        d = {k: whole(g[k]) for k in ("offset", "loop_", "duplicate_index")}
        d["name"] = text(g["name"])
        d.update({k: bool(whole(g[k])) for k in ("rewind", "movement")})
        d["dirs"] = {"One": 1, "Four": 4, "Eight": 8}[g["dirs"][2]]
        v, p = g["frames"][2], g["frames"][3]
        d["frames"] = (v,) + ((whole(p[0]),) if v == "Count" else ([x[1] for x in p[0][1]],) if v == "Delays" else ())
        states.append(d)
    names = {}
    for fn, args, ln, bb, tf in tr.events:
        if fn.split("::")[-1] not in ("insert", "or_insert"): continue
        k = [x for a in args[:2] for x in subterms(a) if x[0] == "agg" and x[1].endswith("StateIndex")]
        if not k: continue
        names.setdefault((text(k[0][3][0]), whole(k[0][3][1])), whole(args[-1]))
    return m, states, names


def norm(m):
    return repr(m) if m is None else repr((sorted(m[0].items()), [sorted(s.items()) for s in m[1]], sorted(m[2].items())))


HEAD = ["# BEGIN DMI", "version = 4.0"]


def check(F, R):
    b, N = [None], {"descriptions": 0, "counts": 0}
    def want(lines):
        try: return model(lines)
        except Bad: return None

    def one(label, lines, m, empty=False):
        o = R.fn(D + "parse_metadata")
        if b[0] is None: b[0] = prep(o, closures=True, loops=True)
        N["descriptions"] += 1
        try:
            ts = play(b[0], lines, empty)
            got = [norm(meaning(t)) for t in ts]
        except Odd as e: ts, got = [0], ["not understood: %s" % e]
        R.ob(label, len(ts) >= 1 and set(got) == {norm(m)}, o.where(), "a description is not read as written: %s gives %s, not %s" % (" / ".join(lines[2:]), "; ".join(sorted(set(got)))[:400] or "nothing", norm(m)[:300]))

    def p_empty(): one("empty", [], ({"width": 32, "height": 32}, [], {}), True)
    def p_header():
        for h in ([], ["# BEGIN DMI"], ["# BEGIN DMI", "version = 3.0"], ["# BEGIN", "version = 4.0"], ["version = 4.0", "# BEGIN DMI"]): one("header:%s" % "/".join(h), h + ['width = 16', STATE] if len(h) > 1 else h, None)
        one("header", HEAD, want([]))
    def p_pairs():
        for x in LINES:
            one("alone:" + x, HEAD + [x], want([x]))
            one("in state:" + x, HEAD + [STATE, x], want([STATE, x]))
        for x in SINGLES:
            one("alone:" + x, HEAD + [x], want([x]))
            one("in state:" + x, HEAD + [STATE, x], want([STATE, x]))
            one("frames:" + x, HEAD + [STATE, "frames = 3", x], want([STATE, "frames = 3", x]))
        for x, y in itertools.product(LINES, LINES): one("pair:%s/%s" % (x, y), HEAD + [STATE, x, y], want([STATE, x, y]))
    def p_long():
        for l in LONG: one("long:" + "/".join(l), HEAD + l, want(l))
    def p_counts():
        for fn, en in (("Dirs", {"One": 1, "Four": 4, "Eight": 8}), ("Frames", {"One": 1, "Count": None, "Delays": None})):
            o = R.fn(D + fn + "::count")
            for tr in runs(prep(o), None):
                N["counts"] += 1
                vs = {v for c in tr.conds for v in (c[2] if c[1] == "in" else ()) if isinstance(v, str)}
                r = tr.result
                if r[0] == "cast": r = r[2] if isinstance(r[2], tuple) else r[1]
                good = len(vs) >= 1 and all(
                    (r[0] == "k" and r[1] == en[v]) if v in en and en[v] is not None else
                    (r[0] == "fld" or r[0] == "dn") and mentions(r, lambda z: z == ("arg", 1)) if v == "Count" else
                    named(r, "len") and mentions(r, lambda z: z == ("arg", 1)) if v == "Delays" else False for v in vs)
                R.ob("count:%s:%s" % (fn, "|".join(sorted(vs))), good, o.where(), "the number of %s of %s is %s" % (fn.lower(), sorted(vs), rend(r)[:80]))
    def p_index():
        o = R.fn(D + "State::get_state_name_index")
        for tr in runs(prep(o), None):
            r = tr.result
            R.ob("index", r[0] == "agg" and len(r[3]) == 2 and "name" in rend(r[3][0]) and "duplicate_index" in rend(r[3][1]), o.where(), "a state is not listed under its name and number: %s" % rend(r)[:100])
    R.part("empty", p_empty)
    R.part("header", p_header)
    R.part("pairs", p_pairs)
    R.part("long", p_long)
    R.part("counts", p_counts)
    R.part("index", p_index)
    R.count("descriptions", N["descriptions"], 1200)
    R.count("counts", N["counts"], 5)
