"""Assumptions about the standard string operations when what they are applied to is known: shared by rules that run a function on known text."""
from lib import *

SOME, OPT = "core::option::Option", "core::option::Option"


def text(x): return x[1] if x[0] == "k" and isinstance(x[1], str) else None
def char(x): return x[1][1] if x[0] == "k" and isinstance(x[1], tuple) and x[1] and x[1][0] == "char" else None
def opt(x): return ("agg", OPT, "None", (), ()) if x is None else ("agg", OPT, "Some", (x,), ("0",))
SAME = ("deref", "as_str", "as_ref", "borrow", "to_owned", "to_string", "clone", "into", "from", "as_bytes", "from_nonstatic", "into_boxed_str", "as_mut", "deref_mut")


def strings(t):
    """The value of a call on known strings, or None"""
    n, a = tail(t), t[2]
    if not a: return None
    if a[0][0] == "agg" and n in ("is_err", "is_ok", "is_some", "is_none") and a[0][2] in ("Ok", "Err", "Some", "None"): return ("k", a[0][2] == n[3:].capitalize())
    if n == "as_term" and a[0][0] == "agg" and a[0][1].endswith("ast::Expression"):  # checked on its own by C43
        f = dict(zip(a[0][4], a[0][3]))
        return opt(f["term"][3][0][3][1] if a[0][2] == "Base" and f["follow"][3][0] == ("list", ()) else None)
    if n == "as_kwarg_key" and a[0][0] == "agg" and a[0][1].endswith("ast::Term"): return opt(a[0][3][0] if a[0][2] in ("Ident", "String") else None)  # checked on its own by C43
    if a and all(x[0] == "k" and isinstance(x[1], (int, float)) and not isinstance(x[1], bool) for x in a) and len(a) == 2 and ("cmp" in t[1] or n in ("max", "min")):
        x, y = a[0][1], a[1][1]
        if n in ("lt", "le", "gt", "ge", "eq", "ne", "max", "min"): return ("k", {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y, "max": max(x, y), "min": min(x, y)}[n])
    if n in ("is_positive", "is_negative") and a[0][0] == "k" and isinstance(a[0][1], int): return ("k", a[0][1] > 0 if n == "is_positive" else a[0][1] < 0)
    if len(a) == 2 and all(x[0] == "k" and isinstance(x[1], int) and not isinstance(x[1], bool) for x in a) and n in ("saturating_sub", "saturating_add", "checked_sub", "checked_add", "abs_diff") and t[1].startswith("core::num::"):  # of unsigned numbers
        x, y = a[0][1], a[1][1]
        if n == "abs_diff": return ("k", abs(x - y))
        if n.endswith("add"): return ("k", x + y) if n[0] == "s" else opt(("k", x + y))
        return ("k", max(0, x - y)) if n[0] == "s" else opt(("k", x - y) if x >= y else None)
    s = text(a[0])
    if s is None: return None
    o = (text(a[1]) if text(a[1]) is not None else char(a[1])) if len(a) > 1 else None
    if n in SAME: return a[0]
    if n == "len": return ("k", len(s.encode()))
    if n == "is_empty": return ("k", s == "")
    if n == "trim": return ("k", s.strip())
    if n == "trim_start": return ("k", s.lstrip())
    if n == "trim_end": return ("k", s.rstrip())
    if n == "cmp" and o is not None: return None
    if o is not None:
        if n == "starts_with": return ("k", s.startswith(o))
        if n == "ends_with": return ("k", s.endswith(o))
        if n == "contains": return ("k", o in s)
        if n == "strip_prefix": return opt(("k", s[len(o):]) if s.startswith(o) else None)
        if n == "strip_suffix": return opt(("k", s[:-len(o)]) if s.endswith(o) else None)
        if n in ("eq", "ne"): return ("k", (s == o) == (n == "eq"))
    return None


def const(x):
    if x[0] == "k": return x[1]
    if x[0] == "list" or x[0] == "agg" and x[1] == "array": return ("list",) + tuple(const(y) for y in x[1 if x[0] == "list" else 3])
    if x[0] == "agg" and x[1] == "tuple": return tuple(const(y) for y in x[3])
    if x[0] == "agg" and not x[3] and x[2] and x[1] not in ("array", "closure"): return (x[1], x[2])
    if x[0] == "agg" and x[2] in ("Some", "None"): return ("Some", const(x[3][0])) if x[3] else ("None",)
    raise ValueError


def compare(t):
    """The value of a comparison of constants, or None"""
    if named(t, "eq", "ne") and len(t[2]) == 2:
        try: return (const(t[2][0]) == const(t[2][1])) == (tail(t) == "eq")
        except ValueError: return None
    if named(t, "contains") and len(t[2]) == 2 and (t[2][0][0] == "list" or t[2][0][:2] == ("agg", "array")):
        try: return const(t[2][1]) in [const(x) for x in (t[2][0][1] if t[2][0][0] == "list" else t[2][0][3])]
        except ValueError: return None
    if t[0] == "bin" and t[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        x, y = t[2][1] if t[2][0] == "k" else None, t[3][1] if t[3][0] == "k" else None
        if not all(isinstance(z, (int, float)) for z in (x, y)): return None
        return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[t[1]]
    return None
