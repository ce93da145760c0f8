"""Constant expressions evaluate to the value DM gives them."""
import math, itertools
from lib import *

RULE = """For every operator, term and call the evaluator's MIR is enumerated path by path (helpers inlined) and the closed form of each path's
result is extracted; the table (operand kinds -> closed form) is compared with DM's semantics, closed forms on floats being compared at every
boundary value of their operands.  rgb() is decided as a table over every spelling, order and colour space of its arguments."""
C = "dreammaker::constants::"
K = C + "ConstantFolder::"
KINDS = ["Null", "New", "List", "Call", "Prefab", "String", "Resource", "Float"]


class Unknown(Exception): pass


def power(a, b):
    try: return float(a) ** float(b)
    except (ZeroDivisionError, OverflowError): return math.inf


def u32(x):
    if isinstance(x, int): return x & 0xffffffff
    if x != x: return 0
    return max(0, min(0xffffffff, int(x) if abs(x) != math.inf else (0xffffffff if x > 0 else 0)))


def number(t, env):
    """value of a closed form on floats, integers and constants"""
    v = env(t)
    if v is not None: return v
    k = t[0]
    if k == "k":
        if isinstance(t[1], tuple): return float(t[1][1])
        return t[1]
    if k == "cast":
        x = number(t[2], env)
        if t[1] == "u32": return u32(x)
        if t[1] in ("f32", "f64"): return float(x)
        if t[1] in ("i32", "i64", "usize", "u64"): return int(x)
        raise Unknown(show(t))
    if k == "un":
        x = number(t[2], env)
        if t[1] == "Neg": return -x
        if t[1] == "Not": return (not x) if isinstance(x, bool) else (~x & 0xffffffff)
        raise Unknown(show(t))
    if k == "bin" or k == "call" and len(t[2]) == 2 and ("ops::" in t[1] or "cmp::" in t[1]):
        op, a, b = (t[1], t[2], t[3]) if k == "bin" else ({"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "eq": "Eq",
              "ne": "Ne", "bitor": "BitOr", "bitand": "BitAnd", "bitxor": "BitXor"}.get(tail(t), tail(t)), t[2][0], t[2][1])
        x, y = number(a, env), number(b, env)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return {"Lt": x < y if not isinstance(x, tuple) else None, "Le": x <= y if not isinstance(x, tuple) else None, "Gt": x > y if not isinstance(x, tuple) else None,
                    "Ge": x >= y if not isinstance(x, tuple) else None, "Eq": x == y, "Ne": x != y}[op]
        if op in ("BitOr", "BitAnd", "BitXor"):
            return {"BitOr": x | y, "BitAnd": x & y, "BitXor": x ^ y}[op]
        if op in ("Add", "Sub", "Mul"): return {"Add": x + y, "Sub": x - y, "Mul": x * y}[op]
        if op == "Div": return x / y if y else (math.nan if x == 0 else math.copysign(math.inf, x))
        if op == "Rem": return math.fmod(x, y) if y else math.nan
        raise Unknown(show(t))
    if k == "call":
        n = tail(t)
        a = [number(x, env) for x in t[2]] if n in ("floor", "powf", "powi", "checked_shl", "checked_shr", "from", "into", "from_bit_op", "min", "max", "sin", "cos", "asin", "acos", "to_radians",
             "to_degrees", "abs", "trunc", "not", "neg", "is_some", "unwrap", "rem_euclid") else None
        if n == "floor": return float(math.floor(a[0])) if abs(a[0]) != math.inf and a[0] == a[0] else a[0]
        if n == "trunc": return float(math.trunc(a[0])) if math.isfinite(a[0]) else a[0]
        if n == "abs": return abs(a[0])
        if n in ("powf", "powi"):
            return power(a[0], a[1])
        if n in ("checked_shl", "checked_shr"): return ("Some", ((a[0] << a[1]) & 0xffffffff) if n == "checked_shl" else a[0] >> a[1]) if a[1] < 32 else "None"
        if n == "from" and "constants::Constant" in t[1] or n == "into": return ("Float", float(a[0]))
        if n == "from": return a[0]
        if n == "from_bit_op": return ("Float", float(a[0] & 0xffffff))
        if n in ("sin", "cos"): return getattr(math, n)(a[0])
        if n in ("asin", "acos"): return getattr(math, n)(a[0])
        if n == "to_radians": return math.radians(a[0])
        if n == "to_degrees": return math.degrees(a[0])
        if n == "not": return (not a[0]) if isinstance(a[0], bool) else (~a[0] & 0xffffffff)
        if n == "neg": return -a[0]
        raise Unknown(show(t))
    if k == "fld" and t[1][0] == "as" and t[2] == "0":
        x = number(t[1][1], env)
        if isinstance(x, tuple) and x[0] == t[1][2]: return x[1]
        raise Unknown(show(t))
    if k == "agg":
        if t[2] == "Float": return ("Float", float(number(t[3][0], env)))
        if t[2] in ("Ok", "Some"): return (t[2], number(t[3][0], env))
        if t[2] in ("Err",): return "Err"
        if t[2] == "None": return "None"
    raise Unknown(show(t))


def same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        if x != x or y != y: return x != x and y != y
        return x == y or abs(x - y) < 1e-9 * max(1, abs(x), abs(y))
    return x == y


def okn(t):
    """the result of a trace, a tail call that is assumed to succeed counted as its value"""
    r = rend(t.result)
    return "Ok(%s)" % r if t.result and t.result[0] == "call" and tail(t.result) in SUB else r


SUB = ("term", "expr", "follow", "binary", "unary", "arguments", "prefab", "vars", "rgb", "trig_op", "ident", "recursive_lookup", "proc_ref_lookup", "constant_ident_lookup")


def check(F, R):
    def tr(name, **kw):
        o = R.fn(name)
        return o, traces(prep(o, closures=True, loops=True), **kw)

    def kind(t, adt):
        return lambda v: (lambda x: v if x == t else None)

    # ---- conversions -------------------------------------------------
    def p_conv():
        me = ("arg", 1)
        payload = lambda v: ("fld", ("as", me, v), "0")
        o, ts = tr(C + "Constant::to_bool")
        for v in KINDS:
            dom = {"Float": [0.0, 1.0, -0.5], "String": [True, False]}.get(v, [None])
            for x in dom:
                def env(t):
                    if t == me: return v
                    if v == "Float" and base(t) == payload(v): return x
                    if v == "String" and t[0] == "call" and tail(t) in ("is_empty",) and mentions(t, lambda z: z == payload(v)): return x
                    if v == "String" and t[0] == "call" and tail(t) == "len" and mentions(t, lambda z: z == payload(v)): return 0 if x else 3
                    return None
                want = {"Null": False, "Float": x != 0, "String": not x}.get(v, True)
                got = set()
                for t in fit(ts, env):
                    if any(e is not None and (c[1] == "in") != (e in c[2]) for c in t.conds for e in [safe(c[0], env)]): continue
                    got.add(safe(t.result, env))
                R.ob("truth:%s:%s" % (v, x), got == {want}, o.where(), "a %s %s is %s" % (v, x, sorted(map(str, got))))
        for name, want in (("to_float", {"Float": lambda x: x}), ("to_int", {"Float": lambda x: int(x)})):
            o, ts = tr(C + "Constant::" + name)
            for v in KINDS:
                for x in (0.0, 7.0, -3.0, 2.5, -2.5):
                    env = lambda t: v if t == me else (x if v == "Float" and base(t) == payload(v) and t[0] != "cast" else None)
                    got = {str(safe(t.result, env)) for t in fit(ts, env)}
                    w = {str(("Some", want[v](x)))} if v in want else {"None"}
                    R.ob("%s:%s:%s" % (name, v, x), got == w, o.where(), "%s of a %s %s gives %s" % (name, v, x, got))
        o, ts = tr(C + "Constant::as_str")
        for v in KINDS:
            env = lambda t: v if t == me else None
            got = {rend(t.result) for t in fit(ts, env)}
            w = {"Some(as_ref(#1@String))"} if v == "String" else {"None"}
            g2 = {g.replace("Some(#1@String)", "Some(as_ref(#1@String))").replace("as_str", "as_ref") for g in got}
            R.ob("as_str:%s" % v, g2 == w, o.where(), "as_str of a %s gives %s" % (v, got))
        o, ts = tr(C + "Constant::negate")
        for v in KINDS:
            env = lambda t: v if t == me else (2.5 if v == "Float" and base(t) == payload(v) else None)
            got = {str(safe(t.result, env)) for t in fit(ts, env)}
            R.ob("negate:%s" % v, got == {str(("Ok", ("Float", -2.5))) if v == "Float" else "Err"}, o.where(), "negating a %s gives %s" % (v, got))
        o, ts = tr(C + "Constant::from_bit_op")
        for x in (0, 1, 0xffffff, 0x1000000, 0xffffffff, 0x80000001):
            got = {safe(t.result, lambda t: x if t == me else None) for t in ts}
            R.ob("bits:%x" % x, got == {("Float", float(x & 0xffffff))}, o.where(), "the bit pattern %x becomes %s" % (x, got))
        for ty, dom in (("bool", (True, False)), ("f32", (0.0, 1.5)), ("i32", (0, -7))):
            l = [b for b in F.bodies if b.npath == "<dreammaker::constants::Constant as core::convert::From<%s>>::from" % ty]
            if len(l) != 1: raise AnchorMissing("From<%s>" % ty)
            R.saw(l[0])
            ts = traces(prep(l[0]))
            for x in dom:
                env = lambda t: x if t == me else None
                got = {safe(t.result, env) for t in fit(ts, env)}
                R.ob("from:%s:%s" % (ty, x), got == {("Float", float(x))}, l[0].where(), "%s becomes %s" % (x, got))
        # equality compares like with like, every field with its counterpart
        o, ts = tr("<dreammaker::constants::Constant as core::cmp::PartialEq>::eq")
        for a, b in itertools.product(KINDS, KINDS):
            env = lambda t: a if t == ("arg", 1) else (b if t == ("arg", 2) else None)
            rs = fit(ts, env)
            R.ob("equal:%s:%s" % (a, b), bool(rs), o.where(), "undecided")
            if a != b:
                R.ob("equal:%s:%s" % (a, b), all(t.result == ("k", False) for t in rs), o.where(), "a %s can equal a %s" % (a, b))
                continue
            seen = set()
            for t in rs:
                if t.result == ("k", False):
                    R.ob("equal:%s:differs" % a, any(c[0][0] in ("call", "bin") and False in c[2] for c in t.conds), o.where(), "a %s never equals a %s" % (a, a))
                    continue
                for x in [t.result] + [c[0] for c in t.conds]:
                    def walk(x):
                        if x[0] == "call" and tail(x) == "eq" and len(x[2]) == 2 or x[0] == "bin" and x[1] == "Eq":
                            l, r = (x[2] if x[0] == "call" else x[2:4])
                            l, r = flat(l), flat(r)
                            R.ob("equal:%s:fields" % a, [z.replace("#1", "#2") for z in l] == r or [z.replace("#2", "#1") for z in l] == r, o.where(), "%s is compared with %s" % (l, r))
                            seen.update(z[2:] for z in l)
                    walk(x)
            fields = {"New": {"@New.type_", "@New.args"}, "Call": {"@Call", "@Call.1"}}.get(a, {"@" + a})
            R.ob("equal:%s:all" % a, fields <= seen, o.where(), "two %s values with different %s are equal" % (a, sorted(fields - seen)))

    def flat(t):
        t = base(t)
        if t[0] == "agg" and len(t[3]) >= 1: return [z for x in t[3] for z in flat(x)]
        return [rend(t)]

    def safe(t, env):
        try: return number(t, env)
        except (Unknown, TypeError, OverflowError): return None

    # ---- operators ---------------------------------------------------
    S = [0.0, 1.0, 2.0, 3.0, 7.0, 31.0, 32.0, -1.0, -2.5, 2.5, 16777215.0, 16777216.0]

    def u24(f): return lambda a, b: float(f(u32(a), u32(b)) & 0xffffff)
    FLOAT = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "Div": lambda a, b: a / b if b else (math.nan if a == 0 else math.copysign(math.inf, a)),
             "Mod": lambda a, b: math.fmod(a, b) if b else math.nan, "FloatMod": lambda a, b: a - math.floor(a / b) * b if b else math.nan,
             "Pow": power,
             "Less": lambda a, b: float(a < b), "LessEq": lambda a, b: float(a <= b), "Greater": lambda a, b: float(a > b), "GreaterEq": lambda a, b: float(a >= b),
             "BitOr": u24(lambda a, b: a | b), "BitAnd": u24(lambda a, b: a & b), "BitXor": u24(lambda a, b: a ^ b),
             "LShift": lambda a, b: float((u32(a) << u32(b)) & 0xffffff) if u32(b) < 32 else None, "RShift": lambda a, b: float((u32(a) >> u32(b)) & 0xffffff) if u32(b) < 32 else None}

    def p_binary():
        o = R.fn(K + "binary")
        ts = traces(prep(o, loops=True))
        args = {n: i for i, n in o.names.items()}
        l, r, op = ("arg", 2), ("arg", 3), ("arg", 4)
        for v in F.variants("dreammaker::ast::BinaryOp"):
            for a, b in itertools.product(KINDS, KINDS):
                def kenv(t): return {op: v, l: a, r: b}.get(t)
                key = "binary:%s:%s:%s" % (v, a, b)
                rs = [t for t in fit(ts, kenv)]
                R.ob(key, bool(rs), o.where(), "no result")
                if v in FLOAT and a == b == "Float":
                    for x, y in itertools.product(S, S):
                        if v == "Pow" and x < 0 and y != int(y): continue
                        def env(t):
                            w = kenv(t)
                            if w is not None: return w
                            if t == ("fld", ("as", l, "Float"), "0"): return x
                            if t == ("fld", ("as", r, "Float"), "0"): return y
                            return None
                        got = []
                        for t in rs:
                            ok = True
                            for c in t.conds:
                                e = safe(c[0], env)
                                if isinstance(e, tuple): e = e[0]
                                if e is not None and (c[1] == "in") != (e in c[2]): ok = False
                            if ok: got.append("Err" if t.result[2] == "Err" else safe(t.result, env))
                        w = FLOAT[v](x, y)
                        w = "Err" if w is None else ("Ok", ("Float", float(w)))
                        R.ob("binary:%s" % v, len(got) == 1 and same(got[0], w), o.where(), "%s %s %s evaluates to %s, DM gives %s" % (x, v, y, got, w))
                elif v in ("Eq", "NotEq"):
                    got = {rend(t.result) for t in rs}
                    w = {"Eq": {"Ok(eq(#2, #3))", "Ok(eq(#3, #2))", "Ok(Not(ne(#2, #3)))"}, "NotEq": {"Ok(ne(#2, #3))", "Ok(Not(eq(#2, #3)))", "Ok(ne(#3, #2))", "Ok(Not(eq(#3, #2)))"}}[v]
                    R.ob(key, len(got) == 1 and got <= w, o.where(), "evaluates to %s" % sorted(got))
                elif v in ("And", "Or"):
                    for tv in (True, False):
                        def env(t):
                            if t[0] == "call" and tail(t) == "to_bool" and base(t[2][0]) == l: return tv
                            return kenv(t)
                        got = {rend(t.result) for t in fit(rs, env)}
                        w = {"Ok(#3)"} if tv == (v == "And") else {"Ok(#2)"}
                        R.ob("%s:%s" % (key, tv), got == w, o.where(), "with a %s left side, evaluates to %s" % (tv, sorted(got)))
                elif v == "Add" and a == b == "String":
                    got = {rend(t.result) for t in rs}
                    R.ob(key, got == {"Ok(String(add(#2@String, #3@String)))"} or got == {"Ok(String(concat([#2@String, #3@String])))"}, o.where(), "strings are joined as %s" % sorted(got))
                else:
                    R.ob(key, all(t.result and t.result[2] == "Err" for t in rs), o.where(), "a %s %s a %s is given the constant value %s" % (a, v, b, [rend(t.result)[:120] for t in rs if t.result and t.result[2] != "Err"][:1]))

    def p_unary():
        o = R.fn(K + "unary")
        ts = traces(prep(o, loops=True))
        c, op = ("arg", 2), ("arg", 3)
        for v in F.variants("dreammaker::ast::UnaryOp"):
            for a in KINDS:
                dom = [(0.0,), (5.0,), (-5.0,), (16777216.0,)] if a == "Float" else [(None,)]
                if v == "Not": dom = [(True,), (False,)]
                for (x,) in dom:
                    def env(t):
                        if t == op: return v
                        if t == c: return a
                        if v == "Not" and t[0] == "call" and tail(t) == "to_bool" and base(t[2][0]) == c: return x
                        if a == "Float" and v != "Not" and t == ("fld", ("as", c, "Float"), "0"): return x
                        return None
                    got = [("Err" if t.result[2] == "Err" else safe(t.result, env)) for t in fit(ts, env)]
                    w = "Err"
                    if v == "Not": w = ("Ok", ("Float", float(not x)))
                    elif a == "Float" and v == "Neg": w = ("Ok", ("Float", -x))
                    elif a == "Float" and v == "BitNot": w = ("Ok", ("Float", float((~u32(x)) & 0xffffff)))
                    R.ob("unary:%s:%s:%s" % (v, a, x), len(got) == 1 and same(got[0], w), o.where(), "%s of a %s %s evaluates to %s, DM gives %s" % (v, a, x, got, w))

    # ---- expressions and terms --------------------------------------

    def env_ok(extra, fail=None):
        """every step succeeds, except the one named by `fail`; `extra` decides the rest"""
        def env(t):
            v = extra(t)
            if v is not None: return v
            if t[0] == "call" and tail(t) in SUB: return "Err" if fail and fail(t) else "Ok"
            return None
        return env

    def p_expr():
        o = R.fn(K + "expr")
        b = prep(o, closures=True, loops=True)
        for n in (0, 1, 2):
            def ex(t):
                if t == ("arg", 2): return "Base"
                if t[0] == "call" and tail(t) == "is_empty" and rend(t[2][0]) == "#2@Base.follow": return n == 0
                if t[0] == "call" and tail(t) == "len" and rend(t[2][0]) == "#2@Base.follow": return n
                if t[0] == "call" and tail(t) == "next": return "Some" if t[3] % 10 < n else "None"
                return None
            env = env_ok(ex)
            got = {okn(t) for t in traces(b, visits=5, env=env, lists=True) if t.end in ("return", "panic")}
            w = "term(#1, #2@Base.term.elem, %s)" % ("None" if n else "#3")
            for i in range(n): w = "follow(#1, %s, item%d.elem)" % (w, i)
            R.ob("base:%d" % n, got == {"Ok(%s)" % w}, o.where(), "a term with %d followers evaluates to %s" % (n, sorted(got)))
        def ex(v, tv=None):
            def f(t):
                if t == ("arg", 2): return v
                if t[0] == "call" and tail(t) == "to_bool": return tv if rend(t[2][0]) == "expr(#1, #2@TernaryOp.cond, None)" else None
                return None
            return f
        run = lambda e: {okn(t) for t in traces(b, visits=3, env=e) if t.end in ("return", "panic")}
        got = run(env_ok(ex("BinaryOp")))
        R.ob("binary-expression", got == {"Ok(binary(#1, expr(#1, #2@BinaryOp.lhs, None), expr(#1, #2@BinaryOp.rhs, None), #2@BinaryOp.op))"}, o.where(), "evaluates to %s" % got)
        for tv, f in ((True, "if_"), (False, "else_")):
            got = run(env_ok(ex("TernaryOp", tv)))
            R.ob("ternary:%s" % tv, got == {"Ok(expr(#1, #2@TernaryOp.%s, #3))" % f}, o.where(), "with a %s condition evaluates to %s" % (tv, got))
        for v in ("AssignOp",):
            got = run(env_ok(ex(v)))
            R.ob("assignment", all(g.startswith("Err(") for g in got) and bool(got), o.where(), "evaluates to %s" % got)
        # an error of a part is the error of the whole
        for v in F.variants("dreammaker::ast::Expression"):
            for part in ("lhs", "rhs", "cond", "if_", "else_", "term(", "follow(", "binary("):
                hit = []
                def fail(t):
                    r = rend(t)
                    h = r.startswith(part) if part.endswith("(") else r.startswith("expr(#1, #2@%s.%s," % (v, part))
                    return h
                def f(t):
                    if t == ("arg", 2): return v
                    if t[0] == "call" and tail(t) == "next": return "Some" if t[3] % 10 < 1 else "None"
                    return None
                for t in traces(b, visits=4, env=env_ok(f, fail), lists=True):
                    if t.end != "return": continue
                    failed = [c for c in t.conds if c[0][0] == "call" and tail(c[0]) in SUB and fail(c[0])]
                    if failed: R.ob("error:%s:%s" % (v, part), rend(t.result).startswith("Err(") or t.result[0] == "call" and bool(fail(t.result)), o.where(), "a failed part is given a value")

    def p_arguments():
        o = R.fn(K + "arguments")
        b = prep(o, closures=True, loops=True)
        ops = list(F.variants("dreammaker::ast::AssignOp"))
        terms = list(F.variants("dreammaker::ast::Term"))
        cases = [("plain", "Base", None, None), ("assoc-ident", "AssignOp", "Assign", "Ident"), ("assoc-string", "AssignOp", "Assign", "String"), ("assoc-prefab", "AssignOp", "Assign", "Prefab"), ("other-assign", "AssignOp", "AddAssign", "Ident"), ("binary", "BinaryOp", None, None)]
        def one(c, i):
            it = "item%d" % i
            if c[2] == "Assign":
                k = "%s@AssignOp.lhs" % it
                k = "String(%s@Ident)" % k if c[3] == "Ident" else "term(#1, %s, None)" % k
                return "tuple(%s, Some(expr(#1, %s@AssignOp.rhs, None)))" % (k, it)
            return "tuple(expr(#1, %s, None), None)" % it
        for seq in [()] + [(c,) for c in cases] + list(itertools.product(cases, cases)):
            def ex(t):
                if t[0] == "call" and tail(t) == "next": return "Some" if t[3] % 10 < len(seq) else "None"
                r = rend(t) if t[0] in ("fld", "call") else ""
                for i, c in enumerate(seq):
                    if r == "item%d" % i: return c[1]
                    if r == "item%d@AssignOp.op" % i or r == "item%d@AssignOp" % i: return c[2]
                    if r in ("from(item%d@AssignOp.lhs)" % i, "item%d@AssignOp.lhs" % i): return c[3]
                return None
            env = lambda t: env_ok(ex)(t)
            got = {okn(t) for t in traces(b, visits=5, env=env, lists=True) if t.end in ("return", "panic")}
            w = "Ok([%s])" % ", ".join(one(c, i) for i, c in enumerate(seq))
            R.ob("arguments:%s" % "+".join(c[0] for c in seq), got == {w}, o.where(), "evaluate to %s" % sorted(got))

    CONSTFN = {"matrix": "Matrix", "newlist": "Newlist", "icon": "Icon", "sound": "Sound", "filter": "Filter", "file": "File", "generator": "Generator", "vector": "Vector"}
    TRIG = {"sin": lambda d: math.sin(math.radians(d)), "cos": lambda d: math.cos(math.radians(d)), "arcsin": lambda x: math.degrees(math.asin(x)), "arccos": lambda x: math.degrees(math.acos(x))}

    def p_term():
        o = R.fn(K + "term")
        b = prep(o, closures=True, loops=True)
        def run(extra):
            env = env_ok(extra)
            return [t for t in traces(b, visits=2, env=env) if t.end in ("return", "panic")]
        def variant(v, more=lambda t: None):
            return lambda t: v if t == ("arg", 2) else more(t)
        def expect(key, extra, want, what):
            got = {okn(t) for t in run(extra)}
            ok = bool(got) and (all(g.startswith("Err(") for g in got) if want is None else len(got) == 1 and got <= ({want} if isinstance(want, str) else want))
            R.ob(key, ok, o.where(), "%s evaluates to %s" % (what, sorted(got)))
        A = "#2@%s"
        opt = lambda f, v: (lambda t: v if rend(t) == f else None)
        expect("term:null", variant("Null"), "Ok(Null(#3))", "null")
        for x, w in (("Some", "Some(arguments(#1, #2@NewPrefab.args))"), ("None", "None")):
            expect("term:new:%s" % x, variant("NewPrefab", opt("#2@NewPrefab.args", x)), "Ok(New(Some(prefab(#1, #2@NewPrefab.prefab)), %s))" % w, "new with a path")
            expect("term:new-implicit:%s" % x, variant("NewImplicit", opt("#2@NewImplicit.args", x)), "Ok(New(None, %s))" % w.replace("NewPrefab", "NewImplicit").replace("args.args", "args").replace("@NewImplicit.args", "@NewImplicit.args"), "new without a path")
        expect("term:list", variant("List"), "Ok(List(arguments(#1, #2@List)))", "list()")
        expect("term:prefab", variant("Prefab"), "Ok(Prefab(prefab(#1, #2@Prefab)))", "a path")
        expect("term:string", variant("String"), "Ok(String(#2@String))", "a string")
        expect("term:resource", variant("Resource"), "Ok(Resource(#2@Resource))", "a resource")
        expect("term:int", variant("Int"), "Ok(Float(#2@Int))", "an integer")
        expect("term:float", variant("Float"), {"Ok(#2@Float)", "Ok(Float(#2@Float))"}, "a number")
        expect("term:expr", variant("Expr"), "Ok(expr(#1, #2@Expr, #3))", "a parenthesised expression")
        for nm, var in (("type", "Ident"), ("__TYPE__", "__TYPE__")):
            for x in ("Some", "None"):
                ex = variant(var, lambda t: x if rend(t) == "#1.tree" else streq(t, nm))
                expect("term:%s:%s" % (nm, x), ex, "Ok(Prefab(from_path_str(get(new(#1.tree, #1.ty)).path)))" if x == "Some" else None, nm)
        for x, y in (("Some", "Some"), ("Some", "None"), ("None", "Some")):
            ex = variant("Ident", lambda t: x if rend(t) == "#1.tree" else (y if t[0] == "call" and tail(t) == "parent_type" else streq(t, "parent_type")))
            expect("term:parent_type:%s:%s" % (x, y), ex, "Ok(Prefab(from_path_str(parent_type(new(#1.tree, #1.ty)).path)))" if x == y else None, "parent_type")
        expect("term:ident", variant("Ident", lambda t: streq(t, "maxhealth")), "Ok(ident(#1, #2@Ident, False))", "a variable")
        for x in ("Some", "None"):
            expect("term:implied-type:%s" % x, variant("__IMPLIED_TYPE__", lambda t: x if t == ("arg", 3) else None), "Ok(Prefab(#3))" if x == "Some" else None, "__IMPLIED_TYPE__")
        done = {"Null", "NewPrefab", "NewImplicit", "List", "Prefab", "String", "Resource", "Int", "Float", "Expr", "__TYPE__", "Ident", "__IMPLIED_TYPE__", "Call"}
        for v in F.variants("dreammaker::ast::Term"):
            if v not in done: expect("term:%s" % v, variant(v), None, "a %s term" % v)
        # calls
        NAMES = list(CONSTFN) + list(TRIG) + ["rgb", "defined", "nameof", "fexists", "someproc", "text", "list", "matri", "tan"]
        for nm in NAMES:
            for defs, ctx in itertools.product((True, False), repeat=2):
                def more(t, nargs=1, shape="Ident", named=True, parent=True):
                    r = streq(t, nm)
                    if r is not None: return r
                    if t[0] == "call" and tail(t) in ("is_some", "is_none"):
                        f = rend(t[2][0])
                        if f in ("#1.defines", "#1.context"): return (defs if f == "#1.defines" else ctx) == (tail(t) == "is_some")
                    s = rend(t) if t[0] in ("fld", "call") else ""
                    if s == "#1.defines": return "Some" if defs else "None"
                    if s == "#1.context": return "Some" if ctx else "None"
                    if t[0] == "call" and tail(t) == "len": return nargs
                    if t[0] == "call" and tail(t) == "as_term": return "Some" if shape else "None"
                    if s.startswith("as_term("): return shape
                    if t[0] == "call" and tail(t) == "nameof": return "Some" if named else "None"
                    if t[0] == "call" and tail(t) == "parent": return "Some" if parent else "None"
                    return None
                key = "call:%s:%s%s" % (nm, "defines," if defs else "", "context" if ctx else "")
                if nm in CONSTFN: expect(key, variant("Call", more), "Ok(Call(%s, arguments(#1, #2@Call.1)))" % CONSTFN[nm], nm + "()")
                elif nm == "rgb": expect(key, variant("Call", more), "Ok(String(rgb(#1, #2@Call.1)))", "rgb()")
                elif nm in TRIG:
                    rs = run(variant("Call", more))
                    R.ob(key, bool(rs), o.where(), "no value")
                    for t in rs:
                        c = t.result[3][0] if t.result[2] == "Ok" else t.result
                        c = subterm(c, lambda z: z[0] == "call" and tail(z) == "trig_op")
                        if not R.ob(key, c is not None and rend(c[2][1]) == "#2@Call.1", o.where(), "%s() is not evaluated as a function of its argument: %s" % (nm, rend(t.result))): continue
                        for x in ([0.0, 30.0, 45.0, 90.0, 180.0, -60.0] if nm in ("sin", "cos") else [0.0, 0.5, 1.0, -1.0]):
                            v = applied(c[2][2], x)
                            R.ob("trig:%s:%s" % (nm, x), v is not None and abs(v - TRIG[nm](x)) < 1e-6, o.where(), "%s(%s) evaluates to %s, DM gives %s" % (nm, x, v, TRIG[nm](x)))
                elif nm == "defined" and defs:
                    for na, sh in ((1, "Ident"), (0, "Ident"), (2, "Ident"), (1, "String"), (1, None)):
                        expect("%s:%s:%s" % (key, na, sh), variant("Call", lambda t: more(t, na, sh)), "Ok(contains_key(#1.defines, as_term(#2@Call.1[0])@Ident))" if (na, sh) == (1, "Ident") else None, "defined() with %d arguments" % na)
                elif nm == "nameof":
                    for na, nd in ((1, True), (0, True), (2, True), (1, False)):
                        expect("%s:%s:%s" % (key, na, nd), variant("Call", lambda t: more(t, na, "Ident", nd)), "Ok(string(nameof(#2@Call.1[0])))" if (na, nd) == (1, True) else None, "nameof() with %d arguments" % na)
                elif nm == "fexists" and defs and ctx:
                    for na, sh, pa in ((1, "String", True), (0, "String", True), (2, "String", True), (1, "Ident", True), (1, None, True), (1, "String", False)):
                        expect("%s:%s:%s:%s" % (key, na, sh, pa), variant("Call", lambda t: more(t, na, sh, True, pa)), {"Ok(exists(join(parent(file_path(#1.context, #1.location.file)), as_term(#2@Call.1[0])@String)))", "Ok(exists(join(parent(file_path(#1.context, #1.location.file)), as_term(#2@Call.1[0])@String)))"} & ({rend(t.result) for t in run(variant("Call", lambda t: more(t, na, sh, True, pa)))} or {"?"}) or "?" if (na, sh, pa) == (1, "String", True) else None, "fexists() with %d arguments" % na)
                else: expect(key, variant("Call", more), None, "%s()" % nm)

    def applied(f, x):
        """value of the function passed to trig_op at x"""
        f = base(f)
        nm = None
        if f[0] == "agg" and f[1] == "closure" or f[0] == "closure":
            bd = [F.by_hash[f[2]]] if f[2] in F.by_hash else []
        else:
            s = show(f)
            s = s[3:] if s.startswith("fn ") else s
            return safe(("call", s, (("arg", 1),), 0), lambda t: x if t == ("arg", 1) else None)
        if len(bd) != 1: return None
        R.saw(bd[0])
        b = prep(bd[0])
        rs = [safe(t.result, lambda t: x if t in (("arg", 2), ("arg", 1)) else None) for t in traces(b)]
        return rs[0] if len(rs) == 1 else None

    def p_trig():
        o = R.fn(K + "trig_op")
        b = prep(o, closures=True, loops=True)
        for n in (0, 1, 2):
            for num in (True, False):
                def ex(t):
                    if t[0] == "call" and tail(t) == "len": return n
                    if t[0] == "call" and tail(t) == "to_float": return "Some" if num else "None"
                    return None
                got = [t.result for t in traces(b, visits=2, env=env_ok(ex)) if t.end in ("return", "panic")]
                if n == 1 and num:
                    ok = len(got) == 1 and got[0][2] == "Ok" and mentions(got[0], lambda z: z[0] == "call" and tail(z) == "to_float" and rend(z[2][0]).startswith("expr(#1, ")) and "#2" in rend(got[0])
                else: ok = bool(got) and all(g[2] == "Err" for g in got)
                R.ob("trig:%d:%s" % (n, num), ok, o.where(), "with %d arguments evaluates to %s" % (n, [rend(g) for g in got]))

    def p_prefab():
        o = R.fn(K + "prefab")
        b = prep(o, closures=True, loops=True)
        def run(ops, tree, nav):
            def ex(t):
                if named(t, "next"): return "Some" if t[3] % 10 < len(ops) else "None"
                if named(t, "eq", "ne") and len(t[2]) == 2:
                    for x, y in (t[2], t[2][::-1]):
                        if rend(y) == "Slash" and rend(x).startswith("item"): return (ops[loopidx(x)] == "Slash") == (tail(t) == "eq")
                if t[0] == "fld" and t[2] == "0" and rend(t).startswith("item") and loopidx(t) < len(ops): return ops[loopidx(t)]
                if rend(t) == "#1.tree": return tree
                if t[0] == "call" and tail(t) == "navigate_path": return nav
                return None
            return {okn(t).replace("into_boxed_slice(", "").replace("from_iter(", "").replace("collect(", "").replace("into(", "").replace(")", "") for t in traces(b, visits=5, env=env_ok(ex), pure=(), lists=True) if t.end in ("return", "panic")}
        OPS = list(F.variants("dreammaker::ast::PathOp"))
        for ops in [()] + [(x,) for x in OPS] + list(itertools.product(OPS, OPS)):
            key = "path:%s" % "+".join(ops)
            if all(x == "Slash" for x in ops):
                g = run(ops, "None", "None") | run(ops, "Some", "Some")
                w = "Ok(Pop([%s], vars(#1, #2.vars" % ", ".join("item%d.1" % i for i in range(len(ops)))
                R.ob(key, g == {w}, o.where(), "an absolute path evaluates to %s" % sorted(g))
                continue
            g = run(ops, "Some", "Some")
            R.ob(key, g == {"Ok(Pop(to_path(navigate_path(new(#1.tree, #1.ty, #2.path, vars(#1, #2.vars"}, o.where(), "a relative path evaluates to %s" % sorted(g))
            for tr_, nav in (("None", "Some"), ("Some", "None")):
                g = run(ops, tr_, nav)
                R.ob("%s:unresolved:%s:%s" % (key, tr_, nav), bool(g) and all(x.startswith("Err(") for x in g), o.where(), "an unresolved path evaluates to %s" % sorted(g))
        o2 = R.fn(K + "vars")
        b2 = prep(o2, closures=True, loops=True)
        for n in (0, 1, 2):
            def ex(t):
                if t[0] == "call" and tail(t) == "next": return "Some" if t[3] % 10 < n else "None"
                return None
            for t in traces(b2, visits=5, env=env_ok(ex)):
                if t.end not in ("return", "panic"): continue
                ins = [[rend(x) for x in e[1][1:]] for e in t.events if e[0].split("::")[-1] == "insert"]
                R.ob("path:vars:%d" % n, [[y if y != "item%d" % i else "item%d.0" % i for y in x] for i, x in enumerate(ins)] == [["item%d.0" % i, "expr(#1, item%d.1, None)" % i] for i in range(n)] and rend(t.result).startswith("Ok("), o2.where(), "the variables of a path are stored as %s" % ins)

    # ---- rgb ---------------------------------------------------------
    SLOTS = {"r": (0, 255), "red": (0, 255), "g": (1, 255), "green": (1, 255), "b": (2, 255), "blue": (2, 255), "h": (0, 360), "hue": (0, 360), "s": (1, 100), "saturation": (1, 100),
             "c": (1, 100), "chroma": (1, 100), "v": (2, 100), "value": (2, 100), "l": (2, 100), "luminance": (2, 100), "y": (2, 100), "a": (3, 255), "alpha": (3, 255)}
    SPACES = ["Rgb", "Hsv", "Hsl", "Lch"]
    POS = {"Rgb": (255, 255, 255), "Hsv": (360, 100, 100), "Hsl": (360, 100, 100), "Lch": (360, 100, 100)}

    def p_rgb():
        o = R.fn(K + "rgb")
        b = prep(o, closures=True, loops=True)

        def scenario(names, space=None, bad=None, badkind=None, nargs=None):
            def ex(t):
                if t[0] == "call":
                    n = tail(t)
                    if n == "len": return (nargs if nargs is not None else len(names)) if rend(t[2][0]) in ("#2", "#2.0") or not mentions(t, lambda z: z[0] == "list") else None
                    if n == "next":
                        if not mentions(t[2][0], lambda z: z[0] == "call" and tail(z) == "arguments"): return None
                        return "Some" if t[3] % 10 < len(names) else "None"
                    if n == "as_str":
                        i = loopidx(t)
                        return "None" if badkind == "key" and i == bad else "Some"
                    if n == "eq" and len(t[2]) == 2:
                        k, i = const_of(t[2][1]), loopidx(t[2][0])
                        if isinstance(k, str) and i is not None and i < len(names): return names[i] == k
                    if n == "to_int":
                        i = loopidx(t)
                        return "None" if badkind == "int" and i == bad else "Some"
                    if n == "contains":
                        i = loopidx(t[2][1])
                        return not (badkind == "range" and i == bad)
                    if n == "count":      # filled slots so far
                        x = subterm(t, lambda z: z[0] in ("list", "repeat") or z[0] == "agg" and z[1] == "array")
                        if x is None: return None
                        if x[0] == "repeat": return 0
                        return sum(1 for z in (x[1] if x[0] == "list" else x[3]) if not (z[0] == "agg" and z[2] == "None"))
                if t[0] == "fld":
                    if t[2] == "1":
                        i = loopidx(t)
                        if i is not None and i < len(names) and rend(t) == "item%d.1" % i: return "None" if names[i] is None else "Some"
                    if t[1][0] == "call" and tail(t[1]) == "default": return "None" if t[2] == "a" else False
                    if t[2] == "0" and t[1][0] == "as" and t[1][1][0] == "call" and tail(t[1][1]) == "to_int":
                        i = loopidx(t)
                        if i is not None and i < len(names) and names[i] == "space": return space
                return None
            return [t for t in traces(b, visits=9, env=env_ok(ex), lists=True, limit=4000) if t.end in ("return", "panic")]

        def describe(t):
            """(ranges checked, colour space, component items, alpha item) of a path that succeeds"""
            rng = {}
            for e in t.events:
                if e[0].split("::")[-1] == "contains" and len(e[1]) == 2:
                    r = base(e[1][0])
                    lohi = tuple(const_of(x) for x in (r[2] if r[0] == "call" else r[3])[:2])
                    rng.setdefault(loopidx(e[1][1]), set()).add(lohi)
            holes = None
            for e in t.events:
                if e[0].endswith("Arguments::new"):
                    p = fmt_parts(("call", e[0], tuple(e[1]), 0))
                    if p and p[0] == "#": holes = p
            if holes is None: return None
            spec = {h[2] for h in holes[1:] if not isinstance(h, str)}
            col, comps = None, []
            order = []
            for h in holes[1:4]:
                if isinstance(h, str): return None
                c = subterm(h[1], lambda z: z[0] == "call" and tail(z) == "new" and any(("::%s::" % s) in z[1] or z[1].endswith("::%s::new" % s) for s in SPACES))
                if c is None: return None
                f = subterm(h[1], lambda z: z[0] == "fld" and z[2] in ("r", "g", "b"))
                order.append(f[2] if f else None)
                col = c
            space = [s for s in SPACES if ("::%s::" % s) in col[1] or col[1].endswith("::%s::new" % s)][0]
            for a in col[2]:
                sc = subterm(a, lambda z: z[0] == "k" and isinstance(z[1], tuple) and z[1][0] == "f64")
                comps.append((loopidx(a), float(sc[1][1]) if sc else 1.0))
            alpha = loopidx(holes[4][1]) if len(holes) > 4 else None
            return rng, space, comps, alpha, order, len(spec), len(holes), next(iter(spec))

        def good(key, names, space=None, want_space="Rgb", slot=None):
            ts = scenario(names, space)
            R.ob(key, bool(ts), o.where(), "not evaluated")
            comp, rngs, alpha = [None] * 3, {}, None
            filled = 0
            for i, n in enumerate(names):
                if n == "space": continue
                if n is None: s, hi = filled, (POS[want_space][filled] if filled < 3 else 255)
                else: s, hi = SLOTS[n]
                filled += 1
                rngs[i] = {(0, hi)}
                if s == 3: alpha = i
                elif s < 3: comp[s] = i
            if want_space == "Rgb": w = [(c, 1.0) for c in comp]
            elif want_space == "Lch": w = [(comp[2], 1.0), (comp[1], 1.0), (comp[0], 1.0)]
            else: w = [(comp[0], 1.0), (comp[1], 0.01), (comp[2], 0.01)]
            for t in ts:
                d = describe(t) if t.result and t.result[0] == "agg" and t.result[2] == "Ok" else None
                if not R.ob(key, d is not None, o.where(), "is not a colour: %s" % (rend(t.result)[:120] if t.result else t.end)): continue
                R.ob(key, d[0] == rngs, o.where(), "the values are checked against %s, not %s" % (d[0], rngs))
                R.ob(key, d[1] == want_space, o.where(), "is read as %s, not %s" % (d[1], want_space))
                R.ob(key, d[2] == w, o.where(), "the components are %s, not %s" % (d[2], w))
                R.ob(key, d[3] == alpha, o.where(), "the alpha value is %s, not %s" % (d[3], alpha))
                R.ob(key, d[4] == ["r", "g", "b"] and d[5] == 1 and d[6] == (4 if alpha is None else 5), o.where(), "the colour is written in the order %s" % d[4])
                R.ob(key, d[7][0] == "lower_hex" and (4, (2, 0)) not in d[7][1] and any(w_ == (2, 0) for _, w_ in d[7][1]), o.where(), "a colour value is written as %s" % (d[7],))

        n_ok = [0]
        for base_names, sp in ((("r", "g", "b"), "Rgb"), (("red", "green", "blue"), "Rgb"), (("h", "s", "v"), "Hsv"), (("hue", "saturation", "value"), "Hsv"),
                               (("h", "s", "l"), "Hsl"), (("hue", "saturation", "luminance"), "Hsl"), (("h", "c", "y"), "Lch"), (("hue", "chroma", "y"), "Lch")):
            for perm in itertools.permutations(base_names):
                good("rgb:%s" % ",".join(perm), perm, None, sp); n_ok[0] += 1
            good("rgb:%s,a" % ",".join(base_names), base_names + ("a",), None, sp)
            good("rgb:alpha,%s" % ",".join(base_names), ("alpha",) + base_names, None, sp)
            good("rgb:%s,positional" % ",".join(base_names), base_names + (None,), None, sp)
        good("rgb:positional", (None,) * 3)
        good("rgb:positional-alpha", (None,) * 4)
        for i, sp in enumerate(SPACES):
            good("rgb:space=%d" % i, (None, None, None, "space"), i, sp)
            good("rgb:space=%d first" % i, ("space", None, None, None), i, sp)
            good("rgb:space=%d alpha" % i, (None, None, None, None, "space"), i, sp)
        def fails(key, *a, **kw):
            ts = scenario(*a, **kw)
            R.ob(key, bool(ts) and all(t.result and t.result[0] == "agg" and t.result[2] == "Err" for t in ts), o.where(), "is evaluated: %s" % [rend(t.result)[:100] for t in ts if t.result and t.result[2] != "Err"][:1])
        for n in (0, 1, 2, 6, 7): fails("rgb:count:%d" % n, (None,) * min(n, 3), nargs=n)
        for i in range(4):
            for kind in ("range", "int"): fails("rgb:%s:%d" % (kind, i), (None,) * 4, bad=i, badkind=kind)
        fails("rgb:unknown-keyword", ("r", "g", "blu"))
        fails("rgb:keyword-not-a-name", ("r", "g", "b"), bad=1, badkind="key")
        fails("rgb:bad-space", (None, None, None, "space"), 4)
        fails("rgb:h-only", ("h", None, None)); fails("rgb:h-s-only", ("h", "s", None))
        fails("rgb:two-values", ("r", "g", "space"), 0)
        fails("rgb:missing-component", ("r", "g", "a"))
        R.count("rgb_orders", n_ok[0], 48)

    R.part("conversions", p_conv)
    R.part("binary", p_binary)
    R.part("unary", p_unary)
    R.part("expr", p_expr)
    R.part("arguments", p_arguments)
    R.part("term", p_term)
    R.part("trig", p_trig)
    R.part("prefab", p_prefab)
    R.part("rgb", p_rgb)
