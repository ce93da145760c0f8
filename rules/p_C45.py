"""Conditions and ranges are called constant only when they are."""
import itertools
from lib import *
from p_C44 import agg, some, NONE, box, reports
from text import strings, compare

RULE = """is_truthy and is_static of terms, is_truthy and is_const_eval of expressions and valid_for_range are evaluated abstractly over their MIR for every variant, with operands of every outcome (true, false, not known);
what they claim must be what the language gives for every value of the parts that are not known, and what is known must be claimed. The two functions that report conditions are evaluated for every outcome."""
A = "dreammaker::ast::"
C = "dreamchecker::"
TRI = {True: some(("k", True)), False: some(("k", False)), None: NONE}


def T(v, *f): return agg(A + "Term", v, **{str(i): x for i, x in enumerate(f)})
def base(t, follow=()): return agg(A + "Expression", "Base", term=box(agg(A + "Spanned", "Spanned", location=("k", "loc"), elem=t)), follow=box(("list", tuple(follow))))
def follow(f): return agg(A + "Spanned", "Spanned", location=("k", "loc"), elem=f)
def unary(op): return follow(agg(A + "Follow", "Unary", **{"0": agg(A + "UnaryOp", op)}))


def tri(x):
    for k, v in TRI.items():
        if x == v: return k
    return rend(x)[:80]


def play(b, init, known={}, **kw):
    def seed(t):
        n, a = tail(t), t[2]
        if n in ("is_truthy", "is_static") and len(a) == 1:
            z = [v for k, v in known.items() if k == a[0] or a[0] == box(k)]
            if z: return TRI[z[0]] if n == "is_truthy" else ("k", z[0])
        return strings(t)
    return runs(b, compare, visits=8, lists="maps", init=init, seed=seed, **kw)


def check(F, R):
    def p_terms():
        o = R.fn(A + "Term::is_truthy")
        b = prep(o, closures=True, loops=True)
        E = ("k", "an expression")
        cases = {"null": (T("Null"), False), "0": (T("Int", ("k", 0)), False), "1": (T("Int", ("k", 1)), True), "-1": (T("Int", ("k", -1)), True), '""': (T("String", ("k", "")), False), '"0"': (T("String", ("k", "0")), True), '"x"': (T("String", ("k", "x")), True),
                 "0.0": (T("Float", ("k", ("f32", "0.0"))), False), "0.5": (T("Float", ("k", ("f32", "0.5"))), True), "-0.5": (T("Float", ("k", ("f32", "-0.5"))), True), "1e-07": (T("Float", ("k", ("f32", "1e-07"))), True),
                 '" "': (T("String", ("k", " ")), True), '"\\n"': (T("String", ("k", "\n")), True), '"null"': (T("String", ("k", "null")), True), "2": (T("Int", ("k", 2)), True), "-2147483648": (T("Int", ("k", -2147483648)), True)}
        parts = lambda *xs: box(("list", tuple(("agg", "tuple", "", (NONE, box(("k", x))), ()) for x in xs)))
        for first, ps in itertools.product(("", "a"), ((), ("",), ("b",), ("", "b"), ("", ""), ("b", ""))):
            cases["text %r[..]%s" % (first, "[..]".join(map(repr, ps)))] = (T("InterpString", ("k", first), parts(*ps)), True if first or any(ps) else None)
        for v, w in {"NewImplicit": True, "NewPrefab": True, "NewMiniExpr": True, "List": True, "Prefab": True}.items(): cases[v] = (T(v, ("k", "x0"), ("k", "x1"), ("k", "x2")), w)
        for w in (True, False, None): cases["(%s)" % w] = (T("Expr", box(E)), w)
        done = {x[0][2] for x in cases.values()}
        for v in F.variants(A + "Term"):
            if v not in done: cases[v] = (T(v, ("k", "x0"), ("k", "x1"), ("k", "x2")), None)
        for n, (t, w) in cases.items():
            got = {tri(x.result) for x in play(b, {1: t}, {E: w})}
            R.ob(("term", n), got == {w}, o.where(), f"{n} is called {got}, it is {w}")
        R.count("terms", len(cases), 35)
        o = R.fn(A + "Term::is_static")
        b = prep(o, closures=True, loops=True)
        for v in F.variants(A + "Term"):
            got = {x.result for x in play(b, {1: T(v, ("k", "x0"), ("k", "x1"), ("k", "x2"))})}
            R.ob(("static", v), got == {("k", v in ("Null", "Int", "Float", "String", "Prefab"))}, o.where(), f"{v}: {got}")
    R.part("terms", p_terms)

    def p_expressions():
        o = R.fn(A + "Expression::is_truthy")
        b = prep(o, closures=True, loops=True)
        X, Y, Z = (T("Ident", ("k", x)) for x in "xyz")
        EX, EY, EZ = (base(x) for x in (X, Y, Z))
        k = 0

        def one(label, e, known, right, must):
            """right: the values it can have; must: it has to be known"""
            nonlocal k
            k += 1
            got = {tri(x.result) for x in play(b, {1: e}, known)}
            R.ob(("expression",) + label, bool(got) and got <= (right if len(right) == 1 else set()) | {None} and not (must and None in got), o.where(), f"called {got}, it can be {sorted(map(str, right))}")
        VS = (True, False, None)
        U = lambda v: {True, False} if v is None else {v}
        nots, neg, fld_ = unary("Not"), unary("Neg"), follow(agg(A + "Follow", "Field", **{"0": agg(A + "PropertyAccessKind", "Dot"), "1": ("k", "f")}))
        for v in VS:
            for n, fs in {"x": (), "!x": (nots,), "!!x": (nots, nots), "!!!x": (nots,) * 3}.items():
                one((n, str(v)), base(X, fs), {X: v}, {y ^ bool(len(fs) % 2) for y in U(v)}, v is not None)
            for n, fs in {"-x": (neg,), "x.f": (fld_,), "!x.f": (fld_, nots), "(!x).f": (nots, fld_), "-!x": (nots, neg), "!-x": (neg, nots), "~x": (unary("BitNot"),), "x++": (unary("PostIncr"),), "--x": (unary("PreDecr"),)}.items():
                one((n, str(v)), base(X, fs), {X: v}, {True, False}, False)
        for op in F.variants(A + "BinaryOp"):
            for l, r in itertools.product(VS, VS):
                right = {x and y if op == "And" else x or y for x in U(l) for y in U(r)} if op in ("And", "Or") else {True, False}
                one((op, str(l), str(r)), agg(A + "Expression", "BinaryOp", op=agg(A + "BinaryOp", op), lhs=box(EX), rhs=box(EY)), {EX: l, EY: r, X: l, Y: r}, right, op in ("And", "Or") and None not in (l, r))
        for op in F.variants(A + "AssignOp"):
            for l, r in itertools.product(VS, VS):
                one((op, str(l), str(r)), agg(A + "Expression", "AssignOp", op=agg(A + "AssignOp", op), lhs=box(EX), rhs=box(EY)), {EX: l, EY: r, X: l, Y: r}, U(r) if op == "Assign" else {True, False}, op == "Assign" and r is not None)
        for c, l, r in itertools.product(VS, VS, VS):
            one(("ternary", str(c), str(l), str(r)), agg(A + "Expression", "TernaryOp", cond=box(EZ), if_=box(EX), else_=box(EY)), {EX: l, EY: r, EZ: c, X: l, Y: r, Z: c}, set().union(*[U(l) if x else U(r) for x in U(c)]), c is not None and (l if c else r) is not None)
        R.count("expressions", k, 250)
        o = R.fn(A + "Expression::is_const_eval")
        b = prep(o, closures=True, loops=True)
        k = 0
        for op in F.variants(A + "BinaryOp"):
            for l, r, fl, fr in itertools.product((True, False), (True, False), ((), (neg,)), ((), (neg,))):
                if fl and fr and not (l and r): continue
                k += 1
                got = {x.result for x in play(b, {1: agg(A + "Expression", "BinaryOp", op=agg(A + "BinaryOp", op), lhs=box(base(X, fl)), rhs=box(base(Y, fr)))}, {X: l, Y: r})}
                w = op in ("Eq", "NotEq", "Less", "Greater", "LessEq", "GreaterEq", "And", "Or") and l and r and not fl and not fr
                R.ob(("constant", op, str(l), str(r), "-x" if fl else "x", "-y" if fr else "y"), got == {("k", w)}, o.where(), f"{op} of {'constant' if l else 'unknown'} and {'constant' if r else 'unknown'}: {got}")
        for n, e in {"x": EX, "x = y": agg(A + "Expression", "AssignOp", op=agg(A + "AssignOp", "Assign"), lhs=box(EX), rhs=box(EY)), "x ? y : z": agg(A + "Expression", "TernaryOp", cond=box(EX), if_=box(EY), else_=box(EZ))}.items():
            got = {x.result for x in play(b, {1: e}, {X: True, Y: True, Z: True})}
            R.ob(("constant", n), got == {("k", False)}, o.where(), f"{n}: {got}")
        R.count("operations", k, 200)
    R.part("expressions", p_expressions)

    def p_ranges():
        o = R.fn(A + "Term::valid_for_range")
        b = prep(o, closures=True, loops=True)
        steps = {"": (None, {1}), "step 1": (base(T("Int", ("k", 1))), {1}), "step 3": (base(T("Int", ("k", 3))), {3}), "step -1 (folded)": (base(T("Int", ("k", -1))), {-1}), "step -1": (base(T("Int", ("k", 1)), [unary("Neg")]), {-1}), "step -x": (base(T("Ident", ("k", "x")), [unary("Neg")]), {1, -1}),
                 "step x": (base(T("Ident", ("k", "x"))), {1, -1}), "step x + 1": (agg(A + "Expression", "BinaryOp", op=agg(A + "BinaryOp", "Add"), lhs=box(base(T("Ident", ("k", "x")))), rhs=box(base(T("Int", ("k", 1))))), {1, -1}), "step 0": (base(T("Int", ("k", 0))), {0})}
        k = 0
        for i, j in itertools.product((0, 1, -1, 5, 6), repeat=2):
            for n, (e, ss) in steps.items():
                k += 1
                got = {tri(x.result) for x in play(b, {1: T("Int", ("k", i)), 2: T("Int", ("k", j)), 3: NONE if e is None else some(e)})}
                right = {i <= j if s > 0 else i >= j if s < 0 else None for s in ss}
                ok = got == {None} if len(right) > 1 or right == {None} else got <= right | ({None} if e is not None else set())
                R.ob(("range", str(i), str(j), n), ok, o.where(), f"{i} to {j} {n}: called {got}, it is {right}")
        for v in F.variants(A + "Term"):
            if v == "Int": continue
            x = T(v, ("k", "x0"), ("k", "x1"), ("k", "x2"))
            for l, r in ((x, T("Int", ("k", 1))), (T("Int", ("k", 1)), x), (x, x)):
                k += 1
                got = {tri(y.result) for y in play(b, {1: l, 2: r, 3: NONE})}
                R.ob(("range", v, "first" if l is x else "last", "only" if l is r else ""), got == {None}, o.where(), f"a range with a {v} is called {got}")
        R.count("ranges", k, 280)
    R.part("ranges", p_ranges)

    def p_reports():
        X = T("Ident", ("k", "x"))
        E = base(X)
        o = R.fn(C + "AnalyzeProc::<'o, 's>::loop_condition_check")
        b = prep(o, closures=True, loops=True)
        for v in (True, False, None):
            got = {tuple(m for w, m in reports(t)) for t in play(b, {2: ("k", "here"), 3: E}, {E: v})}
            want = () if v is None else ("loop condition is always %s" % str(v).lower(),)
            R.ob(("loop condition", str(v)), got == {want}, o.where(), f"{v}: {got}")
        o = R.fn(C + "AnalyzeProc::<'o, 's>::visit_control_condition")
        b = prep(o, closures=True, loops=True)
        for const, static, single in itertools.product((True, False), repeat=3):
            if const and single: continue
            e = base(X, () if single else (unary("Neg"),))
            ts = runs(b, compare, visits=6, lists="maps", init={2: ("k", "here"), 3: e}, seed=lambda t: ("k", const) if tail(t) == "is_const_eval" else ("k", static) if tail(t) == "is_static" else strings(t))
            got = {len(reports(t)) for t in ts}
            R.ob(("condition", str(const), str(static), str(single)), got == {int(const or static and single)}, o.where(), f"constant operation {const}, constant term {static and single}: {got} reports")
    R.part("reports", p_reports)
