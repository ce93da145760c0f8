"""DreamChecker visits every statement and expression of a proc body."""
from lib import *
from cover import Cover

RULE = """Traversal completeness on the checker's MIR: starting from the statement list of a proc body, for every AST variant and
every field that can hold statements or expressions, every path through the handling function either hands the part (or each of
its elements) to a function that covers it in turn, or registers a diagnostic."""
A = "dreammaker::ast::"


def check(F, R):
    cov = Cover(F, [A + "Expression", A + "Statement", A + "Term", A + "Follow", A + "Case"], [A],
                exempt_types=[A + "Prefab", A + "MiniExpr"],
                exempt_fields=[(A + "Statement", "Setting", "value")],
                excuse=lambda b, c: c.is_("error::DMError::register", "Context::register_error"),
                excuse_guard=lambda g, b: g[1] == "in" and g[2] == frozenset([True]) and mentions(g[0], lambda x: x == ("k", "SpacemanDMM_unlint")))
    root = R.fn("dreamchecker::AnalyzeObjectTree::check_proc")
    j = [k for k in range(1, root.argc + 1) if cov.has(root.ty(k))]
    R.ob("root:param", len(j) == 1, root.where(), "the body parameter of check_proc is not found")
    ok = j and cov.covers(root, j[0])
    R.ob("root:covered", ok, root.where(), "the statements of a proc body are not handed to the visitor: %s" % [x[1:] for x in getattr(cov, "failed", []) if x[0] is root])
    n = 0
    for body, label, good, where, msg in cov.obligations:
        R.saw(body)
        n += 1
        R.ob("visit:%s:%s" % (body.name, label), good, where, "%s in %s: %s" % (label, body.npath, msg))
    R.count("visitor_obligations", n, 60)
    R.count("visitor_functions", len(cov.visited), 8)
    # every proc with a body is analysed
    o = R.fn("dreamchecker::run_inner")
    hits = 0
    for b in [o] + list(o.closures):
        for c in b.calls_to("AnalyzeObjectTree::check_proc"):
            hits += 1
            g = [x for x in b.guards(c.bb) if not (x[0][0] == "call" and x[0][1].endswith("next"))]
            bad = [x for x in g if not mentions(x[0], lambda y: y[0] == "fld" and y[2] == "code")]
            R.ob("every-proc", not bad, c.where(), "a proc body is only analysed under a further condition: %s" % [(show(x[0], b), sorted(map(str, x[2]))) for x in bad])
    R.count("check_proc_calls", hits, 1)
