"""Sleep and purity violations are collected and propagated through the whole call graph."""
from lib import *

RULE = """Must-pass path analysis on the checker's MIR.  Recording: under the assumption that a call/term is one of the sleeping
or impure operations (outside a spawn), every path of the visitor passes the call that records it; in a new context none does.
Every proc call pushes an edge carrying callee, location and context.  Propagation: from each dequeued call-graph edge, under the
assumption that none of the documented cut-offs applies, every path back to the queue looks up the callee's violators, registers
a diagnostic when there are any, and otherwise enqueues all callees and dispatchable overrides."""
T = "dreamchecker::AnalyzeObjectTree::"
A = "dreamchecker::AnalyzeProc::"
SLEEPERS = ["sleep", "alert", "shell", "winexists", "winget"]


def some_starts(b, c):
    t = b.cterm(c.t, c.bb, 0)
    return variant_entries(b, lambda x: x == t, "Some"), t


def writes_of(b, field):
    return field_writes(b, field)


def check(F, R):
    ctx = "inside_newcontext"

    # ---------------------------------------------------------------- recording: sleeping operations
    def p_call_term():
        o = R.fn(A + "visit_term")
        b = prep(o)
        P = Paths(R, b)
        name = lambda t: base(t)[0] == "fld" and base(t)[2] == "0" and base(t)[1] == ("as", ("arg", 3), "Call")
        ev = [c.bb for c in calls_where(b, "insert_violator", ("any:sleeping_procs",), ("any:proc_ref",))]
        starts = variant_entries(b, is_term(("arg", 3)), "Call")
        R.ob("term-call", bool(starts), o.where(), "the Call term is not dispatched on")
        for n in SLEEPERS:
            P.must("sleep-call:%s" % n, starts, ev, env_of((name, n), ("fld:" + ctx, 0)), msg="a call of %s() outside a spawn is not recorded as sleeping on some path" % n)
            P.never("sleep-call-spawned:%s" % n, starts, ev, env_of((name, n), ("fld:" + ctx, 1)), msg="a call of %s() inside a spawn is recorded as sleeping" % n)
        for n in ("prob", "winset", "locate"):
            P.never("sleep-other:%s" % n, starts, ev, env_of((name, n), ("fld:" + ctx, 0)), msg="a call of %s() is recorded as sleeping" % n)
        starts = variant_entries(b, is_term(("arg", 3)), "Input")
        P.must("sleep-input", starts, ev, env_of(("fld:" + ctx, 0)), msg="input() outside a spawn is not recorded as sleeping on some path")
        P.never("sleep-input-spawned", starts, ev, env_of(("fld:" + ctx, 1)), msg="input() inside a spawn is recorded as sleeping")
        ts = calls_where(b, "check_type_sleepers")
        P.must("type-sleepers:unscoped", variant_entries(b, is_term(("arg", 3)), "Call"), [c.bb for c in ts], msg="an unscoped call is not checked for sleeping built-ins of its type")
        for c in ts:
            R.ob("type-sleepers:unscoped-args", M("fld:ty")(c.arg(1)) and name(c.arg(3)), c.where(), "checked with %s" % [show(x, b) for x in c.args()])
    R.part("call_term", p_call_term)

    def p_type_sleepers():
        o = R.fn(A + "check_type_sleepers")
        b = prep(o)
        P = Paths(R, b)
        ev = [c.bb for c in calls_where(b, "insert_violator", ("any:sleeping_procs",), ("any:proc_ref",))]
        path = lambda t: M("fld:path")(t)
        tab = {"/client": ["SoundQuery", "MeasureText"], "/world": ["Import", "Export"]}
        for ty in list(tab) + ["/mob"]:
            for n in ["SoundQuery", "MeasureText", "Import", "Export", "New"]:
                e = [(path, ty), (is_term(("arg", 4)), n)]
                if n in tab.get(ty, []):
                    P.must("type-sleeper:%s.%s" % (ty, n), [0], ev, env_of(*e, ("fld:" + ctx, 0)), msg="%s.%s() is not recorded as sleeping on some path" % (ty, n))
                    P.never("type-sleeper-spawned:%s.%s" % (ty, n), [0], ev, env_of(*e, ("fld:" + ctx, 1)), msg="%s.%s() in a spawn is recorded as sleeping" % (ty, n))
                else:
                    P.never("type-sleeper:%s.%s" % (ty, n), [0], ev, env_of(*e, ("fld:" + ctx, 0)), msg="%s.%s() is recorded as sleeping" % (ty, n))
        o = R.fn(A + "visit_follow")
        b = prep(o)
        P = Paths(R, b)
        j = [k for k in range(1, b.argc + 1) if (b.ty(k).peel().d or "").endswith("ast::Follow")]
        lh = [k for k in range(1, b.argc + 1) if (b.ty(k).peel().d or "").endswith("::Analysis")]
        if not j or not lh:
            raise AnchorMissing("visit_follow parameters")
        ev = [c.bb for c in calls_where(b, "check_type_sleepers")]
        P.must("type-sleepers:scoped", variant_entries(b, is_term(("arg", j[0])), "Call"), ev, env_of(("call:basic_type", "Some"), (lambda t: t[0] == "fld" and t[2] == "0" and t[1] == ("as", ("arg", j[0]), "Call"), "Dot")),
               msg="a call on a typed receiver is not checked for sleeping built-ins of that type")
    R.part("type_sleepers", p_type_sleepers)

    def p_newcontext():
        o = R.fn(A + "visit_statement")
        b = prep(o)
        P = Paths(R, b)
        inc, dec, other = [], [], []
        for bb, i, t in field_writes(b, ctx):
            t = canon(t)
            add = (t[0] == "call" and t[1].split("::")[-1] in ("wrapping_add", "saturating_add") and t[2][1] == ("k", 1)) or (t[0] == "bin" and t[1] == "Add" and ("k", 1) in t[2:])
            sub = (t[0] == "call" and t[1].split("::")[-1] in ("wrapping_sub", "saturating_sub") and t[2][1] == ("k", 1)) or (t[0] == "bin" and t[1] == "Sub" and t[3] == ("k", 1))
            (inc if add else dec if sub else other).append(bb)
        R.ob("spawn:updates", inc and dec and not other, o.where(), "the new-context counter is not incremented and decremented by one")
        starts = variant_entries(b, lambda t: t[0] == "arg" and (b.ty(t[1]).peel().d or "").endswith("Statement"), "Spawn")
        vis = [c.bb for c in b.calls() if c.name in ("visit_block", "visit_expression")]
        P.never("spawn:enter", starts, set(vis) | set(b.returns()), avoid=inc, msg="the block of a spawn is visited without entering a new context")
        sp = set(b.reach_from(starts))
        P.must("spawn:leave", [x for x in inc if x in sp], dec, msg="a spawn is left without leaving the new context")
        live = [x for d in dec for x in b.succ(d)]
        P.never("spawn:once", live, inc + dec, msg="the new context counter is changed twice for one spawn")
        for d in inc + dec:
            R.ob("spawn:only", guard_has(b, d, lambda t, m, v: m == "in" and v == frozenset(["Spawn"])), o.where(), "the new-context counter is changed outside a spawn")
        # waitfor
        w = [c for c in b.calls_to("insert") if M("any:waitfor_procs")(c.arg(0))]
        R.ob("waitfor:set", len(w) >= 1, o.where(), "`set waitfor = 0` is not recorded")
        st = variant_entries(b, lambda t: t[0] == "arg" and (b.ty(t[1]).peel().d or "").endswith("Statement"), "Setting")
        nm = lambda t: M("fld:name")(t)
        val = lambda v: lambda t: t[0] == "call" and t[1].endswith("as_term")
        P.never("waitfor:other", st, [c.bb for c in w], env_of((nm, "background")), msg="another setting than waitfor exempts the proc from the sleep check")
        isint = lambda t: t[0] == "fld" and t[1][0] == "as" and t[1][2] == "Int"
        for v, good in ((0, True), (1, False), (5, False)):
            e = env_of((nm, "waitfor"), ("fld:mode", "Assign"), ("call:as_term", "Some"), (lambda t: t[0] == "fld" and t[2] == "0" and M("call:as_term")(t[1][1]) if t[0] == "fld" and t[1][0] == "as" else False, "Int"), (isint, v))
            (P.must if good else P.never)("waitfor:%d" % v, st, [c.bb for c in w], e, msg="`set waitfor = %d` is %s" % (v, "not recorded on some path" if good else "treated as waitfor = 0"))
    R.part("newcontext", p_newcontext)

    # ---------------------------------------------------------------- recording: calls
    def p_edges():
        o = R.fn(A + "visit_call")
        b = prep(o)
        P = Paths(R, b)
        ev = []
        for c in b.calls_to("push"):
            v = c.arg(1)
            if v[0] == "agg" and v[1].endswith("CallEdge"):
                f = dict(zip(v[4], v[3]))
                where = c.where()
                recv = c.arg(0)
                R.ob("edge:list", M("any:call_tree")(recv) and mentions(recv, lambda x: x[0] == "fld" and x[2] == "proc_ref") or any("entry" in x.fn and M("any:call_tree")(x.arg(0)) and M("any:proc_ref")(x.arg(1)) for x in b.calls()), where, "the edge is not recorded for the calling proc")
                ptys = {n: k for k in range(1, b.argc + 1) for n in [(b.ty(k).peel().d or b.ty(k).s).split("::")[-1]]}
                want = {"proc": ptys.get("ProcRef"), "location": ptys.get("Location"), "src": ptys.get("TypeRef")}
                for n, k in want.items():
                    R.ob("edge:%s" % n, base(f[n]) == ("arg", k), where, "the %s of a recorded call is %s" % (n, show(f[n], b)))
                for n in ("is_exact", "inherit_receiver"):
                    R.ob("edge:%s" % n, f[n][0] == "arg" and b.ty(f[n][1]).k == "bool", where, "%s of a recorded call is %s" % (n, show(f[n], b)))
                R.ob("edge:distinct", f["is_exact"] != f["inherit_receiver"], where, "is_exact and inherit_receiver are the same parameter")
                for k, exp in ((0, False), (1, True), (3, True)):
                    R.ob("edge:new_context:%d" % k, evaluate(f["new_context"], env_of(("fld:" + ctx, k))) is exp, where, "a call with %d enclosing spawns is recorded with new_context %s" % (k, show(f["new_context"], b)))
                ev.append(c.bb)
                R.ex, R.inh = f["is_exact"], f["inherit_receiver"]
        P.must("edge:always", [0], ev, msg="a call is not recorded in the call graph on some path")
        # call sites of visit_call: exactness and receiver
        n = 0
        exk = R.ex[1] - 1 if ev else 5
        ink = R.inh[1] - 1 if ev else 6
        for c in F.callers().get(o.h, []):
            cb = prep(c.body)
            n += 1
            R.saw(c.body)
            a = [c.body.term(x, c.bb) for x in c.t["a"]]
            R.ob("callsite:flags:%s" % c.body.name, a[exk][0] in ("k", "var", "arg", "fld", "bin") and a[ink][0] in ("k", "var", "arg"), c.where(), "is_exact %s inherit %s" % (show(a[exk]), show(a[ink])))
        R.count("visit_call_sites", n, 8)
        # the flags per kind of call
        vt = prep(R.fn(A + "visit_term"))
        exp = {"Call": (False, True), "SelfCall": (True, True), "ParentCall": (True, True), "GlobalCall": (True, False)}
        for v, (ex, inh) in exp.items():
            seen = 0
            for c in vt.calls_to("visit_call"):
                if guard_has(vt, c.bb, lambda t, m, s: t == ("arg", 3) and m == "in" and s == frozenset([v])):
                    seen += 1
                    a = c.args()
                    R.ob("callsite:%s" % v, a[exk] == ("k", ex) and a[ink] == ("k", inh), c.where(), "%s is recorded with is_exact %s, inherit_receiver %s" % (v, show(a[exk]), show(a[ink])))
            R.ob("callsite-count:%s" % v, seen >= 1, "", "%s does not record a call" % v)
        for fn in ("visit_follow", "visit_new", "check_operator_overload"):
            fb = prep(R.fn(A + fn))
            for c in fb.calls_to("visit_call"):
                a = c.args()
                R.ob("callsite:%s:inherit" % fn, a[ink] == ("k", False), c.where(), "a call on an explicit receiver inherits the caller's receiver")
    R.part("edges", p_edges)

    # ---------------------------------------------------------------- recording: impure operations
    def p_impure():
        o = R.fn(A + "visit_expression")
        b = prep(o)
        P = Paths(R, b)
        e = [k for k in range(1, b.argc + 1) if (b.ty(k).peel().d or "").endswith("ast::Expression")][0]
        ev = [c.bb for c in calls_where(b, "insert_violator", ("any:impure_procs",), ("any:proc_ref",))]
        imp = lambda t: M("fld:is_impure")(t) or (t[0] == "discr" and M("fld:is_impure")(t[1]))
        impv = lambda t: t[0] == "fld" and t[2] == "0" and t[1][0] == "as" and M("fld:is_impure")(t[1][1])
        st = variant_entries(b, is_term(("arg", e)), "AssignOp")
        P.must("impure:assign", st, ev, env_of((imp, "Some"), (impv, True)), msg="an assignment to an impure place is not recorded on some path")
        P.never("pure:assign", st, ev, env_of((imp, "None")), msg="an assignment to a place not known to be impure is recorded")
        P.never("pure:assign2", st, ev, env_of((imp, "Some"), (impv, False)), msg="an assignment to a pure place is recorded")
        isT = lambda n: lambda t: t[0] in ("bin", "call") and mentions(t, lambda x: x[0] == "fld" and x[2] == "static_ty") and mentions(t, lambda x: x == ("k", n))
        st = variant_entries(b, is_term(("arg", e)), "BinaryOp")
        opf = lambda t: base(t)[0] == "fld" and base(t)[2] == "op" and base(t)[1] == ("as", ("arg", e), "BinaryOp")
        for n in ("/mob", "/savefile", "/list"):
            others = [(isT(m), m == n) for m in ("/mob", "/savefile", "/list")]
            P.must("impure:shl:%s" % n, st, ev, env_of((opf, "LShift"), *others), msg="<< onto %s is not recorded as impure on some path" % n)
        P.never("pure:shl", st, ev, env_of((opf, "LShift"), *[(isT(m), False) for m in ("/mob", "/savefile", "/list")]), msg="<< onto anything else is recorded as impure")
        P.never("pure:shr", st, ev, env_of((opf, "Add")), msg="a binary operator other than << is recorded as impure")
        o = R.fn(A + "visit_statement")
        b = prep(o)
        P = Paths(R, b)
        s = [k for k in range(1, b.argc + 1) if (b.ty(k).peel().d or "").endswith("ast::Statement")][0]
        ev = [c.bb for c in calls_where(b, "insert_violator", ("any:impure_procs",), ("any:proc_ref",))]
        opf = lambda t: t[0] == "fld" and t[2] == "op"
        ex = lambda t: t[0] == "fld" and t[2] == "0" and t[1] == ("as", ("arg", s), "Expr")
        P.must("impure:shl-stmt", variant_entries(b, is_term(("arg", s)), "Expr"), ev, env_of((ex, "BinaryOp"), (opf, "LShift"), (imp, "Some"), (impv, True)),
               msg="<< onto an impure place is not recorded on some path")
        o = R.fn(A + "check_operator_overload")
        b = prep(o)
        ev = [c.bb for c in calls_where(b, "insert_violator", ("any:impure_procs",), ("any:proc_ref",))]
        Paths(R, b).must("impure:incdec", [0], ev, env_of((imp, "Some"), (impv, True)), msg="++/-- on an impure place is not recorded on some path")
        o = R.fn(A + "visit_unary")
        b = prep(o)
        P = Paths(R, b)
        u = [k for k in range(1, b.argc + 1) if (b.ty(k).peel().d or "").endswith("UnaryOp")][0]
        ev = [c.bb for c in calls_where(b, "check_operator_overload")]
        for v in ("PreIncr", "PostIncr", "PreDecr", "PostDecr"):
            P.must("impure:unary:%s" % v, [0], ev, env_of((is_term(("arg", u)), v)), msg="%s is not checked for purity on some path" % v)
    R.part("impure", p_impure)

    # ---------------------------------------------------------------- stores
    def p_stores():
        for fn, tbl in (("ViolatingProcs::insert_violator", "violators"), ("ViolatingOverrides::insert_override", "overrides")):
            o = R.fn("dreamchecker::" + fn)
            b = prep(o)
            ev = [c.bb for c in b.calls_to("push")]
            Paths(R, b).must("store:%s" % tbl, [0], ev, msg="%s does not store what it is given on some path" % fn)
            en = [c for c in b.calls_to("entry") if M("any:" + tbl)(c.arg(0)) and base(c.arg(1)) == ("arg", 2)]
            R.ob("store-key:%s" % tbl, len(en) >= 1, o.where(), "%s does not store under the given proc" % fn)
        for fn, tbl in (("ViolatingProcs::get_violators", "violators"), ("ViolatingOverrides::get_override_violators", "overrides")):
            o = R.fn("dreamchecker::" + fn)
            for t in traces(prep(o)):
                R.ob("load:%s" % tbl, M("call:get", "fld:" + tbl, is_term(("arg", 2)))(t.result), o.where(), "%s returns %s" % (fn, show(t.result)))
        o = R.fn(T + "propagate_violations")
        b = prep(o)
        P = Paths(R, b)
        ins = calls_where(b, "insert_override", ("any:impure_overrides",), None, is_term(("arg", 2)))
        nxt = lambda t: b.names.get(t[1]) is not None and t[0] == "var"
        par = [c for c in b.calls() if c.is_("parent_proc")]
        P.must("overrides:first", [0], [c.bb for c in par if base(c.arg(0)) == ("arg", 2)],
               env_of((lambda t: mentions(t, lambda x: x == ("k", "New")), False), (lambda t: M("call:is_some", ("call:get_violators", "any:impure_procs"))(t), True), (("call:get_violators", "any:impure_procs"), "Some")),
               msg="an impure override is not propagated to its parents")
        for c in ins:
            k = base(c.arg(1))
            R.ob("overrides:key", k[0] == "fld" and k[1][0] == "as" and k[1][2] == "Some", c.where(), "recorded under %s" % show(k, b))
            again = [x for x in par if base(x.arg(0)) == k]
            P.must("overrides:climb", [c.target], [x.bb for x in again], msg="an impure override is only propagated to some of its parents")
            # every ancestor is recorded
            P.must("overrides:every", [x.bb for x in par for _ in [0]][:1] and [s for x in par for s in b.succ(x.bb)], [c.bb], env_of((lambda t: t[0] == "var", "Some"), (lambda t: M("call:parent_proc")(t), "Some")),
                   ends=set(b.returns()) | {x.bb for x in par}, msg="an ancestor of an impure override is skipped")
        lv = lambda t: chain_level(t, "parent_proc", ("arg", 2))
        tr = traces(b, visits=5)
        for n in range(4):
            def env(t):
                if M("call:get_violators", "any:impure_procs")(t) and base(t[2][-1]) == ("arg", 2): return "Some"
                if mentions(t, lambda x: x == ("k", "New")): return False
                if t[0] == "call" and t[1].endswith("parent_proc"):
                    l = lv(t)
                    return None if l is None else "Some" if l <= n else "None"
            ts = [t for t in fit(tr, env) if t.end == "return"]
            R.ob("overrides:ends:%d" % n, bool(ts), o.where(), "the walk over %d ancestors does not end" % n)
            for t in ts:
                got = [lv(e[1][1]) for e in t.events if e[0].endswith("insert_override") and base(e[1][2]) == ("arg", 2)]
                R.ob("overrides:ancestors:%d" % n, sorted(set(got), key=str) == list(range(1, n + 1)), o.where(), "an impure override with %d ancestors is recorded for ancestors %s" % (n, got))
        R.ob("overrides:recorded", len(ins) >= 1, o.where(), "impure overrides are not recorded for their parents")
        o = R.fn(T + "check_proc")
        b = prep(o)
        run = [c.bb for c in b.calls_to("AnalyzeProc::run")]
        for d in ("must_not_sleep", "must_be_pure"):
            cs = calls_where(b, "try_copy_from_parent", ("any:" + d,), is_term(("arg", 2)))
            Paths(R, b).must("inherit:%s" % d, [0], [c.bb for c in cs], msg="%s is not inherited from the parent proc" % d)
        o = R.fn("dreamchecker::ProcDirective::try_copy_from_parent")
        b = prep(o)
        ins = [c for c in b.calls() if c.name == "insert" and c.is_("ProcDirective::insert") and base(c.arg(1)) == ("arg", 2) and c.arg(2) == ("k", True)]
        isown = lambda t: M("call:contains_key", "any:directive", is_term(("arg", 2)))(t)
        gsp = lambda t: M("call:get_self_or_parent")(t)
        tr = lambda t: t[0] == "fld" and t[2] == "1" and mentions(t, lambda x: x[0] == "call" and x[1].endswith("get_self_or_parent"))
        e = [(isown, False), (("call:parent_proc"), "Some"), (gsp, "Some")]
        Paths(R, b).must("inherit:copy", [0], [c.bb for c in ins], env_of(*e, (tr, True)), msg="a directive set on a parent proc is not copied on some path")
        Paths(R, b).never("inherit:false", [0], [c.bb for c in ins], env_of(*e, (tr, False)), msg="a disabled directive is inherited as enabled")
        Paths(R, b).never("inherit:own", [0], [c.bb for c in ins], env_of((isown, True)), msg="a proc's own directive is overwritten by its parent's")
    R.part("stores", p_stores)

    # ---------------------------------------------------------------- propagation
    def p_prop():
        o = R.fn(T + "check_proc_call_tree")
        b = prep(o, closures=False)
        P = Paths(R, b)
        pops = [c for c in b.calls() if c.name in ("pop_front", "pop_back", "pop") and len(c.t["a"]) == 1]
        heads = [c for c in b.calls() if c.name == "next"]
        outer = {}
        for c in heads:
            st, t = some_starts(b, c)
            it = some_of(t)
            for d in ("sleeping_procs", "impure_procs"):
                vs = [x for x in b.calls_to("get_violators") if M("any:" + d)(x.arg(0)) and base(x.arg(1)) == base(fld(it, "0", 0))]
                if vs:
                    outer[d] = (c, st, it, vs)
        found = {}
        for c in pops:
            st, t = some_starts(b, c)
            it = some_of(t)
            for d in ("sleeping_procs", "impure_procs"):
                vs = [x for x in b.calls_to("get_violators") if M("any:" + d)(x.arg(0)) and base(x.arg(1)) == fld(it, "0", 0)]
                if vs:
                    found[d] = (c, st, it, vs)
        regs = lambda cls: [c for c in b.calls() if c.name in ("register", "register_error") and mentions(c.arg(0), lambda x: x == ("k", cls))]
        for d, cls, what in (("sleeping_procs", "must_not_sleep", "sleeping"), ("impure_procs", "must_be_pure", "impure")):
            if d not in found or d not in outer:
                R.ob("search:%s" % what, False, o.where(), "the call-graph search for %s procs is not found" % what)
                continue
            # ----- the proc carrying the directive
            c, st, it, vs = outer[d]
            proc = fld(it, "0", 0)
            hasv = lambda t: M("call:get_violators", "any:" + d)(t) and base(t[2][1]) == base(proc)
            vis = lambda t: M("call:insert")(t) and not M("any:directive")(t) and base(t[2][1]) == base(proc)
            vco = lambda t: t[0] == "call" and t[1].endswith("::contains") and not M("any:directive")(t) and not M("any:waitfor_procs")(t) and t[2][1:] and base(t[2][1]) == base(proc)
            rg = [x for x in regs(cls)]
            src = [x for x in b.calls() if x.name in ("iter", "into_iter", "collect") and M("any:" + cls)(x.arg(0))]
            R.ob("roots:%s" % what, any(M("any:" + cls)(x.arg(0)) for x in b.calls()), o.where(), "the procs that carry %s are not enumerated" % cls)
            filt = [x for x in b.calls() if x.name in ("filter", "take", "skip", "take_while", "skip_while", "step_by", "filter_map", "truncate", "retain", "dedup", "pop", "dedup_by_key", "dedup_by")
                    and (M("any:" + cls)(x.arg(0)) or any(base(x.arg(0)) == ("var", l) for l, n in b.names.items() if n == cls))]
            R.ob("roots-all:%s" % what, not filt, filt[0].where() if filt else o.where(), "only some of the procs that carry %s are searched" % cls)
            P.must("own:%s" % what, st, [x.bb for x in rg], env_of((hasv, "Some"), (vis, True), (vco, False)), ends={c.bb} | set(b.returns()),
                   msg="a proc that must not be %s is not reported for its own %s operation on some path" % (what, what))
            P.never("roots-each:%s" % what, st, list(b.returns()) + [h[0].bb for h in outer.values() if h[0] is not c], avoid={c.bb}, msg="the procs that carry %s after one of these are not searched" % cls)
            gets = [x for x in b.calls() if x.name == "get" and M("any:call_tree")(x.arg(0)) and base(x.arg(1)) == base(proc)]
            P.must("own-calls:%s" % what, st, [x.bb for x in gets], env_of((vis, True), (vco, False)), ends={c.bb} | set(b.returns()), msg="the calls of a proc that carries %s are not followed on some path" % cls)
            # ----- one dequeued edge
            q, st, it, vs = found[d]
            nxt = fld(it, "0", 0)
            newp = None
            free = [(lambda t: M("call:insert")(t) and t[2][1:] and base(t[2][1]) == nxt, True)]
            free += [(lambda t: t[0] == "call" and t[1].endswith("::contains") and not M("any:waitfor_procs")(t) and not M("any:directive")(t) and t[2][1:] and base(t[2][1]) == nxt, False)]
            if what == "sleeping":
                # the boolean components of the queue entry: new_context is the one whose truth skips the edge
                free += [(("call:contains_key", "any:must_not_sleep", is_term(nxt)), False), (("call:contains", "any:waitfor_procs", is_term(nxt)), False),
                         (lambda t: M("call:is_some", ("call:get", "any:sleep_exempt"))(t), False), (("call:get", "any:sleep_exempt", is_term(nxt)), "None"),
                         (fld(it, "2", 2).__eq__, False)]
            back = {q.bb} | set(b.returns())
            P.must("lookup:%s" % what, st, [x.bb for x in vs], env_of(*free), ends=back, msg="a reached proc is not checked for %s operations on some path, although no cut-off applies" % what)
            hit = lambda t: M("call:get_violators", "any:" + d)(t) and base(t[2][1]) == nxt
            P.must("report:%s" % what, st, [x.bb for x in rg], env_of(*free, (hit, "Some")), ends=back, msg="a reached %s proc is not reported on some path" % what)
            gets = [x for x in b.calls() if x.name == "get" and M("any:call_tree")(x.arg(0)) and base(x.arg(1)) == nxt]
            cont = list(free) + [(hit, "None")]
            P.must("follow:%s" % what, st, [x.bb for x in gets], env_of(*cont), ends=back, msg="the calls of a reached proc are not followed on some path")
            # a proc is searched once: recursion in the analysed code must not keep the search going
            seen = lambda t: t[0] == "call" and t[1].split("::")[-1] in ("insert", "contains") and not M("any:waitfor_procs")(t) and not M("any:directive")(t) and t[2][1:] and base(t[2][1]) == nxt
            isnew = lambda t: seen(t) and t[1].endswith("insert")
            iscon = lambda t: seen(t) and t[1].endswith("contains")
            push = [x.bb for x in b.calls() if (x.name in ("push_back", "push") and x.arg(1)[0] == "agg" or x.name == "recurse_children_within")]
            mark = [x for x in b.calls() if x.name == "insert" and len(x.t["a"]) == 2 and base(x.arg(1)) == nxt and not M("any:directive")(x.arg(0))]
            P.never("once:%s" % what, st, push, env_of((isnew, False), (iscon, True)), avoid=back, msg="the %s search continues below a proc it has already searched, which never ends on recursion" % what)
            P.must("once:mark:%s" % what, st, [x.bb for x in mark], env_of(*[f for f in free]), ends=set(push) | {q.bb}, msg="a proc the %s search has reached is not remembered on some path" % what)
            if what == "impure":
                for x in mark:
                    v = base(x.arg(0))
                    mk = [y.bb for y in b.calls() if (y.name == "clear" and base(y.arg(0)) == v) or (v[0] == "var" and y.t.get("dst", [None])[0] == v[1])]
                    P.must("once:fresh:%s" % what, outer[d][1], mk, ends={x.bb}, msg="the procs searched for one should_be_pure proc are skipped for the next")
            # cut-offs really cut
            if what == "sleeping":
                for nm, e in (("new-context", (fld(it, "2", 2).__eq__, True)), ("waitfor", (("call:contains", "any:waitfor_procs", is_term(nxt)), True))):
                    P.never("cut:%s" % nm, st, [x.bb for x in rg], env_of(e), avoid=back, msg="a %s edge is reported as sleeping" % nm)
                P.never("cut:exempt", st, [x.bb for x in rg], env_of((lambda t: M("call:is_some", ("call:get", "any:sleep_exempt"))(t), True), (("call:get", "any:sleep_exempt", is_term(nxt)), "Some")), avoid=back,
                        msg="a proc allowed to sleep is reported")
                rec = [x for x in b.calls_to("recurse_children_within") if base(x.arg(0)) == nxt]
                isroot = lambda t: t[0] in ("call", "bin") and t[1].split("::")[-1].lower() in ("ne",) and mentions(t, lambda x: x[0] == "call" and x[1].endswith("::root"))
                isroot2 = lambda t: t[0] in ("call", "bin") and t[1].split("::")[-1].lower() in ("eq",) and mentions(t, lambda x: x[0] == "call" and x[1].endswith("::root"))
                P.must("overrides:sleeping", st, [x.bb for x in rec], env_of(*cont, (fld(it, "5", 5).__eq__, False), (isroot, True), (isroot2, False)), ends=back,
                       msg="overrides of a reached proc are not followed on some path")
                for x in rec:
                    R.ob("overrides:receiver", base(x.arg(1)) == fld(it, "4", 4), x.where(), "overrides are searched below %s, not the receiver" % show(x.arg(1), b))
                cl = [x for x in o.closures if any(y.name == "push_back" or y.name == "push" for y in x.calls())]
                R.ob("overrides:enqueued", len(cl) >= 1, o.where(), "overrides are not enqueued")
                for x in cl:
                    xb = prep(x)
                    pb = [y for y in xb.calls() if y.name in ("push_back", "push")]
                    Paths(R, xb, "override").must("overrides:each", [0], [y.bb for y in pb], msg="an override is not enqueued on some path")
                    for y in pb:
                        v = y.arg(1)
                        ok = v[0] == "agg" and len(v[3]) == 6 and base(v[3][0]) == ("arg", 2) and M("call:ty", is_term(("arg", 2)))(v[3][4]) and v[3][2] == ("k", False) and v[3][5] == ("k", True)
                        R.ob("overrides:entry", ok, y.where(), "an override is enqueued as %s" % show(v, xb))
            else:
                ov = [x for x in b.calls_to("get_override_violators") if base(x.arg(1)) == nxt]
                P.must("overrides:impure", st, [x.bb for x in ov], env_of(*cont), ends=back, msg="impure overrides of a reached proc are not looked up on some path")
                own, root = 0, base(fld(outer[d][2], "0", 0))
                for h in heads:
                    hs, ht = some_starts(b, h)
                    ci = some_of(ht)
                    if not any(mentions(b.dterm(dd), lambda x: x[0] == "call" and x[1].endswith("get_override_violators")) for dd in (b.defs()[0].get(base(h.arg(0))[1], []) if base(h.arg(0))[0] == "var" else [])) and not mentions(h.arg(0), lambda x: x[0] == "call" and x[1].endswith("get_override_violators")):
                        continue
                    own += 1
                    P.never("overrides:all", hs, [q.bb] + [x.bb for x in b.calls() if x.name == "get" and M("any:call_tree")(x.arg(0))] + list(b.returns()), avoid={h.bb}, msg="the impure overrides after one of these are not looked at")
                    sub = lambda t, l, r: t[0] == "call" and t[1].endswith("is_subtype_of") and mentions(t[2][0], lambda x: x == l) and mentions(t[2][1], lambda x: x == r)
                    ends = {h.bb} | back
                    P.must("overrides:unrelated", hs, [x.bb for x in rg], env_of((lambda t: sub(t, root, nxt), False)), ends=ends, msg="an impure override is not reported although the calling type is unrelated to the called proc's type")
                    P.must("overrides:below", hs, [x.bb for x in rg], env_of((lambda t: sub(t, ci, root), True)), ends=ends, msg="an impure override of the calling type itself is not reported")
                    P.never("overrides:sideways", hs, [x.bb for x in rg], env_of((lambda t: sub(t, root, nxt), True), (lambda t: sub(t, ci, root), False)), avoid=ends, msg="an override outside of the calling type is reported")
                R.ob("overrides:impure-loop", own == 1, o.where(), "the impure overrides of a reached proc are walked in %d loops" % own)
            # ----- every edge of every looked-up list is enqueued
        gets = [x for x in b.calls() if x.name == "get" and M("any:call_tree")(x.arg(0))]
        loops = 0
        for c in heads:
            st, t = some_starts(b, c)
            item = some_of(t)
            pb = [x for x in b.calls() if x.name in ("push_back", "push") and x.arg(1)[0] == "agg" and len(x.arg(1)[3]) >= 2 and base(x.arg(1)[3][0]) == fld(item, "proc", 0)]
            pb = [x for x in b.calls() if x.name in ("push_back", "push") and x.arg(1)[0] == "agg" and x.arg(1)[3] and x.arg(1)[3][0][0] == "fld" and x.arg(1)[3][0][2] == "proc" and x.arg(1)[3][0][1] == item]
            if not pb:
                continue
            loops += 1
            P.must("enqueue:each", st, [x.bb for x in pb], ends={c.bb} | set(b.returns()), msg="a recorded call is not enqueued on some path")
            steps = [x for x in b.calls_to("add_step") if M("fld:proc", is_term(item))(x.arg(1))]
            P.must("enqueue:stack", st, [x.bb for x in steps], ends={x.bb for x in pb}, msg="a recorded call is enqueued without its call-stack entry")
            for x in steps:
                R.ob("enqueue:stack-args", M("fld:location", is_term(item))(x.arg(2)), x.where(), "the call stack names %s" % show(x.arg(2), b))
            for x in pb:
                v = x.arg(1)[3]
                if len(v) == 6:
                    R.ob("enqueue:context", v[2] == fld(item, "new_context", 2), x.where(), "enqueued new_context is %s" % show(v[2], b))
                    R.ob("enqueue:exact", v[5] == fld(item, "is_exact", 4), x.where(), "enqueued is_exact is %s" % show(v[5], b))
                    r = v[4]
                    alts = [b.dterm(d) for d in b.reaching(r[1], x.bb)] if r[0] == "var" else [r]
                    gd = []
                    if r[0] == "var":
                        for d in b.reaching(r[1], x.bb):
                            gg = [v2 for t2, m2, v2 in b.guards(d[0]) if t2 == fld(item, "inherit_receiver", 5)]
                            gd.append((b.dterm(d), gg))
                    own = [t2 for t2, g in gd if g == [frozenset([False])]]
                    inh = [t2 for t2, g in gd if g == [frozenset([True])]]
                    ok = len(own) == 1 and len(inh) == 1 and own[0] == fld(item, "src", 3) and inh[0] != own[0]
                    R.ob("enqueue:receiver", ok, x.where(), "the receiver of an enqueued call is %s" % [show(a, b) for a in alts])
        R.count("enqueue_loops", loops, 4)
        # the visited key must contain everything the outcome depends on
        for c in b.calls():
            if c.name == "insert" and "sleeping_procs" in found and len(c.t["a"]) == 2:
                it = found["sleeping_procs"][2]
                if c.arg(1) == fld(it, "0", 0):
                    R.ob("visited-key:sleeping", False, c.where(), "the search remembers only the proc, but the overrides it follows depend on the receiver type: a proc reached again through another receiver is not followed")
    R.part("propagation", p_prop)
    R.count("obligations", len(R.obs), 90)
