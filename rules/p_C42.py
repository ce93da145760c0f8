"""SpacemanDMM_* annotations: every one is stored, validated and enforced."""
from lib import *

RULE = """The directive name -> table mapping and the validation flags are extracted from MIR; each enforcement point is decided by
must-pass path analysis: when the annotation's conditions hold, every path registers the diagnostic with the documented error type,
and when any single condition fails no path does."""
T = "dreamchecker::AnalyzeObjectTree::"
A = "dreamchecker::AnalyzeProc::"
FIELD = {"SpacemanDMM_should_not_override": "must_not_override", "SpacemanDMM_should_call_parent": "must_call_parent",
         "SpacemanDMM_should_not_call_parent": "must_not_call_parent", "SpacemanDMM_private_proc": "private",
         "SpacemanDMM_protected_proc": "protected", "SpacemanDMM_should_not_sleep": "must_not_sleep",
         "SpacemanDMM_allowed_to_sleep": "sleep_exempt", "SpacemanDMM_should_be_pure": "must_be_pure",
         "SpacemanDMM_can_be_redefined": "can_be_redefined"}
DISABLE = {"must_call_parent", "must_not_call_parent"}
GLOBAL = {"must_not_sleep", "sleep_exempt", "must_be_pure"}
ATDEF = GLOBAL | {"private", "protected"}


def dir_get(field, fn="get_self_or_parent", *rest):
    return lambda t: M("call:" + fn, "any:" + field)(t)


def truthy(field, fn="get_self_or_parent", idx="1"):
    """the enabled flag inside a directive lookup"""
    return lambda t: t[0] == "fld" and t[2] == idx and t[1][0] == "fld" and t[1][1][0] == "as" and M("call:" + fn, "any:" + field)(t[1][1][1])


def ne(p, q):
    return lambda t: t[0] in ("call", "bin") and t[1].split("::")[-1].lower() == "ne" and ((p(t[2] if t[0] == "bin" else t[2][0]) and q(t[3] if t[0] == "bin" else t[2][1])) or (q(t[2] if t[0] == "bin" else t[2][0]) and p(t[3] if t[0] == "bin" else t[2][1])))


def eqv(p, q):
    return lambda t: t[0] in ("call", "bin") and t[1].split("::")[-1].lower() == "eq" and ((p(t[2] if t[0] == "bin" else t[2][0]) and q(t[3] if t[0] == "bin" else t[2][1])) or (q(t[2] if t[0] == "bin" else t[2][0]) and p(t[3] if t[0] == "bin" else t[2][1])))


def differ(p, q):
    """conditions (pred, value, contrary) for `p != q` in either spelling"""
    def env_true(t):
        return True if ne(p, q)(t) else None
    n, e = ne(p, q), eqv(p, q)
    return [(n, True, False), (e, False, True)]


def check(F, R):
    def p_table():
        o = R.fn(T + "add_directive_or_error")
        b = prep(o)
        P = Paths(R, b)
        name = is_term(("arg", 3))
        ins = [c for c in b.calls_to("ProcDirective::insert")]
        R.count("directive_inserts", len(ins), 1)
        unk = registrations(b, "unknown_linter_setting")
        # which table receives the value for each name
        for n, f in FIELD.items():
            cuts = assume(b, env_of((name, n)))
            seen, work = {0}, [0]
            while work:
                x = work.pop()
                for s in b.succ(x):
                    if s not in seen and (x, s) not in cuts:
                        seen.add(s); work.append(s)
            got = set()
            for c in ins:
                t = c.arg(0)
                if t[0] == "var":
                    for d in b.reaching(t[1], c.bb):
                        if d[0] != "arg" and d[0] in seen:
                            x = b.dterm(d)
                            got.add(x[2] if x[0] == "fld" else "?")
                elif c.bb in seen:
                    got.add(t[2] if t[0] == "fld" else "?")
            R.ob("table:%s" % n, got == {f}, o.where(), "%s is stored in %s, expected %s" % (n, sorted(got), f))
            P.never("known:%s" % n, [0], [c.bb for c in unk], env_of((name, n)), msg="%s is reported as an unknown setting" % n)
            # stored on every path unless an error is registered
            P.must("stored:%s" % n, [0], [c.bb for c in ins] + [c.bb for c in registrations(b)], env_of((name, n)), msg="%s is dropped on some path without a diagnostic" % n)
            P.must("stored-ok:%s" % n, [0], [c.bb for c in ins],
                   env_of((name, n), (("call:directive_value_to_truthy"), "Ok"), (("fld:set_at_definition"), False)), msg="a valid %s is not stored on some path" % n)
        P.must("unknown", [0], [c.bb for c in unk], env_of((name, "SpacemanDMM_misspelled")), msg="an unknown setting is not reported on some path")
        for c in ins:
            R.ob("insert-args", base(c.arg(1)) == ("arg", 2) and M("call:directive_value_to_truthy")(c.arg(2)[1][1] if c.arg(2)[0] == "fld" else c.arg(2)) and base(c.arg(3)) == ("arg", 5), c.where(), "stored with %s" % [show(x, b) for x in c.args()])
            res = [x for x in registrations(b) if mentions(x.arg(1), lambda y: y[0] == "call" and y[1].endswith("ProcDirective::insert"))]
            P.must("insert-error", [c.target], [x.bb for x in res], env_of((lambda t: M("call:insert")(t), "Err")), msg="a rejected annotation is not reported on some path")
        bad = registrations(b, "invalid_lint_directive_value")
        P.must("bad-value", [0], [c.bb for c in bad], env_of((name, "SpacemanDMM_private_proc"), ("call:directive_value_to_truthy", "Err"), ("fld:set_at_definition", False)), msg="an invalid annotation value is not reported on some path")
        loc = lambda t: mentions(t, lambda x: x[0] == "fld" and x[2] == "location")
        late = [c for c in registrations(b) if c not in unk and c not in bad and not mentions(c.arg(1), lambda y: y[0] == "call" and y[1].endswith("ProcDirective::insert"))]
        isne = lambda t: t[0] in ("call", "bin") and t[1].split("::")[-1].lower() == "ne" and loc(t)
        iseq = lambda t: t[0] in ("call", "bin") and t[1].split("::")[-1].lower() == "eq" and loc(t)
        ex = [(name, "SpacemanDMM_private_proc")]
        P.must("definition-only", [0], [c.bb for c in late], env_of(*ex, ("fld:set_at_definition", True), (defd(b, "call:get_declaration"), "Some"), (isne, True), (iseq, False)),
               msg="an annotation that belongs on the initial definition is accepted on an override")
        P.never("definition-ok", [0], [c.bb for c in late], env_of(*ex, ("fld:set_at_definition", True), (defd(b, "call:get_declaration"), "Some"), (isne, False), (iseq, True)),
                msg="an annotation on the initial definition is rejected")
        P.never("definition-free", [0], [c.bb for c in late], env_of(*ex, ("fld:set_at_definition", False)), msg="an annotation that may be set anywhere is rejected on an override")
    R.part("table", p_table)

    def p_flags():
        o = R.fn("dreamchecker::ProcDirective::new")
        order = None
        for t in traces(prep(o)):
            f = dict(zip(t.result[4], t.result[3]))
            order = {n: f[n][1] for n in ("directive_string", "can_be_disabled", "set_at_definition", "can_be_global") if f[n][0] == "arg"}
        R.ob("new-fields", order and len(order) == 4 and len(set(order.values())) == 4, o.where(), "ProcDirective::new stores %s" % order)
        o = R.fn(T + "new")
        ok = False
        bb_ = prep(o)
        aggs = [bb_.rterm(st[2], bb, i) for bb in bb_.reachable() for i, st in enumerate(bb_.blocks[bb]["s"]) if st[0] == "=" and st[2][0] == "agg"]
        for t in aggs:
            if t[0] == "agg" and "must_not_sleep" in t[4]:
                ok = True
                f = dict(zip(t[4], t[3]))
                for s, n in FIELD.items():
                    c = f[n]
                    if c[0] != "call" or not c[1].endswith("ProcDirective::new"):
                        R.ob("flags:%s" % n, False, o.where(), "%s is initialised as %s" % (n, show(c)))
                        continue
                    v = {k: const_of(c[2][j - 1]) for k, j in order.items()}
                    exp = dict(directive_string=s, can_be_disabled=n in DISABLE, set_at_definition=n in ATDEF, can_be_global=n in GLOBAL)
                    for k in exp:
                        R.ob("flags:%s:%s" % (n, k), v[k] == exp[k], o.where(), "%s of %s is %r, expected %r" % (k, s, v[k], exp[k]))
        if not ok:
            raise AnchorMissing("AnalyzeObjectTree::new builds no analyzer")
    R.part("flags", p_flags)

    def p_insert():
        o = R.fn("dreamchecker::ProcDirective::insert")
        b = prep(o)
        P = Paths(R, b)
        st = [c for c in b.calls() if c.name == "insert" and M("any:directive")(c.arg(0))]
        for c in st:
            R.ob("insert:key", base(c.arg(1)) == ("arg", 2), c.where(), "stored under %s" % show(c.arg(1), b))
            v = c.arg(2)
            R.ob("insert:value", v[0] == "agg" and tuple(map(base, v[3])) == (("arg", 3), ("arg", 4)), c.where(), "stored value %s" % show(v, b))
        root, glob, en, dis = M("call:is_root"), M("fld:can_be_global"), is_term(("arg", 3)), M("fld:can_be_disabled")
        dup = M("call:get", "any:directive")
        good = [(root, False), (en, True), (dup, "None"), (("call:contains_key", "any:directive"), False)]
        P.must("insert:stores", [0], [c.bb for c in st], env_of(*good), msg="a valid annotation is not stored on some path")
        S = [c.bb for c in st]
        P.never("insert:global", [0], S, env_of((root, True), (glob, False)), msg="an annotation is accepted on a global proc")
        P.must("insert:global-ok", [0], S, env_of((root, True), (glob, True), (en, True), (dup, "None")), msg="an annotation that may be global is rejected")
        P.never("insert:disable", [0], S, env_of((en, False), (dis, False)), msg="an annotation that cannot be disabled is disabled")
        P.must("insert:disable-ok", [0], S, env_of((root, False), (en, False), (dis, True), (dup, "None")), msg="an annotation that can be disabled is rejected")
        P.never("insert:twice", [0], S, env_of((dup, "Some"), (("call:contains_key", "any:directive"), True)), msg="a second setting of an annotation replaces the first")
        for k, e in (("incompatible_directive", [(root, True), (glob, False)]), ("disabled_directive", [(root, False), (en, False), (dis, False)]), ("sets_directive_twice", [(root, False), (en, True), (dup, "Some")])):
            ev = [c.bb for c in b.calls_to("with_errortype") if c.arg(1) == ("k", k)]
            P.must("insert:error:%s" % k, [0], ev, env_of(*e), msg="%s is not reported on some path" % k)
        o = R.fn("dreamchecker::ProcDirective::get_self_or_parent")
        b = prep(o)
        P = Paths(R, b)
        got = [c for c in b.calls() if c.is_("ProcDirective::get") or (c.name == "get" and M("any:directive")(c.arg(0)))]
        R.ob("lookup:own", len(got) >= 1, o.where(), "the proc's own annotation is not looked up")
        par = [c for c in b.calls_to("parent_proc")]
        for c in got:
            hit = lambda t: M("call:get")(t)
            k = base(c.arg(1))
            P.must("lookup:climb", [c.target], [x.bb for x in par if base(x.arg(0)) == k], env_of((hit, "None")), msg="the parent's annotation is not looked up on some path")
            P.never("lookup:stop", [c.target], [x.bb for x in par], env_of((hit, "Some")), msg="the nearest annotation is passed over")
        # the nearest annotation of the proc and its ancestors, for every number of ancestors and every annotated one
        lv = lambda t: chain_level(t, "parent_proc", ("arg", 2))
        tr = traces(b, visits=5)
        R.count("lookup_traces", len(tr), 4)
        for n in range(4):
            for k in list(range(n + 1)) + [None]:
                def env(t):
                    if t[0] == "call" and t[1].split("::")[-1] in ("get", "contains_key") and len(t[2]) == 2:
                        l = lv(t[2][1])
                        if l is not None: r = l == k; return r if t[1].endswith("contains_key") else "Some" if r else "None"
                    l = lv(t) if t[0] == "call" and t[1].endswith("parent_proc") else None
                    return None if l is None else "Some" if l <= n else "None"
                ts = fit(tr, env)
                for t in ts:
                    if t.end == "panic": continue
                    r = t.result
                    some = r[0] == "agg" and r[2] == "Some"
                    ok = (k is None and r[0] == "agg" and r[2] == "None") or (k is not None and some and r[3][0][0] == "agg" and lv(r[3][0][3][0]) == k)
                    R.ob("lookup:nearest:%d:%s" % (n, k), ok, o.where(), "with %d ancestors and the annotation on %s, the lookup gives %s" % (n, "none of them" if k is None else "the proc" if k == 0 else "ancestor %d" % k, show(r, b)))
                R.ob("lookup:nearest:%d:%s" % (n, k), any(t.end == "return" for t in ts), o.where(), "the lookup does not end")
        for t in traces(b):
            if t.end == "return" and t.result and t.result[0] == "agg" and t.result[2] == "Some":
                v = t.result[3][0]
                ok = v[0] == "agg" and len(v[3]) == 3 and v[3][1][0] == "fld" and v[3][1][2] == "0" and v[3][2][0] == "fld" and v[3][2][2] == "1" and v[3][1][1] == v[3][2][1]
                R.ob("lookup:result", ok, o.where(), "the annotation found is returned as %s" % show(v, b))
        o = R.fn("dreamchecker::directive_value_to_truthy")
        b = prep(o)
        tm = lambda t: M("call:as_term")(t)
        tv = lambda t: t[0] == "fld" and t[2] == "0" and t[1][0] == "as" and t[1][2] == "Some" and M("call:as_term")(t[1][1])
        iv = lambda k: (lambda t: base(t)[0] == "fld" and base(t)[1][0] == "as" and base(t)[1][2] == k)
        for lab, e, exp in (("0", [(iv("Int"), 0), (tv, "Int")], False), ("1", [(iv("Int"), 1), (tv, "Int")], True), ("TRUE", [(iv("Ident"), "TRUE"), (tv, "Ident")], True), ("FALSE", [(iv("Ident"), "FALSE"), (tv, "Ident")], False),
                            ("2", [(iv("Int"), 2), (tv, "Int")], None), ("-1", [(iv("Int"), -1), (tv, "Int")], None), ("null", [(tv, "Null")], None)):
            cuts = assume(b, env_of((tm, "Some"), *e))
            seen, work = {0}, [0]
            while work:
                x = work.pop()
                for s in b.succ(x):
                    if s not in seen and (x, s) not in cuts:
                        seen.add(s); work.append(s)
            vals = set()
            for bb in seen:
                for i, s in enumerate(b.blocks[bb]["s"]):
                    if s[0] == "=" and s[1] == [0]:
                        t = b.rterm(s[2], bb, i)
                        vals.add(const_of(t[3][0]) if t[0] == "agg" and t[2] == "Ok" else None)
            R.ob("truthy:%s" % lab, vals == {exp}, o.where(), "the annotation value %s is read as %s" % (lab, vals))
    R.part("insert", p_insert)

    def p_run():
        o = R.fn(A + "run")
        b = prep(o)
        P = Paths(R, b)
        me = M("fld:proc_ref")
        par = ("call:parent_proc", "fld:proc_ref")
        vb = [c.bb for c in b.calls_to("AnalyzeProc::visit_block")]
        P.must("body-first", [0], vb, ends={c.bb for c in registrations(b)} | set(b.returns()), msg="annotations are checked before the body has been visited")
        who = lambda f: (lambda t: t[0] == "fld" and t[2] == "0" and t[1][0] == "fld" and t[1][1][0] == "as" and M("call:get_self_or_parent", "any:" + f, "fld:proc_ref")(t[1][1][1]))
        for f, cls in (("private", "private_proc"), ("must_not_override", "must_not_override")):
            conds = [(par, "Some", "None"), (dir_get(f), "Some", "None"), (truthy(f), True, False)] + [(ne(who(f), me), True, False), (eqv(who(f), me), False, True)][:1]
            enforce(P, "override:%s" % f, [0], registrations(b, cls), [(M(*p) if isinstance(p, tuple) else p, v, n) for p, v, n in conds], msg="an override of a %s proc is not reported on some path" % f)
        cp = M("fld:calls_parent")
        P_ = M(*par)
        mcp, mncp = registrations(b, "must_call_parent"), registrations(b, "must_not_call_parent")
        enforce(P, "must_call_parent", [0], mcp, [(P_, "Some", "None"), (cp, False, True), (dir_get("must_call_parent"), "Some", "None"), (truthy("must_call_parent"), True, False)],
                msg="a proc that never calls its parent is not reported on some path")
        isp = lambda t: mentions(t, lambda x: x[0] == "call" and x[1].endswith("parent_proc"))
        own = lambda t: M("call:get", "any:must_not_call_parent")(t) and not isp(t[2][1])
        pg = lambda t: M("call:get", "any:must_not_call_parent")(t) and isp(t[2][1])
        fl = lambda q: (lambda t: t[0] == "fld" and t[2] == "0" and t[1][0] == "fld" and t[1][1][0] == "as" and q(t[1][1][1]))
        for lab, e in (("unset", [(own, "None")]), ("set", [(own, "Some"), (fl(own), True)])):
            enforce(P, "must_not_call_parent:%s" % lab, [0], mncp, [(P_, "Some", "None"), (cp, True, False), (pg, "Some", "None"), (fl(pg), True, False)], extra=e, msg="a call of a parent that must not be called is not reported on some path")
        P.never("must_not_call_parent:exempt", [0], [c.bb for c in mncp], env_of((own, "Some"), (fl(own), False)), msg="an override that sets should_not_call_parent = 0 is reported")
        red = registrations(b, "redefined_proc")
        same = lambda t: t[0] in ("call", "bin") and t[1].split("::")[-1].lower() == "eq" and len(calls_in(t)) >= 3 and mentions(t, lambda x: x[0] == "call" and x[1].endswith("::ty"))
        cbr = [(lambda t: M("call:is_none", ("call:get_self_or_parent", "any:can_be_redefined"))(t), True, False)]
        enforce(P, "redefined", [0], red, [(P_, "Some", "None"), (M("call:is_builtin"), False, True), (same, True, False)] + cbr, msg="a redefinition is not reported on some path")
        o2 = R.fn(A + "visit_term")
        b2 = prep(o2)
        w = [bb for bb, i, t in field_writes(b2, "calls_parent") if t == ("k", True)]
        Paths(R, b2).must("parent-call", variant_entries(b2, is_term(("arg", 3)), "ParentCall"), w, msg="a parent call is not remembered on some path")
        for bb in w:
            R.ob("parent-call-only", dom_guarded(b2, bb, lambda t, m, v: t == ("arg", 3) and m == "in" and v == frozenset(["ParentCall"])), o2.where(), "another term than ..() counts as a parent call")
        np = registrations(b2, "proc_has_no_parent")
        enforce(Paths(R, b2), "no-parent", variant_entries(b2, is_term(("arg", 3)), "ParentCall"), np, [(P_, "None", "Some")], msg="..() without a parent is not reported on some path")
    R.part("run", p_run)

    def p_calls():
        # private procs: on every call
        o = R.fn(A + "visit_call")
        b = prep(o)
        P = Paths(R, b)
        reg = registrations(b, "private_proc")
        pt = lambda f: (lambda t: M("call:ty")(t) and mentions(t, lambda x: M("call:get_self_or_parent", "any:" + f)(x)))
        sty = M("fld:ty")
        conds = [(dir_get("private"), "Some", "None"), (truthy("private"), True, False), (ne(pt("private"), sty), True, False)]
        enforce(P, "call:private", [0], reg, conds, extra=[(eqv(pt("private"), sty), False)], msg="a call of a private proc from another type is not reported on some path")
        for c in [x for x in b.calls_to("get_self_or_parent") if M("any:private")(x.arg(0))]:
            j = [k for k in range(1, b.argc + 1) if (b.ty(k).peel().d or "").endswith("ProcRef")]
            R.ob("call:private-of", base(c.arg(1)) == ("arg", j[0]), c.where(), "the annotation of %s is looked up" % show(c.arg(1), b))
        # scoped calls
        o = R.fn(A + "visit_follow")
        b = prep(o)
        P = Paths(R, b)
        j = [k for k in range(1, b.argc + 1) if (b.ty(k).peel().d or "").endswith("ast::Follow")][0]
        st = variant_entries(b, is_term(("arg", j)), "Call")
        kind = lambda t: t[0] == "fld" and t[2] == "0" and t[1] == ("as", ("arg", j), "Call")
        ex = [(kind, "Dot"), (M("call:basic_type"), "Some"), (M("call:get_proc"), "Some")]
        lty = lambda t: mentions(t, lambda x: x[0] == "call" and x[1].endswith("basic_type")) and not mentions(t, lambda x: x[0] == "call" and x[1].endswith("get_self_or_parent"))
        regp, regq = registrations(b, "private_proc"), registrations(b, "protected_proc")
        vc = [c.bb for c in b.calls_to("AnalyzeProc::visit_call")]
        # a private proc is reported here or in visit_call
        P.must("call:scoped", st, [c.bb for c in regp] + vc, env_of(*ex), msg="a call on a typed receiver is neither analysed nor reported on some path")
        sub = lambda t: M("call:is_subtype_of", "fld:ty")(t) and mentions(t, lambda x: M("call:get_self_or_parent", "any:protected")(x))
        enforce(P, "call:protected", st, regq, [(dir_get("protected"), "Some", "None"), (truthy("protected"), True, False), (sub, False, True)], extra=ex + [(dir_get("private"), "None")],
                msg="a call of a protected proc from an unrelated type is not reported on some path")
        # private and protected vars
        st = variant_entries(b, is_term(("arg", j)), "Field")
        kind = lambda t: t[0] == "fld" and t[2] == "0" and t[1] == ("as", ("arg", j), "Field")
        isproc = lambda t: M("fld:static_ty")(t)
        callee = lambda t: mentions(t, lambda x: x == ("k", "/callee"))
        ex = [(kind, "Dot"), (isproc, "Type"), (M("call:basic_type"), "Some"), (callee, False), (M("call:get_var_declaration"), "Some")]
        lt = lambda t: M("call:basic_type")(t[1][1]) if t[0] == "fld" and t[1][0] == "as" else False
        own = M("fld:ty")
        rv, rq = registrations(b, "private_var"), registrations(b, "protected_var")
        priv, prot = M("call:is_private"), M("call:is_protected")
        enforce(P, "var:private", st, rv, [(ne(lt, own), True, False), (priv, True, False)], extra=ex, msg="an access to a private var through another type is not reported on some path")
        sub = M("call:is_subtype_of", "fld:ty")
        enforce(P, "var:protected", st, rq, [(sub, False, True), (prot, True, False)], extra=ex + [(priv, False)], msg="an access to a protected var from an unrelated type is not reported on some path")
        # results of pure procs
        o = R.fn(A + "visit_statement")
        b = prep(o)
        P = Paths(R, b)
        mp = dir_get("must_be_pure")
        reg = [c for c in registrations(b) if mentions(c.arg(0), mp)]
        R.ob("pure-discarded", len(reg) >= 1, o.where(), "discarding the result of a pure proc is never reported")
        starts = [c.target for c in b.calls_to("get_self_or_parent") if M("any:must_be_pure")(c.arg(0))]
        ends = {c.bb for c in b.calls() if c.is_("AnalyzeProc::visit_expression")} | set(b.returns())
        if starts:
            enforce(P, "pure-discarded", starts, reg, [(mp, "Some", "None")], extra=[(truthy("must_be_pure"), True)], ends=ends, msg="discarding the result of a pure proc is not reported on some path")
        js = [k for k in range(1, b.argc + 1) if (b.ty(k).peel().d or "").endswith("ast::Statement")][0]
        stx = variant_entries(b, is_term(("arg", js)), "Expr")
        e0 = lambda t: t[0] == "fld" and t[2] == "0" and t[1] == ("as", ("arg", js), "Expr")
        isterm = lambda t: t[0] == "fld" and t[2] == "elem" or (base(t)[0] == "fld" and base(t)[2] == "elem")
        P.must("pure-discarded:lookup", stx, [c.bb for c in b.calls_to("get_self_or_parent") if M("any:must_be_pure")(c.arg(0))],
               env_of((e0, "Base"), (isterm, "Call"), (M("call:get_proc"), "Some"), (M("call:any"), False)), ends=ends, msg="the result of a called proc is dropped without looking up must_be_pure on some path")
    R.part("calls", p_calls)

    def p_vars():
        o = R.fn("dreamchecker::check_var_defs")
        b = prep(o)
        P = Paths(R, b)
        fin, pri = registrations(b, "final_var"), registrations(b, "private_var")
        red = [c for c in registrations(b) if c not in fin and c not in pri]
        # innermost loop: variables of the type
        loops = [c for c in b.calls() if c.name == "next"]
        inner = [c for c in loops if any(x.name == "get" and M("any:vars")(x.arg(0)) and mentions(x.arg(1), lambda y: y == some_of(b.cterm(c.t, c.bb, 0))) for x in b.calls())]
        if len(inner) != 1:
            raise AnchorMissing("loop over the variables of a type (%d)" % len(inner))
        c = inner[0]
        t = b.cterm(c.t, c.bb, 0)
        st = variant_entries(b, lambda x: x == t, "Some")
        isname = lambda n: (lambda t: t[0] in ("call", "bin") and t[1].split("::")[-1].lower() == "eq" and mentions(t, lambda x: x == ("k", n)))
        pv = lambda t: M("call:get", "any:vars")(t)
        decl = lambda t: t[0] == "fld" and t[2] == "declaration" and mentions(t, lambda x: x[0] == "call" and x[1].endswith("::get"))
        mine = lambda t: t[0] == "fld" and t[2] == "declaration" and not mentions(t, lambda x: x[0] == "call" and x[1].endswith("::get"))
        ex = [(isname("vars"), False), (isname("/client"), False), (isname("parent_type"), False)]
        ends = {c.bb} | set(b.returns())
        cont = [(pv, "Some", "None"), (decl, "Some", "None")]
        bi = lambda t: M("call:is_builtins")(t) and not mentions(t, lambda x: x[0] == "call" and x[1].endswith("::get"))
        # each variable is looked at, whatever the one before it was
        P.never("every-var", st, [x.bb for x in loops if x is not c] + list(b.returns()), avoid={c.bb}, msg="the variables after one of these are not looked at")
        enforce(P, "final-var", st, fin, cont + [(M("call:is_final"), True, False)], extra=ex + [(bi, False)], ends=ends, msg="overriding a final var is not reported on some path")
        enforce(P, "private-var", st, pri, cont + [(M("call:is_private"), True, False)], extra=ex + [(bi, False)], ends=ends, msg="overriding a private var is not reported on some path")
        enforce(P, "redeclared-var", st, red, cont + [(mine, "Some", "None"), (bi, False, True)], extra=ex, ends=ends, msg="redeclaring a var is not reported on some path")
        P.must("all-vars", [0], [x.bb for x in b.calls_to("iter_types")], msg="not every type is checked")
        P.must("all-parents", [0], [x.bb for x in b.calls_to("iter_parent_types")], env_of((lambda t: t[0] == "call" and t[1].endswith("next"), "Some")), msg="not every parent is checked", ends=set(b.returns()))
        par = [x for x in loops if mentions(b.cterm(x.t, x.bb, 0), lambda y: y[0] == "call" and y[1].endswith("iter_parent_types")) or any(mentions(b.dterm(d), lambda y: y[0] == "call" and y[1].endswith("iter_parent_types")) for a in x.args() if a[0] == "var" for d in b.reaching(a[1], x.bb) if d[0] != "arg")]
        for x in par:
            tt = b.cterm(x.t, x.bb, 0)
            s2 = variant_entries(b, lambda y: y == tt, "Some")
            nx = [y for y in b.calls() if y.name in ("iter", "into_iter") and M("any:vars")(y.arg(0))]
            P.must("parents", s2, [y.bb for y in nx], env_of((M("call:is_root"), False), (lambda t: t[0] in ("call", "bin") and t[1].split("::")[-1].lower() == "eq" and mentions(t, lambda y: y[0] == "fld" and y[2] == "path") and not mentions(t, lambda y: y[0] == "k" and isinstance(y[1], str)), False)), ends={x.bb} | set(b.returns()),
                   msg="the variables of a type are not compared with some parent")
        R.count("parent_loops", len(par), 1)
    R.part("vars", p_vars)
    R.count("obligations", len(R.obs), 120)
