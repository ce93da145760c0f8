"""What is recorded as a diagnostic is exactly what the configuration admits."""
import lib
from lib import *

RULE = """The registration gate (Context::register_error with the configuration helpers inlined) is decided as one complete table:
for each configured level of the error type (7), display level (6), print level (5) and own severity (4), the traces of the MIR
that fit the combination record the error exactly once with the resulting severity, or not at all.  Constructors and accessors of
diagnostics are compared field by field, and every path through force_config that fails to read the file registers a diagnostic."""
SEV = ["Error", "Warning", "Info", "Hint"]
LV = SEV + ["Disabled", "Unset"]
E = "dreammaker::error::"
INL = {"set_configured_severity", "config_warninglevel", "registerable_error", "applies_to", "set_severity",
       E + "DMError::severity", E + "DMError::errortype"}


def admits(level, sev):
    return level == "Unset" or (level != "Disabled" and SEV.index(sev) <= SEV.index(level))


def field(name, base_=None):
    return lambda t: t[0] == "fld" and t[2] == name and (base_ is None or base_(t[1]))


def is_get(t):
    return t[0] == "call" and t[1].split("::")[-1] == "get" and M("any:diagnostics")(t[2][0])


def check(F, R):
    ORDINAL.update({n: i for i, n in enumerate(SEV)})

    def p_order():
        vs = list(F.variants(E + "Severity"))
        R.ob("severity-order", vs == SEV, "", "severities are declared in the order %s" % vs)
        imps = [b for b in F.bodies if "Severity" in b.path and b.name in ("partial_cmp", "cmp", "lt", "le", "gt", "ge") and b.crate.name == "dreammaker"]
        R.count("severity_orderings", len(imps), 1)
        for b in imps:
            x = prep(b)
            cs = [c for c in x.calls() if c.name in ("cmp", "partial_cmp", "then", "reverse")]
            for c in cs:
                if c.name == "reverse":
                    R.ob("severity-order:%s" % b.name, False, b.where(), "severity comparison is reversed")
                else:
                    a0, a1 = c.arg(0), c.arg(1)
                    R.ob("severity-order:%s" % b.name, mentions(a0, lambda t: t == ("arg", 1)) and mentions(a1, lambda t: t == ("arg", 2)), c.where(),
                         "severities are compared as %s with %s" % (show(a0, x), show(a1, x)))
    R.part("severity-order", p_order)

    def p_gate():
        o = R.fn(E + "Context::register_error")
        b = prep(o, also=INL)
        trs = traces(b)
        R.count("gate_traces", len(trs), 40)
        err = ("arg", 2)
        for has_type in (True, False):
            for cfg in (["None"] + LV if has_type else ["None"]):
                for disp in LV:
                    for pr in ("None",) + tuple(SEV):
                        for own in SEV:
                            def env(t):
                                if t == ("fld", err, "errortype") or (t[0] == "call" and t[1].endswith("DMError::errortype")):
                                    return "Some" if has_type else "None"
                                if is_get(t):
                                    return "None" if cfg == "None" else "Some"
                                if field("0", lambda x: x[0] == "as" and x[2] == "Some" and is_get(x[1]))(t):
                                    return cfg
                                if field("error_level")(t):
                                    return disp
                                if t == ("fld", err, "severity"):
                                    return own
                                if field("print_severity")(t):
                                    return "None" if pr == "None" else "Some"
                                if field("0", lambda x: x[0] == "as" and x[2] == "Some" and field("print_severity")(x[1]))(t):
                                    return pr
                                return None
                            sev = cfg if cfg in SEV else own
                            want = cfg != "Disabled" and admits(disp, sev)
                            ts = fit(trs, env)
                            key = "gate:%s:%s:%s:%s:%s" % ("typed" if has_type else "untyped", cfg, disp, pr, own)
                            ok, why = len(ts) >= 1, "no path fits"
                            for t in ts:
                                pushes = [e for e in t.events if e[0].endswith("Vec::push") and M("any:errors")(e[1][0])]
                                shown = [e for e in t.events if e[0].endswith("pretty_print_error")]
                                if len(pushes) != (1 if want else 0):
                                    ok, why = False, "recorded %d times, expected %d" % (len(pushes), 1 if want else 0)
                                elif want:
                                    v = base(pushes[0][1][1])
                                    got = own
                                    for w, x in t.writes:
                                        if w == ("fld", err, "severity"):
                                            got = evaluate(x, lambda t_: None)
                                    bad = [w for w, x in t.writes if w[0] == "fld" and w[1] == err and w[2] != "severity"]
                                    if v != err:
                                        ok, why = False, "records %s instead of the diagnostic" % show(v, b)
                                    elif got != sev:
                                        ok, why = False, "recorded with severity %s, expected %s" % (got, sev)
                                    elif bad:
                                        ok, why = False, "changes the diagnostic's %s" % bad[0][2]
                                if ok and (len(shown) > 0) != (want and pr != "None" and SEV.index(sev) <= SEV.index(pr)):
                                    ok, why = False, "printed %d times with print level %s and severity %s" % (len(shown), pr, sev)
                            R.ob(key, ok, o.where(), "configured %s, display level %s, print level %s, own severity %s: %s" % (cfg, disp, pr, own, why))
        # the lookup key is the error's own type
        gets = [e for t in trs for e in t.events if e[0].endswith("HashMap::get") and M("any:diagnostics")(e[1][0])]
        R.count("config_lookups", len(gets), 1)
        for e in gets:
            R.ob("gate-key", mentions(e[1][1], lambda t: t == ("fld", err, "errortype")), o.where(), "configuration is looked up under %s" % show(e[1][1], b))
    R.part("gate", p_gate)

    def p_register():
        b = prep(R.fn(E + "DMError::register"))
        P = Paths(R, b)
        cs = [c for c in b.calls_to("Context::register_error") if base(c.arg(1)) == ("arg", 1)]
        P.must("register", [0], [c.bb for c in cs], msg="registering a diagnostic loses it on some path")
        # nobody else writes the error list
        n = 0
        for o in F.bodies:
            if o.crate.name in ("dreammaker", "dreamchecker", "dmm_tools", "dmdoc", "dmm_tools_cli"):
                for c in o.calls():
                    if c.name in ("clear", "pop", "truncate", "retain", "drain", "remove", "swap_remove", "take", "replace") and c.t["a"]:
                        t = c.arg(0)
                        if mentions(t, lambda x: x[0] == "fld" and x[2] == "errors" and x[1] == ("arg", 1)) and "error::Context" in o.path:
                            R.ob("dropped:%s" % o.name, False, c.where(), "recorded diagnostics are removed")
                n += 1
        R.count("bodies_checked_for_removal", n, 500)
    R.part("register", p_register)

    def p_builders():
        spec = {"set_severity": {"severity": ("arg", 2)}, "with_component": {"component": ("arg", 2)}, "with_errortype": {"errortype": ("arg", 2)},
                "with_location": {"location": ("arg", 2)}}
        fields = ["location", "severity", "component", "description", "notes", "cause", "errortype"]
        for name, want in spec.items():
            o = R.fn(E + "DMError::" + name)
            b = prep(o)
            ts = [t for t in traces(b) if t.end == "return"]
            R.ob("builder:%s:paths" % name, len(ts) >= 1, o.where(), "no returning path")
            for t in ts:
                got = {w[2]: x for w, x in t.writes if w[0] == "fld" and w[1] == ("arg", 1)}
                res = t.result
                if res[0] == "agg":
                    got = {n: x for n, x in zip(res[4], res[3]) if x != ("fld", ("arg", 1), n)}
                    res = ("arg", 1)
                ok = res == ("arg", 1) and set(got) == set(want)
                for k, v in want.items():
                    if ok:
                        ok = any(s == v for s in subterms(got[k]))
                R.ob("builder:%s" % name, ok, o.where(), "%s changes %s" % (name, sorted(got)))
        for name, f in [("location", "location"), ("severity", "severity"), ("component", "component"), ("errortype", "errortype"), ("description", "description"), ("notes", "notes")]:
            o = R.fn(E + "DMError::" + name)
            for t in traces(prep(o)):
                if t.end == "return":
                    R.ob("accessor:%s" % name, base(t.result) == ("fld", ("arg", 1), f), o.where(), "%s() returns %s" % (name, show(t.result, o)))
        o = R.fn(E + "DMError::new")
        for t in traces(prep(o)):
            if t.end == "return":
                r = t.result
                ok = r[0] == "agg"
                g = dict(zip(r[4], r[3])) if ok else {}
                ok = ok and base(g["location"]) == ("arg", 1) and mentions(g["description"], lambda x: x == ("arg", 2)) and const_of(g["errortype"]) == "None"
                ok = ok and (const_of(g["severity"]) == "Error" or (g["severity"][0] == "call" and g["severity"][1].split("::")[-1] == "default"))
                R.ob("new", ok, o.where(), "a new diagnostic is %s" % show(r, o)[:200])
        for o in [x for x in F.bodies if x.crate.name == "dreammaker" and x.name == "default" and "Severity" in x.path and "error" in x.path]:
            for t in traces(prep(o)):
                if t.end == "return":
                    R.ob("default-severity", const_of(t.result) == "Error", o.where(), "the default severity is %s" % show(t.result, o))
        # adding a note pushes onto the notes
        o = R.fn(E + "DMError::add_note")
        b = prep(o)
        P = Paths(R, b)
        ps = [c for c in b.calls_to("Vec::push") if M("any:notes")(c.arg(0)) and mentions(c.arg(1), lambda x: x == ("arg", 2)) and mentions(c.arg(1), lambda x: x == ("arg", 3))]
        P.must("add-note", [0], [c.bb for c in ps], msg="a note is dropped, or its location or text is lost")
        o = R.fn(E + "DMError::with_note")
        b = prep(o)
        P = Paths(R, b)
        P.must("with-note", [0], [c.bb for c in b.calls_to("DMError::add_note") if base(c.arg(1)) == ("arg", 2) and base(c.arg(2)) == ("arg", 3)], msg="with_note drops the note on some path")
        # clones keep everything that can be cloned
        cl = [x for x in F.bodies if x.crate.name == "dreammaker" and x.name == "clone" and "DMError" in x.path]
        R.count("clone_impls", len(cl), 1)
        for o in cl:
            R.saw(o)
            for t in traces(prep(o)):
                if t.end == "return" and t.result[0] == "agg":
                    g = dict(zip(t.result[4], t.result[3]))
                    for f in fields:
                        if f != "cause":
                            R.ob("clone:%s" % f, mentions(g[f], lambda x: x == ("fld", ("arg", 1), f)), o.where(), "cloning a diagnostic gives %s for %s" % (show(g[f], o), f))
    R.part("builders", p_builders)

    def p_config():
        o = R.fn(E + "Context::force_config")
        b = prep(o, also={E + "DMError::register"})
        P = Paths(R, b)
        rd = [c for c in b.calls_to("Config::read_toml")]
        R.count("config_reads", len(rd), 1)
        res = M("call:read_toml")
        P.must("config-error", [c.target for c in rd], [c.bb for c in b.calls_to("Context::register_error")], env_of((res, "Err")), msg="an unreadable configuration file is not reported on some path")
        P.must("config-read", [0], [c.bb for c in rd if base(c.arg(0)) == ("arg", 2)], msg="the given configuration file is not read on some path")
        ws = field_writes(b, "config")
        P.must("config-ok", [c.target for c in rd], [w[0] for w in ws if mentions(w[2], M("call:read_toml"))], env_of((res, "Ok")), msg="a configuration that was read is not used on some path")
        P.never("config-ok-quiet", [c.target for c in rd], [c.bb for c in b.calls_to("Context::register_error")], env_of((res, "Ok")), msg="a valid configuration is reported as unreadable")
        # beside the environment: its parent joined with the name, or its path with another file name
        def beside(x):
            env2 = lambda t: t == ("arg", 2)
            return mentions(x, lambda t: t[0] == "call" and t[1].split("::")[-1] in ("join", "push") and mentions(t[2][0], lambda z: z[0] == "call" and z[1].split("::")[-1] == "parent" and mentions(z, env2))
                            or t[0] == "call" and t[1].split("::")[-1] == "with_file_name" and mentions(t[2][0], env2))
        o = R.fn(E + "Context::autodetect_config")
        b = prep(o)
        P = Paths(R, b)
        ex = [c for c in b.calls() if c.name in ("exists", "is_file", "try_exists")]
        P.must("autodetect", [0], [c.bb for c in b.calls_to("Context::force_config") if mentions(c.arg(1), lambda t: t == ("k", "SpacemanDMM.toml")) and beside(c.arg(1))],
               env_of((lambda t: t[0] == "call" and t[1].split("::")[-1] in ("exists", "is_file"), True)), msg="SpacemanDMM.toml beside the environment is not used on some path")
        o = R.fn("dreammaker::config::Config::read_toml")
        b = prep(o)
        for t in traces(b):
            if t.end == "return" and t.result[0] == "agg" and t.result[2] == "Ok":
                ev = [e[0].split("::")[-1] for e in t.events]
                R.ob("read-toml", "open" in ev and ("from_str" in ev) and mentions(t.result, lambda x: x[0] == "call" and x[1].split("::")[-1] == "from_str"), o.where(), "Ok is returned without reading and parsing the file")
    R.part("config", p_config)

    def p_serde():
        """the words accepted for levels in the configuration file"""
        want = {"error": "Error", "errors": "Error", "warning": "Warning", "warnings": "Warning", "info": "Info", "infos": "Info", "hint": "Hint", "hints": "Hint",
                "disabled": "Disabled", "false": "Disabled", "off": "Disabled", "unset": "Unset"}
        vis = [x for x in F.bodies if x.crate.name == "dreammaker" and x.name == "visit_str" and "WarningLevel" in x.path]
        R.count("level_parsers", len(vis), 1)
        for o in vis:
            R.saw(o)
            b = prep(o)
            trs = traces(b)
            order = list(F.variants("dreammaker::config::WarningLevel"))
            for w, v in want.items():
                def env(t):
                    if t == ("arg", 2): return w
                    return None
                ts = fit(trs, env)
                got = set()
                for t in ts:
                    r = t.result
                    x = const_of(r) if t.end == "return" else None
                    if isinstance(x, tuple) and x[0] == "Ok":
                        got.add(str(x[1]))
                    else:
                        got.add("error")
                i = order.index(v)
                R.ob("level-word:%s" % w, got in ({"__field%d" % i}, {v}), o.where(), "the level %r is read as %s, expected %s" % (w, sorted(got), v))
    R.part("levels", p_serde)

    def p_print():
        o = R.fn(E + "Context::pretty_print_error")
        b = prep(o)
        trs = [t for t in traces(b)]
        # the printed path, line, column and description are the error's own
        need = {"file": ("fld", ("fld", ("arg", 3), "location"), "file"), "line": ("fld", ("fld", ("arg", 3), "location"), "line"), "column": ("fld", ("fld", ("arg", 3), "location"), "column")}
        seen = set()
        for c in b.calls():
            for a in c.args():
                for k, n in need.items():
                    if mentions(a, lambda x: x == n):
                        seen.add(k)
                if mentions(a, lambda x: x[0] == "call" and x[1].endswith("DMError::description") and base(x[2][0]) == ("arg", 3)) or mentions(a, lambda x: x == ("fld", ("arg", 3), "description")):
                    seen.add("description")
                if mentions(a, lambda x: x == ("fld", ("arg", 3), "severity")) or mentions(a, lambda x: x[0] == "call" and x[1].endswith("DMError::severity") and base(x[2][0]) == ("arg", 3)):
                    seen.add("severity")
                if mentions(a, lambda x: x == ("fld", ("arg", 3), "notes")) or mentions(a, lambda x: x[0] == "call" and x[1].endswith("DMError::notes")):
                    seen.add("notes")
        for k in ("file", "line", "column", "description", "severity", "notes"):
            R.ob("printed:%s" % k, k in seen, o.where(), "the diagnostic's %s is not printed" % k)
    R.part("print", p_print)
