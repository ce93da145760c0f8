"""Exit statuses of the command line tools."""
from lib import *

RULE = """For each main function: the values that can reach process::exit on the paths where the failure count is zero and where it is
positive are computed from MIR (clamped counts must stay within 1..255), the predicate that selects the counted diagnostics is decided
as a table over the four severities, and every path through a failing operation or a broken documentation link increments the count."""
SEV = ["Error", "Warning", "Info", "Hint"]


def closure_of(F, t):
    if t[0] == "agg" and t[1] == "closure":
        return F.by_hash.get(t[2])
    return None


def pred_table(F, o, sevcall="DMError::severity"):
    """value of a severity predicate closure for each severity"""
    b = prep(o)
    trs = traces(b)
    out = {}
    for s in SEV:
        def env(t):
            if (t[0] == "call" and t[1].endswith(sevcall)) or (t[0] == "fld" and t[2] == "severity"):
                return s
            return None
        vs = {evaluate(t.result, env) if t.end == "return" else "panic" for t in fit(trs, env)}
        out[s] = vs.pop() if len(vs) == 1 else None
    return out


def const_values(b, term, bb, cuts, starts):
    """constants a term can have at block bb over the paths from starts that avoid the cut edges (None = unknown)"""
    seen, work = set(starts), list(starts)
    while work:
        x = work.pop()
        for s in b.succ(x):
            if s not in seen and (x, s) not in cuts:
                seen.add(s); work.append(s)
    if bb not in seen:
        return set()
    t = base(term)
    if t[0] == "var":
        out = set()
        for d in b.reaching(t[1], bb):
            if d[0] == "arg":
                out.add(None)
            elif d[0] in seen:
                out.add(const_of(b.dterm(d)))
        return out
    return {const_of(t)}


def status(b, t, is_count, n, depth=0):
    """exit status term as a number, when the count is n"""
    t = base(t)
    if is_count(t):
        return n
    if t[0] == "k" and isinstance(t[1], (int, bool)):
        return int(t[1])
    if t[0] == "call" and t[1].split("::")[-1] in ("min", "max") and len(t[2]) == 2:
        x, y = status(b, t[2][0], is_count, n), status(b, t[2][1], is_count, n)
        return None if x is None or y is None else (min if t[1].endswith("min") else max)(x, y)
    if t[0] == "call" and t[1].split("::")[-1] == "clamp" and len(t[2]) == 3:
        x, y, z = (status(b, q, is_count, n) for q in t[2])
        return None if None in (x, y, z) else max(y, min(x, z))
    if t[0] == "call" and t[1].split("::")[-1] in ("into", "from", "into_inner", "load") and t[2]:
        return status(b, t[2][0], is_count, n)
    if t[0] == "call" and t[1].split("::")[-1] in ("unwrap_or", "try_from") and t[2]:
        if t[1].endswith("try_from"):
            return status(b, t[2][0], is_count, n)
        return status(b, t[2][0], is_count, n)
    if t[0] in ("bin", "un"):
        v = evaluate(t, lambda x: n if is_count(base(x)) else None)
        return None if v is None else int(v)
    return None


def check_exit(R, key, b, exits, is_count, where):
    """every listed exit gives 0 exactly when the count is 0, for any count"""
    for n in (0, 1, 2, 5, 255, 256, 257, 512, 65536):
        env = lambda t: n if is_count(base(t)) else None
        cuts = assume(b, env)
        for c in exits:
            t = base(c.arg(0))
            if t[0] == "var":
                vs = {status(b, b.dterm(d), is_count, n) for d in b.reaching(t[1], c.bb) if d[0] != "arg" and find_path(b, [0], {d[0]}, (), cuts)}
            elif find_path(b, [0], {c.bb}, (), cuts):
                vs = {status(b, t, is_count, n)}
            else:
                vs = set()
            ok = None not in vs and all((v % 256 == 0) == (n == 0) for v in vs)
            R.ob("%s:%d" % (key, n), ok, c.where(), "with %d failures the exit status can be %s" % (n, sorted(vs, key=str)))


def check(F, R):
    ORDINAL.update({n: i for i, n in enumerate(SEV)})

    def p_dreamchecker():
        o = R.fn("dreamchecker_bin::main")
        b = prep(o)
        P = Paths(R, b)
        exits = [c for c in b.calls() if c.is_("process::exit")]
        R.count("dreamchecker_exits", len(exits), 1)
        errs = lambda t: mentions(t, lambda x: x[0] == "call" and x[1].endswith("Context::errors"))

        def is_count(t):
            return t[0] == "call" and t[1].split("::")[-1] == "count" and errs(t)
        checks = [c for c in b.calls() if c.is_("dreamchecker::run_cli")]
        R.count("run_cli", len(checks), 1)
        parse = [c for c in b.calls() if c.name in ("parse_object_tree_2", "parse_object_tree")]
        R.count("parses", len(parse), 1)
        pt = [c.target for c in parse]
        final = [c for c in exits if find_path(b, pt, {c.bb})]
        R.ob("final-exit", len(final) >= 1 and not find_path(b, pt, set(b.returns())), o.where(), "after parsing, some path ends without an exit status derived from the diagnostics")
        check_exit(R, "dreamchecker", b, final, is_count, o.where())
        # what is counted
        n = 0
        for c in final:
            t = base(c.arg(0))
            terms = [b.dterm(d) for d in b.reaching(t[1], c.bb) if d[0] != "arg"] if t[0] == "var" else [t]
            conds = [g[0] for g in b.guards(c.bb)] + terms
            for u in sorted(b.reachable()):
                if b.blocks[u]["t"]["k"] == "switch":
                    conds.append(switch_edges(b, u)[0])
            for q in {x for z in conds for x in subterms(z) if isinstance(x, tuple) and x and x[0] == "call" and is_count(x)}:
                for f in [x for x in subterms(q) if x[0] == "call" and x[1].split("::")[-1] == "filter"]:
                    cb = closure_of(F, f[2][1])
                    if cb is None:
                        R.ob("counted", False, c.where(), "the predicate of the counted diagnostics is unknown")
                        continue
                    n += 1
                    R.saw(cb)
                    tab = pred_table(F, cb)
                    R.ob("counted", tab == {"Error": True, "Warning": True, "Info": True, "Hint": False}, cb.where(), "diagnostics counted by severity: %s" % tab)
        R.count("count_predicates", n, 1)
        # DreamChecker is run unless parsing failed or parse-only was asked for
        po = [v for v, nm in b.names.items() if False]
        fatal = lambda t: t[0] == "fld" and t[2] == "0" and M("call:parse_object_tree_2")(t[1])
        cuts = assume(b, env_of((fatal, False)))
        # variables set to true only under --parse-only
        flags = set()
        for l in b.defs()[0]:
            ds = b.defs()[0][l]
            if b.ty(l).k == "bool" and len(ds) > 1 and all(const_of(b.dterm(d)) in (True, False) for d in ds):
                on = [d for d in ds if const_of(b.dterm(d)) is True]
                if on and all(any(mentions(g[0], lambda x: x == ("k", "--parse-only")) and g[1] == "in" and set(g[2]) == {True} for g in b.guards(d[0])) for d in on):
                    flags.add(l)
        R.count("parse_only_flags", len(flags), 1)
        pov = lambda t: t[0] == "var" and t[1] in flags
        enforce(P, "checked", pt, checks, [(fatal, False, True), (pov, False, True)], msg="DreamChecker is not run on a path although parsing succeeded and checks were asked for", ends=[c.bb for c in final])
        # the summary is written whenever it was asked for
        jf = set()
        for l in b.defs()[0]:
            ds = b.defs()[0][l]
            if b.ty(l).k == "bool" and len(ds) > 1 and all(const_of(b.dterm(d)) in (True, False) for d in ds):
                on = [d for d in ds if const_of(b.dterm(d)) is True]
                if on and all(any(mentions(g[0], lambda x: x == ("k", "--json")) and g[1] == "in" and set(g[2]) == {True} for g in b.guards(d[0])) for d in on):
                    jf.add(l)
        R.count("json_flags", len(jf), 1)
        out = [c for c in b.calls() if c.name in ("to_writer", "to_string", "to_vec", "to_writer_pretty", "to_string_pretty") and "serde_json" in c.fn]
        P.must("json", pt, [c.bb for c in out], env_of((lambda t: t[0] == "var" and t[1] in jf, True)), ends=[c.bb for c in final], msg="the JSON summary is left out on a path although it was asked for")
        P.never("json-unasked", pt, [c.bb for c in out], env_of((lambda t: t[0] == "var" and t[1] in jf, False)), msg="the JSON summary is written although it was not asked for")
        # bodies of procs are parsed
        P.must("bodies", [0], [c.bb for c in b.calls() if c.name == "enable_procs"], ends=[c.bb for c in parse], msg="the bodies of procs are not parsed on some path")
        # unknown arguments
        unk = [c for c in exits if c not in final]
        known = {"-V", "--version", "-e", "-c", "--json", "--parse-only"}
        lits = {}
        for u in sorted(b.reachable()):
            if b.blocks[u]["t"]["k"] == "switch":
                t, es = switch_edges(b, u)
                for x in subterms(t):
                    if x[0] == "k" and isinstance(x[1], str) and x[1] in known:
                        lits[x[1]] = t
        R.ob("arguments", set(lits) == known, o.where(), "arguments recognised: %s" % sorted(lits))
        env = env_of((lambda t: any(t == l for l in lits.values()), False))
        nxt = [c for c in b.calls() if c.name == "next"]
        bad = [r for r in b.returns()]
        vals = set()
        for c in unk:
            vals.add(status(b, c.arg(0), lambda t: False, 0))
        argsome = lambda t: t[0] == "call" and t[1].split("::")[-1] == "next"
        starts = variant_entries(b, argsome, "Some")
        R.count("argument_loop", len(starts), 1)
        P.must("unknown-argument", starts, [c.bb for c in unk] + pt, env, msg="an unknown argument ends the program with success")
        P.never("unknown-argument-goes-on", starts, pt, env, msg="an unknown argument is ignored", avoid=[c.bb for c in nxt])
        R.ob("unknown-status", vals and all(v not in (None, 0) for v in vals), o.where(), "rejected arguments exit with %s" % sorted(vals, key=str))
        # JSON summary
        n = 0
        for c in b.calls():
            if c.name == "insert" and c.is_("Map::insert"):
                k = const_of(base(c.arg(1)))
                q = c.arg(2)
                fs = [x for x in subterms(q) if x[0] == "call" and x[1].split("::")[-1] == "filter"]
                if k in ("hint", "info", "warning", "error") and fs:
                    cb = closure_of(F, fs[0][2][1])
                    n += 1
                    tab = pred_table(F, cb) if cb else None
                    R.ob("json:%s" % k, tab == {s: s.lower() == k for s in SEV}, c.where(), "the JSON count %r counts %s" % (k, tab))
        R.count("json_counts", n, 4)
    R.part("dreamchecker", p_dreamchecker)

    def p_cli():
        o = R.fn("dmm_tools_cli::main")
        b = prep(o)
        P = Paths(R, b)
        exits = [c for c in b.calls() if c.is_("process::exit")]
        R.count("cli_exits", len(exits), 1)
        is_count = lambda t: M("any:exit_status")(t) and t[0] == "call" and t[1].split("::")[-1] in ("into_inner", "load", "get_mut") or (t[0] == "fld" and t[2] == "exit_status")
        runs = [c for c in b.calls() if c.is_("dmm_tools_cli::run")]
        R.count("cli_run", len(runs), 1)
        P.must("cli-exit", [c.target for c in runs], [c.bb for c in exits], msg="dmm-tools ends without its exit status on some path")
        check_exit(R, "cli", b, exits, is_count, o.where())
        # every failure path counts: an Err of loading a map or creating the output directory, wherever it is not a panic
        n = 0
        for q in F.bodies:
            if not q.npath.startswith("dmm_tools_cli::"):
                continue
            if not any(c.is_("Map::from_file") or c.name == "create_dir_all" for c in q.calls()):
                continue
            x = prep(q)
            Q = Paths(R, x)
            for c in x.calls():
                if c.is_("Map::from_file") or c.name == "create_dir_all":
                    src = ("Map::from_file" if c.is_("Map::from_file") else "create_dir_all")
                    inc = [z.bb for z in x.calls() if z.name == "fetch_add" and M("any:exit_status")(z.arg(0)) or (z.name == "fetch_add" and z.is_("Atomic::fetch_add", "AtomicIsize::fetch_add"))]
                    pos = [z for z in x.calls() if z.bb in inc and isinstance(const_of(z.arg(1)), int) and const_of(z.arg(1)) > 0]
                    un = [z.bb for z in x.calls() if z.name in ("unwrap", "expect") and mentions(z.arg(0), lambda t: t[0] == "call" and t[1].endswith(src))]
                    n += 1
                    Q.must("cli-fail:%s:%s" % (re.sub(r"\{closure.*", "closure", q.npath), src), [c.target], [z.bb for z in pos] + un,
                           env_of((lambda t, s=src: t[0] == "call" and t[1].endswith(s), "Err")), msg="a failing %s does not affect the exit status on some path" % src)
        R.count("cli_failure_points", n, 6)
    R.part("cli", p_cli)

    def p_dmdoc():
        o = R.fn("dmdoc::main")
        b = prep(o)
        P = Paths(R, b)
        exits = [c for c in b.calls() if c.is_("process::exit")]
        m2 = lambda t: t[0] == "call" and t[1].endswith("dmdoc::main2")
        ok = [c for c in exits if const_of(c.arg(0)) not in (None, 0)]
        st = [c.target for c in b.calls() if c.is_("dmdoc::main2")]
        R.count("dmdoc_main2", len(st), 1)
        P.must("dmdoc-error", st, [c.bb for c in ok], env_of((m2, "Err")), msg="a failed run of dmdoc ends with success")
        P.never("dmdoc-ok", st, [c.bb for c in exits], env_of((m2, "Ok")), msg="a successful run of dmdoc ends with failure")
        o = R.fn("dmdoc::main2")
        b = prep(o)
        exits = [c for c in b.calls() if c.is_("process::exit")]
        R.count("dmdoc_dry_run_exits", len(exits), 1)
        cell = [l for l in range(len(b.locals)) if b.ty(l).s == "std::cell::Cell<i32>" or b.ty(l).s.endswith("Cell<i32>")]
        R.count("diagnostic_counters", len(cell), 1)

        def is_count(t):
            return t[0] == "call" and t[1].endswith("Cell::into_inner") or t[0] == "call" and t[1].endswith("Cell::get")
        for n in (0, 1, 2, 255, 256, 257, 512, 65536):
            for c in exits:
                v = status(b, c.arg(0), is_count, n)
                R.ob("dry-run:%d" % n, v is not None and (v % 256 == 0) == (n == 0), c.where(), "with %d documentation problems the dry run exits with %s" % (n, v))
        P = Paths(R, b)
        fl = set()
        for l in b.defs()[0]:
            ds = b.defs()[0][l]
            if b.ty(l).k == "bool" and len(ds) > 1 and all(const_of(b.dterm(d)) in (True, False) for d in ds):
                on = [d for d in ds if const_of(b.dterm(d)) is True]
                if on and all(any(mentions(g[0], lambda x: x == ("k", "--dry-run")) and g[1] == "in" and set(g[2]) == {True} for g in b.guards(d[0])) for d in on):
                    fl.add(l)
        R.count("dry_run_flags", len(fl), 1)
        dry = lambda t: t[0] == "var" and t[1] in fl
        cnt = [c.target for c in b.calls() if is_count(("call", c.fn, ())) and "i32" in str([g.s for g in c.ga] if getattr(c, "ga", None) else "i32") and find_path(b, [c.target], {x.bb for x in exits})]
        P.must("dry-run-exit", cnt, [c.bb for c in exits], env_of((dry, True)), msg="a dry run ends without the status its documentation problems call for on some path")
        P.never("dry-run-writes", [0], [c.bb for c in b.calls() if c.name in ("create_dir_all", "create_dir", "copy") and c.fn.startswith("std::fs")] + [c.bb for c in b.calls() if c.is_("File::create")], env_of((dry, True)), msg="a dry run writes files")
        R.count("dry_run_counts", len(cnt), 1)
        # each problem found by the link fixer is counted
        o = R.fn("dmdoc::broken_link_fixer")
        b = prep(o, closures=True)
        P = Paths(R, b)
        sets = [c for c in b.calls() if c.is_("Cell::set") and linear(c.arg(1)).get(None) == 1 and mentions(c.arg(1), lambda x: x[0] == "call" and x[1].endswith("Cell::get"))]
        R.count("counting_sites", len(sets), 1)
        nones = []
        for bb in sorted(b.reachable()):
            for i, s in enumerate(b.blocks[bb]["s"]):
                if s[0] == "=" and s[1] == [0]:
                    t = b.rterm(s[2], bb, i)
                    if t[0] == "agg" and t[2] == "None":
                        nones.append(bb)
        R.count("unresolved_returns", len(nones), 1)
        p = find_path(b, [0], set(nones), {c.bb for c in sets})
        R.ob("unresolved-counted", p is None, path_where(b, p), "an unresolved link is not counted as a problem on some path")
        pr = [c for c in b.calls() if c.name == "_eprint"]
        p = find_path(b, [0], {c.bb for c in pr}, {c.bb for c in sets})
        R.ob("reported-counted", p is None, path_where(b, p), "a problem is printed without being counted")
    R.part("dmdoc", p_dmdoc)
