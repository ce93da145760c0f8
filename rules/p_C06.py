"""Failing reads and writes are never swallowed."""
from lib import *

RULE = """Every call in the workspace that can fail with an input/output or encoding error is followed forward over the MIR under the assumption that it failed: on every
path the error is returned, handed on, reported or ends the program. Every buffered or streaming writer is finished, with its result kept, before success is returned;
nothing writes or reads partially; libraries do not abort on such errors."""

IO1 = r"^(core|std|alloc)::io::error::Error$|^(gif|png)::.*EncodingError|^lodepng::error::Error|^serde_json::error::Error|^walkdir::error::Error|^toml::"
IO = IO1 + r"|DMError$|^dmm_tools::.*Error|^\(\)$"
QUERY = {"is_ok": False, "is_err": True}
DROPS = ("drop", "ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or", "map_or_else", "iter", "is_ok_and", "is_err_and", "and_then", "and", "map", "err", "forget", "discriminant")
ABORT = ("unwrap", "expect", "unwrap_failed")
REPORT = ("_eprint", "_print", "register_error", "register", "fetch_add", "error_idx", "exit")
# looked at for something else than the file's contents: what happens instead is part of the behaviour
OPTIONAL = {("fix_case", "*"): "the path as written is used instead", ("buffer_file", "metadata"): "the size is only a hint for the buffer",
            ("get_case_range", "simple_evaluate"): "what is no constant has no range", ("get_rand_range", "simple_evaluate"): "what is no constant has no range",
            ("gather_settings", "static_type"): "an `as` type that does not exist is no type", ("try_copy_from_parent", "insert"): "there is nothing to collide with"}
WRITERS = r"^(std|alloc)::io::.*(Buf|Line)Writer$|^gif::.*Encoder$|^png::.*(Encoder|Writer)$|^flate2::.*Encoder$|^lodepng::.*Writer$"
FINISH = ("flush", "into_inner", "finish", "into_parts")


def roots(x, out=None):
    """locals an operand or place mentions"""
    out = set() if out is None else out
    if isinstance(x, list):
        if x and type(x[0]) is int: out.add(x[0])
        for y in x:
            if isinstance(y, list): roots(y, out)
    return out


def fallible(ty, rx):
    """is this a result (or an optional one, as iterators give) with an error of the kinds of rx"""
    if ty.d == "core::option::Option" and ty.args: ty = ty.args[0]
    return ty.d == "core::result::Result" and len(ty.args) > 1 and re.search(rx, ty.args[1].s) is not None


def swallow(b, c, dst=None, start=None):
    """(path, how) on which the failure of call c (or in the argument dst) disappears, or None; aborts: calls that end the program"""
    if c is not None: dst, start = c.t["dst"], c.t["t"]
    if start is None: return None, "", []
    aborts = []
    seen, work = set(), [(start, frozenset([dst[0]]), frozenset(), (c.bb,) if c else ())]
    while work:
        bb, S, known, path = work.pop()
        if (bb, S, known) in seen: continue
        seen.add((bb, S, known))
        if c is not None and bb == c.bb: return path, "the call is made again", aborts
        K = dict(known)
        S = set(S)
        for s in b.blocks[bb]["s"]:
            if s[0] != "=": continue
            d, rv = s[1], s[2]
            src = roots([y for y in rv[1:] if isinstance(y, list)])
            if rv[0] == "agg" and len(d) == 1 and d[0] == 0 and rv[1][0] == "adt" and "Err" in rv[1]: K[0] = "Err"
            elif len(d) == 1: K.pop(d[0], None)
            if rv[0] == "discr": continue
            if src & S: S.add(d[0])
            elif len(d) == 1:
                if len(src) == 1 and rv[0] == "use" and next(iter(src)) in K: K[d[0]] = K[next(iter(src))]
                S.discard(d[0])
        t = b.blocks[bb]["t"]
        k = t["k"]
        if k == "return":
            if 0 in S or K.get(0) == "Err": continue
            return path + (bb,), "the function returns", aborts
        if k == "call":
            nm = norm_path(t.get("fn") or "?").split("::")[-1]
            args = set().union(*[roots(a[1]) if a[0] in "mc" else set() for a in t["a"]] or [set()])
            if args & S:
                if nm in ABORT:
                    aborts.append(Call(b, bb, t))
                    continue
                if nm in QUERY: K[t["dst"][0]] = QUERY[nm]
                elif nm in DROPS:
                    S -= args
                elif nm in ("branch", "as_ref", "as_mut", "map_err", "or_else", "into", "from", "deref", "borrow"): S.add(t["dst"][0])
                else: continue
            elif nm in REPORT: continue
            elif len(t["dst"]) == 1:
                S.discard(t["dst"][0])
                K.pop(t["dst"][0], None)
            if t["t"] is not None: work.append((t["t"], frozenset(S), frozenset(K.items()), path + (bb,)))
            continue
        nxt = b.succ(bb)
        if k == "switch":
            p = b.blocks[bb]["t"]["d"]
            l = roots(p)
            for x in l:
                if isinstance(K.get(x), bool):
                    nxt = [y for v, y in t["v"] if bool(v) == K[x]] or [t["o"]]
            term = None
            for s in b.blocks[bb]["s"]:
                if s[0] == "=" and s[2][0] == "discr" and s[1][0] in l: term = s[2][1]
            if term is not None and term[0] in S:
                names = b.discr_names(bb) or {}
                if set(names.values()) & {"Err", "Break"}:
                    want = [y for v, y in t["v"] if names.get(v) in ("Err", "Break")]
                    if not want and set(names.values()) - {names.get(v) for v, _ in t["v"]} & {"Err", "Break"}: want = [t["o"]]
                    nxt = want or nxt
                elif set(names.values()) == {"None", "Some"} and len(term) == 1:
                    nxt = [y for v, y in t["v"] if names.get(v) == "Some"] or [t["o"]]
        for y in nxt:
            if not b._dead_end(y): work.append((y, frozenset(S), frozenset(K.items()), path + (bb,)))
    return None, "", aborts


def check(F, R):
    def optional(o, who, callee):
        if (who, callee) in OPTIONAL or (who, "*") in OPTIONAL: return True
        # a helper taken out of such a function
        up = {x.body.path.split("::")[-1] for x in F.callers().get(o.h, [])} if is_new(o) else set()
        return bool(up) and all((w, callee) in OPTIONAL or (w, "*") in OPTIONAL for w in up)

    def p_errors():
        n, lib = 0, 0
        for o in F.bodies:
            if o.crate.id == "builtins_proc_macro": continue
            mine = [c for c in o.calls() if fallible(o.ty(c.t["dst"][0]), IO)]
            given = [k for k in range(1, o.argc + 1) if fallible(o.ty(k), IO) and o.crate.id != "dreammaker" or o.k == "closure" and fallible(o.ty(k), IO)]
            if not mine and not given: continue
            R.saw(o)
            b = prep(o, closures=False, loops=True)
            for c in b.calls():
                ty = b.ty(c.t["dst"][0])
                if len(c.t["dst"]) != 1 or not fallible(ty, IO): continue
                opt = ty.d == "core::option::Option"
                if opt: ty = ty.args[0]
                n += 1
                who = o.path.split("::")[-1] if o.k != "closure" else F.by_hash[o.j["lparent"]].path.split("::")[-1] if o.j.get("lparent") in F.by_hash else o.path
                key = "%s:%s" % (o.npath, c.fn.split("::")[-1])
                r, how, aborts = swallow(b, c)
                if not optional(o, who, c.fn.split("::")[-1]):
                    R.ob(key, r is None, path_where(b, list(r)) if r else c.where(), "when this fails, %s and the error is lost" % how)
                if o.crate.id in ("dreammaker", "dmm_tools", "dreamchecker") and re.search(IO1, ty.args[1].s):
                    lib += 1
                    for a in aborts: R.ob("abort:" + key, c.fn.split("::")[-1] == "pretty_print_error", a.where(), "a library ends the program when %s fails" % c.fn.split("::")[-1])
            for k in given:
                if optional(o, o.path.split("::")[-1], "*"): continue
                r, how, aborts = swallow(b, None, [k], 0)
                R.ob("%s:argument" % o.npath, r is None, path_where(b, list(r)) if r else o.where(), "the failure it is given is lost")
        R.count("calls that can fail", n, 400)
        R.count("fallible input/output in libraries", lib, 20)
    def writer_in(ty): return any(re.search(WRITERS, h) for h in ty.heads())

    def p_writers():
        n, m = 0, 0
        for o in F.bodies:
            if o.crate.id == "builtins_proc_macro" or not any(writer_in(o.ty(l)) for l in range(len(o.locals))): continue
            if writer_in(o.ty(0)) and not writer_in(o.ty(1)): continue
            R.saw(o)
            b = prep(o, closures=True, loops=True)
            makes = [c for c in b.calls() if writer_in(b.ty(c.t["dst"][0])) and not any(writer_in(b.ty(x)) for a in c.t["a"] if a[0] in "mc" for x in roots(a[1]))]
            uses = [c for c in b.calls() if c.t["a"] and c.t["a"][0][0] in "mc" and writer_in(b.ty(c.t["a"][0][1][0]))]
            done = {c.bb for c in uses if c.t["fn"].split("::")[-1] in FINISH}
            err = set()
            for u in b.reachable():
                if b.blocks[u]["t"]["k"] == "switch":
                    term, es = switch_edges(b, u)
                    err |= {(u, x) for x, s in es if not isinstance(s, tuple) and s <= {"Err", "Break"}}
            ends = {x for x in b.reachable() if b.blocks[x]["t"]["k"] == "return"}
            for c in makes: n += 1
            m += len([c for c in uses if c.t["fn"].split("::")[-1] in FINISH])
            for c in makes + [c for c in uses if c.bb not in done]:
                if c.t["t"] is None: continue
                r = find_path(b, [c.t["t"]], ends, done, err)
                R.ob("unfinished:%s" % o.npath, r is None, path_where(b, r) if r else c.where(), "success is returned after %s without finishing the writer, whose last failure is then ignored" % c.fn.split("::")[-1])
        R.count("buffering writers", n)
        R.count("finished explicitly", m)

    def p_partial():
        # what a partial read or write transferred has to matter
        n = 0
        for o in F.bodies:
            cs = [c for c in o.calls() if re.search(r"(^|<)(std|core|alloc)::io::.*(Write::write|Read::read)$", norm_path(c.t.get("fn") or ""))]
            n += len(cs)
            for c in cs:
                b = prep(o, closures=True, loops=True)
                S = {c.t["dst"][0]}
                used = False
                for _ in range(8):
                    for u in b.reachable():
                        for s in b.blocks[u]["s"]:
                            if s[0] != "=" or s[2][0] == "discr" or not roots([y for y in s[2][1:] if isinstance(y, list)]) & S: continue
                            used |= s[2][0] == "bin" or s[1][0] == 0
                            if len(s[1]) == 1: S.add(s[1][0])
                        t = b.blocks[u]["t"]
                        if t["k"] == "call" and any(roots(a[1]) & S for a in t["a"] if a[0] in "mc"): used = True
                R.ob("partial:%s" % o.npath, used, c.where(), "how much was transferred is ignored")
        R.count("partial transfers", n)

    def p_iterators():
        # adapters that skip failed items
        n = 0
        for o in F.bodies:
            for c in o.calls():
                t = c.t
                if not t["a"] or t["a"][0][0] not in "mc": continue
                h = o.ty(t["a"][0][1][0]).heads() if len(t["a"][0][1]) else set()
                if not any(re.search(r"^std::fs::ReadDir$|^walkdir::(IntoIter|FilterEntry|WalkDir)|^(std|alloc)::io::.*Lines$", x) for x in h): continue
                n += 1
                nm = c.fn.split("::")[-1]
                ok = nm not in ("flatten", "flat_map") and not any(a[0] == "k" and re.search(r"Result::.*(ok|is_ok|unwrap_or)", json.dumps(a)) for a in t["a"][1:])
                R.ob("skips:%s" % o.npath, ok, c.where(), "items that could not be read are skipped without a word")
        R.count("iterations over fallible items", n, 2)

    R.part("iterators", p_iterators)
    R.part("errors", p_errors)
    R.part("writers", p_writers)
    R.part("partial", p_partial)
