"""Saving a map writes all of it; loading a map stores what the file says."""
from lib import *

RULE = """The text save_tgm can write is extracted from MIR as an automaton over literal characters and typed holes and proven equal to
the TGM grammar; the guards of the separators are decided on the paths.  The reader is decided as a transition table: every path through
one step of its two character loops, with the state change, the stores and the calls it makes, is compared with the specification for
every state and every class of character."""
RD = "dmm_tools::dmm::read::"
HEADER = "//MAP CONVERTED BY dmm2tgm.py THIS HEADER COMMENT PREVENTS RECONVERSION, DO NOT REMOVE"


def fldof(t, name):
    return t[0] == "fld" and t[2] == name


def check(F, R):
    def p_writer():
        o = R.fn("dmm_tools::dmm::save_tgm::save_tgm")
        b = prep(o)
        mp = ("arg", 1)
        dic = ("elem", ("fld", mp, "dictionary"))
        fabs = ("fld", dic, "1")

        def axis(t, src, n):
            return t[0] == "call" and t[1].endswith("::axis_iter") and base(t[2][0]) == src and any(x == ("k", n) for x in subt(t[2][1]))

        def nm(t, kind):
            e = elems(b, base(t))
            if kind != "display": return "?%s" % (kind,)
            if e[0] == "call" and e[1].endswith("::format_key") and base(e[2][0]) == mp: k = base(e[2][1])
            elif e[0] == "agg" and str(e[1]).endswith("FormatKey") and e[3][0] == ("fld", mp, "key_length"): k = base(e[3][1])
            else: k = None
            if k is not None:
                if k == ("fld", dic, "0"): return "dictionary key"
                if k[0] == "elem" and k[1][0] == "elem" and axis(k[1][1], ("elem", k[1][1][2][0][1]) if k[1][1][0] == "call" and k[1][1][2][0][0] == "elem" else None, 1) and axis(k[1][1][2][0][1], ("fld", mp, "grid"), 0):
                    return "tile key"
                return "key of " + show(k, b)
            if e[0] == "fld" and e[2] == "path" and e[1] == ("elem", fabs): return "path"
            if e[0] == "fld" and e[1] == ("elem", ("fld", ("elem", fabs), "vars")): return {"0": "name", "1": "value"}.get(e[2], "?")
            l = linear(e)
            ix = [k for k in l if k is not None]
            if len(ix) == 1 and l == {ix[0]: 1, None: 1} and ix[0][0] == "index":
                s = ix[0][1]
                if axis(s, ("fld", mp, "grid"), 0): return "z"
                if s[0] == "call" and s[2] and s[2][0][0] == "elem" and axis(s[2][0][1], ("fld", mp, "grid"), 0) and axis(s, s[2][0], 1): return "x"
            return show(e, b)
        A = emission(b, nm)
        H = lambda x: ("hole", x)
        N = NFA()
        s = N.new()
        sepd = ("opt", ";")
        end = regex(N, s, ("seq", HEADER + "\n",
                           ("star", ("seq", '"', H("dictionary key"), '" = (\n',
                                     ("star", ("seq", H("path"), ("opt", ("seq", "{", ("star", ("seq", "\n\t", H("name"), " = ", H("value"), ("opt", ";"))), "\n\t}")), ("opt", ",\n"))), ")\n")),
                           ("star", ("seq", "\n", ("star", ("seq", "(", H("x"), ",1,", H("z"), ') = {"\n', ("star", ("seq", H("tile key"), "\n")), '"}\n'))))))
        d = lang_diff(A, (N, s, frozenset([end])))
        R.ob("written-text", d is None, o.where(), "" if d is None else "after %r a saved map %s %r" % (d[0][-60:], "can continue with" if d[2] == 1 else "cannot continue with", d[1]))
        R.count("writes", sum(1 for c in b.calls() if emitted(c.fn, tuple(c.args()))), 8)
        # separators: exactly between elements
        P = Paths(R, b)
        for what, text, owner in (("variables", ";", lambda t: t == ("fld", ("elem", fabs), "vars")), ("objects", ",\n", lambda t: t == fabs)):
            ws = {c.bb for c in b.calls() for em in [emitted(c.fn, tuple(c.args()))] if em == [text]}
            R.ob("separator:%s" % what, len(ws) >= 1, o.where(), "no separator between %s is written" % what)
            ix = lambda t: elems(b, base(t)) != t and elems(b, base(t))[0] == "index" and owner(elems(b, base(t))[1]) or t[0] == "index" and owner(t[1])
            ln = lambda t: t[0] == "call" and t[1].split("::")[-1] == "len" and owner(elems(b, base(t[2][0])))
            heads = {c.bb for c in b.calls() if c.name == "next" and elems(b, ("fld", ("as", b.cterm(b.blocks[c.bb]["t"], c.bb, 0), "Some"), "0"))[0] in ("elem", "index")
                     and elem_of(elems(b, ("fld", ("as", b.cterm(b.blocks[c.bb]["t"], c.bb, 0), "Some"), "0")), owner)}
            R.ob("separator:%s:loop" % what, len(heads) == 1, o.where(), "the loop over %s is not found" % what)
            starts = [x for h in heads for x in variant_entries(b, lambda t, h=h: t == b.cterm(b.blocks[h]["t"], h, 0), "Some")]
            for i, n, want in ((0, 1, 0), (0, 2, 1), (1, 2, 0), (0, 3, 1), (1, 3, 1), (2, 3, 0)):
                e = env_of((ix, i), (ln, n))
                if want: P.must("separator:%s:%d/%d" % (what, i, n), starts, ws, e, ends=heads, msg="no separator after element %d of %d %s" % (i + 1, n, what), dead=error_exits(b))
                else: P.never("separator:%s:%d/%d" % (what, i, n), starts, ws, e, msg="a separator follows the last of %d %s" % (n, what), avoid=heads)
        # braces exactly when there are variables
        emp = lambda t: t[0] == "call" and t[1].split("::")[-1] == "is_empty" and elems(b, base(t[2][0])) == ("fld", ("elem", fabs), "vars")
        vl = lambda t: t[0] == "call" and t[1].split("::")[-1] == "len" and elems(b, base(t[2][0])) == ("fld", ("elem", fabs), "vars")
        pw = [c for c in b.calls() for em in [emitted(c.fn, tuple(c.args()))] if em and any(isinstance(x, tuple) and nm(x[1], x[2]) == "path" for x in em)]
        bw = {c.bb for c in b.calls() for em in [emitted(c.fn, tuple(c.args()))] if em and isinstance(em[0], str) and "".join(x for x in em if isinstance(x, str)).startswith("{")}
        vloop = {c.bb for c in b.calls() if c.name == "next" and elem_of(elems(b, ("fld", ("as", b.cterm(b.blocks[c.bb]["t"], c.bb, 0), "Some"), "0")), lambda t: t == ("fld", ("elem", fabs), "vars"))}
        ol = {c.bb for c in b.calls() if c.name == "next"}
        for v, want in ((True, 0), (False, 1)):
            e = env_of((emp, v), (vl, 0 if v else 2))
            st = [c.target for c in pw]
            if want: P.must("variables-written", st, vloop, e, ends=(ol - vloop) | set(b.returns()), msg="the variables of an object are not written", dead=error_exits(b))
            else: P.never("variables-braces", st, bw, e, msg="empty braces are written for an object without variables", avoid=ol)
        # the result
        for n in ("Map::to_writer", "Map::to_file"):
            o2 = R.fn("dmm_tools::dmm::" + n)
            b2 = prep(o2, also={"dmm_tools::dmm::Map::to_writer"})
            for t in traces(b2):
                ev = [e for e in t.events if e[0].endswith("save_tgm::save_tgm")]
                if t.end == "return" and t.result[0] == "agg" and t.result[2] == "Ok":
                    R.ob(n + ":saves", bool(ev) and decided(t, ev[-1], "Ok"), o2.where(), "%s succeeds although the map was not written" % n)
                elif t.end == "return" and t.result[0] == "call":
                    R.ob(n + ":saves", t.result[1].endswith("save_tgm::save_tgm"), o2.where(), "%s returns %s" % (n, show(t.result, b2)[:80]))
                for e in ev:
                    R.ob(n + ":self", e[1][0] == ("arg", 1), o2.where(), "another map is written")
    R.part("writer", p_writer)

    def p_grid():
        o = R.fn(RD + "parse_map")
        b = prep(o)
        ins = [c for c in b.calls() if c.is_("BTreeMap::insert") and not M("any:dictionary")(c.arg(0))]
        R.count("grid_stores", len(ins), 1)
        nexts = [c for c in b.calls() if c.name == "next" and "LocationTracker" in b.ty(c.t["a"][0][1][0]).s]
        head = [c for c in nexts if b.dominates(c.bb, ins[0].bb)]
        head = max(head, key=lambda c: sum(b.dominates(x.bb, c.bb) for x in head))
        ht = b.cterm(b.blocks[head.bb]["t"], head.bb, 0)
        s2 = variant_entries(b, lambda t: t == ht, "Some")
        tr = [t for s in s2 for t in traces(b, start=s, stops={head.bb}, visits=1)]
        tr = [t for t in tr if t.end == "stop"]
        R.count("grid_steps", len(tr), 10)
        isch = lambda t: base(t)[0] == "fld" and base(t)[2] == "0" and base(t)[1][0] == "as" and base(t)[1][2] == "Some" and base(t)[1][1][0] == "var"
        adv = [c for c in b.calls() if c.is_("read::advance_key") and b.dominates(head.bb, c.bb)]
        dg = [c for c in b.calls() if c.name == "to_digit" and b.dominates(head.bb, c.bb)]

        def flags(c):
            return {g[0][1] for g in b.guards(c.bb) if g[0][0] == "var" and b.ty(g[0][1]).k == "bool" and g[1] == "in" and set(g[2]) == {True}}
        row = set.intersection(*[flags(c) for c in adv])
        coord = set.intersection(*[flags(c) for c in dg])
        R.ob("states", len(row) == 1 and len(coord) == 1 and row != coord, o.where(), "the states of the grid reader are not found")
        row, coord = list(row)[0], list(coord)[0]
        key = base(ins[0].arg(1))
        X, Y, Z = key[3]
        if not (X[0] == Y[0] == "var"): raise AnchorMissing("tile coordinates")
        X, Y = X[1], Y[1]
        ad = [l for l in range(len(b.locals)) if (b.ty(l).d or "").endswith("::Coord") and "parse_map" in (b.ty(l).d or "")]
        st = [l for l in ad if any(l in t.env for t in tr)]
        klen = lambda t: t[0] == "fld" and t[2] == "key_length"
        S = ("var", row)

        def state(**kw):
            def env(t):
                if isch(t) and "ch" in kw: return kw["ch"]
                if t == ("var", row) and "row" in kw: return kw["row"]
                if t == ("var", coord) and "coord" in kw: return kw["coord"]
                if t[0] == "var" and t[1] in ad and "axis" in kw: return kw["axis"]
                if "first" in kw and t[0] == "var" and b.ty(t[1]).k == "bool" and t[1] not in (row, coord): return kw["first"]
                if klen(t) and "klen" in kw: return kw["klen"]
                if t[0] == "call" and t[1].endswith("read::advance_key"): return "Ok"
                if "len" in kw and t[0] == "var" and t[1] in lens: return kw["len"]
                return None
            return [t for t in fit(tr, env, ("stop",))]
        lens = set()
        for t in tr:
            for c in t.conds:
                cc = canon(c[0])
                if cc[0] == "bin" and cc[1] in ("Eq", "Ne") and (klen(cc[2]) or klen(cc[3])):
                    for q in subt(cc):
                        if q[0] == "var": lens.add(q[1])
        R.count("key_length_variable", len(lens), 1)
        same = lambda t, l: t.val(l) == ("var", l)
        gi = lambda t: [e for e in t.events if e[0].endswith("BTreeMap::insert")]

        def each(k, ts, f, msg):
            R.ob(k, bool(ts) and all(f(t) for t in ts), o.where(), msg)
        inrow = dict(row=True, coord=False)
        # a key letter that does not complete a key / completes it
        KV = adv[0].arg(1)
        KV = base(KV)[1] if base(KV)[0] == "var" else None
        isadv = lambda v: mentions(v, lambda q: q[0] == "call" and q[1].endswith("read::advance_key") and q[2][1] == ("var", KV) and isch(q[2][2]))
        ts = state(ch=97, len=0, klen=2, **inrow)
        each("letter:partial", ts, lambda t: isadv(t.val(KV)) and all(linear(t.val(l)) == {("var", l): 1, None: 1} for l in lens) and not gi(t) and same(t, X) and same(t, Y) and same(t, row), "a letter inside a key is not accumulated")
        ts = state(ch=97, len=1, klen=2, **inrow)
        each("letter:complete", ts, lambda t: len(gi(t)) == 1, "a complete key does not place a tile")
        each("letter:position", ts, lambda t: gi(t)[0][1][1][0] == "agg" and [base(x) for x in gi(t)[0][1][1][3]][:2] == [("var", X), ("var", Y)], "a tile is placed somewhere else than at the current coordinates")
        each("letter:key", ts, lambda t: isadv(gi(t)[0][1][2]), "a tile gets a key other than the one that was read")
        each("letter:advance", ts, lambda t: linear(t.val(X)) == {("var", X): 1, None: 1} and same(t, Y) and same(t, row), "the next tile of a row is not one to the right")
        each("letter:reset", ts, lambda t: all(t.val(l) == ("k", 0) for l in lens) and t.val(KV) in (("default",), ("k", 0)), "the key is not reset after a tile")
        # rows
        nl = state(ch=10, len=0, first=False, **inrow)
        BX = {t.val(X) for t in nl}
        R.ob("newline:column", len(BX) == 1 and list(BX)[0][0] == "var" and list(BX)[0] != ("var", X), o.where(), "a new row does not start at the first column of its block")
        BX = list(BX)[0]
        each("newline:row", nl, lambda t: linear(t.val(Y)) == {("var", Y): 1, None: 1} and not gi(t) and same(t, row), "a new line of a block is not the next row")
        nl1 = state(ch=10, len=0, first=True, **inrow)
        each("newline:first", nl1, lambda t: same(t, Y) and t.val(X) == BX and any(v == ("k", False) for l, v in t.env.items() if isinstance(l, int) and b.ty(l).k == "bool"), "the line break after the opening quote counts as a row")
        each("carriage-return", state(ch=13, len=0, **inrow), lambda t: same(t, X) and same(t, Y) and same(t, row) and not gi(t), "a carriage return changes the position")
        q = state(ch=34, len=0, **inrow)
        each("row:end", q, lambda t: t.val(row) == ("k", False) and not gi(t), "a quote does not end a block")
        fv = {l for t in nl1 for l, v in t.env.items() if isinstance(l, int) and b.ty(l).k == "bool" and v == ("k", False)}
        each("row:end:first", q, lambda t: any(t.val(l) == ("k", True) for l in fv), "the first line break of the next block counts as a row")
        out = dict(row=False, coord=False)
        each("row:start", state(ch=34, **out), lambda t: t.val(row) == ("k", True) and same(t, coord), "a quote does not start a block")
        each("coord:start", state(ch=40, **out), lambda t: t.val(coord) == ("k", True) and same(t, row), "a parenthesis does not start coordinates")
        for c in (10, 13, 32, 61, 123, 125):
            each("outside:%d" % c, state(ch=c, **out), lambda t: same(t, row) and same(t, coord) and same(t, X) and same(t, Y) and not gi(t), "the character %r between blocks changes the state" % chr(c))
        # coordinates
        co = dict(coord=True, row=False)
        tx, ty, tz = state(ch=44, axis="X", **co), state(ch=44, axis="Y", **co), state(ch=41, axis="Z", **co)
        num = {base(t.val(X)) for t in tx}
        nv = [q[1] for v in num for q in subt(v) if q[0] == "var"]
        R.ob("coord:number", len(set(nv)) == 1, o.where(), "the x coordinate is %s" % [show(v, b) for v in num])
        nvar = nv[0]
        isnum = lambda v: v == ("var", nvar) or v[0] == "call" and v[1].split("::")[-1] in ("take", "replace") and v[2][0] == ("var", nvar)
        zero = lambda t: t.val(nvar) in (("default",), ("k", 0))
        axis = lambda t, v: any(const_of(t.val(l)) == v or (t.val(l)[0] == "agg" and t.val(l)[2] == v) for l in st)
        each("coord:x", tx, lambda t: isnum(t.val(X)) and isnum(t.val(BX[1])) and zero(t) and axis(t, "Y") and same(t, Y), "the first number is not the x coordinate")
        each("coord:y", ty, lambda t: isnum(t.val(Y)) and same(t, X) and zero(t) and axis(t, "Z"), "the second number is not the y coordinate")
        zt = base(Z)
        each("coord:z", tz, lambda t: any(isnum(v) for l, v in t.env.items() if isinstance(l, int) and (zt == ("var", l))) and zero(t) and axis(t, "X") and t.val(coord) == ("k", False), "the third number is not the z coordinate")
        for v in (48, 53, 57):
            each("coord:digit:%d" % v, state(ch=v, **co), lambda t: len(linear(t.val(nvar))) == 2 and linear(t.val(nvar)).get(("var", nvar)) == 10 and any(k and mentions(k, lambda q: q[0] == "call" and q[1].endswith("to_digit")) and c == 1 for k, c in linear(t.val(nvar)).items()), "a digit does not extend the number")
        # the size of the map covers every tile; the array is filled from the tiles
        shape = [c for c in b.calls() if c.name == "from_shape_fn"]
        R.count("arrays", len(shape), 1)
        dims = [base(x) for x in base(shape[0].arg(0))[3]]
        R.ob("size:vars", len(dims) == 3 and all(d[0] == "var" for d in dims) and len(set(dims)) == 3, shape[0].where(), "the size of the map is %s" % [show(d, b) for d in dims])
        covers = lambda t, d, v: mentions(t.val(d[1]), lambda q: q[0] == "call" and q[1].split("::")[-1] == "max" and any(base(z) == v for z in q[2]) and any(base(z) == d or mentions(z, lambda w: w == d) for z in q[2]))
        each("size:x", state(ch=97, len=1, klen=2, **inrow), lambda t: covers(t, dims[2], ("var", X)), "the width does not cover every tile")
        each("size:y", state(ch=97, len=1, klen=2, **inrow), lambda t: covers(t, dims[1], ("var", Y)), "the height does not cover every tile")
        each("size:z", tz, lambda t: any(isnum(z) for q in subt(t.val(dims[0][1])) if q[0] == "call" and q[1].split("::")[-1] == "max" for z in q[2]), "the number of levels does not cover every tile")
        # nothing shrinks the size
        for d, nmz in zip(dims, "zyx"):
            each("size:%s:grows" % nmz, tr, lambda t: same(t, d[1]) or t.val(d[1])[0] == "call" and t.val(d[1])[1].split("::")[-1] == "max" and any(mentions(z, lambda w: w == d) for z in t.val(d[1])[2]), "the %s size of the map can shrink" % nmz)
        cl = [c for c in o.closures if any(q.get("dst") and True for q in [shape[0].t])]
        ok = False
        for c in o.closures:
            cb = prep(c)
            for t in traces(cb):
                if t.end != "return": continue
                r = base(t.result)
                if r[0] == "call" and r[1].split("::")[-1] in ("index", "get") and len(r[2]) == 2:
                    k = base(r[2][1])
                    if k[0] == "agg" and len(k[3]) == 3:
                        w = [linear(("bin", "Add", ("fld", ("arg", 2), i), ("k", 1))) for i in "210"]
                        ok = [linear(x) for x in k[3]] == w
                        R.ob("fill", ok, c.where(), "the tile at an index is taken from %s" % show(k, cb))
        R.ob("filled", ok, o.where(), "the grid is not filled from the tiles that were read")
        gw = [t for bb, i, t in field_writes(b, "grid")]
        R.ob("grid-stored", any(mentions(t, lambda q: q[0] == "call" and q[1].endswith("from_shape_fn")) for t in gw), o.where(), "the grid of the map is not set")
    R.part("grid", p_grid)

    def p_dict():
        o = R.fn(RD + "parse_map")
        b = prep(o)
        ins = [c for c in b.calls() if c.is_("BTreeMap::insert") and M("any:dictionary")(c.arg(0))]
        R.count("dictionary_stores", len(ins), 1)
        nexts = [c for c in b.calls() if c.name == "next" and "LocationTracker" in b.ty(c.t["a"][0][1][0]).s]
        head = [c for c in nexts if b.dominates(c.bb, ins[0].bb)][0]
        ht = b.cterm(b.blocks[head.bb]["t"], head.bb, 0)
        s1 = variant_entries(b, lambda t: t == ht, "Some")
        tr = [t for s in s1 for t in traces(b, start=s, stops={head.bb}, visits=2)]
        tr = [t for t in tr if t.end == "stop"]
        R.count("dictionary_steps", len(tr), 20)
        isch = lambda t: base(t)[0] == "fld" and base(t)[2] == "0" and base(t)[1][0] == "as" and base(t)[1][2] == "Some" and base(t)[1][1][0] == "var"
        ev = [c for c in b.calls() if c.is_("constants::evaluate_str")]
        R.count("evaluations", len(ev), 1)

        def flags(c, v=True):
            return {g[0][1] for g in b.guards(c.bb) if g[0][0] == "var" and b.ty(g[0][1]).k == "bool" and g[1] == "in" and set(g[2]) == {v}}
        data = set.intersection(*[flags(c) for c in ins])
        ved = set.intersection(*[flags(c) for c in ev]) - data
        nots = set.intersection(*[flags(c, False) for c in ev])
        R.ob("states", len(data) == 1 and len(ved) == 1, o.where(), "the states of the dictionary reader are not found")
        data, ved = list(data)[0], list(ved)[0]
        push = lambda t: [e for e in t.events if e[0].endswith("Vec::push") and len(e[1]) == 2 and isch(e[1][1])]
        # the quote state: set when a quote is read among variables
        bools = {l for t in tr for l in t.env if isinstance(l, int) and b.ty(l).k == "bool" and t.env[l] in (("k", True), ("k", False))} | {data, ved}

        def env_for(kw):
            def env(t):
                if isch(t): return kw["ch"]
                if t[0] == "var" and t[1] in kw: return kw[t[1]]
                if kw["ch"] == 47 and t[0] == "var" and t[1] in bools: return False  # the first of two slashes
                if t[0] == "call" and t[1].endswith("evaluate_str"): return "Ok"
                if "empty" in kw and t[0] == "call" and t[1].split("::")[-1] == "is_empty":
                    return kw["empty"](t)
                return None
            return env

        def state(ch, d=None, **kw):
            k = dict(d or {})
            k.update(kw); k["ch"] = ch
            return fit(tr, env_for(k), ("stop",))
        comm = [l for l in bools if l not in (data, ved)]
        # find the quote flag: in a variable block, outside quotes, a quote character sets it
        cand = [l for l in comm if any(t.val(l) == ("k", True) for t in state(34, {data: True, ved: True})) and any(t.val(l) == ("k", False) for t in state(34, {data: True, ved: True}))]
        R.ob("quote-state", len(cand) == 1, o.where(), "no state tells that a string is being read")
        quo = cand[0]
        esc = [l for l in comm if l != quo and any(t.val(l) == ("k", True) for t in state(92, {data: True, ved: True, quo: True}))]
        R.ob("escape-state", len(esc) == 1, o.where(), "no state tells that a character is escaped")
        esc = esc[0]
        com = [l for l in comm if l not in (quo, esc) and any(not t.events and t.end == "stop" for t in state(97, {data: True, ved: True, quo: True, l: True})) and False]
        same = lambda t, l: t.val(l) == ("var", l)

        def each(k, ts, f, msg):
            R.ob(k, bool(ts) and all(f(t) for t in ts), o.where(), msg)
        # the comment state swallows everything
        swallow = {g for c in ins for g in flags(c, False)} & nots
        base_state = {l: False for l in swallow if l not in (data, ved, quo, esc)}
        V0 = dict(base_state); V0.update({data: True, ved: True})
        buf = None
        for t in state(97, dict(V0), **{}):
            for e in push(t):
                buf = e[1][0]
        # inside a string every character is kept, and only an unescaped quote ends it
        for ch in (97, 32, 59, 125, 61, 47, 44, 41, 123, 195):
            for es in (False, True):
                ts = state(ch, dict(V0, **{}) | {quo: True, esc: es})
                each("string:%d:%s" % (ch, es), ts, lambda t: len(push(t)) == 1 and same_bool(t, quo, True) and same_bool(t, esc, False) and same(t, ved) and same(t, data), "the character %r inside a string is not kept" % chr(ch))
        ts = state(92, V0 | {quo: True, esc: False})
        each("string:backslash", ts, lambda t: len(push(t)) == 1 and t.val(esc) == ("k", True) and same_bool(t, quo, True), "a backslash does not escape the next character")
        ts = state(92, V0 | {quo: True, esc: True})
        each("string:escaped-backslash", ts, lambda t: len(push(t)) == 1 and t.val(esc) == ("k", False) and same_bool(t, quo, True), "an escaped backslash escapes the next character")
        ts = state(34, V0 | {quo: True, esc: False})
        each("string:end", ts, lambda t: len(push(t)) == 1 and t.val(quo) == ("k", False), "a quote does not end a string")
        ts = state(34, V0 | {quo: True, esc: True})
        each("string:escaped-quote", ts, lambda t: len(push(t)) == 1 and same_bool(t, quo, True) and t.val(esc) == ("k", False), "an escaped quote ends a string")
        ts = state(34, V0 | {quo: False})
        each("string:start", ts, lambda t: len(push(t)) == 1 and t.val(quo) == ("k", True), "a quote does not start a string")
        # variables
        vins = lambda t: [e for e in t.events if e[0].endswith("IndexMap::insert")]
        dpush = lambda t: [e for e in t.events if e[0].endswith("Vec::push") and not isch(e[1][1])]
        dins = lambda t: [e for e in t.events if e[0].endswith("BTreeMap::insert")]
        ts = state(59, V0 | {quo: False})
        each("variable:store", ts, lambda t: len(vins(t)) == 1 and mentions(vins(t)[0][1][0], lambda q: q[0] == "fld" and q[2] == "vars") and mentions(vins(t)[0][1][2], lambda q: q[0] == "call" and q[1].endswith("evaluate_str")), "a variable is not stored")
        bufs = {q for t in ts for e in t.events if e[0].endswith("evaluate_str") for q in subt(e[1][1]) if q[0] == "var"}
        names = {q for t in ts for e in vins(t) for q in subt(e[1][1]) if q[0] == "var"}
        R.ob("variable:parts", len(bufs) == 1 and len(names) == 1 and bufs != names, o.where(), "the name and the value of a variable are read from %s and %s" % ([show(x, b) for x in names], [show(x, b) for x in bufs]))
        buf, name = list(bufs)[0], list(names)[0]
        each("variable:consumed", ts, lambda t: t.val(buf[1]) == ("default",) and t.val(name[1]) == ("default",), "the text of a variable is not consumed when it is stored")
        ename = lambda v: (lambda t: v if name in subt(t) else None)
        ts = state(61, V0 | {quo: False}, empty=ename(True))
        each("variable:name", ts, lambda t: mentions(t.val(name[1]), lambda q: q == buf) or any(mentions(x, lambda q: q == buf) for x in [t.val(name[1])]), "the text before = is not the name of the variable")
        each("variable:name-only", ts, lambda t: not push(t) and t.val(buf[1]) == ("default",), "the text before = stays part of the value")
        ts = state(61, V0 | {quo: False}, empty=ename(False))
        each("variable:second-equals", ts, lambda t: len(push(t)) == 1 and same(t, name[1]), "a second = inside a value is not kept")
        ts = state(125, V0 | {quo: False}, empty=ename(False))
        each("variables:last", ts, lambda t: len(vins(t)) == 1 and t.val(ved) == ("k", False), "the last variable of an object is not stored")
        ts = state(125, V0 | {quo: False}, empty=ename(True))
        each("variables:none", ts, lambda t: not vins(t) and t.val(ved) == ("k", False), "closing an empty variable list stores a variable")
        for ch in (97, 49, 47, 123, 40, 41, 44):
            ts = state(ch, V0 | {quo: False})
            each("variable:text:%d" % ch, ts, lambda t: len(push(t)) == 1 and push(t)[0][1][0] == buf and same(t, ved) and same(t, data), "the character %r of a value is not kept" % chr(ch))
        # objects
        D0 = dict(base_state); D0.update({data: True, ved: False, quo: False})
        pathw = lambda t: [v for p, v in t.writes if p[0] == "fld" and p[2] == "path"]
        each("object:path", state(123, D0), lambda t: t.val(ved) == ("k", True) and len(pathw(t)) == 1 and buf in subt(pathw(t)[0]) and t.val(buf[1]) == ("default",), "the text before { is not the path of the object")
        pe = lambda p, d: (lambda t: (p if mentions(t, lambda q: q[0] == "fld" and q[2] == "path") else d if buf in subt(t) else None))
        for ch, nmc in ((44, "comma"), (41, "end")):
            ts = state(ch, D0, empty=pe(True, False))
            each("object:%s:plain" % nmc, ts, lambda t: len(pathw(t)) == 1 and buf in subt(pathw(t)[0]) and len(dpush(t)) == 1, "an object without variables is not stored under its path")
            ts = state(ch, D0, empty=pe(False, True))
            each("object:%s:vars" % nmc, ts, lambda t: not pathw(t) and len(dpush(t)) == 1, "an object with variables is not stored once")
            pf = {q for t in ts for e in dpush(t) for q in subt(e[1][1]) if q[0] == "var"}
            R.ob("object:%s:reset" % nmc, len(pf) == 1 and all(t.val(list(pf)[0][1]) == ("default",) for t in ts), o.where(), "the next object starts with the variables of the previous one")
        ts = state(41, D0, empty=pe(False, True))
        each("entry:store", ts, lambda t: len(dins(t)) == 1 and t.val(data) == ("k", False), "the end of an entry does not store it")
        lst = {e[1][0] for t in ts for e in dpush(t)}
        each("entry:objects", ts, lambda t: any(x in subt(dins(t)[0][1][2]) for x in lst), "an entry is stored with other objects than those that were read")
        adv = [c for c in b.calls() if c.is_("read::advance_key") and not any(b.dominates(x.bb, c.bb) for x in nexts if x.bb != head.bb and b.dominates(head.bb, x.bb))]
        kv = {base(c.arg(1)) for c in adv}
        each("entry:key", ts, lambda t: any(x in subt(dins(t)[0][1][1]) for x in kv), "an entry is stored under another key than the one that was read")
        each("entry:after", ts, lambda t: all(t.val(k[1]) in (("default",), ("k", 0)) for k in kv), "the key of an entry is not reset")
        for ch in (97, 47, 95):
            each("object:text:%d" % ch, state(ch, D0), lambda t: len(push(t)) == 1 and push(t)[0][1][0] == buf and same(t, ved) and same(t, data), "the character %r of a path is not kept" % chr(ch))
    R.part("dictionary", p_dict)


def same_bool(t, l, v):
    x = t.val(l)
    return x == ("var", l) or x == ("k", v)


def subt(t):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): out.append(x)
            for y in x: go(y)
    go(t)
    return out


def elem_of(e, owner):
    """e is an element (or (index, element) pair) of something satisfying owner"""
    if e[0] in ("elem", "index"):
        s = e[1]
        if owner(s): return True
        if s[0] == "call" and s[1].split("::")[-1] == "enumerate": return owner(s[2][0])
    return False


def decided(t, ev, variant):
    term = ("call", ev[0], ev[1])
    return any(c[1] == "in" and set(c[2]) == {variant} and c[0][0] == "call" and c[0][1] == ev[0] for c in t.conds)
