"""Malformed map files are reported, never read as something else."""
from lib import *

RULE = """Path analysis on the MIR of the map reader (helpers inlined): for every way a file can fail to be well formed, every path on which
the condition holds reaches an error return before the next character is read or the map is returned; and on paths where none of the
conditions hold no error is returned.  Conditions are identified by the data they test (the key-length counter is the variable compared
with the map's key length, the coordinate variables are those the tile is stored under, ...)."""
RD = "dmm_tools::dmm::read::"


def err_blocks(b):
    """blocks that make the function return an error"""
    out = set()
    for bb in sorted(b.reachable()):
        for i, s in enumerate(b.blocks[bb]["s"]):
            if s[0] == "=" and s[1] == [0]:
                t = b.rterm(s[2], bb, i)
                if t[0] == "agg" and t[2] == "Err":
                    out.add(bb)
        t = b.blocks[bb]["t"]
        if t["k"] == "call" and t["dst"] == [0] and (t.get("fn") or "").endswith("from_residual"):
            out.add(bb)
    return out


def call_is(name):
    return lambda t: t[0] == "call" and (t[1] == name or t[1].endswith("::" + name))


def holds(name):
    """the branch result of `name` failing (through ? or match)"""
    return lambda t: t[0] == "call" and t[1].endswith("Try>::branch") and mentions(t, call_is(name))


def check(F, R):
    def p_parse():
        o = R.fn(RD + "parse_map")
        b = prep(o)
        P = Paths(R, b)
        err = err_blocks(b)
        R.count("error_returns", len(err), 12)
        nexts = [c for c in b.calls() if c.name == "next" and "LocationTracker" in (c.fn + str(b.term(c.t["a"][0], c.bb)) + b.ty(c.t["a"][0][1][0]).s)]
        loops = {}
        for c in nexts:
            loops.setdefault(c.bb, c)
        R.count("character_loops", len(loops), 2)
        ins_dict = [c for c in b.calls() if c.name == "insert" and c.is_("BTreeMap::insert") and M("any:dictionary")(c.arg(0))]
        ins_grid = [c for c in b.calls() if c.name == "insert" and c.is_("BTreeMap::insert") and not M("any:dictionary")(c.arg(0))]
        R.count("dictionary_inserts", len(ins_dict), 1)
        R.count("grid_inserts", len(ins_grid), 1)
        gridc = ins_grid[0]
        # the loop that stores tiles is the grid loop
        n2 = [c for c in nexts if b.dominates(c.bb, gridc.bb)]
        n1 = [c for c in nexts if c not in n2 or not b.dominates(c.bb, gridc.bb)]
        n2 = max(n2, key=lambda c: len([x for x in nexts if b.dominates(x.bb, c.bb)]))
        n1 = [c for c in nexts if c.bb != n2.bb and b.dominates(c.bb, n2.bb)][0]
        some = lambda c: (lambda t: t == b.cterm(b.blocks[c.bb]["t"], c.bb, 0))
        ch = lambda c: (lambda t: base(t) == some_of(b.cterm(b.blocks[c.bb]["t"], c.bb, 0)))
        nx = {c.bb for c in nexts}
        stop = nx | set(b.returns())

        def must(key, starts, env, msg, ends=None, dead=()):
            R.ob(key + ":subject", bool(starts), o.where(), msg + " (the test is gone)")
            P.must(key, starts, err, env, ends=(set(ends) if ends is not None else stop), msg=msg, dead=dead)

        # fallible operations
        for name, what, fl in [("lexer::buffer_file", "an unreadable file", 1), ("read::advance_key", "an invalid or overflowing key", 2), ("constants::evaluate_str", "an invalid variable value", 1)]:
            cs = [c for c in b.calls() if call_is(name)(("call", c.fn, ())) or c.is_(name)]
            R.count("calls:" + name, len(cs), fl)
            for i, c in enumerate(cs):
                t = b.cterm(b.blocks[c.bb]["t"], c.bb, 0)

                def env(x, t=t, name=name):
                    if x == t:
                        return "Err"
                    if x[0] == "call" and x[1].endswith("Try>::branch") and mentions(x, lambda y: y == t):
                        return "Break"
                    if x[0] == "call" and x[1].split("::")[-1] in ("map_err", "or_else", "with_note") and mentions(x, lambda y: y == t):
                        return "Err"
                    return None
                must("fallible:%s" % name, [c.target], env, "%s is not reported on some path" % what)
        # dictionary lookups of the grid
        cont = [c for c in b.calls() if c.name in ("contains_key", "get") and M("any:dictionary")(c.arg(0))]
        for c in cont:
            t = b.cterm(b.blocks[c.bb]["t"], c.bb, 0)
            must("undefined-key", [c.target], lambda x: (False if c.name == "contains_key" else "None") if x == t else None, "a tile whose key is not in the dictionary is accepted")
        R.ob("undefined-key-checked", any(b.dominates(c.bb, gridc.bb) for c in cont), gridc.where(), "tiles are stored without looking their key up in the dictionary")
        for c in cont:
            a = base(c.arg(1))
            s = base(gridc.arg(2))
            R.ob("undefined-key-same", a == s or canon(a) == canon(s), c.where(), "the key that is looked up (%s) is not the key that is stored (%s)" % (show(a, b)[:60], show(s, b)[:60]))
        t = b.cterm(b.blocks[gridc.bb]["t"], gridc.bb, 0)
        must("duplicate-tile", [gridc.target], lambda x: "Some" if x == t else None, "a tile given twice is accepted")
        # every tile has a value
        miss = [c for c in b.calls() if c.name in ("contains_key", "get") and c not in cont and not M("any:dictionary")(c.arg(0)) and c.is_("BTreeMap::contains_key", "BTreeMap::get")]
        R.count("completeness_checks", len(miss), 1)
        shape = [c for c in b.calls() if c.name == "from_shape_fn"]
        R.count("array_constructions", len(shape), 1)
        for c in miss:
            tm = b.cterm(b.blocks[c.bb]["t"], c.bb, 0)
            must("missing-tile", [c.target], lambda x: (False if c.name == "contains_key" else "None") if x == tm else None, "a map with a missing tile is accepted", ends=[x.bb for x in shape] + list(b.returns()))
            k = base(c.arg(1))
            ok = k[0] == "agg" and len(k[3]) == 3
            dims = []
            if ok:
                for x in k[3]:
                    r = [y for y in subterms(x) if y[0] == "call" and y[1].split("::")[-1] == "next"]
                    dims.append(r[0] if r else None)
            R.ob("missing-tile-all", ok and None not in dims and len(set(map(repr, dims))) == 3, c.where(), "completeness is checked for %s only" % show(k, b)[:80])
        rng = [c for c in b.calls() if c.name == "new" and c.is_("RangeInclusive::new")]
        dimt = base(shape[0].arg(0))
        want = [canon(base(x)) for x in dimt[3]] if dimt[0] == "agg" else []
        got = [canon(base(c.arg(1))) for c in rng if const_of(c.arg(0)) == 1]
        R.ob("missing-tile-range", len(want) == 3 and all(w in got for w in want), shape[0].where(), "completeness is checked up to %s but the map has the size %s" % ([show(x, b) for x in got], [show(x, b) for x in want]))
        p = find_path(b, [n2.target], {x.bb for x in shape}, {c.bb for c in rng if const_of(c.arg(0)) == 1})
        R.ob("missing-tile-first", p is None, path_where(b, p), "the map can be built without checking that every tile has a value")
        # key lengths
        klen = lambda t: t[0] == "fld" and t[2] == "key_length"
        lens = set()
        cmps = []
        for u in sorted(b.reachable()):
            if b.blocks[u]["t"]["k"] == "switch":
                tt, es = switch_edges(b, u)
                c_ = canon(tt)
                if c_[0] == "bin" and c_[1] in ("Eq", "Ne") and (klen(c_[2]) or klen(c_[3])):
                    ot = c_[3] if klen(c_[2]) else c_[2]
                    cmps.append((u, ot))
                    for s in subterms(ot):
                        if s[0] == "var":
                            lens.add(s[1])
        R.count("key_length_variables", len(lens), 1)
        isl = lambda t: t[0] == "var" and t[1] in lens
        adv = [c for c in b.calls() if c.is_("read::advance_key")]
        adv1 = [c for c in adv if not b.dominates(n2.bb, c.bb)]
        adv2 = [c for c in adv if b.dominates(n2.bb, c.bb)]
        R.count("dictionary_key_reads", len(adv1), 1)
        R.count("grid_key_reads", len(adv2), 1)

        def flags(c):
            """boolean state variables that are true whenever c runs"""
            return {g[0][1] for g in b.guards(c.bb) if g[0][0] == "var" and b.ty(g[0][1]).k == "bool" and g[1] == "in" and set(g[2]) == {True}}
        kf = set.intersection(*[flags(c) for c in adv1])
        gf = set.intersection(*[flags(c) for c in adv2])
        R.ob("key-state", len(kf) >= 1, o.where(), "no state tells that a dictionary key is being read")
        R.ob("grid-state", len(gf) >= 1, o.where(), "no state tells that a row of the grid is being read")
        q1, q2 = ch(n1), ch(n2)
        s1 = [x for x in variant_entries(b, some(n1), "Some")]
        s2 = [x for x in variant_entries(b, some(n2), "Some")]
        in_key = lambda t: t[0] == "var" and t[1] in kf
        in_row = lambda t: t[0] == "var" and t[1] in gf
        # other boolean state of the dictionary loop is false while a key is read, of the grid loop while a row is read
        oth1 = {g[0][1] for c in adv1 for g in b.guards(c.bb) if g[0][0] == "var" and b.ty(g[0][1]).k == "bool" and set(g[2]) == {False}}
        oth2 = {g[0][1] for c in adv2 for g in b.guards(c.bb) if g[0][0] == "var" and b.ty(g[0][1]).k == "bool" and set(g[2]) == {False}}
        off1 = (lambda t: t[0] == "var" and t[1] in oth1, False)
        off2 = (lambda t: t[0] == "var" and t[1] in oth2, False)

        def mk(*ps):
            return env_of(*ps)
        quote1 = (q1, 34)
        must("key-length:empty", s1, mk(quote1, (in_key, True), off1, (isl, 0), (klen, 1)), "an empty dictionary key is accepted")
        must("key-length:empty-first", s1, mk(quote1, (in_key, True), off1, (isl, 0), (klen, 0)), "an empty dictionary key is accepted")
        for a_, b_ in [(1, 2), (2, 1), (3, 2), (2, 3), (1, 3), (3, 1)]:
            must("key-length:%d:%d" % (a_, b_), s1, mk(quote1, (in_key, True), off1, (isl, a_), (klen, b_)), "a key of length %d is accepted in a map with keys of length %d" % (a_, b_))
        for a_ in (1, 2, 3):
            P.never("key-length-ok:%d" % a_, s1, err, mk(quote1, (in_key, True), off1, (isl, a_), (klen, a_)), msg="a key of the map's own key length %d is rejected" % a_, avoid=nx)
            P.never("key-length-first:%d" % a_, s1, err, mk(quote1, (in_key, True), off1, (isl, a_), (klen, 0)), msg="a first key of length %d is rejected" % a_, avoid=nx)
        ok1 = [c.target for c in adv1]
        okenv = lambda c: (lambda x: x[0] == "call" and x[1].endswith("Try>::branch") and mentions(x, call_is("read::advance_key")), "Continue")
        must("key-too-long", ok1, mk(okenv(None), (call_is("read::advance_key"), "Ok"), (isl, 3)), "a key of more than three characters is accepted", )
        P.never("key-long-enough", ok1, err, mk(okenv(None), (call_is("read::advance_key"), "Ok"), (isl, 2)), msg="a key of three characters is rejected", avoid=nx)
        for c_, nm in ((34, "quote"), (10, "newline"), (13, "carriage-return")):
            must("partial-key:%s" % nm, s2, mk((q2, c_), (in_row, True), off2, (isl, 1), (klen, 3)), "an incomplete key at the end of a row of the grid is accepted")
            P.never("whole-row:%s" % nm, s2, err, mk((q2, c_), (in_row, True), off2, (isl, 0), (klen, 3)), msg="the end of a complete row is rejected", avoid=nx)
        # '(' without a key (in the dictionary)
        must("entry-without-key", s1, mk((q1, 40), (in_key, False), off1, (isl, 0)), "a dictionary entry without a key is accepted", ends=stop - {n2.bb}, dead=[n2.bb])
        # coordinates
        digit = call_is("to_digit")
        dg = [c for c in b.calls() if c.name == "to_digit"]
        R.count("digits", len(dg), 1)
        must("bad-digit", [c.target for c in dg], mk((digit, "None")), "a coordinate that is not a number is accepted")
        for c in dg:
            R.ob("digit-base", const_of(c.arg(1)) == 10, c.where(), "coordinates are read in base %s" % const_of(c.arg(1)))
        cf = set.intersection(*[flags(c) for c in dg])
        R.ob("coord-state", len(cf) >= 1, o.where(), "no state tells that coordinates are being read")
        in_coord = lambda t: t[0] == "var" and t[1] in cf
        coordadt = [l for l in range(len(b.locals)) if (b.ty(l).d or "").endswith("::Coord") and "parse_map" in (b.ty(l).d or "")]
        R.count("coordinate_state", len(coordadt), 1)
        isc = lambda t: t[0] == "var" and t[1] in coordadt
        must("too-many-coordinates", s2, mk((q2, 44), (in_coord, True), (isc, "Z")), "a fourth coordinate is accepted")
        for st in ("X", "Y"):
            must("too-few-coordinates:%s" % st, s2, mk((q2, 41), (in_coord, True), (isc, st)), "fewer than three coordinates are accepted")
            P.never("coordinate-separator:%s" % st, s2, err, mk((q2, 44), (in_coord, True), (isc, st)), msg="a separator between coordinates is rejected", avoid=nx)
        key = base(gridc.arg(1))
        if not (key[0] == "agg" and len(key[3]) == 3):
            raise AnchorMissing("the tile is not stored under three coordinates")
        take = lambda t: t[0] == "call" and t[1].split("::")[-1] in ("take", "replace")
        vx, vy = key[3][0], key[3][1]
        goodz = (take, 1)
        must("zero:x", s2, mk((q2, 41), (in_coord, True), (isc, "Z"), (lambda t: t == vx, 0), (lambda t: t == vy, 1), goodz), "the x coordinate 0 is accepted")
        must("zero:y", s2, mk((q2, 41), (in_coord, True), (isc, "Z"), (lambda t: t == vx, 1), (lambda t: t == vy, 0), goodz), "the y coordinate 0 is accepted")
        must("zero:z", s2, mk((q2, 41), (in_coord, True), (isc, "Z"), (lambda t: t == vx, 1), (lambda t: t == vy, 1), (take, 0)), "the z coordinate 0 is accepted")
        P.never("coordinates-ok", s2, err, mk((q2, 41), (in_coord, True), (isc, "Z"), (lambda t: t == vx, 1), (lambda t: t == vy, 1), goodz), msg="valid coordinates are rejected", avoid=nx)
        nums = set()
        for c in dg:
            for u in sorted(b.reachable()):
                if b.blocks[u]["t"]["k"] == "switch" and b.dominates(c.bb, u):
                    tt, es = switch_edges(b, u)
                    c_ = canon(tt)
                    if c_[0] == "bin" and c_[1] in ("Lt", "Le"):
                        for s in (c_[2], c_[3]):
                            if s[0] == "var":
                                nums.add(s[1])
        R.ob("coordinate-bound", len(nums) == 1, o.where(), "the size of coordinates is not bounded")
        isn = lambda t: t[0] == "var" and t[1] in nums
        must("coordinate-too-large", [c.target for c in dg], mk((digit, "Some"), (isn, 1 << 40)), "an unbounded coordinate is accepted")
        P.never("coordinate-normal", [c.target for c in dg], err, mk((digit, "Some"), (isn, 999)), msg="a coordinate below ten thousand is rejected", avoid=nx)
        # ends of file
        e1 = variant_entries(b, some(n1), "None")
        e2 = variant_entries(b, some(n2), "None")
        must("truncated:dictionary", e1, mk(), "a file that ends before its grid is accepted", ends=stop - {n1.bb})
        must("truncated:coordinates", e2, mk((in_coord, True)), "a file that ends inside coordinates is accepted")
        must("truncated:row", e2, mk((in_row, True)), "a file that ends inside a row of the grid is accepted")
        P.can("complete", e2, list(b.returns()), mk((in_coord, False), (in_row, False)), msg="no complete file is accepted", avoid=err)
        # the first loop is left for the grid only after a data block
    R.part("parse", p_parse)

    def p_advance():
        o = R.fn(RD + "advance_key")
        b = prep(o)
        for dg in ("Ok", "Err"):
            for adv in ("Ok", "Err"):
                def env(t):
                    if call_is("base_52_reverse")(t): return dg
                    if call_is("dmm::advance_key")(t): return adv
                    return None
                for t in fit(traces(b), env):
                    ok = t.end == "return" and (t.result[0] == "agg" and t.result[2] == ("Ok" if (dg, adv) == ("Ok", "Ok") else "Err") or t.result[0] == "call" and t.result[1].split("::")[-1] in ("map_err", "from_residual", "and_then"))
                    R.ob("advance:%s:%s" % (dg, adv), ok, o.where(), "digit %s, key %s: returns %s" % (dg, adv, show(t.result, b)))
                    if ok and t.result[0] == "agg" and t.result[2] == "Ok":
                        R.ob("advance-value", mentions(t.result, call_is("dmm::advance_key")), o.where(), "the key that is returned is %s" % show(t.result, b))
        o2 = R.fn("dmm_tools::dmm::advance_key")
        b2 = prep(o2)
        n = 0
        for mul in ("Some", "None"):
            for add in ("Some", "None"):
                def env(t):
                    if t[0] == "call" and t[1].endswith("::checked_mul"): return mul
                    if t[0] == "call" and t[1].endswith("::checked_add"): return add
                    return None
                for t in fit(traces(b2), env):
                    n += 1
                    want = "Ok" if (mul, add) == ("Some", "Some") else "Err"
                    okv = t.end == "return" and t.result[0] == "agg" and t.result[2] == want
                    if okv and want == "Ok":
                        okv = canon(base(t.result[3][0])) == canon(base(t.result[3][0])) and mentions(t.result, lambda x: x[0] == "call" and x[1].endswith("::checked_add")) and mentions(t.result, lambda x: x[0] == "call" and x[1].endswith("::checked_mul"))
                    R.ob("overflow:%s:%s" % (mul, add), okv, o2.where(), "a key whose number does not fit: returns %s" % show(t.result, b2))
        R.count("overflow_cases", n, 4)
        o3 = R.fn("dmm_tools::dmm::base_52_reverse")
        b3 = prep(o3)
        for ch in list(range(128)) + [255]:
            letter = chr(ch).isascii() and chr(ch).isalpha()
            ts = fit(traces(b3), lambda t: ch if t == ("arg", 1) else None)
            R.ob("alphabet:%d" % ch, bool(ts) and all(t.end == "return" and t.result[0] == "agg" and t.result[2] == ("Ok" if letter else "Err") for t in ts), o3.where(),
                 "the character %r is %s a key" % (chr(ch), "rejected in" if letter else "accepted in"))
        ev = [c for c in b.calls() if c.is_("dmm::advance_key")]
        for c in ev:
            R.ob("advance-args", base(c.arg(0)) == ("arg", 2) and mentions(c.arg(1), call_is("base_52_reverse")), c.where(), "the key is advanced with %s" % [show(x, b) for x in c.args()])
        R.count("advances", len(ev), 1)
        o = R.fn("dmm_tools::dmm::Map::from_file")
        b = prep(o)
        for t in traces(b):
            if t.end == "return" and t.result[0] == "agg" and t.result[2] == "Ok":
                R.ob("from-file", any(c[1] == "in" and c[2] & {"Ok", "Continue"} and mentions(c[0], call_is("read::parse_map")) for c in t.conds), o.where(), "from_file succeeds although parsing failed")
    R.part("advance", p_advance)
