"""Minimaps: what an atom looks like, and where its sprite goes."""
from itertools import product
import re
from grammar import *

RULE = ("Sprite::from_vars, the variable lookups, color_of, Layer, Neighborhood, clip, Image::composite, get_atom_list and generate are evaluated abstractly over their MIR: on every form of every variable, on every "
        "direction, on every sort of overlap of a sprite with the image, on pixels over a grid of values, and on maps of several sizes and regions with render passes that answer in every way; "
        "the appearance, the order and the pixels are compared with a reference.")
MM = "dmm_tools::minimap::"
DMI = "dreammaker::dmi::"
CONST = "dreammaker::constants::Constant"
COLORS = dict(black=(0, 0, 0), silver=(0xc0,) * 3, gray=(0x80,) * 3, grey=(0x80,) * 3, white=(0xff,) * 3, maroon=(0x80, 0, 0), red=(0xff, 0, 0), purple=(0x80, 0, 0x80), fuchsia=(0xff, 0, 0xff), magenta=(0xff, 0, 0xff),
              green=(0, 0xc0, 0), lime=(0, 0xff, 0), olive=(0x80, 0x80, 0), gold=(0x80, 0x80, 0), yellow=(0xff, 0xff, 0), navy=(0, 0, 0x80), blue=(0, 0, 0xff), teal=(0, 0x80, 0x80), aqua=(0, 0xff, 0xff), cyan=(0, 0xff, 0xff))
DIRS = {1: "North", 2: "South", 4: "East", 8: "West", 5: "Northeast", 9: "Northwest", 6: "Southeast", 10: "Southwest"}


def check(F, R):
    k = lambda x: ("k", x)

    def agg(ty, v=None, **kw):
        fs = [x["f"] for x in F.adt(ty)["variants"] if x["n"] == v or v is None or len(F.adt(ty)["variants"]) == 1][0]
        if set(x["n"] for x in fs) != set(kw): raise AnchorMissing("the fields of " + ty)
        return ("agg", ty, v if v is not None else ty.split("::")[-1], tuple(kw[x["n"]] for x in fs), tuple(x["n"] for x in fs))
    num = lambda x: agg(CONST, "Float", **{"0": k(("f32", float(x)))})
    text = lambda x, v="String": agg(CONST, v, **{"0": k(x)})
    null = agg(CONST, "Null", **{"0": NONE})
    other = {"null": null, "list": agg(CONST, "List", **{"0": k("arguments")}), "path": agg(CONST, "Prefab", **{"0": k("a path")})}
    tree = k("the tree")
    world = {}

    def method(ty, name):
        l = [b for b in F.bodies if b.k != "closure" and b.name == name and (lambda p: p == ty + "::" + name or re.sub("<.*?>|&('\\w+ )?", "", p.lstrip("<")).startswith(ty + " as "))(re.sub("::<[^<>]*>", "", norm_path(b.path)))]
        if len(l) != 1: raise AnchorMissing(f"{len(l)} functions {ty}::{name}")
        return l[0]

    def calls(fn, tf, a, places, e, write):
        n = tf.split("::")[-1]
        x = a[0] if a else None
        if n == "get_var_inner" and len(a) == 3 and x[0] == "k" and x[1] == "the variables" and a[1][0] == "k":
            v = world.get(a[1][1])
            return NONE if v is None else some(v)
        if n == "get_path" and x[0] == "k": return k("/the/path")
        if n == "null" and not a: return null
        if n in ("to_owned", "as_str", "as_ref", "deref", "borrow", "as_bytes") and len(a) == 1 and x[0] == "k": return x
        if n in ("floor", "fract", "ceil", "round", "trunc") and len(a) == 1 and x[0] == "k" and isinstance(x[1], tuple):
            import math
            v = float(x[1][1])
            return k((x[1][0], {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "fract": lambda y: math.fmod(y, 1.0), "round": lambda y: math.copysign(math.floor(abs(y) + .5), y)}[n](v) * 1.0))
        if n == "rem_euclid" and len(a) == 2 and x[0] == "k" and isinstance(x[1], tuple): return k((x[1][0], float(x[1][1]) % float(a[1][1][1])))
        if n == "contains" and len(a) == 2 and x[0] == "agg" and "Range" in x[1] and a[1][0] == "k" and isinstance(a[1][1], tuple):
            d = dict(zip(x[4], x[3]))
            lo, hi, v = (float(y[1][1]) for y in (d["start"], d["end"], a[1]))
            return k(lo <= v <= hi if "Inclusive" in x[1] else lo <= v < hi)
        if n == "new" and "RangeInclusive" in fn and len(a) == 2 and x[0] == "k" and isinstance(x[1], tuple): return ("agg", "core::ops::range::RangeInclusive", "RangeInclusive", tuple(a) + (k(False),), ("start", "end", "exhausted"))
        if n == "starts_with" and len(a) == 2 and x[0] == a[1][0] == "k" and isinstance(x[1], str): return k(x[1].startswith(a[1][1]))
        if n == "len" and x[0] == "k" and isinstance(x[1], str): return k(len(x[1]))
        if n == "is_empty" and x[0] == "k" and isinstance(x[1], str): return k(not x[1])
        if n in ("strip_prefix",) and x[0] == "k" and isinstance(x[1], str): return some(k(x[1][len(a[1][1]):])) if x[1].startswith(a[1][1]) else NONE
        if n == "chars" and x[0] == "k" and isinstance(x[1], str): return ("iter", tuple(k(c) for c in x[1]))
        if n == "bytes" and x[0] == "k" and isinstance(x[1], str): return ("iter", tuple(k(ord(c)) for c in x[1]))
        if n == "index" and len(a) == 2 and x[0] == "k" and isinstance(x[1], str) and a[1][0] == "agg" and "Range" in a[1][1]:
            d = {f: y[1] for f, y in zip(a[1][4], a[1][3]) if y[0] == "k"}
            return k(x[1][d.get("start", 0):d.get("end", len(x[1]))])
        if n == "to_digit" and x[0] == "k" and isinstance(x[1], str):
            c = x[1].lower()
            return some(k(int(c, 16))) if len(c) == 1 and c in "0123456789abcdef" else NONE
        if n in ("eq", "ne") and len(a) == 2 and x[0] == a[1][0] == "k" and isinstance(x[1], str) and isinstance(a[1][1], str): return k((x[1] == a[1][1]) == (n == "eq"))
        if n in ("try_from", "try_into") and "core::convert::num" in fn and x[0] == "k" and isinstance(x[1], int):
            m = re.search(r"TryFrom<\w+> for (\w+)>", fn)
            return (ok(x) if convert(x[1], m[1]) == x[1] else err(k("out of range"))) if m else None
        if n in ("_eprint", "_print"): return UNIT
        return None
    own = lambda b: b.path.startswith((MM, "<" + MM)) or MM + "GetVar" in b.path or b.path.startswith(("dreammaker::constants::Constant", DMI + "Dir", "<" + DMI + "Dir")) or is_new(b)
    M = Machine(F, calls, own, visits=60)

    def one(o, args, env=None):
        M.memo.clear() if len(M.memo) > 20000 else None
        ts = M.run(o, args, env or {})
        if len(ts) != 1: raise Undecided(f"{len(ts)} outcomes of {o.path}: {[str(c)[:160] for t in ts for c in t.conds][:3]}")
        if ts[0].end == "panic": return ("panic",)
        return ts[0]
    fields = lambda x: dict(zip(x[4], x[3]))

    def number(x): return x[1] if x[0] == "k" and isinstance(x[1], int) and not isinstance(x[1], bool) else rend(x)[:60]

    def p_appearance():
        o = method(MM + "Sprite", "from_vars")
        base = dict(icon=text("i.dmi", "Resource"), icon_state=text("s"), dir=num(4), color=null, alpha=num(255), plane=num(3), layer=num(2.5), pixel_x=num(1), pixel_y=num(2), pixel_w=num(4), pixel_z=num(8), step_x=num(16), step_y=num(32))
        forms = {"nothing": None, **other, "text": text("t"), "resource": text("r.dmi", "Resource"), **{str(x): num(x) for x in (0, 1, 2, 4, 5, 8, 10, 3, -3, 100, 255, 300, 2.5, -1.25)}}
        colors = ["#102030", "#abc", "#ABCDEF", "#12", "#1234567", "#", "102030", "nosuch", "Red"] + sorted(COLORS)
        n = 0

        def f(x): return x[3][0][1][1] if x is not None and x[2] == "Float" else None

        def want(v):
            i = lambda x: int(f(v[x])) if f(v[x]) is not None else 0
            s = lambda x, *vs: v[x][3][0][1] if v[x] is not None and v[x][2] in vs else ""
            al = f(v["alpha"])
            al = int(al) if al is not None and 0 <= al <= 255 else 255
            c, rgb = s("color", "String"), (255,) * 3
            if c.startswith("#"):
                if re.fullmatch("#[0-9a-fA-F]{6}", c): rgb = tuple(int(c[j:j + 2], 16) for j in (1, 3, 5))
                elif re.fullmatch("#[0-9a-fA-F]{3}", c): rgb = tuple(int(c[j] * 2, 16) for j in (1, 2, 3))
            elif c in COLORS: rgb = COLORS[c]
            return dict(icon=s("icon", "String", "Resource"), icon_state=s("icon_state", "String"), dir=DIRS.get(i("dir"), "South"), color=rgb + (al,), ofs_x=i("pixel_x") + i("pixel_w") + i("step_x"),
                        ofs_y=i("pixel_y") + i("pixel_z") + i("step_y"), plane=i("plane"), layer=f(v["layer"]) if f(v["layer"]) is not None else 2.0)
        layer_from = [b for b in F.bodies if re.fullmatch("<" + MM + "Layer as core::convert::From<f32>>::from", b.path)]
        if len(layer_from) != 1: raise AnchorMissing("Layer::from(f32)")
        cases = [(x, y, z) for x in base for y, z in forms.items()] + [("color", c, text(c)) for c in colors]
        for x, say, z in cases:
            v = dict(base)
            v[x] = z
            world.clear()
            world.update(v)
            M.memo.clear()
            w = want(v)
            try:
                g = one(o, [tree, k("the variables")])
                if g == ("panic",): msg = "it panics"
                else:
                    d = fields(g.result)
                    got = {y: d[y][2] if y == "dir" else plain(d[y]) if y in ("icon", "icon_state") else tuple(number(c) for c in (d[y][3] if d[y][0] == "agg" else d[y][1])) if y == "color" else d[y] if y == "layer" else number(d[y]) for y in w}
                    w["layer"] = one(layer_from[0], [k(("f32", w["layer"]))]).result
                    if w["layer"][3] != got["layer"][3] and [y[1] for y in w["layer"][3]] == [y[1] for y in got["layer"][3]]: got["layer"] = w["layer"]
                    bad = [y for y in w if got[y] != w[y]]
                    msg = f"its {bad[0]} is {rend(got[bad[0]]) if bad[0] == 'layer' else got[bad[0]]}, should be {w[bad[0]]}" if bad else None
            except Undecided as u: msg = "undecided: " + str(u)[:300]
            R.ob(("appearance", x, say), msg is None, o.where(), f"an atom whose {x} is {say}: {msg}")
            n += 1
        R.count("appearances", n, 200)
        # the order of layers is that of the numbers
        cmp = method(MM + "Layer", "cmp")
        ls = [-32000., -2.5, -2.25, -2., -1.999, -1., -.75, -.5, -.001, 0., .001, .25, .5, .999, 1., 1.5, 2., 2.01, 2.5, 2.501, 3., 10.25, 255., 4000.5, 32000.]
        terms = {x: one(layer_from[0], [k(("f32", f32(x)))]).result for x in ls}
        for x in ls:
            for y in ls:
                try: g = one(cmp, [terms[x], terms[y]]).result[2]
                except Undecided as u: g = "undecided: " + str(u)[:200]
                w = "Less" if x < y else "Greater" if x > y else "Equal"
                R.ob(("layer", x, y), g == w, cmp.where(), f"layer {x} compared with layer {y} is {g}")
        for ty in ("i16", "i32"):
            l = [b for b in F.bodies if b.path == f"<{MM}Layer as core::convert::From<{ty}>>::from"]
            for x in (-3, 0, 2, 50):
                for b in l: R.ob(("layer of", ty, x), [y[1] for y in one(b, [k(x)]).result[3]] == [y[1] for y in one(layer_from[0], [k(("f32", float(x)))]).result[3]], b.where(), f"the layer made from {x} is not the layer {x}")
        for b in M.seen: R.saw(b)
    R.part("appearance", p_appearance)

    def loose(ty, v=None, **kw):
        fs = [x["f"] for x in F.adt(ty)["variants"] if x["n"] == v or v is None or len(F.adt(ty)["variants"]) == 1][0]
        if set(kw) - set(x["n"] for x in fs): raise AnchorMissing("the fields of " + ty)
        return ("agg", ty, v if v is not None else ty.split("::")[-1], tuple(kw.get(x["n"], k("the " + x["n"])) for x in fs), tuple(x["n"] for x in fs))

    def p_vars():
        """the variable of the map's prefab, else of the nearest type that has it, else nothing"""
        O = "dreammaker::objtree::"
        chain = ["/a/b/c", "/a/b", "/a"]
        vals = {}

        def ty(p):
            has = vals.get(p)
            vs = () if has is None else ((k("v"), loose(O + "TypeVar", "TypeVar", value=loose(O + "VarValue", "VarValue", constant=has))),)
            return loose(O + "Type", "Type", path=k(p), vars=("map", vs))
        ref = lambda p: k("ref " + p)
        up = lambda p: chain[chain.index(p) + 1] if p != chain[-1] else None

        def vcalls(fn, tf, a, places, e, write):
            n = tf.split("::")[-1]
            x = a[0] if a else None
            if n == "find" and x == tree: return some(ref(a[1][1])) if a[1][0] == "k" and a[1][1] in chain else NONE
            if n in ("get", "deref", "ty") and x[0] == "k" and isinstance(x[1], str) and x[1].startswith("ref "): return ty(x[1][4:])
            if n == "parent_type" and x[0] == "k" and str(x[1]).startswith("ref "): return some(ref(up(x[1][4:]))) if up(x[1][4:]) else NONE
            if n == "parent_of" and x == tree: 
                p = plain(fields(a[1])["path"])
                return some(ty(up(p))) if up(p) else NONE
            return calls(fn, tf, a, places, e, write)
        V = Machine(F, vcalls, own, visits=20)
        prefab = lambda has: ("map", () if has is None else ((k("v"), has),))
        impls = {"Atom": [b for b in F.bodies if re.fullmatch(f"<{MM}Atom<'a> as {MM}GetVar<'a>>::get_var_inner", b.path)], "Prefab": [b for b in F.bodies if re.fullmatch(f"<&'a dmm_tools::dmm::Prefab as {MM}GetVar<'a>>::get_var_inner", b.path)],
                 "Type": [b for b in F.bodies if re.fullmatch(f"<&'a {O}Type as {MM}GetVar<'a>>::get_var_inner", b.path)], "TypeRef": [b for b in F.bodies if re.fullmatch(f"<{O}TypeRef<'a> as {MM}GetVar<'a>>::get_var_inner", b.path)]}
        n = 0
        for name, l in impls.items():
            if len(l) != 1: raise AnchorMissing("variables of " + name)
            for own_ in ((None, num(9), null) if name in ("Atom", "Prefab") else (None,)):
                for which in product((None, "null", "value"), repeat=3):
                    for nofab in ((False, True) if name == "Atom" and own_ is None else (False,)):
                        vals.clear()
                        vals.update({p: None if w is None else NONE if w == "null" else some(num(i + 1)) for i, (p, w) in enumerate(zip(chain, which))})
                        V.memo.clear()
                        want = own_
                        if want is None:
                            for i, w in enumerate(which):
                                if w is not None:
                                    want = null if w == "null" else num(i + 1)
                                    break
                        me = {"Atom": lambda: loose(MM + "Atom", "Atom", type_=ty(chain[0]), prefab=NONE if nofab else some(prefab(own_))), "Prefab": lambda: loose("dmm_tools::dmm::Prefab", "Prefab", path=k(chain[0]), vars=prefab(own_)),
                              "Type": lambda: ty(chain[0]), "TypeRef": lambda: ref(chain[0])}[name]()
                        try:
                            ts = V.run(l[0], [me, k("v"), tree], {})
                            if len(ts) != 1: raise Undecided(f"{len(ts)} outcomes: " + str([str(c)[:160] for t in ts for c in t.conds][:3]))
                            r = ts[0].result
                            if r[0] != "agg" or r[2] not in ("Some", "None"): raise Undecided("an option: " + rend(r)[:200])
                            got = r[3][0] if r[2] == "Some" else None
                            msg = None if got == want else f"it is {got and rend(got)}, should be {want and rend(want)}"
                        except Undecided as u: msg = "undecided: " + str(u)[:300]
                        R.ob(("variable", name, str(own_ and own_[2]), str(which), nofab), msg is None, l[0].where(), f"a variable that {'the map sets to ' + rend(own_) + ' and ' if own_ else ''}the types {chain} have as {which}, of a {name}: {msg}")
                        n += 1
        R.count("variables looked up", n, 200)
        for b in V.seen: R.saw(b)
    R.part("variables", p_vars)

    def p_place():
        """neighbourhoods, clipping, blending"""
        o, new = method(MM + "Neighborhood", "offset"), method(MM + "Neighborhood", "new")
        cells = [k("cell %d" % i) for i in range(9)]
        hood = one(new, [("agg", "array", "", tuple(cells), ())]).result
        at = {"Northwest": 0, "North": 1, "Northeast": 2, "West": 3, "East": 5, "Southwest": 6, "South": 7, "Southeast": 8}
        for d in F.variants(DMI + "Dir"): R.ob(("neighbour", d), one(o, [hood, ("agg", DMI + "Dir", d, (), ())]).result == cells[at[d]], o.where(), f"the neighbour to the {d} is {one(o, [hood, ('agg', DMI + 'Dir', d, (), ())]).result}")
        c = method(MM[:-2], "clip")
        R.ob(("neighbour", "center"), one(method(MM + "Neighborhood", "center"), [hood]).result == cells[4], o.where(), "the center of a neighbourhood is another tile")
        n = 0
        for x, (w, b) in product((-40, -33, -32, -31, -5, 0, 1, 3, 31, 32, 60, 63, 64, 65, 100), ((32, 64), (64, 64), (1, 64), (96, 64), (64, 32))):
            for axis in (0, 1):
                loc_, rect, bounds = ((x, 5), (7, 9, w, 8), (b, 40)) if axis == 0 else ((5, x), (9, 7, 8, w), (40, b))
                lo, hi = max(x, 0), min(x + w, b)
                vis = hi > lo
                # an overlap of nothing may be reported as nothing or as an empty one
                try:
                    r = one(c, [tup(*map(k, bounds)), tup(*map(k, loc_)), tup(*map(k, rect))])
                    if r == ("panic",): msg = "it panics"
                    elif r.result[2] == "None": msg = "it is dropped" if vis else None
                    else:
                        g = plain(r.result[3][0])
                        wl, wr = ((lo, 5), (7 + lo - x, 9, hi - lo, 8)) if axis == 0 else ((5, lo), (9, 7 + lo - x, 8, hi - lo))
                        msg = None if g == (wl, wr) or not vis and 0 in g[1][2:] else f"it is drawn at {g[0]} from {g[1]}, should be {wl} from {wr}"
                except Undecided as u: msg = "undecided: " + str(u)[:300]
                R.ob(("clip", x, w, b, axis), msg is None, c.where(), f"a sprite of {rect} at {loc_} on an image of {bounds}: {msg}")
                n += 1
        R.count("clippings", n, 100)
        for b in M.seen: R.saw(b)
    R.part("place", p_place)

    RGBA = "dmm_tools::dmi::Rgba8"
    px = lambda p: ("agg", RGBA, "Rgba8", tuple(map(k, p)), ("r", "g", "b", "a"))
    IMG = "dmm_tools::dmi::Image"

    def p_composite():
        o = method(IMG, "composite")

        def ccalls(fn, tf, a, places, e, write):
            n = tf.split("::")[-1]
            x = a[0] if a else None
            if n in ("as_slice", "as_slice_mut", "as_slice_memory_order", "as_slice_memory_order_mut") and len(a) == 1:
                if n.endswith("mut"): return some(("at", places[0])) if places[0] is not None else None
                return some(x) if x[0] == "list" else None
            if n in ("index", "index_mut") and len(a) == 2 and x[0] == "agg" and x[1] == RGBA and a[1][0] == "k":
                if not isinstance(a[1][1], int) or not 0 <= a[1][1] < 4: return ("panic", "index")
                if n == "index_mut": return ("at", tuple(places[0]) + (("f", "rgba"[a[1][1]], a[1][1], RGBA),)) if places[0] is not None else None
                return x[3][a[1][1]]
            return calls(fn, tf, a, places, e, write)
        C = Machine(F, ccalls, lambda b: b.path.startswith(("dmm_tools::dmi::", "<dmm_tools::dmi::")) or is_new(b), visits=400)

        def blend(s, d, tint):
            s = [x * y // 255 for x, y in zip(s, tint)]
            a = s[3] + d[3] * (255 - s[3]) // 255
            return tuple(min(255, (s[i] * s[3] + d[i] * d[3] * (255 - s[3]) // 255) // a) if a else 0 for i in range(3)) + (a,)

        def image(w, h, ps): return agg(IMG, "Image", width=k(w), height=k(h), data=lst(*map(px, ps)))

        def run(dst, src, pos, crop, tint):
            ts = C.run(o, [("at", (SELF,)), src, tup(*map(k, pos)), tup(*map(k, crop)), ("agg", "array", "", tuple(map(k, tint)), ())], {SELF: dst})
            if len(ts) != 1: raise Undecided(f"{len(ts)} outcomes: " + str([str(c)[:200] for t in ts for c in t.conds][:2]))
            if ts[0].end == "panic": return "a panic"
            d = fields(ts[0].env[SELF])["data"]
            return [tuple(number(c) for c in p[3]) for p in d[1]]
        n = 0
        grid = (0, 1, 100, 128, 254, 255)
        for sa, da in product(grid, grid):
            for s, d in (((200, 10, 255), (10, 220, 0)), ((0, 255, 128), (255, 255, 1))):
                for tint in ((255,) * 4, (128, 64, 0, 200), (255, 1, 254, 0)):
                    try: g = run(image(1, 1, [d + (da,)]), image(1, 1, [s + (sa,)]), (0, 0), (0, 0, 1, 1), tint)
                    except Undecided as u: g = "undecided: " + str(u)[:300]
                    w = [blend(s + (sa,), d + (da,), tint)]
                    R.ob(("blend", s + (sa,), d + (da,), tint), g == w, o.where(), f"{s + (sa,)} tinted {tint} over {d + (da,)} gives {g}, should give {w}")
                    n += 1
        for (dw, dh), (sw, sh), pos, crop in (((3, 2), (2, 3), (1, 0), (0, 1, 2, 2)), ((2, 3), (4, 2), (0, 1), (2, 0, 2, 2)), ((4, 4), (3, 3), (1, 2), (1, 1, 2, 1)), ((3, 3), (3, 3), (0, 0), (0, 0, 3, 3)), ((3, 2), (2, 2), (2, 1), (0, 0, 0, 2)), ((3, 2), (2, 2), (2, 1), (1, 0, 1, 1))):
            src = [(i + 1, 50, 60, 255) for i in range(sw * sh)]
            dst = [(100 + i, 7, 8, 255) for i in range(dw * dh)]
            want = list(dst)
            for j in range(crop[3]):
                for i in range(crop[2]): want[(pos[1] + j) * dw + pos[0] + i] = src[(crop[1] + j) * sw + crop[0] + i]
            try: g = run(image(dw, dh, dst), image(sw, sh, src), pos, crop, (255,) * 4)
            except Undecided as u: g = "undecided: " + str(u)[:300]
            R.ob(("composite", (dw, dh), (sw, sh), pos, crop), g == want, o.where(), f"{crop} of an image of {sw}x{sh} put at {pos} of one of {dw}x{dh} gives {g}, should give {want}")
            n += 1
        R.count("compositions", n, 200)
        for b in C.seen: R.saw(b)
    R.part("composite", p_composite)

    def p_generate():
        o = method(MM[:-2], "generate")
        SP = MM + "Sprite"
        log = []
        scene = {}
        lay = lambda x: ("agg", MM + "Layer", "Layer", (k(x), k(0)), ("whole", "frac"))

        def sprite(name, **kw):
            d = dict(icon="", icon_state="", dir="South", color=(255,) * 4, ofs_x=0, ofs_y=0, plane=0, layer=0)
            d.update(kw, icon=name)
            return agg(SP, "Sprite", icon=k(d["icon"]), icon_state=k(d["icon_state"]), dir=("agg", DMI + "Dir", d["dir"], (), ()), color=("agg", "array", "", tuple(map(k, d["color"])), ()), ofs_x=k(d["ofs_x"]), ofs_y=k(d["ofs_y"]), plane=k(d["plane"]), layer=lay(d["layer"]))
        name = lambda s: plain(fields(s)["icon"])
        who = lambda atom: plain(fields(fields(atom)["type_"])["path"])
        ty = lambda p: loose("dreammaker::objtree::Type", "Type", path=k(p))
        atom = lambda p: agg(MM + "Atom", "Atom", type_=ty(p), prefab=NONE, sprite=sprite(""))

        def gcalls(fn, tf, a, places, e, write):
            n = tf.split("::")[-1]
            x = a[0] if a else None

            def push(i, y):
                old = a[i] if a[i][0] != "at" else None
                if places[i] is None: raise Undecided("where sprites are put")
                write(places[i], ("list", (old[1] if old else ()) + tuple(y)))
                return UNIT
            if "RenderPass" in tf and x is not None and x[0] == "k" and isinstance(x[1], tuple):
                i = x[1][1]
                if n == "path_filter": return k((i, a[1][1]) not in scene["path"])
                if n == "early_filter": return k((i, who(a[1])) not in scene["early"])
                if n == "late_filter": return k((i, who(a[1])) not in scene["late"])
                if n == "expand":
                    y = scene["expand"].get((i, who(a[1])))
                    if y is not None: push(3, [atom(p) for p in y[0]])
                    return k(y is None or y[1])
                if n == "adjust_sprite":
                    if (i, who(a[1])) in scene["adjust"]:
                        d = fields(a[2])
                        write(places[2], agg(SP, "Sprite", **dict(d, plane=k(d["plane"][1] + scene["adjust"][i, who(a[1])]))))
                    return UNIT
                if n == "overlays":
                    u, v = scene["overlays"].get((i, who(a[1])), ((), ()))
                    if u: push(3, [sprite(s, **scene["extra"].get(s, {})) for s in u])
                    if v: push(4, [sprite(s, **scene["extra"].get(s, {})) for s in v])
                    return UNIT
                if n == "neighborhood_appearance":
                    inner = fields(a[3])["inner"]
                    log.append(("around", who(a[1]), tuple(tuple(who(z) for z in (y[1] if y[0] in ("list", "iter") else y[3])) for y in inner[3])))
                    y = scene["smooth"].get((i, who(a[1])))
                    if y is not None: push(4, [sprite(s, **scene["extra"].get(s, {})) for s in y])
                    return k(y is None)
                if n == "sprite_filter": return k((i, name(a[1])) not in scene["sprite"])
                return None
            if n == "from_prefab": return NONE if plain(fields(a[1])["path"]) in scene["unknown"] else some(atom(plain(fields(a[1])["path"])))
            if n == "from_vars":
                p = who(a[1])
                return sprite(*[("", {}) if p in scene["noicon"] else (p, scene["atoms"].get(p, {}))][0][:1], **({} if p in scene["noicon"] else scene["atoms"].get(p, {})))
            if x is not None and x[0] == "grid":
                g = x[1]
                if n in ("dim", "raw_dim"): return tup(k(len(g)), k(len(g[0])))
                if n == "nrows" or n == "ncols": return k(len(g) if n == "nrows" else len(g[0]))
                if n == "axis_iter" or n in ("rows", "outer_iter", "genrows"): return ("iter", tuple(("list", tuple(map(k, r))) for r in g)) if n != "axis_iter" or a[1][0] == "agg" and plain(a[1][3][0]) == 0 or a[1] == k(0) else None
                if n == "index" and a[1][0] == "agg" and a[1][1] in ("tuple", "array"):
                    y, z = (number(q) for q in a[1][3])
                    if str in (type(y), type(z)): raise Undecided(f"a tile of the map: {y}, {z}")
                    return k(g[y][z]) if 0 <= y < len(g) and 0 <= z < len(g[0]) else ("panic", "index")
                if n == "get" and a[1][0] == "agg":
                    y, z = (number(q) for q in a[1][3])
                    if str in (type(y), type(z)): raise Undecided(f"a tile of the map: {y}, {z}")
                    return some(k(g[y][z])) if 0 <= y < len(g) and 0 <= z < len(g[0]) else NONE
            if n == "iter" and x is not None and x[0] == "list" and "ndarray" in fn: return ("iter", x[1])
            if n in ("contains", "insert") and x is not None and "errors" in rend(x): return k(n == "insert")
            if n in ("read", "write", "unwrap", "deref", "deref_mut", "lock") and x is not None and x[0] == "k" and "errors" in str(x[1]): return ok(x) if n in ("read", "write", "lock") else x
            if n == "retrieve_shared": return NONE if a[1][1] in scene["noimage"] else some(loose("dmm_tools::dmi::IconFile", "IconFile", metadata=loose(DMI + "Metadata", "Metadata", width=k(scene["size"].get(a[1][1], (32, 32))[0]), height=k(scene["size"].get(a[1][1], (32, 32))[1])), image=k("image of " + a[1][1])))
            if n == "rect_of" and x[0] == "agg":
                im = plain(fields(x)["image"])[9:]
                return NONE if im in scene["nostate"] else some(tup(k(0), k(0), *map(k, scene["size"].get(im, (32, 32)))))
            if n == "new_rgba": return agg(IMG, "Image", width=a[0], height=a[1], data=k("the pixels"))
            if n == "composite":
                log.append(("draw", plain(a[1])[9:], plain(a[2]), plain(a[3]), tuple(plain(y) for y in (a[4][3] if a[4][0] == "agg" else a[4][1]))))
                return UNIT
            if n == "clone" and len(a) == 1 and x[0] in ("agg", "k"): return x
            if n in ("into", "from", "as_ref", "new", "deref") and len(a) == 1 and x[0] == "k" and isinstance(x[1], str): return x
            return calls(fn, tf, a, places, e, write)
        G = Machine(F, gcalls, lambda b: b.path.startswith((MM, "<" + MM)) or is_new(b), visits=200)

        def want(g, dic, lo, hi, passes):
            out, seen = [], []
            atoms = {}
            for key, ps in dic.items():
                l = atoms[key] = []
                for p in ps:
                    if any((i, p) in scene["path"] for i in range(passes)) or p in scene["unknown"] or any((i, p) in scene["early"] for i in range(passes)): continue
                    keep = True
                    for i in range(passes):
                        y = scene["expand"].get((i, p))
                        if y is not None:
                            l.extend(y[0])
                            if not y[1]:
                                keep = False
                                break
                    if keep: l.append(p)
            h, w = len(g), len(g[0])
            for y in range(h):
                if not lo[1] <= h - 1 - y <= hi[1]: continue
                for x in range(w):
                    if not lo[0] <= x <= hi[0]: continue
                    for p in atoms[g[y][x]]:
                        if any((i, p) in scene["late"] for i in range(passes)) or p in scene["noicon"]: continue
                        me = dict(dict(plane=0, layer=0, ofs_x=0, ofs_y=0, color=(255,) * 4), **scene["atoms"].get(p, {}), icon=p)
                        for i in range(passes): me["plane"] += scene["adjust"].get((i, p), 0)
                        unders, overs, normal = [], [], True
                        mk = lambda s: dict(dict(plane=0, layer=0, ofs_x=0, ofs_y=0, color=(255,) * 4), **scene["extra"].get(s, {}), icon=s)
                        for i in range(passes):
                            u, v = scene["overlays"].get((i, p), ((), ()))
                            unders += map(mk, u)
                            overs += map(mk, v)
                        for i in range(passes):
                            seen.append(("around", p, tuple(tuple(atoms[g[y - dy][x + dx]]) if 0 <= y - dy < h and 0 <= x + dx < w else () for dy in (1, 0, -1) for dx in (-1, 0, 1))))
                            z = scene["smooth"].get((i, p))
                            if z is not None:
                                unders += map(mk, z)
                                normal = False
                        out += [((x, y), s) for s in unders + [me] * normal + overs]
            out = [(l, s) for l, s in out if not any((i, s["icon"]) in scene["sprite"] for i in range(passes))]
            out.sort(key=lambda q: (q[1]["plane"], q[1]["layer"]))
            W, H = (hi[0] - lo[0] + 1) * 32, (hi[1] - lo[1] + 1) * 32
            for (x, y), s in out:
                if s["icon"] in scene["noimage"] or s["icon"] in scene["nostate"]: continue
                sw, sh = scene["size"].get(s["icon"], (32, 32))
                px_, py = (x - lo[0]) * 32 + s["ofs_x"], (y + 1 - (h - 1 - hi[1])) * 32 - s["ofs_y"] - sh
                l, t, r, b = max(px_, 0), max(py, 0), min(px_ + sw, W), min(py + sh, H)
                if l < r and t < b: seen.append(("draw", s["icon"], (l, t), (l - px_, t - py, r - l, b - t), s["color"]))
            return W, H, seen
        blank = dict(path=(), early=(), late=(), sprite=(), unknown=(), noicon=(), noimage=(), nostate=(), expand={}, adjust={}, overlays={}, extra={}, smooth={}, atoms={}, size={})
        g1, g2 = (("A", "B", "C"), ("D", "E", "F")), (("A", "B"), ("C", "D"), ("E", "F"))
        dic = {c: ["/" + c.lower(), "/floor"] for c in "ABCDEF"}
        regions = {g1: [((0, 0), (2, 1)), ((1, 0), (2, 0)), ((0, 1), (1, 1)), ((2, 1), (2, 1))], g2: [((0, 0), (1, 2)), ((0, 1), (1, 1)), ((1, 1), (1, 2))]}
        scenes = {
            "plain": {}, "layers": dict(atoms={"/a": dict(layer=3), "/b": dict(layer=1), "/c": dict(plane=-1, layer=9), "/d": dict(plane=2), "/floor": dict(layer=2)}),
            "offsets": dict(atoms={"/a": dict(ofs_x=-5, ofs_y=7), "/b": dict(ofs_x=40), "/c": dict(ofs_y=-40), "/d": dict(ofs_x=500), "/e": dict(ofs_x=3, ofs_y=3), "/floor": dict(ofs_y=1)}),
            "sizes": dict(size={"/a": (64, 64), "/d": (64, 96), "/floor": (32, 40), "/e": (16, 16), "/b": (96, 8)}), "colors": dict(atoms={"/a": dict(color=(1, 2, 3, 4)), "/floor": dict(color=(9, 8, 7, 6))}),
            "filters": dict(path={(0, "/a")}, early={(1, "/b")}, late={(1, "/c"), (0, "/d")}, sprite={(0, "/e")}), "expanded": dict(expand={(0, "/a"): (["/x", "/y"], True), (1, "/b"): (["/x"], False), (0, "/c"): ([], False), (0, "/d"): (["/y"], False), (1, "/d"): (["/x"], True)}),
            "missing": dict(unknown={"/a"}, noicon={"/b"}, noimage={"/c"}, nostate={"/d"}), "adjusted": dict(adjust={(0, "/a"): 5, (1, "/a"): -7, (1, "/floor"): 3}),
            "overlaid": dict(overlays={(0, "/a"): (["u1"], ["o1", "o2"]), (1, "/a"): (["u2"], ["o3"]), (1, "/floor"): ((), ["o4"])}, extra={"o2": dict(layer=-1), "u2": dict(layer=4), "o3": dict(color=(5, 5, 5, 5), ofs_x=8)}, sprite={(1, "o1")}),
            "smoothed": dict(smooth={(0, "/a"): ["s1", "s2"], (1, "/b"): [], (0, "/floor"): ["s3"], (1, "/floor"): ["s4"]}, overlays={(1, "/a"): (["u1"], ["o1"])}, extra={"s2": dict(plane=1)}),
        }
        n = 0
        for say, sc in scenes.items():
            for g, rs in regions.items():
                for lo, hi in rs if say in ("plain", "offsets", "sizes") else rs[:2]:
                    scene.clear()
                    scene.update(dict(blank, **sc))
                    log.clear()
                    G.memo.clear()
                    ctx = agg(MM + "Context", "Context", objtree=tree, map=loose("dmm_tools::dmm::Map", "Map", dictionary=("map", tuple((k(c), lst(*[agg("dmm_tools::dmm::Prefab", "Prefab", path=k(p), vars=k("variables")) for p in ps])) for c, ps in dic.items()))),
                              level=agg("dmm_tools::dmm::ZLevel", "ZLevel", grid=("grid", g)), min=tup(*map(k, lo)), max=tup(*map(k, hi)), render_passes=lst(k(("pass", 0)), k(("pass", 1))), errors=k("the errors"), bump=k("the bump"), print_errors=k(False))
                    try:
                        t = one_(G, o, [ctx, k("the icons")])
                        W, H, seen = want(g, dic, lo, hi, 2)
                        if t == ("panic",): msg = "it panics"
                        else:
                            r = t.result
                            im = fields(r[3][0]) if r[2] == "Ok" else None
                            draws = [x for x in log if x[0] == "around"] + [x for x in log if x[0] == "draw" and x[3][2] > 0 and x[3][3] > 0]
                            seen = [x for x in seen if x[0] == "around"] + [x for x in seen if x[0] == "draw"]
                            if im is None or (plain(im["width"]), plain(im["height"])) != (W, H): msg = f"the image is {rend(r)[:100]}, should be {W}x{H}"
                            else:
                                d = [(x, y) for x, y in zip(draws + [None] * len(seen), seen + [None] * len(draws)) if x != y]
                                msg = f"{d[0][0]} where there should be {d[0][1]}" if d else None
                    except Undecided as u: msg = "undecided: " + str(u)[:400]
                    R.ob(("minimap", say, len(g), lo, hi), msg is None, o.where(), f"{say} on a map of {len(g[0])}x{len(g)} from {lo} to {hi}: {msg}")
                    n += 1
        R.count("minimaps", n, 40)
        for b in G.seen: R.saw(b)

    def one_(m, o, args):
        ts = m.run(o, args, {})
        if len(ts) != 1: raise Undecided(f"{len(ts)} outcomes of {o.path}: {[str(c)[:300] for t in ts for c in t.conds][:3]}")
        return ("panic",) if ts[0].end == "panic" else ts[0]
    R.part("generate", p_generate)
