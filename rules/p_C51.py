"""The built-in render passes: which of them run, and what each does."""
from itertools import product, combinations
import math
import re
from grammar import *

RULE = ("configure, configure_list and the methods of the built-in render passes are evaluated abstractly over their MIR, on every sort of include and exclude list and configuration, and on atoms of every path a pass tells apart "
        "(the path itself, below it, beside it) with every form of every variable it reads; the passes chosen, the atoms dropped or added, the sprites and their layers are compared with a reference.")
MM = "dmm_tools::minimap::"
RP = "dmm_tools::render_passes::"
DMI = "dreammaker::dmi::"
CONST = "dreammaker::constants::Constant"
DIRS = {1: "North", 2: "South", 4: "East", 8: "West", 5: "Northeast", 9: "Northwest", 6: "Southeast", 10: "Southwest"}
PASSES = [("hide-space", "HideSpace", True), ("hide-areas", "HideAreas", True), ("hide-invisible", "HideInvisible", True), ("random", "Random", True), ("pretty", "Pretty", True), ("spawners", "Spawners", True), ("overlays", "Overlays", True),
          ("transit-tube", "TransitTube", True), ("gravity-gen", "GravityGen", True), ("only-powernet", "Wires", False), ("only-pipenet", "Pipes", False), ("fancy-layers", "FancyLayers", True), ("icon-smoothing-2016", "icon_smoothing::IconSmoothing", False),
          ("icon-smoothing", "icon_smoothing_2020::IconSmoothing", True), ("icon-smoothing-2025", "icon_smoothing_2025::IconSmoothing", False), ("smart-cables", "SmartCables", True), ("only-wires-and-pipes", "WiresAndPipes", False)]


def below(p, q):
    q = q.rstrip("/")
    return p == q or p.startswith(q + "/")


def check(F, R):
    k = lambda x: ("k", x)

    def agg(ty, v=None, **kw):
        fs = [x["f"] for x in F.adt(ty)["variants"] if x["n"] == v or v is None or len(F.adt(ty)["variants"]) == 1][0]
        if set(kw) - set(x["n"] for x in fs): raise AnchorMissing("the fields of " + ty)
        return ("agg", ty, v if v is not None else ty.split("::")[-1], tuple(kw.get(x["n"], k("the " + x["n"])) for x in fs), tuple(x["n"] for x in fs))
    num = lambda x: agg(CONST, "Float", **{"0": k(("f32", float(x)))})
    text = lambda x, v="String": agg(CONST, v, **{"0": k(x)})
    null = agg(CONST, "Null", **{"0": NONE})
    tree = k("the tree")
    fields = lambda x: dict(zip(x[4], x[3]))
    world = {}          # path -> the variables
    lay = lambda x: ("agg", MM + "Layer", "Layer", (k(math.floor(x)), k(int((x - math.floor(x)) * 65536))), ("whole", "frac"))

    def sprite(icon="icon", icon_state="state", dir="South", color=(1, 2, 3, 4), ofs_x=3, ofs_y=5, plane=7, layer=2.5):
        return agg(MM + "Sprite", icon=k(icon), icon_state=k(icon_state), dir=("agg", DMI + "Dir", dir, (), ()), color=("agg", "array", "", tuple(map(k, color)), ()), ofs_x=k(ofs_x), ofs_y=k(ofs_y), plane=k(plane), layer=lay(layer))
    ty = lambda p: agg("dreammaker::objtree::Type", path=k(p), vars=("map", ()))
    atom = lambda p, **kw: agg(MM + "Atom", type_=ty(p), prefab=NONE, sprite=sprite(**kw))

    def show(s):
        """what a sprite is, as plain values"""
        if s[0] != "agg" or not s[1].endswith("Sprite"): raise Undecided("a sprite: " + rend(s)[:200])
        d = fields(s)
        out = {}
        for f, v in d.items():
            if f == "dir": out[f] = v[2]
            elif f == "color": out[f] = tuple(plain(c) for c in (v[3] if v[0] == "agg" else v[1]))
            elif f == "layer":
                w = fields(v) if v[0] == "agg" else {}
                if any(w.get(q, v)[0] != "k" or not isinstance(w[q][1], (int, float)) for q in ("whole", "frac")): raise Undecided("a layer: " + rend(v)[:200])
                out[f] = plain(w["whole"]) + plain(w["frac"]) / 65536
            else: out[f] = plain(v)
            if f in ("layer", "ofs_x", "ofs_y", "plane") and not isinstance(out[f], (int, float)): raise Undecided("a sprite's " + f)
        return out

    def calls(fn, tf, a, places, e, write):
        n = tf.split("::")[-1]
        x = a[0] if a else None
        st = lambda i: len(a) > i and a[i][0] == "k" and isinstance(a[i][1], str)
        if n in ("floor", "fract", "ceil", "round", "trunc") and len(a) == 1 and x[0] == "k" and isinstance(x[1], tuple):
            v = float(x[1][1])
            return k((x[1][0], {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "fract": lambda y: math.fmod(y, 1.0), "round": lambda y: math.copysign(math.floor(abs(y) + .5), y)}[n](v) * 1.0))
        if n in ("try_from", "try_into") and "core::convert::num" in fn and x[0] == "k" and isinstance(x[1], int):
            m = re.search(r"TryFrom<\w+> for (\w+)>", fn)
            return (ok(x) if convert(x[1], m[1]) == x[1] else err(k("out of range"))) if m else None
        if n == "get_var_inner" and len(a) == 3 and x[0] == "agg" and a[1][0] == "k":
            v = world.get(plain(fields(fields(x)["type_"])["path"]), {}).get(a[1][1])
            return NONE if v is None else some(v)
        if n == "new_in" and "String" in fn: return k("")
        if n in ("write_fmt", "push_str", "write_str", "push", "write_char") and st(0) and places[0] is not None:
            ps = emitted(n, a)
            if ps is None: return None
            ps = [y if isinstance(y, str) else str(y[1][1]) if y[1][0] == "k" and y[2] == "display" and type(y[1][1]) in (int, str) else None for y in ps]
            if None in ps: return None
            write(places[0], k(x[1] + "".join(ps)))
            return UNIT if n.startswith("push") else ok(UNIT)
        if n == "null" and not a: return null
        if n in ("to_owned", "as_str", "as_ref", "deref", "borrow", "as_bytes", "to_string", "into_bump_str", "into", "clone", "get", "as_mut_str", "trim") and len(a) == 1 and x[0] == "k" and isinstance(x[1], str): return x
        if n == "expect" and x == tree and st(1): return k("type " + a[1][1])
        if n == "find" and x == tree and st(1): return some(k("type " + a[1][1]))
        if n == "from_vars" and len(a) == 2: return sprite(**(world.get(a[1][1][5:], {}).get("the sprite", dict(icon=a[1][1][5:])) if a[1][0] == "k" else {}))
        if n == "from" and "Atom" in fn and len(a) == 1 and x[0] == "k" and str(x[1]).startswith("type "): return ("agg", "new atom", "", (k(x[1][5:]),), ("path",))
        if n == "layer_of" and len(a) == 2: return lay(9.25)
        if n == "starts_with" and st(0) and st(1): return k(x[1].startswith(a[1][1]))
        if n == "ends_with" and st(0) and st(1): return k(x[1].endswith(a[1][1]))
        if n == "contains" and st(0) and st(1): return k(a[1][1] in x[1])
        if n in ("strip_prefix",) and st(0) and st(1): return some(k(x[1][len(a[1][1]):])) if x[1].startswith(a[1][1]) else NONE
        if n in ("strip_suffix",) and st(0) and st(1): return some(k(x[1][:-len(a[1][1])])) if x[1].endswith(a[1][1]) else NONE
        if n in ("trim_end_matches",) and st(0) and st(1): return k(x[1].rstrip(a[1][1]))
        if n == "split" and st(0) and st(1): return ("iter", tuple(map(k, x[1].split(a[1][1]))))
        if n == "len" and st(0): return k(len(x[1]))
        if n == "is_empty" and st(0): return k(not x[1])
        if n == "len" and x is not None and x[0] == "k": return k(1)
        if n in ("eq", "ne") and len(a) == 2 and st(0) and st(1): return k((x[1] == a[1][1]) == (n == "eq"))
        return None
    own = lambda b: b.path.startswith((MM, "<" + MM, RP, "<" + RP, CONST, "<" + CONST, DMI + "Dir", "<" + DMI + "Dir", "dreammaker::objtree::ispath")) or MM + "GetVar" in b.path or is_new(b)

    def method(ty_, name):
        l = [b for b in F.bodies if b.k != "closure" and re.fullmatch(f"<{RP}(\\w+::)*{ty_.replace('::', '::')} as {RP}RenderPass>::{name}", re.sub("<'\\w+>", "", b.path))] if "::" not in ty_ else \
            [b for b in F.bodies if b.path == f"<{RP}{ty_} as {RP}RenderPass>::{name}"]
        if len(l) > 1: raise AnchorMissing(f"{len(l)} functions {ty_}::{name}")
        if not l: l = [b for b in F.bodies if b.path == f"{RP}RenderPass::{name}"]
        if len(l) != 1: raise AnchorMissing(f"{len(l)} functions {ty_}::{name}")
        return l[0]

    def one(m, o, args, env=None):
        ts = m.run(o, args, env or {})
        if len(ts) != 1: raise Undecided(f"{len(ts)} outcomes of {o.path}: {[str(c)[:200] for t in ts for c in t.conds][:3]}")
        return ts[0] if ts[0].end != "panic" else None
    me = {t: agg(RP + t) if not F.adt(RP + t)["variants"][0]["f"] else agg(RP + t, overrides=lst()) for t in ("HideSpace", "HideAreas", "HideInvisible", "Overlays", "Pretty", "Wires", "Pipes", "WiresAndPipes", "FancyLayers")}
    unit = lambda t, m: agg(RP + m + "::" + t)
    me.update(Spawners=unit("Spawners", "structures"), GravityGen=unit("GravityGen", "structures"), SmartCables=unit("SmartCables", "smart_cables"), TransitTube=unit("TransitTube", "transit_tube"))
    M = Machine(F, calls, own, visits=80)

    def fresh(w=None):
        world.clear()
        world.update(w or {})
        M.memo.clear()

    def ob(key, o, f, say):
        """f gives None, or what is wrong"""
        try: msg = f()
        except Undecided as u: msg = "undecided: " + str(u)[:300]
        R.ob(key, msg is None, o.where(), f"{say}: {msg}")

    def p_selection():
        """which passes run"""
        o, c = R.fn(RP + "configure_list"), R.fn(RP + "configure")
        made = []

        def scalls(fn, tf, a, places, e, write):
            n = tf.split("::")[-1]
            if n == "default" and not a and S.ga and S.ga[0].d and S.ga[0].d.endswith("boxed::Box"):
                made_by["n"] = made_by.get("n", 0) + 1
                return ("agg", "pass", S.ga[0].args[0].d, (k(made_by["n"]),), ("n",))
            if n == "default" and not a and S.ga and S.ga[0].d and S.ga[0].d.startswith(RP):
                made_by["n"] = made_by.get("n", 0) + 1
                return ("agg", "pass", S.ga[0].d, (k(made_by["n"]),), ("n",))
            if n == "new" and "Box" in tf and a[0][:2] == ("agg", "pass"): return a[0]
            if n == "configure" and "RenderPass" in tf and len(a) == 2:
                if a[0][:2] != ("agg", "pass"): raise Undecided("the pass to configure: " + rend(a[0])[:100])
                made.append((a[0], a[1]))
                return UNIT
            return calls(fn, tf, a, places, e, write)
        S = Machine(F, scalls, own, visits=80)
        made_by = {}

        # the table, with the function that makes each pass (the value the compiler computed does not say which closure it is)
        tables = []
        for c_ in [b for b in F.bodies if b.path == RP + "RENDER_PASSES"]:
            ps = [c_.promoted({"promoted": i, "of": c_.h}) for i in range(len(c_.j.get("promoted") or []))]
            for pb in [c_] + ps:
                for t in traces(pb, visits=40, lists="maps", env=compare, hook=lambda *_: None):
                    v = t.result
                    if v is not None and v[:2] == ("agg", "array") and v[3] and all(x[0] == "agg" and x[1] == RP + "RenderPassInfo" for x in v[3]): tables.append(v[3])
        names = lambda l: [plain(fields(x)["name"]) for x in l]
        tables = [l for l in tables if all(fields(x)["new"][:2] == ("agg", "closure") or fields(x)["new"][0] == "fn" and "FnOnce" not in fields(x)["new"][1] for x in l)]
        if len(tables) != 1: raise AnchorMissing(f"{len(tables)} tables of the render passes")
        table = tables[0]
        full = lambda t: [x for x in F.adts if x == RP + t or re.fullmatch(RP + r'\w+::' + t, x)][0]

        def const(t):
            l = t[3] if t[:2] == ("agg", "array") else t[1] if t[0] == "list" else ()
            if not l or any(x[0] != "agg" or x[1] != RP + "RenderPassInfo" for x in l): return t
            if names(l) != names(table): raise Undecided("some of the passes")
            return (t[:3] + (tuple(table),) + t[4:]) if t[0] == "agg" else ("list", tuple(table))
        S.const = const
        n = 0
        ask = {"nothing": ([], [], {}), "a name": (["only-powernet"], [], {}), "two": (["only-powernet", "icon-smoothing-2025"], ["hide-areas"], {}), "both": (["random"], ["random"], {}), "all": (["all"], [], {}), "all but": (["all"], ["pretty", "overlays"], {}), "none": ([], ["all"], {}),
               "none but": (["pretty", "overlays"], ["all"], {}), "all and none": (["all"], ["all"], {}), "config": ([], [], {"only-pipenet": True, "hide-space": False, "smart-cables": False}), "config and names": (["hide-space"], ["only-pipenet"], {"only-pipenet": True, "hide-space": False, "smart-cables": False}),
               "config and all": (["all"], [], {"hide-space": False}), "config and none": ([], ["all"], {"hide-space": True}), "unknown": (["nosuch"], ["hide", ""], {"nosuch": True}), "config same": ([], [], {"only-pipenet": False, "hide-space": True})}
        for nm, _, _ in PASSES:
            ask["with " + nm] = ([nm], ["all"], {})
            ask["without " + nm] = (["all"], [nm], {})
            ask["config " + nm] = ([], [], {nm: True})
            ask["config no " + nm] = ([], [], {nm: False})
        for say, (inc, exc, cfg) in ask.items():
            want = [full(t) for nm, t, d in PASSES if (True if nm in inc else False if nm in exc else True if "all" in inc else False if "all" in exc else cfg.get(nm, d))]
            conf = agg("dreammaker::config::MapRenderer", render_passes=("map", tuple((k(x), k(y)) for x, y in cfg.items())))
            for f, args in ((o, [lst(*map(k, inc)), lst(*map(k, exc))]), (c, [k(",".join(inc)), k(",".join(exc))])):
                def go():
                    made.clear()
                    S.memo.clear()
                    t = one(S, f, [conf] + args)
                    if t is None: return "it panics"
                    if t.result[0] != "list": raise Undecided("the passes: " + rend(t.result)[:300])
                    got = list(t.result[1])
                    if any(x[:2] != ("agg", "pass") for x in got): raise Undecided("a pass: " + [rend(x)[:200] for x in got if x[:2] != ("agg", "pass")][0])
                    if [x[2] for x in got] != want: return f"the passes are {[x[2][len(RP):] for x in got]}, should be {[x[len(RP):] for x in want]}"
                    if [m for m, _ in made] != got or any(x != conf for _, x in made): return f"{len(made)} passes are configured of {len(got)}"
                ob(("selection", say, f.name), f, go, f"including {inc} and excluding {exc}, with {cfg} configured")
                n += 1
        R.count("selections", n, 100)
        for b in S.seen: R.saw(b)
    R.part("selection", p_selection)


    def near(p): return [p, p + "/x", p + "/x/y", p + "x", p.rsplit("/", 1)[0] or "/obj", "/q" + p]

    KNOWN = ["/turf/template_noop", "/turf/open/space", "/turf/open", "/area", "/obj/effect/spawner/xmastree", "/obj/effect/mapping_helpers", "/obj/item/toy/syndicateballoon", "/obj/structure/cable", "/obj/machinery/atmospherics/pipe", "/mob"]

    def p_filters():
        """what is hidden"""
        n = 0
        fresh()
        paths = sorted(set(q for p in KNOWN for q in near(p)))
        rules = {
            ("HideSpace", "late_filter"): lambda p: not below(p, "/turf/open/space"), ("HideAreas", "path_filter"): lambda p: not below(p, "/area"), ("HideInvisible", "path_filter"): lambda p: not below(p, "/obj/effect/spawner/xmastree"),
            ("Wires", "late_filter"): lambda p: below(p, "/obj/structure/cable"), ("Pipes", "late_filter"): lambda p: below(p, "/obj/machinery/atmospherics/pipe"),
            ("WiresAndPipes", "late_filter"): lambda p: below(p, "/obj/structure/cable") or below(p, "/obj/machinery/atmospherics/pipe")}
        for t in me:
            for f in ("path_filter", "early_filter", "late_filter"):
                if (t, f) == ("HideInvisible", "early_filter"): continue
                o = method(t, f)
                for p in paths if (t, f) in rules else paths[::5]:
                    def go():
                        r = one(M, o, [me[t], k(p)] if f == "path_filter" else [me[t], atom(p), tree])
                        w = rules.get((t, f), lambda p: True)(p)
                        return None if r is not None and r.result == k(w) else f"it is {'dropped' if w else 'kept'} ({r and rend(r.result)[:60]})"
                    ob(("filter", t, f, p), o, go, f"{p} with {t}::{f}")
                    n += 1
        # sprites
        o = method("HideSpace", "sprite_filter")
        for i in ("icons/turf/space.dmi", "icons/turf/spaced.dmi", "", "space.dmi"):
            ob(("sprite", i), o, lambda: None if one(M, o, [me["HideSpace"], sprite(icon=i)]).result == k(i != "icons/turf/space.dmi") else "the filter has it wrong", f"a sprite of {i}")
        # hide-invisible: the list, invisibility, helpers, the balloon
        conf, o = method("HideInvisible", "configure"), method("HideInvisible", "early_filter")
        for over in ([], ["/obj/a"], ["/obj/a/"], ["/obj/a", "/obj/a/b", "/mob"], ["/mob", "/obj/ab"]):
            S = 10 ** 7
            try:
                t = one(M, conf, [("at", (S,)), agg("dreammaker::config::MapRenderer", hide_invisible=lst(*map(k, over)))], {S: me["HideInvisible"]})
                self_ = t.env[S]
            except Undecided as u:
                R.ob(("hidden", tuple(over)), False, conf.where(), "undecided: " + str(u)[:300])
                continue
            for p in sorted(set(near("/obj/a") + near("/obj/a/b") + near("/mob") + near("/obj/effect/mapping_helpers"))):
                w = not any(below(p, x) for x in over) and not below(p, "/obj/effect/mapping_helpers")
                ob(("hidden", tuple(over), p), o, lambda: None if one(M, o, [self_, atom(p), tree]).result == k(w) else f"it is {'hidden' if w else 'shown'}", f"{p} with {over} configured to be hidden")
                n += 1
        for p, iv in product(("/obj/x", "/turf"), (None, null, num(0), num(60), num(60.5), num(61), num(101), num(-1), text("101"))):
            fresh({p: {"invisibility": iv}})
            w = not (iv is not None and iv[2] == "Float" and iv[3][0][1][1] > 60)
            ob(("invisible", p, str(iv)), o, lambda: None if one(M, o, [me["HideInvisible"], atom(p), tree]).result == k(w) else f"it is {'hidden' if w else 'shown'}", f"an atom whose invisibility is {iv and rend(iv)}")
            n += 1
        IW = "icons/obj/items_and_weapons.dmi"
        for p, i, s in product(("/obj/item/x", "/obj/item/toy/syndicateballoon", "/obj/item/toy/syndicateballoon/x", "/obj/item/toy"), (text(IW, "Resource"), text("other.dmi", "Resource"), None), (text("syndballoon"), text("sword"), null)):
            fresh({p: {"icon": i, "icon_state": s}})
            w = not (i is not None and i[3][0] == k(IW) and s[3][0] == k("syndballoon") and not below(p, "/obj/item/toy/syndicateballoon"))
            ob(("balloon", p, str(i), str(s)), o, lambda: None if one(M, o, [me["HideInvisible"], atom(p), tree]).result == k(w) else f"it is {'hidden' if w else 'shown'}", f"{p} with the icon {i and rend(i)} and state {rend(s)}")
            n += 1
        # expanding
        fresh()
        V = 10 ** 7 + 1
        for t in me:
            o = method(t, "expand")
            for p in near("/turf/template_noop") + near("/obj/effect/spawner/structure"):
                for sl in (None, null, num(3), (), ("/obj/grille",), ("/obj/grille", 5, "/obj/window")) if t == "Spawners" else (None,):
                    v = sl if sl is None or sl and sl[0] == "agg" else ("agg", CONST, "List", (("list", tuple(tup(text(x) if isinstance(x, str) else num(x), NONE) for x in sl)),), ("0",))
                    fresh({p: {"spawn_list": v}})

                    def go():
                        r = one(M, o, [me[t], atom(p), tree, ("at", (V,))], {V: lst()})
                        if r is None: return "it panics"
                        w = ((), True)
                        if t == "HideSpace" and below(p, "/turf/template_noop"): w = (("/turf/open/space",), False)
                        if t == "Spawners" and below(p, "/obj/effect/spawner/structure") and isinstance(sl, tuple) and sl[:1] != ("agg",): w = (tuple(x for x in sl if isinstance(x, str)), False)
                        g = (tuple(plain(x[3][0]) if x[1] == "new atom" else rend(x)[:80] for x in r.env[V][1]), plain(r.result))
                        return None if g == w else f"it adds {g[0]} and is {'kept' if g[1] else 'dropped'}, should add {w[0]} and be {'kept' if w[1] else 'dropped'}"
                    ob(("expand", t, p, str(sl)), o, go, f"{p} with the spawn list {sl if v is None or v is not sl else rend(sl)} under {t}")
                    n += 1
        R.count("atoms filtered", n, 300)
        for b in M.seen: R.saw(b)
    R.part("filters", p_filters)

    TABLE = [("/turf/open/floor/plating", -10), ("/turf/open/space", -10), ("/turf/closed/mineral", -3), ("/turf/open/floor", -2), ("/turf/closed", -2), ("/turf", -10), ("/obj/effect/turf_decal", -1), ("/obj/structure/disposalpipe", -6),
             ("/obj/machinery/atmospherics/pipe", -5), ("/obj/structure/cable", -4), ("/obj/machinery/power/terminal", -3.5), ("/obj/structure/lattice", -8), ("/obj/machinery/navbeacon", -3)]
    VENTS = {f"{a}-{i}": b for a, b in (("vent_map", "vent_off"), ("vent_map_on", "vent_out"), ("vent_map_siphon_on", "vent_in"), ("scrub_map", "scrub_off"), ("scrub_map_on", "scrub_on")) for i in (1, 2, 3, 4)}
    UNARY = "/obj/machinery/atmospherics/components/unary"

    def p_layers():
        conf, o, ov = method("FancyLayers", "configure"), method("FancyLayers", "adjust_sprite"), method("FancyLayers", "overlays")
        S, P, U, V = (10 ** 7 + i for i in range(4))
        n = 0
        fresh()
        for over in ({}, {"/obj": 4.5, "/obj/structure/cable": 3.25, "/obj/structure": 2.75}, {"/turf/open/": 1.5, "/turf": 2.0, "/turf/open/floor/plating/x/": 6.0}, {"/obj/structure/cable/x": -20.0, "/mob": 9.0}):
            try: self_ = one(M, conf, [("at", (S,)), agg("dreammaker::config::MapRenderer", fancy_layers=("map", tuple((k(a), k(("f32", b))) for a, b in over.items())))], {S: me["FancyLayers"]}).env[S]
            except Undecided as u:
                R.ob(("layers", tuple(over)), False, conf.where(), "undecided: " + str(u)[:300])
                continue
            for p in sorted(set(q for p, _ in TABLE for q in near(p)) | {"/obj/machinery/atmospherics/pipe/simple/visible", "/obj/machinery/atmospherics/pipe/simple/visible/x", "/mob", "/turf/closed/mineral/x", UNARY}):
                l = 2.5
                b = [x for x, y in TABLE if below(p, x)]
                if b and not (b[0].endswith("/pipe") and "visible" in p): l = dict(TABLE)[b[0]]
                c = sorted([x for x in over if below(p, x)], key=len)
                if c: l = over[c[-1]]

                def go():
                    r = one(M, o, [self_, atom(p), ("at", (P,)), tree, k("the bump")], {P: sprite()})
                    if r is None: return "it panics"
                    g, w = show(r.env[P]), dict(show(sprite()), plane=0, layer=l)
                    bad = [f for f in w if g[f] != w[f]]
                    return f"its {bad[0]} is {g[bad[0]]}, should be {w[bad[0]]}" if bad else None
                ob(("layer", tuple(over), p), o, go, f"a sprite of {p} with the layers {over} configured")
                n += 1
        for p, s in product((UNARY, UNARY + "/x", UNARY + "x", "/obj"), [text(x) for x in list(VENTS) + ["vent_map-5", "vent_map", "scrub_map_siphon_on-1", ""]] + [null, None]):
            fresh({p: {"icon_state": s}})
            w = VENTS.get(s[3][0][1]) if s is not None and s[2] == "String" and below(p, UNARY) else None

            def go():
                r = one(M, o, [me["FancyLayers"], atom(p), ("at", (P,)), tree, k("the bump")], {P: sprite()})
                l = show(r.env[P])["layer"]
                if l != (-5 if w else 2.5): return f"it is at layer {l}"
                r = one(M, ov, [me["FancyLayers"], atom(p), tree, ("at", (U,)), ("at", (V,)), k("the bump")], {U: lst(), V: lst()})
                g = [show(x) for x in r.env[V][1]]
                x = [dict(show(sprite()), icon_state=w, layer=9.25)] if w else []
                return None if g == x and r.env[U] == lst() else f"the overlays are {g}, should be {x}"
            ob(("vent", p, str(s)), o, go, f"{p} whose icon state is {s and rend(s)}")
            n += 1
        R.count("layers", n, 300)
    R.part("layers", p_layers)

    def p_overlays():
        """what is added to an atom"""
        yes, no = num(1), num(0)
        P, U, V = (10 ** 7 + i for i in (1, 2, 3))
        base = dict(show(sprite()))
        T = lambda v: v is not None and v[2] != "Null" and not (v[2] == "Float" and v[3][0][1][1] == 0) and not (v[2] == "String" and v[3][0][1] == "")
        s = lambda v, *vs: v[3][0][1] if v is not None and v[2] in vs else None
        i_ = lambda v: int(v[3][0][1][1]) if v is not None and v[2] == "Float" else None
        add = lambda st, **kw: dict(base, icon_state=st, **kw)
        C, L, A, AP = "/obj/structure/closet/crate", "/obj/structure/closet", "/obj/machinery/door/airlock", "/obj/machinery/power/apc"

        def overlays(p, v):
            g = v.get
            u, o = [], []
            if below(p, "/turf/closed/indestructible/fakeglass"): u = [add("plating", icon="icons/turf/floors.dmi"), add("grille", icon="icons/obj/structures.dmi")]
            elif below(p, C):
                if not T(g("opened")):
                    x = "securecrateemag" if T(g("broken")) else "securecrater" if T(g("locked")) else "securecrateg" if T(g("secure")) else None
                    if x: o.append(add(x))
                if T(g("welded")): o.append(add("welded", ofs_x=3 + (i_(g("weld_w")) or 0), ofs_y=5 + (i_(g("weld_z")) or 0)))
                if T(g("opened")) and s(g("lid_icon_state"), "String") is not None: o.append(add(s(g("lid_icon_state"), "String"), icon=s(g("lid_icon"), "String", "Resource") or "icon", ofs_x=3 + (i_(g("lid_w")) or 0), ofs_y=5 + (i_(g("lid_z")) or 0)))
            elif below(p, L):
                if T(g("enable_door_overlay")):
                    if T(g("opened")):
                        d = s(g("icon_door" if T(g("icon_door_override")) else "icon_state"), "String")
                        if d is not None: o.append(add(d + "_open"))
                    else:
                        if T(g("has_closed_overlay")):
                            d = g("icon_door")
                            if d is None or d[2] == "Null": d = g("icon_state")
                            if s(d, "String") is not None: o.append(add(s(d, "String") + "_door"))
                        if T(g("welded")): o.append(add("welded"))
                        if T(g("secure")) and not T(g("broken")): o.append(add("locked" if T(g("locked")) else "unlocked"))
            elif below(p, "/obj/machinery/computer") or below(p, "/obj/machinery/power/solar_control"): o = [add(s(g(x), "String", "Resource")) for x in ("icon_screen", "icon_keyboard") if s(g(x), "String", "Resource") is not None]
            elif below(p, A):
                if T(g("glass")):
                    if s(g("overlays_file"), "String", "Resource") is not None: o = [add("glass_closed", icon=s(g("overlays_file"), "String", "Resource"))]
                elif T(g("can_be_glass")): o = [add("fill_closed")]
            elif below(p, AP):
                o = [add(x) for x in ("apcox-1", "apco3-2", "apco0-3", "apco1-3", "apco2-3")]
                u = [dict(base, icon="/obj/machinery/power/terminal", plane=0, layer=-3.5)]
            return u, o

        def pretty(p, v):
            o = []
            B = "/obj/item/storage/box"
            if below(p, B) and not below(p, B + "/papersack"):
                x = s(v.get("illustration"), "String", "Resource")
                if x is not None: o = [add(x)]
            elif below(p, "/obj/machinery/firealarm"): o = [add("fire_overlay"), add("fire_disabled")]
            elif below(p, "/obj/structure/tank_dispenser"):
                for x, y, m in (("oxygentanks", "oxygen", 4), ("plasmatanks", "plasma", 5)):
                    c = i_(v.get(x))
                    if c is not None and c >= 1: o.append(add(f"{y}-{min(c, m)}"))
            return [], o
        flags = lambda *fs: [dict(zip(fs, q)) for q in product((yes, no), repeat=len(fs))]
        d0 = lambda **kw: kw
        fs = lambda d, **kw: dict(d, **kw)
        worlds = {
            "Overlays": [(p, {}) for q in ("/turf/closed/indestructible/fakeglass", C, L, "/obj/machinery/computer", "/obj/machinery/power/solar_control", A, AP) for p in near(q)]
            + [(C, fs(d, weld_w=num(2), weld_z=num(-3), lid_icon_state=text("lid"), lid_w=num(4), lid_z=num(6))) for d in flags("opened", "broken", "locked", "secure", "welded")]
            + [(C + "/x", d0(opened=yes, lid_icon_state=x, lid_icon=y, lid_w=z)) for x in (text("lid"), null, num(1), None) for y in (text("lid.dmi", "Resource"), null, None, num(2)) for z in (num(8), null, text("q"))]
            + [(C, d0(welded=yes, weld_w=x, weld_z=y)) for x in (num(2), null, None) for y in (num(-7), None, text("x"))]
            + [(L, fs(d, icon_door=text("door"), icon_state=text("base"))) for d in flags("enable_door_overlay", "opened", "icon_door_override", "has_closed_overlay", "welded", "secure")]
            + [(L + "/x", fs(d, enable_door_overlay=yes, opened=no, has_closed_overlay=yes)) for d in flags("welded", "secure", "broken", "locked")]
            + [(L, d0(enable_door_overlay=yes, opened=x, icon_door_override=w, has_closed_overlay=yes, icon_door=y, icon_state=z)) for x in (yes, no) for w in (yes, no) for y in (text("door"), null, None, num(3)) for z in (text("base"), null, None)]
            + [("/obj/machinery/computer/x", d0(icon_screen=x, icon_keyboard=y)) for x in (text("screen"), null, None, num(1)) for y in (text("keys"), null, None)] + [("/obj/machinery/power/solar_control", d0(icon_screen=text("a"), icon_keyboard=text("b")))]
            + [(A + "/x", d0(glass=x, can_be_glass=y, overlays_file=z)) for x in (yes, no, None) for y in (yes, no) for z in (text("o.dmi", "Resource"), null, None)],
            "Pretty": [(p, d0(illustration=text("paper"), oxygentanks=num(3), plasmatanks=num(2))) for q in ("/obj/item/storage/box", "/obj/item/storage/box/papersack", "/obj/machinery/firealarm", "/obj/structure/tank_dispenser", "/obj/structure/bookcase") for p in near(q)]
            + [("/obj/item/storage/box/x", d0(illustration=x)) for x in (text("a"), null, None, num(1))]
            + [("/obj/structure/tank_dispenser", d0(oxygentanks=x, plasmatanks=y)) for x in (None, null, *map(num, (-1, 0, .5, 1, 2, 3, 4, 5, 6, 10))) for y in (None, null, *map(num, (-1, 0, 1, 2, 3, 4.5, 5, 6, 10)))],
            "GravityGen": [(p, {}) for p in near("/obj/machinery/gravity_generator/main")],
        }
        n = 0
        for t, l in worlds.items():
            o = method(t, "overlays")
            for p, v in l:
                fresh({p: v, "/obj/machinery/gravity_generator/part": {"the sprite": dict(icon="gravity", icon_state="part", ofs_x=1, ofs_y=2, plane=3, layer=3.5)}})

                def want():
                    if t != "GravityGen": return (overlays if t == "Overlays" else pretty)(p, v)
                    if not below(p, "/obj/machinery/gravity_generator/main"): return [], []
                    out = []
                    for c, x, y in ((1, 1, 2), (2, 0, 2), (3, -1, 2), (4, 1, 1), (5, 0, 1), (6, -1, 1), (7, 1, 0), (9, -1, 0)):
                        z = dict(base, icon="gravity", icon_state=f"on_{c}", ofs_x=1 + 32 * x, ofs_y=2 + 32 * y, plane=0, layer=4.25 if c <= 3 else 3.5)
                        out += [z] + ([dict(z, icon_state="activated")] if c == 5 else [])
                    return [], out

                def go():
                    r = one(M, o, [me[t], atom(p), tree, ("at", (U,)), ("at", (V,)), k("the bump")], {U: lst(), V: lst()})
                    if r is None: return "it panics"
                    g, w = [[show(x) for x in r.env[z][1]] for z in (U, V)], want()
                    for x, y, z in zip(g, w, ("underlays", "overlays")):
                        if x != y: return f"the {z} are {[(q['icon'], q['icon_state'], q['ofs_x'], q['ofs_y'], q['plane'], q['layer'], q['dir']) for q in x]}, should be {[(q['icon'], q['icon_state'], q['ofs_x'], q['ofs_y'], q['plane'], q['layer'], q['dir']) for q in y]}"
                ob(("overlays", t, p, str(sorted((x, y and rend(y)) for x, y in v.items()))), o, go, f"{p} with {({x: y and rend(y) for x, y in v.items()})}")
                n += 1
        R.count("atoms with overlays", n, 400)
        # sprites adjusted
        for t, ps in (("Overlays", near(AP)), ("Pretty", near("/obj/structure/bookcase"))):
            o = method(t, "adjust_sprite")
            for p in ps:
                for d in (None, null, *map(num, (0, 1, 2, 3, 4, 5, 6, 8, 10))):
                    fresh({p: {"dir": d}})
                    w = dict(base)
                    if t == "Overlays" and below(p, AP): w.update({"North": dict(ofs_y=23), "South": dict(ofs_y=-23), "East": dict(ofs_x=24), "West": dict(ofs_x=-25)}.get(DIRS.get(i_(d)), {}))
                    if t == "Pretty" and below(p, "/obj/structure/bookcase"): w["icon_state"] = "book-0"

                    def go():
                        r = one(M, o, [me[t], atom(p), ("at", (P,)), tree, k("the bump")], {P: sprite()})
                        g = show(r.env[P])
                        bad = [f for f in w if g[f] != w[f]]
                        return f"its {bad[0]} is {g[bad[0]]}, should be {w[bad[0]]}" if bad else None
                    ob(("adjusted", t, p, str(d)), o, go, f"a sprite of {p} whose direction is {d and rend(d)}")
        for b in M.seen: R.saw(b)
    R.part("overlays", p_overlays)

    def p_tubes():
        """transit tubes"""
        o = method("TransitTube", "overlays")
        base = show(sprite())
        zero = show(one(M, R.fn("<" + MM + "Sprite<'s> as core::default::Default>::default"), []).result)
        T = "/obj/structure/transit_tube"
        N, S, E, W = "North", "South", "East", "West"
        four = lambda *l: {d: x for d, x in zip((N, S, E, W), l)}
        sets = [(T + "/station/reverse", four((E,), (W,), (S,), (N,))), (T + "/station", four((E, W), (E, W), (N, S), (N, S))), (T + "/junction/flipped", four((N, S + "west", S + "east"), (S, N + "east", N + "west"), (E, N + "west", S + "west"), (W, S + "east", N + "east"))),
                (T + "/junction", four((N, S + "east", S + "west"), (S, N + "west", N + "east"), (E, S + "west", N + "west"), (W, N + "east", S + "east"))), (T + "/curved/flipped", four((N, S + "east"), (S, N + "west"), (E, S + "west"), (N + "east", W))),
                (T + "/curved", four((N, S + "west"), (S, N + "east"), (E, N + "west"), (S + "east", W))), (T + "/diagonal", four((N + "east", S + "west"), (N + "east", S + "west"), (N + "west", S + "east"), (N + "west", S + "east"))), (T, four((N, S), (N, S), (E, W), (E, W)))]
        n = 0
        for p in sorted(set(q for x, _ in sets for q in near(x))):
            for d in (None, null, *map(num, (0, 1, 2, 3, 4, 5, 6, 8, 9, 10))):
                fresh({p: {"dir": d}})
                dd = DIRS.get(int(d[3][0][1][1]) if d is not None and d[2] == "Float" else 0, S)
                want = []
                for x in next((y for x, y in sets if below(p, x)), {}).get(dd, ()):
                    z = dict(zero, icon="icon", layer=2.5, dir=x, icon_state="decorative")
                    if x in (N, S, E, W): want.append(z)
                    elif x.startswith(N):
                        q = x[5:]
                        want += [dict(z, dir=S + q, icon_state="decorative_diag", ofs_y=32), dict(z, dir=N + ("west" if q == "east" else "east"), icon_state="decorative_diag", ofs_x=32 if q == "east" else -32)]

                def go():
                    U, V = 10 ** 7 + 2, 10 ** 7 + 3
                    r = one(M, o, [me["TransitTube"], atom(p), tree, ("at", (U,)), ("at", (V,)), k("the bump")], {U: lst(), V: lst()})
                    if r is None: return "it panics"
                    g = [show(x) for x in r.env[V][1]]
                    return None if g == want and r.env[U] == lst() else f"the overlays are {[(q['icon_state'], q['dir'], q['ofs_x'], q['ofs_y']) for q in g]}, should be {[(q['icon_state'], q['dir'], q['ofs_x'], q['ofs_y']) for q in want]}"
                ob(("tube", p, str(d)), o, go, f"{p} whose direction is {d and rend(d)}")
                n += 1
        R.count("transit tubes", n, 300)
    R.part("tubes", p_tubes)

    def p_cables():
        """smart cables"""
        o, new = method("SmartCables", "neighborhood_appearance"), [b for b in F.bodies if b.name == "new" and b.path.startswith(MM + "Neighborhood")]
        if len(new) != 1: raise AnchorMissing("Neighborhood::new")
        CB, T, SM = "/obj/structure/cable", "/obj/machinery/power/terminal", "/obj/machinery/power/smes"
        base = show(sprite())
        at = {"North": 1, "West": 3, "East": 5, "South": 7}
        vals = {CB + "/l1": {"cable_layer": text("l1")}, CB + "/two": {"cable_layer": text("l2")}, CB + "/odd": {"cable_layer": num(3)}}
        layer = lambda p: (lambda v: v[3][0][1] if v is not None and v[2] == "String" else "l2")(vals.get(p, {}).get("cable_layer"))
        hoods = [{}]
        hoods += [{d: [CB] for d in ds} for j in range(1, 5) for ds in combinations(at, j)]
        hoods += [dict({d: [CB] for d in ds}, center=c) for ds in (("North",), ("North", "East"), ("South", "East", "West")) for c in (["/obj/structure/grille"], ["/obj/structure/cable_bridge/x"], [T], [SM], ["/obj/machinery/power/apc"], ["/obj/machinery"], ["/mob", "/obj/structure/grille/x"], [CB], ["/obj/structure/grillex"], [SM, T])]
        hoods += [{"North": [CB, other], "East": [other, CB], "center": c} for other in (T, SM, T + "/x", "/mob") for c in ([], [T], [SM], [T, SM], [SM + "/y"])]
        hoods += [{"North": [CB + "/l1"], "South": [CB + "/two"], "East": [CB + "/odd"], "West": ["/mob", CB]}, {"North": [CB + "/l1", CB], "South": ["/mob"], "East": [CB + "x"], "West": [CB + "/l1"]}, {"corners": [CB]}]
        n = 0
        for p in (CB, CB + "/l1", CB + "/two", CB + "/odd", CB + "/multilayer", CB + "/multilayer/x", "/obj/structure", CB + "x"):
            for h in hoods if p == CB else hoods[::3] if p.startswith(CB + "/l") else hoods[:6] + hoods[-3:]:
                fresh(vals)
                cells = [[] for _ in range(9)]
                cells[4] = [p] + h.get("center", [])
                for d, i in at.items(): cells[i] = h.get(d, [])
                for i in (0, 2, 6, 8): cells[i] = h.get("corners", [])
                want = None
                if below(p, CB) and not below(p, CB + "/multilayer"):
                    smes, term = any(below(x, SM) for x in cells[4]), any(below(x, T) for x in cells[4])
                    bits = [b for d, b in (("North", 1), ("South", 2), ("East", 4), ("West", 8)) if not (any(below(x, T if smes else SM) for x in cells[at[d]]) if smes or term else False) and any(below(x, CB) and layer(x) == layer(p) for x in cells[at[d]])]
                    st_ = layer(p) + ("".join(f"-{b}" for b in bits) or "-noconnection")
                    if len(bits) > 1 and any(below(x, y) for x in cells[4] for y in ("/obj/structure/grille", "/obj/structure/cable_bridge", "/obj/machinery/power")): st_ += "-node"
                    want = dict(base, icon_state=st_)

                def go():
                    V = 10 ** 7 + 2
                    hood = one(M, new[0], [("agg", "array", "", tuple(lst(*map(atom, c)) for c in cells), ())]).result
                    r = one(M, o, [me["SmartCables"], atom(p), tree, hood, ("at", (V,)), k("the bump")], {V: lst()})
                    if r is None: return "it panics"
                    g = [show(x) for x in r.env[V][1]], plain(r.result)
                    w = ([want], False) if want else ([], True)
                    return None if g == w else f"its states are {[x['icon_state'] for x in g[0]]} ({'kept' if g[1] else 'replaced'}), should be {[x['icon_state'] for x in w[0]]} ({'kept' if w[1] else 'replaced'})"
                ob(("cable", p, str(sorted(h.items()))), o, go, f"{p} amid {h}")
                n += 1
        R.count("cables", n, 60)
        for b in M.seen: R.saw(b)
    R.part("cables", p_cables)
