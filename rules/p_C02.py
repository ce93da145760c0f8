"""Sprite sheet addressing: direction order, frame stride, rectangles, canvas layout."""
from lib import *

RULE = """For every (dirs, dir) combination the sprite index is extracted as an affine form of the state's offset; it must be
the BYOND order S N E W SE SW NE NW, injective and inside the direction count.  Frame stride, sheet rectangle arithmetic,
the exported direction order, canvas width and per-frame canvas clearing are decided on canonical terms and CFG paths."""
ORDER = ["South", "North", "East", "West", "Southeast", "Southwest", "Northeast", "Northwest"]
N = {"One": 1, "Four": 4, "Eight": 8}
S = ("arg", 1)


def call(fn, *a): return ("call", fn, tuple(a))


def index_table(F, R):
    o = R.fn("dreammaker::dmi::State::index_of_dir")
    b = prep(o)
    dirs = F.variants("dreammaker::dmi::Dirs")
    ds = F.variants("dreammaker::dmi::Dir")
    R.ob("dirs-variants", sorted(dirs) == sorted(N), "", "direction counts %s" % dirs)
    tab = {}
    dterm = ("fld", S, "dirs")
    for (n, d), ts in enum_table(F, b, {dterm: dirs, ("arg", 2): ds}).items():
        forms = set()
        for t in ts:
            l = linear(t.result)
            off = canon(("fld", S, "offset"))
            c = l.pop(None, 0)
            forms.add((c, tuple(sorted((repr(k), v) for k, v in l.items())), l == {off: 1}))
        if len(forms) != 1:
            raise AnchorMissing("index_of_dir(%s,%s) has %d forms" % (n, d, len(forms)))
        c, _, ok = forms.pop()
        R.ob("index-base:%s:%s" % (n, d), ok, o.where(), "index of %s in a %s-direction state is not offset + constant" % (d, n))
        tab[n, d] = c
    return o, tab


def check(F, R):
    res = {}

    def p_index():
        o, tab = index_table(F, R)
        res["tab"] = tab
        for n, cnt in N.items():
            for i, d in enumerate(ORDER[:cnt]):
                R.ob("index:%s:%s" % (n, d), tab[n, d] == i, o.where(), "direction %s of a %s-direction state is sprite %s, expected %s" % (d, n, tab[n, d], i))
            for d in ORDER[cnt:]:
                R.ob("index-range:%s:%s" % (n, d), 0 <= tab[n, d] < cnt, o.where(), "direction %s of a %s-direction state is sprite %s, outside 0..%d" % (d, n, tab[n, d], cnt))
    R.part("index_of_dir", p_index)

    def p_count():
        o = R.fn("dreammaker::dmi::Dirs::count")
        t = const_table(F, prep(o), {S: list(N)})
        for n in N:
            R.ob("count:%s" % n, t[n] == N[n], o.where(), "Dirs::%s counts %s" % (n, t[n]))
        o = R.fn("dreammaker::dmi::Frames::count")
        for v, ts in enum_table(F, prep(o), {S: ["One", "Count", "Delays"]}).items():
            for t in ts:
                r = canon(t.result)
                exp = {"One": ("k", 1), "Count": ("fld", ("as", S, "Count"), "0"), "Delays": call("alloc::vec::Vec::len", ("fld", ("as", S, "Delays"), "0"))}[v]
                R.ob("frames-count:%s" % v, r == exp, o.where(), "frame count of %s is %s" % (v, show(t.result)))
        o = R.fn("dreammaker::dmi::State::num_sprites")
        for t in traces(prep(o)):
            cd = call("dreammaker::dmi::Dirs::count", ("fld", S, "dirs"))
            cf = call("dreammaker::dmi::Frames::count", ("fld", S, "frames"))
            R.ob("num_sprites", canon(t.result) == canon(("bin", "Mul", cd, cf)), o.where(), "number of sprites is %s" % show(t.result))
    R.part("counts", p_count)

    def p_frame():
        o = R.fn("dreammaker::dmi::State::index_of_frame")
        for t in traces(prep(o)):
            l = linear(t.result)
            cnt = call("dreammaker::dmi::Dirs::count", ("fld", S, "dirs"))
            exp = linear(("bin", "Add", call("dreammaker::dmi::State::index_of_dir", S, ("arg", 2)), ("bin", "Mul", ("arg", 3), cnt)))
            R.ob("frame-stride", l == exp, o.where(), "index of a frame is %s" % show(t.result))
    R.part("index_of_frame", p_frame)

    def rect(o, b, W, H, bw, idx, label):
        for t in traces(b):
            if t.end != "return":
                continue
            r = t.result
            if r[0] == "agg" and r[2] == "Some":
                r = r[3][0]
            if r[0] != "agg" or len(r[3]) != 4:
                continue
            f = [canon(x) for x in r[3]]
            if f[0] == ("k", 0) and f[1] == ("k", 0):
                R.ob("%s:empty" % label, f[2:] == [W, H], o.where(), "a sheet without states is not one whole icon")
                continue
            # the icons-per-row divisor, whatever checked form computes it
            rows = [x for x in subterms(f[0]) if x[0] == "bin" and x[1] == "Rem"]
            ok = False
            msg = show(r)
            if len(rows) == 1:
                ix, per = rows[0][2], rows[0][3]
                ok = f[0] == canon(("bin", "Mul", rows[0], W)) and f[1] == canon(("bin", "Mul", ("bin", "Div", ix, per), H)) and f[2] == W and f[3] == H
                dv = [x for x in subterms(per) if (x[0] == "bin" and x[1] == "Div") or (x[0] == "call" and x[1].endswith("::checked_div"))]
                args = [tuple(x[2:4]) if x[0] == "bin" else x[2] for x in dv]
                ok = ok and (bw, W) in args and idx(ix)
            R.ob("%s:rect" % label, ok, o.where(), "sprite rectangle is %s; expected row-major cells of %s x %s" % (msg, show(W), show(H)))

    def p_rect():
        o = R.fn("dreammaker::dmi::Metadata::rect_of")
        W, H = ("fld", S, "width"), ("fld", S, "height")
        rect(o, prep(o), W, H, ("arg", 2), lambda ix: ix[0] == "call" and ix[1].endswith("State::index_of_frame") and ix[2][1:] == (("arg", 4), ("arg", 5)), "rect_of")
        o = R.fn("dmm_tools::dmi::IconFile::rect_of_index")
        m = ("fld", S, "metadata")
        rect(o, prep(o), ("fld", m, "width"), ("fld", m, "height"), ("fld", ("fld", S, "image"), "width"), lambda ix: ix == ("arg", 2), "rect_of_index")
    R.part("rects", p_rect)

    def p_render():
        o = R.fn("dmm_tools::dmi::render::IconRenderer::ordered_dirs")
        for n, ts in enum_table(F, prep(o), {S: list(N)}).items():
            for t in ts:
                arr = [x for x in subterms(t.result) if x[0] == "agg" and x[1] == "array"]
                v = [e[2] for e in arr[0][3]] if arr else None
                R.ob("export-order:%s" % n, v == ORDER[:N[n]], o.where(), "exported direction order of %s is %s" % (n, v))
        o = R.fn("dmm_tools::dmi::render::IconRenderer::get_canvas")
        md = ("fld", ("fld", S, "source"), "metadata")
        for n, ts in enum_table(F, prep(o), {("arg", 2): list(N)}).items():
            for t in ts:
                c = [x for x in calls_in(t.result) if x[1].endswith("Image::new_rgba")]
                ok = False
                if c:
                    w, h = canon(c[0][2][0]), canon(c[0][2][1])
                    cnt = canon(("bin", "Mul", ("fld", md, "width"), call("dreammaker::dmi::Dirs::count", ("arg", 2))))
                    ok = h == ("fld", md, "height") and (linear(w) == {("fld", md, "width"): N[n]} or w == cnt)
                R.ob("canvas:%s" % n, ok, o.where(), "canvas of a %s-direction state: %s" % (n, show(t.result)))
        o = R.fn("dmm_tools::dmi::render::IconRenderer::render_dirs")
        b = prep(o)
        cs = b.calls_to("Image::composite")
        R.count("composite_calls", len(cs), 1)
        for c in cs:
            pos, rc = canon(c.arg(2)), canon(c.arg(3))
            # position: width * k with k the enumeration index of the same direction element
            ok = pos[0] == "agg" and pos[3][1] == ("k", 0)
            x = pos[3][0] if ok else None
            k = None
            if ok and x[0] == "bin" and x[1] == "Mul":
                k = [y for y in x[2:] if y != canon(("fld", md, "width"))]
                ok = len(k) == 1 and k[0][0] == "fld" and k[0][2] == "0"
            fr = [y for y in calls_in(rc) if y[1].endswith("State::index_of_frame")]
            ok = ok and len(fr) == 1 and fr[0][2][0] == ("arg", 2) and fr[0][2][2] == ("arg", 4)
            ok = ok and fr[0][2][1][0] == "fld" and fr[0][2][1][2] == "1" and fr[0][2][1][1] == k[0][1]
            R.ob("canvas-slot", ok, c.where(), "direction cell drawn at %s from %s" % (show(c.arg(2)), show(c.arg(3))))
        # between two draws of a reused canvas it is cleared
        for fn in ("render_frames", "render_gif"):
            o = R.fn("dmm_tools::dmi::render::IconRenderer::" + fn)
            b = prep(o)
            draws = b.calls_to("IconRenderer::render_dirs")
            R.count("draws:" + fn, len(draws), 1)
            for c in draws:
                clr = [x.bb for x in b.calls_to("Image::clear") if canon(x.arg(0)) == canon(c.arg(2))]
                fresh = [x.bb for x in b.calls_to("IconRenderer::get_canvas")]
                again = b.reach_from([c.target], avoid=set(clr) | set(fresh))
                hit = [d for d in draws if d.bb in again]
                R.ob("clear:%s" % fn, not hit, c.where(), "a frame can be drawn over the previous frame (canvas not cleared in between)")
            # frame ranges: rewind plays forward then backward
            rng = [t for t in b.calls() if t.is_("Iterator::chain")]
            for c in rng:
                g = [x for x in b.guards(c.bb) if canon(x[0]) == ("fld", ("arg", 2), "rewind")]
                R.ob("rewind:%s" % fn, bool(g) and g[0][2] == frozenset([True]), c.where(), "the backward pass is not tied to the rewind setting")
                a, d = canon(c.arg(0)), canon(c.arg(1))
                R.ob("rewind-order:%s" % fn, not [x for x in calls_in(a) if x[1].endswith("rev")] and bool([x for x in calls_in(d) if x[1].endswith("rev")]), c.where(), "forward pass then backward pass expected")
    R.part("render", p_render)

    def p_parse():
        o = R.fn("dreammaker::dmi::parse_metadata")
        b = prep(o)
        # dirs = n -> variant
        seen = {}
        for bb, i, p, r, ln in b.assigns():
            if r[0] == "agg" and r[1][0] == "adt" and r[1][1] == "dreammaker::dmi::Dirs":
                g = [x for x in b.guards(bb) if x[1] == "in" and all(isinstance(v, int) and not isinstance(v, bool) for v in x[2]) and calls_in(x[0])]
                if g:
                    for v in g[-1][2]:
                        seen[v] = r[1][2]
        for n, cnt in N.items():
            R.ob("parse-dirs:%s" % n, seen.get(cnt) == n, o.where(), "metadata 'dirs = %d' is read as %s" % (cnt, seen.get(cnt)))
        R.ob("parse-dirs:extra", set(seen) <= set(N.values()), o.where(), "other direction counts accepted: %s" % sorted(seen))
        # running offset
        st = [(bb, r) for bb, i, p, r, ln in b.assigns() if r[0] == "agg" and r[1][0] == "adt" and r[1][1] == "dreammaker::dmi::State"]
        R.count("state_constructions", len(st), 1)
        for bb, r in st:
            t = b.rterm(r, bb, 10 ** 9)
            off = dict(zip(t[4], t[3]))["offset"]
            R.ob("offset-source", off[0] == "var", o.where(), "offset of a new state is %s" % show(off, b))
            if off[0] != "var":
                continue
            full = b.defs()[0].get(off[1], [])
            incs = []
            for d in full:
                tt = b.dterm(d)
                if canon(tt) == ("k", 0):
                    continue
                incs.append((d[0], tt))
            R.ob("offset-accumulated", len(incs) >= 1, o.where(), "the running sprite offset is never advanced")
            for ib, tt in incs:
                ct = canon(tt)
                cs = {"::".join(x[1].split("::")[-2:]) for x in calls_in(ct)}
                has = any(x[0] == "bin" and x[1] == "Mul" or (x[0] == "call" and x[1].endswith("checked_mul")) for x in subterms(ct))
                ok = (("Frames::count" in cs and "Dirs::count" in cs and has) or "State::num_sprites" in cs) and mentions(ct, lambda x: x == off)
                R.ob("offset-step", ok, "%s:%d" % (o.file, b.blocks[ib]["t"]["ln"]), "running sprite offset advances by %s" % show(tt, b))
            # every finished state that is pushed has advanced the offset first
            for c in b.calls_to("Vec::push"):
                if canon(c.arg(0))[-1] == "states":
                    ok = all(any(b.dominates(ib, c.bb) for ib, _ in incs) for _ in [0])
                    after = b.exit_avoiding([c.bb], set(ib for ib, _ in incs) | {x for x, _ in st}) is None or ok
                    R.ob("offset-before-push", ok or after, c.where(), "a finished state is stored without advancing the running sprite offset")
    R.part("parse", p_parse)
