"""Error types: the configurable names are the documented ones, attached where they are raised."""
import os
from lib import *

RULE = """Every constant given to DMError::with_errortype in the workspace is collected from MIR (in the function it is attached in, with
unknown helpers inlined).  The set must equal the list in CONFIGURING.md, non-constant error types are rejected, and each function of
the frozen table still attaches each of its error types at as many sites as before."""
SCOPE = ("dreammaker", "dreamchecker")


def documented(F):
    p = os.path.join(F.repo, "CONFIGURING.md")
    if not os.path.exists(p):
        raise AnchorMissing("CONFIGURING.md not found")
    out, on = set(), False
    for l in open(p):
        if l.startswith("#"):
            on = l.strip() == "### Diagnostics"
        m = re.match(r"\* `([a-z_0-9]+)`", l)
        if on and m:
            out.add(m.group(1))
    return out


def sites(F, R):
    out = {}
    for o in F.bodies:
        if o.crate.name not in SCOPE or is_new(o):
            continue
        if not any(c.name == "with_errortype" for c in o.calls()) and not any(is_new(x) for c in o.calls() for x in F.callee_bodies(c.t)):
            continue
        b = prep(o, thr=False)
        for c in b.calls():
            if c.name == "with_errortype" and c.is_("DMError::with_errortype"):
                t = c.arg(1)
                vals = [const_of(t)] if t[0] == "k" else [const_of(b.dterm(d)) for d in b.reaching(t[1], c.bb)] if t[0] == "var" else [None]
                key = re.sub(r"::\{closure.*", "", o.npath)
                for v in vals:
                    out.setdefault(key, {}).setdefault(v, []).append(c)
                R.saw(o)
    return out


def check(F, R):
    def p_names():
        S = sites(F, R)
        doc = documented(F)
        R.count("documented", len(doc), 35)
        used = {}
        for f, d in S.items():
            for v, cs in d.items():
                used.setdefault(v, []).extend(cs)
        R.count("sites", sum(len(x) for x in used.values()), 40)
        for v, cs in sorted(used.items(), key=str):
            if v is None:
                R.ob("constant", False, cs[0].where(), "the error type is not a constant")
            else:
                R.ob("documented:%s" % v, v in doc, cs[0].where(), "diagnostics are configured under %r, which CONFIGURING.md does not list" % v)
        for v in sorted(doc):
            R.ob("used:%s" % v, v in used, "CONFIGURING.md", "CONFIGURING.md lists %r but no diagnostic carries it" % v)
        want = json.load(open(os.path.join(V, "rules", "errortypes.json")))
        for f, d in sorted(want.items()):
            for v, n in sorted(d.items()):
                got = len(S.get(f, {}).get(v, []))
                R.ob("attached:%s:%s" % (f, v), got >= n, F.fn(f).where(), "%s attaches %r at %d of %d sites" % (f, v, got, n))
        for f, d in sorted(S.items()):
            for v in d:
                if v in {x for q in want.values() for x in q}:
                    R.ob("place:%s:%s" % (f, v), f not in want or v in want[f], d[v][0].where(), "%s now attaches %r, which belongs elsewhere" % (f, v))
    R.part("names", p_names)
