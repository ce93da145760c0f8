"""Functions that read bytes one by one, taken as automata: the transition of every state on every byte is read from the MIR, and the automaton is compared with a reference for input of any length."""
import re
from lib import *
from core import Ty
from text import strings, compare

OLD = ("k", "text read before")


def some(x): return ("agg", "core::option::Option", "Some", (x,), ("0",))
NONE = ("agg", "core::option::Option", "None", (), ())


def uses(b):
    """for every block: (locals read before they are written, locals written or dead), the locals whose address is taken"""
    def locs(x, out):
        if isinstance(x, (list, tuple)):
            if len(x) and isinstance(x[0], int) and not isinstance(x[0], bool) and all(y == "*" or isinstance(y, (list, tuple)) for y in x[1:]): out.append(x)
            for y in x: locs(y, out)
        elif isinstance(x, dict):
            for y in x.values(): locs(y, out)
    res, taken = {}, set()
    for i, blk in enumerate(b.blocks):
        use, kill = set(), set()
        def read(x):
            o = []
            locs(x, o)
            for p in o:
                for l in [p[0]] + [e[1] for e in p[1:] if isinstance(e, (list, tuple)) and e[0] == "i"]:
                    if l not in kill: use.add(l)
        for s in blk["s"]:
            if s[0] == "=":
                if s[2][0] in ("ref", "rawptr"): taken.add([x for x in s[2] if isinstance(x, (list, tuple))][0][0])
                read(s[2])
                if len(s[1]) == 1: kill.add(s[1][0])
                else: read([s[1]])
            elif s[0] in ("dead", "live"): kill.add(s[1])
            else: read(s)
        t = blk["t"]
        if t["k"] == "call":
            read([t["a"]])
            if t.get("dst") and len(t["dst"]) == 1: kill.add(t["dst"][0])
        elif t["k"] == "return":
            if 0 not in kill: use.add(0)
        else: read([t.get("d"), t.get("c"), t.get("p")])
        res[i] = (use, kill)
    return res, taken


def live(b):
    """the locals that may be read later, at the start of every block"""
    if "live" in b._c: return b._c["live"]
    u, taken = uses(b)
    succ = {i: [x for x in b.succ(i)] for i in range(len(b.blocks))}
    L = {i: set(u[i][0]) for i in u}
    ch = True
    while ch:
        ch = False
        for i in sorted(u, reverse=True):
            n = set().union(*(L[s] for s in succ[i])) if succ[i] else set()
            n = u[i][0] | (n - u[i][1])
            if not n <= L[i]:
                L[i] |= n
                ch = True
    b._c["live"] = (L, taken)
    return b._c["live"]


def representatives(b, more=b""):
    """bytes that the code cannot tell from all others: it can only compare a byte with the constants it has"""
    got = set(more)

    def walk(x):
        if isinstance(x, dict):
            if "t" in x and "val" in x:
                if re.search(r"\bu8\b|char", Ty(b.crate, x["t"]).s): ints(x["val"])
                return
            for y in x.values(): walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x: walk(y)

    def ints(v):
        if isinstance(v, dict):
            for y in v.values(): ints(y)
        elif isinstance(v, (list, tuple)):
            for y in v: ints(y)
        elif isinstance(v, str): got.update(v.encode())
        elif isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 256: got.add(v)
    for i in b.reachable():
        walk(b.blocks[i]["s"])
        t = b.blocks[i]["t"]
        walk({k: v for k, v in t.items() if k in ("a", "d")})
        if t["k"] == "switch" and Ty(b.crate, t["ty"]).s in ("u8", "char"): got.update(x[0] for x in t["v"] if x[0] < 256)
    ranges = any(s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Lt", "Le", "Gt", "Ge") and any(Ty(b.crate, o[1]["t"]).s in ("u8", "char") for o in s[2][2:4] if o[0] == "k") for i in b.reachable() for s in b.blocks[i]["s"])
    return sorted({y for x in got for y in ((x - 1, x, x + 1) if ranges else (x,)) if 0 <= y < 256} | {1, 113, 200})


class Automaton:
    """b, prepared; reads(call term): it asks for the next byte; seed, env: what is assumed besides; init: the arguments"""
    def __init__(s, b, reader, init, seed=None, env=None, buffers=None):
        s.b, s.init, s.more, s.env = b, init, seed, env
        s.sites = {i for i in b.reachable() if b.blocks[i]["t"]["k"] == "call" and reader(norm_path(b.blocks[i]["t"].get("rfn") or b.blocks[i]["t"].get("fn") or "?"))}
        s.reader = reader
        s.memo = {}

    def go(s, bb, env, byte):
        """from state (bb, env), where the next thing read is byte (None: end of input, "start": nothing is read)"""
        given = [byte == "start"]
        s.phase = ("k", "start" if byte == "start" else "now")

        def seed(t):
            if s.reader(t[1]):
                if given[0]: return None
                given[0] = True
                return NONE if byte is None else some(("k", byte))
            x = s.more(t) if s.more else None
            if x is None: x = strings(t)
            if x is None and named(t, "eq", "ne"):
                c = compare(t)
                x = ("k", c) if c is not None else None
            return x

        def e(t):
            x = s.env(t) if s.env else None
            return x if x is not None else compare(t)
        return [t for t in traces(s.b, visits=20, lists="maps", env=e, seed=seed, init=env, start=bb, stops=s.sites) if t.end in ("return", "panic", "stop")]

    def strip(s, bb, env):
        """without what cannot be read any more"""
        L, taken = live(s.b)
        keep = set(L[bb])
        while True:
            more = {v[0] for k, v in env.items() if isinstance(k, tuple) and k[0] == "r" and k[1] in keep} | {v[1][0] for k, v in env.items() if k in keep and v[0] == "at"}
            if more <= keep: break
            keep |= more
        return {k: v for k, v in env.items() if (k if isinstance(k, int) else k[1] if k[0] in ("r", "n") else None) in keep or isinstance(k, int) and k >= len(s.b.locals) or isinstance(k, tuple) and k[0] not in ("r", "n")}

    def key(s, bb, env): return (bb, tuple(sorted((str(k), str(v)) for k, v in env.items())))

    def buffer(s, env):
        """the local that holds the text read so far"""
        for k, v in env.items():
            if isinstance(k, int) and k < len(s.b.locals) and v[0] == "list" and v[1] and re.search(r"Vec<u8>|string::String", s.b.ty(k).s): return k
        return None


def byte(x):
    while x[0] == "cast": x = x[-1]
    v = x[1] if x[0] == "k" else rend(x)
    if isinstance(v, tuple) and v and v[0] == "char": v = v[1]
    return ord(v) if isinstance(v, str) and len(v) == 1 else v


def text(xs): return "".join(chr(x) if isinstance(x, int) and 32 <= x < 127 else "\\x%02x" % x if isinstance(x, int) else "<%s>" % x for x in xs)


def simulate(R, name, A, ref, effects, result, where, limit=3000, bytes_=range(256), keep=0, bound=lambda r: False):
    """The automaton does what ref does. ref.feed(byte or None): ("more", effects) or ("end", effects, result), ref.buf is the text that both have collected, ref.key() the state."""
    import copy
    todo, seen, n = [], set(), 0

    def arrive(t, r, path):
        bb = t.blocks[-1]
        env = A.strip(bb, t.env)
        k = A.buffer(env)
        if k is not None:
            xs, ys = env[k][1], tuple(r.buf)
            n = min(len(xs), len(ys))
            got, want = [byte(x) for x in xs[:n]], list(ys[:n])
            if got != want: return "the text so far is %s, should be %s" % (text(got), text(want))
            if getattr(r, "fixed", False): n = 0
            cut = max(0, min(n, max(len(xs), len(ys)) - keep))
            if cut > 1 or cut and xs[0] != OLD: env[k], r.buf = ("list", (OLD,) + xs[cut:]), [OLD[1]] + list(ys[cut:])
        elif len(r.buf) > keep + 8: return "the text does not grow: %s should have been added" % text(r.buf)
        key = (A.key(bb, env), r.key(), tuple(r.buf))
        if key not in seen and not bound(r):
            seen.add(key)
            todo.append((bb, env, r, path))
        return None
    bad = []
    if 0 in A.sites: ts = [Trace((), (), None, "stop", (0,), (), A.init)]
    else: ts = A.go(0, A.init, "start")
    if len(ts) != 1 or ts[0].end != "stop": bad.append(("start", "does not begin by reading (%s)" % [(t.end, len(t.conds)) for t in ts][:4]))
    else: arrive(ts[0], ref, ())
    while todo and not bad and len(seen) < limit:
        bb, env, r, path = todo.pop()
        for c in list(bytes_) + [None]:
            n += 1
            q = copy.deepcopy(r)
            want = q.feed(c)
            ts = A.go(bb, env, c)
            p = path + (c,)
            if len(ts) != 1:
                bad.append((p, "is not decided: %s" % [rend(c[0])[:80] for t in ts for c in t.conds][:4]))
                break
            t = ts[0]
            back, eff = None, effects(t)
            if t.end == "stop" and eff and eff[-1][0] == "put back" and (isinstance(eff[-1][1], int) or eff[-1][1] == "nothing"):
                # it is read again
                ts = A.go(t.blocks[-1], t.env, eff[-1][1] if eff[-1][1] != "nothing" else None)
                if len(ts) == 1: t, eff = ts[0], eff[:-1] + effects(ts[0])
            got = ("end" if t.end == "return" else "more" if t.end == "stop" else t.end, eff)
            if got != (want[0], want[1]): bad.append((p, "%s with %s, should be %s with %s" % (got[0], got[1], want[0], want[1])))
            elif got[0] == "end":
                x = result(t)
                if x != want[2]: bad.append((p, "gives %s, should give %s" % (str(x)[:200], str(want[2])[:200])))
            else:
                e = arrive(t, q, p)
                if e: bad.append((p, e))
            if bad: break
    show = lambda p: p if isinstance(p, str) else "".join("<end>" if x is None else chr(x) if 32 <= x < 127 else "\\x%02x" % x for x in p)
    R.ob(("automaton", name), not bad and len(seen) < limit, where, "after %s: %s" % (show(bad[0][0]), bad[0][1]) if bad else "%d states and no end" % len(seen))
    return len(seen), n
