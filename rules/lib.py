"""Shared rule helpers: obligations, canonical terms, decision tables, the vocabulary-based inliner."""
import json, os, re, sys, time
from core import *
from xform import *

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Rule:
    """collects the obligations of one property"""

    def __init__(self, F, pid):
        self.F, self.pid = F, pid
        self.obs = []          # (key, ok, where, msg)
        self.functions = set()
        self.counts = {}
        self.samples = []
        self.notes = []

    def ob(self, key, ok, where="", msg=""):
        self.obs.append((key, bool(ok), where, msg))
        if ok and len(self.samples) < 12:
            self.samples.append("%s%s" % (key, (" @ " + where) if where else ""))
        return bool(ok)

    def fn(self, path):
        b = self.F.fn(path)
        self.functions.add(b.path)
        return b

    def saw(self, b):
        self.functions.add(b.path)
        return b

    def count(self, what, n, floor=None):
        self.counts[what] = n
        if floor is not None:
            self.ob("floor:%s" % what, n >= floor, "", "only %d %s found, at least %d expected: the rule lost its subject" % (n, what, floor))

    def part(self, name, f):
        """run one independent part of a rule; a missing anchor fails that part closed"""
        if os.environ.get("RULE_PART") and name not in os.environ["RULE_PART"].split(",") and os.environ.get("RULE_DEBUG"): return
        try:
            f()
        except AnchorMissing as e:
            self.ob("anchor:%s" % name, False, "", "cannot be decided any more: %s" % e)
        except TooBig as e:
            self.ob("anchor:%s" % name, False, "", "analysis bound exceeded: %s" % e)
        except (IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
            if os.environ.get("RULE_DEBUG"):
                raise
            self.ob("anchor:%s" % name, False, "", "the analysed construct has a shape the rule does not understand (%s: %s)" % (type(e).__name__, e))


# ------------------------------------------------------------------ vocabulary
_vocab = None


def vocab():
    global _vocab
    if _vocab is None:
        p = os.path.join(V, "rules", "vocab.txt")
        _vocab = set(l.rstrip("\n") for l in open(p)) if os.path.exists(p) else None
    return _vocab


def is_new(b):
    """a helper that is not part of the known vocabulary (extracted since): analysed by inlining it"""
    v = vocab()
    if v is None or b.k not in ("fn",):
        return False
    return b.npath not in v


def prep(b, closures=False, also=(), thr=True, desugar=2, loops=False):
    """the body with unknown helpers inlined (and optionally closures spliced in, iterator adapters turned into loops) and branches threaded"""
    key = ("prep", closures, tuple(sorted(also)), thr, desugar, loops)
    if key in b._c:
        return b._c[key]
    al = set(also)
    x = inline(b, lambda c: is_new(c) or c.name in al or c.npath in al, expand_closures=closures, desugar=desugar, loops=loops)
    if thr:
        x = threaded(x)
    b._c[key] = x
    return x


# ------------------------------------------------------------------ canonical terms
COMM = {"Add", "Mul", "Eq", "Ne", "BitAnd", "BitOr", "BitXor"}
FLIP = {"Gt": "Lt", "Ge": "Le"}
CALLBIN = {"core::cmp::PartialOrd::lt": "Lt", "core::cmp::PartialOrd::le": "Le", "core::cmp::PartialOrd::gt": "Gt", "core::cmp::PartialOrd::ge": "Ge",
           "core::cmp::PartialEq::eq": "Eq", "core::cmp::PartialEq::ne": "Ne",
           "core::ops::arith::Add::add": "Add", "core::ops::arith::Sub::sub": "Sub", "core::ops::arith::Mul::mul": "Mul",
           "core::ops::bit::BitAnd::bitand": "BitAnd", "core::ops::bit::BitOr::bitor": "BitOr"}
CALLTAIL = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "eq": "Eq", "ne": "Ne"}


CHECKED = {"checked_" + o.lower(): o for o in ("Add", "Sub", "Mul", "Div", "Rem")}


def canon(t, keep_casts=False):
    """canonical form: call sites dropped, comparisons oriented, commutative operands sorted, casts dropped"""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    C = lambda x: canon(x, keep_casts)
    if k == "fld" and t[2] == "0" and t[1][0] == "as" and t[1][2] in ("Continue", "Some", "Ok"):
        x = t[1][1]
        if x[0] == "call" and x[1].endswith("Try>::branch"):
            x = x[2][0]
        if x[0] == "call" and len(x[2]) == 2:
            op = CHECKED.get(x[1].split("::")[-1])
            if op:
                return C(("bin", op, x[2][0], x[2][1]))
    if k == "cast":
        return C(t[2]) if not keep_casts else ("cast", t[1], C(t[2]))
    if k == "call":
        a = tuple(C(x) for x in t[2])
        fn = t[1]
        tail = fn.split("::")[-1]
        if len(a) == 2 and tail in CALLTAIL and ("PartialOrd" in fn or "PartialEq" in fn or "traits::" in fn):
            return canon(("bin", CALLTAIL[tail], a[0], a[1]), keep_casts)
        if len(a) == 2 and fn in CALLBIN:
            return canon(("bin", CALLBIN[fn], a[0], a[1]), keep_casts)
        return ("call", fn, a)
    if k == "bin":
        op, a, b = t[1], C(t[2]), C(t[3])
        if op in FLIP:
            op, a, b = FLIP[op], b, a
        if op in COMM and repr(b) < repr(a):
            a, b = b, a
        return ("bin", op, a, b)
    if k == "un":
        x = C(t[2])
        if t[1] == "Not" and x[0] == "bin" and x[1] in ("Eq", "Ne"):
            return canon(("bin", "Ne" if x[1] == "Eq" else "Eq", x[2], x[3]))
        if t[1] == "Not" and x[0] == "bin" and x[1] in ("Lt", "Le"):
            return canon(("bin", "Le" if x[1] == "Lt" else "Lt", x[3], x[2]))
        if t[1] == "Not" and x[0] == "un" and x[1] == "Not":
            return x[2]
        return ("un", t[1], x)
    return tuple(C(x) if isinstance(x, tuple) else x for x in t)


def linear(t):
    """affine normal form {atom: coeff} (None key = constant)"""
    t = canon(t)
    out = {}

    def add(t, c):
        if t[0] == "bin" and t[1] in ("Add", "AddUnchecked"):
            add(t[2], c); add(t[3], c)
        elif t[0] == "bin" and t[1] in ("Sub", "SubUnchecked"):
            add(t[2], c); add(t[3], -c)
        elif t[0] == "un" and t[1] == "Neg":
            add(t[2], -c)
        elif t[0] == "bin" and t[1] == "Mul" and t[2][0] == "k" and isinstance(t[2][1], int):
            add(t[3], c * t[2][1])
        elif t[0] == "bin" and t[1] == "Mul" and t[3][0] == "k" and isinstance(t[3][1], int):
            add(t[2], c * t[3][1])
        elif t[0] == "k" and isinstance(t[1], int) and not isinstance(t[1], bool):
            out[None] = out.get(None, 0) + c * t[1]
        else:
            out[t] = out.get(t, 0) + c
    add(t, 1)
    return {k: v for k, v in out.items() if v}


def const_of(t):
    """term -> plain constant (enum variants by name) or None"""
    if t is None: return None
    if t[0] == "k": return t[1]
    if t[0] == "agg" and t[1] not in ("closure",):
        f = tuple(const_of(x) for x in t[3])
        if any(x is None for x in f): return None
        if t[1] in ("tuple", "array"): return f
        if not f: return t[2]
        return (t[2],) + f
    if t[0] == "un" and t[1] == "Neg":
        x = const_of(t[2])
        return -x if isinstance(x, int) else None
    if t[0] == "cast":
        return const_of(t[2])
    return None


def enum_table(F, b, argdom):
    """decision table of a small function: for every combination of argument variants/values the result term.
    argdom: {term: [values]};  result: {(v1, v2..): [Trace...]} with traces whose conditions admit the combination"""
    import itertools
    trs = [t for t in traces(b) if t.end in ("return", "panic")]
    keys = list(argdom)
    out = {}
    for combo in itertools.product(*[argdom[k] for k in keys]):
        env = dict(zip(keys, combo))
        fit = []
        for t in trs:
            ok = True
            for c in t.conds:
                if c[0] in env:
                    v = env[c[0]]
                    if (c[1] == "in") != (v in c[2]):
                        ok = False
                        break
            if ok:
                fit.append(t)
        out[combo if len(combo) > 1 else combo[0]] = fit
    return out


def const_table(F, b, argdom):
    """like enum_table, but each entry must be a single constant; raises AnchorMissing otherwise"""
    out = {}
    for k, ts in enum_table(F, b, argdom).items():
        vals = set()
        for t in ts:
            v = const_of(t.result) if t.end == "return" else "panic"
            if v is None:
                raise AnchorMissing("%s: result for %s is not a table constant (%s)" % (b.path, k, show(t.result, b)))
            vals.add(v)
        if len(vals) != 1:
            raise AnchorMissing("%s: result for %s not unique: %s" % (b.path, k, sorted(map(str, vals))))
        out[k] = vals.pop()
    return out


def guard_has(body, bb, pred):
    """does some guard that holds on every path to bb satisfy pred(term, mode, values)?"""
    return any(pred(*g) for g in body.guards(bb))


def calls_with_new(F, b, closures=True):
    return prep(b, closures=closures)


# ------------------------------------------------------------------ paths under assumptions
ORDINAL = {}   # enum variant name -> ordinal, for enums a rule knows to be ordered (set by the rule)


def fit(trs, env, ends=("return", "panic")):
    """the traces whose branch conditions agree with env (undecided conditions are admitted)"""
    out = []
    for t in trs:
        if t.end not in ends:
            continue
        ok = True
        for c in t.conds:
            v = evaluate(c[0], env)
            if v is not None and (c[1] == "in") != (v in c[2]):
                ok = False
                break
        if ok:
            out.append(t)
    return out


_SAME = {v: v for v in ("Some", "None", "Ok", "Err")}
WRAP = {"branch": {"Some": "Continue", "Ok": "Continue", "None": "Break", "Err": "Break"},
        "ok_or": {"Some": "Ok", "None": "Err"}, "ok_or_else": {"Some": "Ok", "None": "Err"},
        "ok": {"Ok": "Some", "Err": "None"}, "err": {"Ok": "None", "Err": "Some"}}
for _n in ("map_err", "map", "as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied"):
    WRAP[_n] = _SAME


ASCII = {"is_ascii_lowercase": lambda x: 97 <= x <= 122, "is_ascii_uppercase": lambda x: 65 <= x <= 90, "is_ascii_digit": lambda x: 48 <= x <= 57,
         "is_ascii_alphabetic": lambda x: 97 <= x <= 122 or 65 <= x <= 90,
         "is_ascii_alphanumeric": lambda x: 97 <= x <= 122 or 65 <= x <= 90 or 48 <= x <= 57}


def evaluate(t, env):
    """concrete value of a term under env(term) -> value or None (unknown)"""
    v = env(t)
    if v is not None:
        return v
    k = t[0]
    if k == "k":
        return t[1]
    if k == "cast":
        return evaluate(t[2], env)
    if k == "un" and t[1] == "Not":
        x = evaluate(t[2], env)
        return (not x) if isinstance(x, bool) else None
    if k == "agg" and t[1] not in ("closure", "tuple", "array") and not t[3]:
        return t[2]
    op = a = b = None
    if k == "bin":
        op, a, b = t[1], t[2], t[3]
    elif k == "call" and t[2] and t[1].split("::")[-1] in WRAP:
        # Option/Result adapters: the variant of the result is decided by the variant of the operand
        x = evaluate(t[2][0], env)
        return WRAP[t[1].split("::")[-1]].get(x) if isinstance(x, str) else None
    elif k == "call" and len(t[2]) == 2:
        op = CALLBIN.get(t[1])
        tail = t[1].split("::")[-1]
        if op is None and tail in CALLTAIL and ("PartialOrd" in t[1] or "PartialEq" in t[1] or "traits::" in t[1]):
            op = CALLTAIL[tail]
        if op is None and tail == "contains":
            x = evaluate(t[2][1], env)
            if t[2][0][0] == "agg" and x is not None:
                vals = [evaluate(y, env) for y in t[2][0][3]]
                if all(y is not None for y in vals):
                    return x in vals
        a, b = t[2]
    elif k == "call" and t[1].split("::")[-1] in ("is_some", "is_none", "is_ok", "is_err") and len(t[2]) == 1:
        x = evaluate(t[2][0], env)
        tail = t[1].split("::")[-1]
        if isinstance(x, str):
            return x == {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[tail]
    elif k == "call" and len(t[2]) == 1 and t[1].split("::")[-1] in ASCII:
        x = evaluate(t[2][0], env)
        if isinstance(x, str) and len(x) == 1: x = ord(x)
        return ASCII[t[1].split("::")[-1]](x) if isinstance(x, int) and not isinstance(x, bool) else None
    if op in ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr"):
        x, y = evaluate(a, env), evaluate(b, env)
        if all(isinstance(z, int) and not isinstance(z, bool) for z in (x, y)):
            return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x // y if y > 0 and x >= 0 else None,
                    "Rem": lambda: x % y if y > 0 and x >= 0 else None, "Shl": lambda: x << y if 0 <= y < 64 else None, "Shr": lambda: x >> y if 0 <= y < 64 else None}[op]()
        return None
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "BitAnd", "BitOr"):
        x, y = evaluate(a, env), evaluate(b, env)
        if op in ("BitAnd", "BitOr") and isinstance(x, bool) and isinstance(y, bool):
            return (x and y) if op == "BitAnd" else (x or y)
        if x is None or y is None:
            return None
        if op in ("BitAnd", "BitOr") and isinstance(x, int) and isinstance(y, int):
            return (x & y) if op == "BitAnd" else (x | y)
        if op in ("Lt", "Le", "Gt", "Ge") and x in ORDINAL and y in ORDINAL:
            x, y = ORDINAL[x], ORDINAL[y]
        try:
            return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(op)
        except TypeError:
            return None
    return None


def switch_edges(b, u):
    """[(target, value or frozenset of values, is_otherwise)] of the switch at u with its term; enum variants by name"""
    t = b.blocks[u]["t"]
    term = b.term(t["d"], u)
    vals = [v for v, _ in t["v"]]
    ty = Ty(b.crate, t["ty"])
    if term[0] == "discr":
        names = b.discr_names(u)
        if names:
            es = [(x, frozenset([names.get(v, v)])) for v, x in t["v"]]
            rest = frozenset(n for d, n in names.items() if d not in vals)
            if rest:
                es.append((t["o"], rest))
            return term[1], es
        return term, [(x, frozenset([v])) for v, x in t["v"]] + [(t["o"], ("not", frozenset(vals)))]
    if ty.k == "bool":
        es = [(x, frozenset([bool(v)])) for v, x in t["v"]]
        rest = frozenset({True, False} - {bool(v) for v in vals})
        if rest:
            es.append((t["o"], rest))
        return term, es
    conv = chr if ty.k == "char" else (lambda v: v)
    return term, [(x, frozenset([conv(v)])) for v, x in t["v"]] + [(t["o"], ("not", frozenset(conv(v) for v in vals)))]


def assume(b, env):
    """edges that contradict env: env(term) -> value/None for switch terms (enum: variant name)"""
    cut = set()
    ed = b._c.get("swedges")
    if ed is None:
        ed = b._c["swedges"] = [(u,) + switch_edges(b, u) for u in sorted(b.reachable()) if b.blocks[u]["t"]["k"] == "switch"]
    for u, term, es in ed:
        v = evaluate(term, env)
        if v is None:
            continue
        keep, drop = set(), set()
        for x, s in es:
            if isinstance(s, tuple):
                ok = v not in s[1]
            else:
                ok = v in s
            (keep if ok else drop).add(x)
        for x in drop - keep:
            cut.add((u, x))
    return cut


def find_path(b, starts, ends, avoid=(), cuts=()):
    """a block path from starts to ends avoiding blocks/edges, or None"""
    prev = {s: None for s in starts if s not in avoid}
    work = list(prev)
    while work:
        x = work.pop()
        if x in ends:
            out = [x]
            while prev[out[-1]] is not None:
                out.append(prev[out[-1]])
            return out[::-1]
        for s in b.succ(x):
            if s in prev or s in avoid or (x, s) in cuts or b._dead_end(s):
                continue
            prev[s] = x
            work.append(s)
    return None


def path_where(b, p):
    for x in reversed(p or []):
        l = b.blocks[x]["t"].get("ln")
        if l:
            return "%s:%d" % (b.srcfile(x), l)
    return b.where()


def variant_entries(b, pred, variant):
    """targets of the switch edges that establish pred(term) == variant"""
    out = []
    for u in sorted(b.reachable()):
        if b.blocks[u]["t"]["k"] != "switch":
            continue
        term, es = switch_edges(b, u)
        if pred(term):
            for x, s in es:
                if not isinstance(s, tuple) and variant in s:
                    out.append(x)
    return out


# ------------------------------------------------------------------ matchers and path obligations
PASS = {"deref", "deref_mut", "as_str", "as_ref", "as_mut", "borrow", "borrow_mut", "clone", "to_owned", "as_slice", "as_bytes", "as_deref", "to_string", "into",
        "from", "to_string_lossy", "must_use", "cloned", "copied", "iter", "iter_mut", "into_iter", "as_mut_slice", "as_path", "as_deref_mut", "to_vec", "into_boxed_slice", "index", "get_mut"}


def base(t, extra=()):
    """drop value-preserving wrapper calls and casts"""
    while True:
        if t[0] == "call" and len(t[2]) == 1 and (t[1].split("::")[-1] in PASS or t[1].split("::")[-1] in extra):
            t = t[2][0]
        elif t[0] == "cast":
            t = t[2]
        else:
            return t


def M(spec, *args):
    """term predicate.  M("call:Name", argspec...), M("fld:name", basespec), M("any:fieldname") = mentions that field, or a callable"""
    if callable(spec):
        return spec
    if spec is None:
        return lambda t: True
    kind, _, name = spec.partition(":")
    subs = [M(a) if not isinstance(a, tuple) or callable(a) else M(*a) for a in args]
    if kind == "call":
        def f(t):
            t = base(t) if t[0] == "cast" else t
            return t[0] == "call" and (t[1] == name or t[1].endswith("::" + name) or t[1].endswith(">::" + name)) and len(t[2]) >= len(subs) and all(s(x) for s, x in zip(subs, t[2]))
        return f
    if kind == "fld":
        return lambda t: (lambda t: t[0] == "fld" and t[2] == name and (not subs or subs[0](t[1])))(base(t))
    if kind == "any":
        return lambda t: mentions(t, lambda x: x[0] == "fld" and x[2] == name)
    if kind == "has":
        return lambda t: mentions(t, lambda x: x[0] == "call" and x[1].split("::")[-1] == name)
    if kind == "str":
        return lambda t: base(t) == ("k", name)
    raise ValueError(spec)


def env_of(*pairs):
    """assumptions: (predicate, value) -> env function for assume()/evaluate()"""
    ps = [(M(p) if not isinstance(p, tuple) else M(*p), v) for p, v in pairs]

    def env(t):
        for p, v in ps:
            if p(t):
                return v
        return None
    return env


def is_term(x):
    x = base(x)
    return lambda t: base(t) == x


def some_of(t):
    return fld(down(t, "Some"), "0", 0)


class Paths:
    """path obligations in one body under assumptions"""

    def __init__(self, R, b, name=None):
        self.R, self.b, self.name = R, b, name or b.name

    def must(self, key, starts, events, env=None, ends=None, msg="", dead=()):
        """every path starts -> ends (default: returns) that agrees with env passes an event block"""
        b = self.b
        events = set(events)
        if not events:
            return self.R.ob(key, False, b.where(), msg + " (it is never done)")
        cuts = assume(b, env) if env else set()
        p = find_path(b, list(starts), set(ends) if ends is not None else set(b.returns()), events | set(dead), cuts)
        return self.R.ob(key, p is None, path_where(b, p), msg)

    def never(self, key, starts, events, env=None, msg="", avoid=()):
        b = self.b
        cuts = assume(b, env) if env else set()
        p = find_path(b, list(starts), set(events), set(avoid), cuts)
        return self.R.ob(key, p is None, path_where(b, p), msg)

    def can(self, key, starts, events, env=None, msg="", avoid=()):
        b = self.b
        cuts = assume(b, env) if env else set()
        p = find_path(b, list(starts), set(events), set(avoid), cuts)
        return self.R.ob(key, p is not None, b.where(), msg)


def calls_where(b, name, *argspecs):
    """Call objects named `name` (last path segment or suffix) whose arguments match"""
    ms = [M(a) if not isinstance(a, tuple) else M(*a) for a in argspecs]
    out = []
    for c in b.calls():
        if c.name == name or c.is_(name):
            a = c.args()
            if len(a) >= len(ms) and all(m(x) for m, x in zip(ms, a)):
                out.append(c)
    return out


def field_writes(b, name):
    """[(block, stmt index, term)] assignments to a place ending in field `name`"""
    out = []
    for bb in sorted(b.reachable()):
        for i, s in enumerate(b.blocks[bb]["s"]):
            if s[0] == "=" and len(s[1]) > 1:
                last = [e for e in s[1][1:] if e != "*"]
                if last and last[-1][0] == "f" and last[-1][1] == name:
                    out.append((bb, i, b.rterm(s[2], bb, i)))
        t = b.blocks[bb]["t"]
        if t["k"] == "call" and len(t["dst"]) > 1:
            last = [e for e in t["dst"][1:] if e != "*"]
            if last and last[-1][0] == "f" and last[-1][1] == name:
                out.append((bb, 10 ** 9, b.cterm(t, bb, 0)))
    return out


def successors_of_call(c):
    return [c.target] if c.target is not None else []


def registrations(b, cls=None):
    """calls that register a diagnostic (optionally of error type cls)"""
    out = []
    for c in b.calls():
        if c.name in ("register", "register_error") and (c.is_("DMError::register") or c.is_("Context::register_error")):
            t = c.arg(0) if c.name == "register" else c.arg(1)
            if cls is None or mentions(t, lambda x: x == ("k", cls)) or (t[0] == "var" and any(mentions(b.dterm(d), lambda x: x == ("k", cls)) for d in b.reaching(t[1], c.bb) if d[0] != "arg")):
                out.append(c)
    return out


def enforce(P, key, starts, events, conds, extra=(), msg="", ends=None, nmsg=""):
    """under all conditions (pred, value, contrary) every path passes an event; under each single contrary none is reachable"""
    ev = [e.bb if isinstance(e, Call) else e for e in events]
    base_ = list(extra)
    P.must(key, starts, ev, env_of(*base_, *[(p, v) for p, v, _ in conds]), ends=ends, msg=msg)
    for i, (p, v, n) in enumerate(conds):
        if n is None:
            continue
        P.never("%s:not%d" % (key, i), starts, ev, env_of(*base_, (p, n)), msg=(nmsg or msg.replace("is not reported on some path", "is reported")) + " although condition %d does not hold" % i, avoid=set(ends or ()))


def dom_guarded(b, bb, pred):
    return any(pred(*g) for g in b.guards(bb))


def defd(b, pred):
    """predicate: the term satisfies pred, or is a variable one of whose definitions does"""
    pred = M(pred) if not isinstance(pred, tuple) else M(*pred)

    def f(t):
        if pred(t):
            return True
        return t[0] == "var" and any(pred(b.dterm(d)) for d in b.defs()[0].get(t[1], []))
    return f


# ------------------------------------------------------------------ emitted text
def fmt_parts(t):
    """a fmt::Arguments term as a list of literal strings and ("hole", term, trait) (None when it cannot be read)"""
    t = base(t)
    if t[0] == "call" and t[1].endswith("Arguments::from_str"):
        c = const_of(t[2][0])
        return [c] if isinstance(c, str) else None
    if t[0] == "call" and t[1].endswith("Arguments::new") and len(t[2]) == 2:
        tpl, args = t[2]
        if tpl[0] != "agg" or args[0] != "agg":
            tb = const_of(tpl)
            if not isinstance(tb, (bytes, list, tuple)) or args[0] != "agg": return None
            data = list(tb)
        else:
            data = [const_of(x) for x in tpl[3]]
        if any(not isinstance(x, int) for x in data):
            return None
        out, i, ai = [], 0, 0
        while i < len(data):
            n = data[i]; i += 1
            if n == 0: break
            if n < 0x80:
                out.append(bytes(data[i:i + n]).decode("utf8")); i += n
            elif n == 0x80:
                ln = data[i] | data[i + 1] << 8
                out.append(bytes(data[i + 2:i + 2 + ln]).decode("utf8")); i += 2 + ln
            else:
                opts = []
                for bit, w in ((1, 4), (2, 2), (4, 2)):
                    if n & bit:
                        opts.append((bit, tuple(data[i:i + w]))); i += w
                if n & 8:
                    ai = data[i] | data[i + 1] << 8; i += 2
                if ai >= len(args[3]): return None
                a = args[3][ai]; ai += 1
                if a[0] == "call" and a[2]:
                    tr = a[1].split("::")[-1].replace("new_", "")
                    v = a[2][0]
                    c = const_of(v)
                    out.append(c if isinstance(c, str) and tr == "display" and not opts else ("hole", v, tr if not opts else (tr, tuple(opts))))
                else:
                    out.append(("hole", a, "?"))
        return out
    return None


def emitted(fn, args):
    """what a call writes: list of str / hole, [] for nothing, None when not a writing call"""
    tail = fn.split("::")[-1]
    if tail in ("write_fmt", "print", "_print", "_eprint") and args:
        p = fmt_parts(args[-1])
        return p if p is not None else [("hole", args[-1], "args")]
    if tail in ("write_str", "push_str", "write_all", "extend_from_slice") and len(args) == 2:
        c = const_of(args[1])
        if isinstance(c, bytes): c = c.decode("latin1")
        return [c] if isinstance(c, str) else [("hole", args[1], "display")]
    if tail in ("write_char", "push") and len(args) == 2:
        c = const_of(args[1])
        return [c] if isinstance(c, str) else [("hole", args[1], "display")]
    if tail == "fmt" and len(args) == 2 and "Display" in fn:
        return [("hole", args[0], "display")]
    return None


class NFA:
    def __init__(self):
        self.n, self.eps, self.tr = 0, {}, {}

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b): self.eps.setdefault(a, set()).add(b)
    def t(self, a, sym, b): self.tr.setdefault(a, []).append((sym, b))

    def closure(self, ss):
        out, work = set(ss), list(ss)
        while work:
            x = work.pop()
            for y in self.eps.get(x, ()):
                if y not in out: out.add(y); work.append(y)
        return frozenset(out)

    def chain(self, a, syms):
        for s in syms:
            b = self.new(); self.t(a, s, b); a = b
        return a


def symbols(parts, label):
    out = []
    for p in parts:
        if isinstance(p, str): out.extend(p)
        else: out.append("<%s>" % label(p[1], p[2]))
    return out


def emission(b, label, starts=(0,), stop=(), only=None):
    """NFA of the text written on the non-error paths of a body; accepting = normal return"""
    N = NFA()
    bad = error_exits(b)
    st = {}
    acc = set()

    def node(bb):
        if bb not in st: st[bb] = N.new()
        return st[bb]
    s0 = N.new()
    for s in starts: N.e(s0, node(s))
    for bb in sorted(b.reachable()):
        if bb in bad: continue
        a = node(bb)
        t = b.blocks[bb]["t"]
        if t["k"] == "call":
            c = Call(b, bb, t)
            if only is None or only(c):
                em = emitted(c.fn, tuple(c.args()))
                if em: a = N.chain(a, symbols(em, label))
        if t["k"] == "return" or bb in stop:
            acc.add(a)
            continue
        for x in b.succ(bb):
            if x not in bad and not b._dead_end(x): N.e(a, node(x))
    return N, s0, acc


def error_exits(b):
    """blocks from which only error returns are reachable"""
    err = set()
    for bb in b.reachable():
        for i, s in enumerate(b.blocks[bb]["s"]):
            if s[0] == "=" and s[1] == [0]:
                t = b.rterm(s[2], bb, i)
                if t[0] == "agg" and t[2] == "Err": err.add(bb)
        t = b.blocks[bb]["t"]
        if t["k"] == "call" and t["dst"] == [0] and (t.get("fn") or "").endswith("from_residual"): err.add(bb)
    good = set(b.returns())
    # backwards from returns, not through err blocks
    ok, work = set(), [r for r in good if r not in err]
    while work:
        x = work.pop()
        if x in ok: continue
        ok.add(x)
        for p in b.preds().get(x, ()):
            if p not in err and p not in ok: work.append(p)
    return set(b.reachable()) - ok


def regex(N, a, r):
    """thompson: r is str (literal), ("hole", name), ("seq", ..), ("star", r), ("opt", r), ("alt", ..)"""
    if isinstance(r, str): return N.chain(a, r)
    k = r[0]
    if k == "hole": return N.chain(a, ["<%s>" % r[1]])
    if k == "seq":
        for x in r[1:]: a = regex(N, a, x)
        return a
    if k == "star":
        h = N.new(); N.e(a, h); z = regex(N, h, r[1]); N.e(z, h)
        o = N.new(); N.e(h, o)
        return o
    if k == "opt":
        z = regex(N, a, r[1]); o = N.new(); N.e(z, o); N.e(a, o)
        return o
    if k == "alt":
        o = N.new()
        for x in r[1:]: N.e(regex(N, a, x), o)
        return o
    raise ValueError(r)


def lang_diff(A, B):
    """None when two (NFA, start, accepting) have the same language, else (prefix, symbol or end, which side)"""
    (N1, s1, a1), (N2, s2, a2) = A, B
    x0 = (N1.closure({s1}), N2.closure({s2}))
    seen, work = {x0}, [(x0, ())]

    def step(N, S):
        out = {}
        for s in S:
            for sym, y in N.tr.get(s, ()): out.setdefault(sym, set()).add(y)
        return out
    while work:
        nxt = []
        for (p, q), w in work:
            f1, f2 = bool(p & a1), bool(q & a2)
            t1, t2 = step(N1, p), step(N2, q)
            # dead-state tolerant comparison: a symbol leading nowhere is still a difference
            if f1 != f2: return "".join(w), "end", 1 if f1 else 2
            for sym in set(t1) | set(t2):
                if sym not in t1: return "".join(w), sym, 2
                if sym not in t2: return "".join(w), sym, 1
                z = (N1.closure(t1[sym]), N2.closure(t2[sym]))
                if z not in seen:
                    seen.add(z); nxt.append((z, w + (sym,)))
        work = nxt
    return None


# ------------------------------------------------------------------ loop elements
def elems(b, t, depth=0):
    """(next(it) as Some).0 -> ("elem", what is iterated); enumerate() and index loops -> ("index", X) / ("elem", X)"""
    if not isinstance(t, tuple) or depth > 60:
        return t
    if t and t[0] == "call" and len(t[2]) == 1 and t[1].split("::")[-1] in ("iter", "into_iter", "iter_mut", "copied", "cloned", "by_ref"):
        return elems(b, t[2][0], depth + 1)
    t = tuple(elems(b, x, depth + 1) if isinstance(x, tuple) else x for x in t)
    if t and t[0] == "fld" and t[2] == "0" and t[1][0] == "as" and t[1][1][0] == "call" and t[1][1][1].split("::")[-1] == "next" and len(t[1][1][2]) == 1:
        v = t[1][1][2][0]
        src = v
        if v[0] == "var":
            ds = [d for d in b.defs()[0].get(v[1], [])]
            if len(ds) == 1:
                src = elems(b, b.dterm(ds[0]), depth + 1)
        if src[0] == "agg" and str(src[1]).endswith("Range") and len(src[3]) == 2 and src[3][0] == ("k", 0):
            n = base(src[3][1])
            if n[0] == "call" and n[1].split("::")[-1] == "len":
                return ("index", n[2][0])
            return ("index", src)
        return ("elem", src)
    if t and t[0] == "fld" and t[1][0] == "elem" and t[1][1][0] == "call" and t[1][1][1].split("::")[-1] == "enumerate":
        x = t[1][1][2][0]
        return ("index", x) if t[2] == "0" else ("elem", x)
    if t and t[0] == "idx" and t[2] == ("index", t[1]):
        return ("elem", t[1])
    return t


def chain_level(t, step, root):
    """n when the term is step applied n times to root (Option payloads unwrapped), else None"""
    t = base(t)
    if t == root: return 0
    if t[0] == "fld" and t[2] == "0" and t[1][0] == "as" and t[1][2] == "Some": return chain_level(t[1][1], step, root)
    if t[0] == "agg" and t[2] == "Some" and len(t[3]) == 1: return chain_level(t[3][0], step, root)
    if t[0] == "call" and t[1].split("::")[-1] == step and t[2]:
        n = chain_level(t[2][0], step, root)
        return None if n is None else n + 1
    if t[0] == "call" and len(t[2]) == 1 and t[1].split("::")[-1] in ("clone", "deref", "borrow", "as_ref"): return chain_level(t[2][0], step, root)
    return None


# ---- canonical text of terms ------------------------------------------------
def tail(t): return t[1].split("::")[-1] if t[0] == "call" else ""


def subterm(t, p):
    if p(t): return t
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            for y in ([x] if isinstance(x[0], str) else x):
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    r = subterm(y, p)
                    if r: return r
    return None


def parts_where(t, p):
    """every part of a term for which p holds, outermost first"""
    out = [t] if p(t) else []
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            for y in ([x] if isinstance(x[0], str) else x):
                if isinstance(y, tuple) and y and isinstance(y[0], str): out += parts_where(y, p)
    return out


def loopidx(t):
    n = subterm(t, lambda z: z[0] == "call" and tail(z) == "next")
    return n[3] % 10 if n else None


def rend(t):
    """a canonical text of a term: no call ids, no value-preserving wrappers"""
    t = base(t, ("unwrap", "must_use", "deref", "deref_mut"))
    k = t[0]
    if k == "arg": return "#%d" % t[1]
    if k == "k": return repr(t[1])
    if k == "fld":
        if t[1][0] == "as":
            if t[2] == "0" and t[1][2] in ("Ok", "Some", "Continue", "Err"): return rend(t[1][1]) + ("!" if t[1][2] == "Err" else "")
            return "%s@%s%s" % (rend(t[1][1]), t[1][2], "" if t[2] == "0" else "." + t[2])
        if t[2] == "0" and t[1][0] == "fld": return rend(t[1])     # the pointer inside a Box
        return "%s.%s" % (rend(t[1]), t[2])
    if k == "call":
        n = tail(t)
        if n == "next": return "item%d" % (t[3] % 10)
        if n in ("clone", "cloned", "to_owned", "into_owned", "to_string") and len(t[2]) == 1: return rend(t[2][0])
        if n in ("new", "from") and len(t[2]) == 1 and ("boxed::Box" in t[1] or "core::convert" in t[1] and "constants" not in t[1] and "ast::Term" not in t[1]): return rend(t[2][0])
        return "%s(%s)" % (n, ", ".join(rend(a) for a in t[2]))
    if k == "agg":
        if t[1] == "closure": return "closure"
        n = t[2] or t[1].split("::")[-1]
        return n if not t[3] else "%s(%s)" % (n, ", ".join(rend(a) for a in t[3]))
    if k == "bin": return "(%s %s %s)" % (rend(t[2]), t[1], rend(t[3]))
    if k == "un": return "%s(%s)" % (t[1], rend(t[2]))
    if k == "list": return "[%s]" % ", ".join(rend(x) for x in t[1])
    if k == "idx": return "%s[%s]" % (rend(t[1]), rend(t[2]))
    return show(t)


def streq(t, s):
    if t[0] == "call" and tail(t) in ("eq", "ne") and len(t[2]) == 2:
        k = [const_of(x) for x in t[2]]
        k = [x for x in k if isinstance(x, str)]
        if k: return (k[0] == s) == (tail(t) == "eq")
    return None


def runs(b, env, visits=3, lists=True, ends=("return", "panic"), **kw):
    """the complete paths of body b in the scenario env"""
    return [t for t in traces(b, visits=visits, env=env, lists=lists, **kw) if t.end in ends]


def named(t, *names):
    """t is a call of one of these functions"""
    return t[0] == "call" and tail(t) in names
