"""Traversal completeness: does a function hand every part of a tree-typed parameter to a visiting function on every path?

For a value P of a type that can contain one of the CONTENT types, every path from where P becomes known to the function's
exit must pass P (or, structurally, each of its parts) to a function that itself covers it.  Structural decomposition
follows the type: enum variants (edges of switches on P's discriminant), structs, tuples, Option, Box, Spanned, slices
(loop over `next`, every iteration must cover the element)."""
from lib import *


STD = {"core::option::Option", "alloc::boxed::Box", "alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::rc::Rc", "alloc::sync::Arc"}


class Cover:
    def __init__(self, F, content, prefix, exempt_types=(), exempt_fields=(), excuse=lambda body, call: False, excuse_guard=lambda g, body: False):
        self.F, self.content, self.exempt_types, self.exempt_fields = F, set(content), set(exempt_types), set(exempt_fields)
        self.prefix = prefix
        self.excuse, self.excuse_guard = excuse, excuse_guard
        self.memo, self.has_memo = {}, {}
        self.obligations = []   # (fn, place, ok, where)
        self.visited = set()

    # ---- types
    def has(self, ty):
        k = (ty.facts.key, ty.i)
        if k in self.has_memo:
            return self.has_memo[k]
        self.has_memo[k] = False
        # iterate to a fixpoint is not needed: content types are hit directly
        r = self._has(ty, set())
        self.has_memo[k] = r
        return r

    def _has(self, ty, seen):
        k = (ty.facts.key, ty.i)
        if k in seen:
            return False
        seen.add(k)
        if ty.d in self.content:
            return True
        if ty.d in self.exempt_types:
            return False
        if ty.k in ("closure", "fnptr", "fndef", "dyn"):
            return False
        if ty.k == "adt" and not (ty.d in STD or any(ty.d.startswith(p) for p in self.prefix)):
            return False
        for a in ty.args:
            if self._has(a, seen):
                return True
        a = self.F.adts.get(ty.d)
        if a is not None:
            for v in a["variants"]:
                for f in v["f"]:
                    if (ty.d, v["n"], f["n"]) in self.exempt_fields:
                        continue
                    if self._has(Ty(a["crate"], f["t"]), seen):
                        return True
        return False

    @staticmethod
    def deref(ty, P):
        """peel references and boxes; the place set gains the box projection forms"""
        while True:
            if ty.k in ("ref", "refmut", "ptr"):
                ty = ty.args[0]
            elif ty.k == "adt" and ty.d == "alloc::boxed::Box":
                P = P | {fld(t, "0", 0) for t in P} | {fld(fld(t, "0", 0), "0", 0) for t in P} | {fld(fld(t, "0", 0), "pointer", 0) for t in P}
                ty = ty.args[0]
            else:
                return ty, P

    # ---- paths
    def path(self, b, starts, ends, avoid, cuts):
        starts = [s for s in starts if s not in avoid]
        prev = {s: None for s in starts}
        work = list(starts)
        while work:
            x = work.pop()
            if x in ends:
                out = [x]
                while prev[out[-1]] is not None:
                    out.append(prev[out[-1]])
                return out[::-1]
            for s in b.succ(x):
                if s in prev or s in avoid or (x, s) in cuts or b._dead_end(s):
                    continue
                prev[s] = x
                work.append(s)
        return None

    def strip(self, t, P):
        if t in P:
            return True
        if t[0] == "call":
            h = self.F.by_path
            if t[1] not in self.wsnames():
                return any(self.strip(a, P) for a in t[2])
        if t[0] == "agg" and t[2] == "Some":
            return self.strip(t[3][0], P)
        return False

    def wsnames(self):
        if not hasattr(self, "_ws"):
            self._ws = set(b.npath for b in self.F.bodies)
        return self._ws

    def alts(self, b, op, bb):
        t = b.term(op, bb)
        out = [t]
        seen = set()
        while True:
            vs = [x for x in out if x[0] == "var" and x not in seen]
            if not vs:
                break
            for x in vs:
                seen.add(x)
                for d in b.reaching(x[1], bb):
                    if d[0] != "arg":
                        out.append(b.dterm(d))
        if t[0] == "agg" and t[2] == "Some" and t[3][0][0] == "var":
            for d in b.reaching(t[3][0][1], bb):
                if d[0] != "arg":
                    out.append(b.dterm(d))
        return out

    def consumers(self, b, P):
        """blocks with a call handing P to a covering function"""
        out = set()
        for c in b.calls():
            hits = []
            clos = []
            for j, o in enumerate(c.t["a"]):
                if any(self.strip(t, P) for t in self.alts(b, o, c.bb)):
                    hits.append(j)
                if o[0] in ("c", "m") and len(o[1]) == 1:
                    ty = b.ty(o[1][0]).peel()
                    if ty.k == "closure" and ty.j.get("h") in self.F.by_hash:
                        clos.append(self.F.by_hash[ty.j["h"]])
            if not hits:
                continue
            done = False
            for cb in self.F.callee_bodies(c.t):
                for j in hits:
                    if self.covers(cb, j + 1):
                        done = True
            for cl in clos:
                for k in range(2, cl.argc + 1):
                    if self.has(cl.ty(k)) and self.covers(cl, k):
                        done = True
            if done:
                out.add(c.bb)
        return out

    def nexts(self, b, P):
        """(block of next call, item place) of loops over P"""
        out = []
        for c in b.calls():
            if c.name not in ("next", "next_back") or len(c.t["a"]) != 1:
                continue
            t = c.arg(0)
            al = [t]
            seen = set()
            while True:
                vs = [x for x in al if x[0] == "var" and x not in seen]
                if not vs:
                    break
                for x in vs:
                    seen.add(x)
                    al += [b.dterm(d) for d in b.defs()[0].get(x[1], [])]
            ok = False
            for x in al:
                if x in P:
                    ok = True
                elif x[0] == "call" and x[1].split("::")[-1] in ("enumerate", "rev", "skip", "peekable", "zip", "chain") and any(self.strip(y, P) for y in x[2]):
                    ok = x[1].split("::")[-1] in ("enumerate", "rev", "peekable")
                    if ok and x[1].split("::")[-1] == "enumerate":
                        out.append((c, fld(fld(down(b.cterm(c.t, c.bb, 0), "Some"), "0", 0), "1", 1)))
                        ok = False
            if ok:
                out.append((c, fld(down(b.cterm(c.t, c.bb, 0), "Some"), "0", 0)))
        return out

    # ---- obligations
    def oblig(self, b, P, ty, starts, ends, avoid, cuts, label, res):
        ty, P = self.deref(ty, P)
        if not self.has(ty):
            return
        cons = self.consumers(b, P)
        avoid = avoid | cons
        p = self.path(b, starts, ends, avoid, cuts)
        if p is None:
            res.append((label, True, "", ""))
            return
        # decompose
        if ty.k in ("slice", "array") or ty.d in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
            nx = self.nexts(b, P)
            nbb = {c.bb for c, _ in nx}
            p = self.path(b, starts, ends, avoid | nbb, cuts)
            if p is not None:
                res.append((label, False, "%s:%d" % (b.srcfile(p[-1]), self.line(b, p)), "a path leaves without visiting it"))
                return
            ety = ty.args[0]
            for c, item in nx:
                # the Some edge of the loop
                term = b.cterm(c.t, c.bb, 0)
                someedges, none = self.edges(b, term, "Some")
                cuts2 = cuts | none
                if not someedges:
                    res.append((label, False, c.where(), "loop over it not understood"))
                    continue
                self.oblig(b, frozenset([item]), ety, [x for _, x in someedges], set(ends) | {c.bb}, avoid, cuts, label + "[]", res)
            return
        if ty.k == "tuple":
            for i, a in enumerate(ty.args):
                self.oblig(b, frozenset(fld(t, str(i), i) for t in P), a, starts, ends, avoid, cuts, "%s.%d" % (label, i), res)
            return
        if ty.d == "core::option::Option":
            _, none = self.edges(b, P, "Some")
            self.oblig(b, frozenset(fld(down(t, "Some"), "0", 0) for t in P), ty.args[0], starts, ends, avoid, cuts | none, label + "?", res)
            return
        a = self.F.adts.get(ty.d)
        if a is None:
            res.append((label, False, "%s:%d" % (b.srcfile(p[-1]), self.line(b, p)), "a path leaves without visiting it"))
            return
        if not a["enum"]:
            for i, f in enumerate(a["variants"][0]["f"]):
                if (ty.d, a["variants"][0]["n"], f["n"]) in self.exempt_fields:
                    continue
                ft = Ty(a["crate"], f["t"])
                if ft.k == "param" and ty.args:
                    ft = ty.args[0]
                self.oblig(b, frozenset(fld(t, f["n"], i) for t in P), ft, starts, ends, avoid, cuts, "%s.%s" % (label, f["n"]), res)
            return
        any_switch = self.edges(b, P, None)[0]
        if not any_switch:
            res.append((label, False, "%s:%d" % (b.srcfile(p[-1]), self.line(b, p)), "a path leaves without visiting it"))
            return
        for v in a["variants"]:
            _, cut = self.edges(b, P, v["n"])
            for i, f in enumerate(v["f"]):
                if (ty.d, v["n"], f["n"]) in self.exempt_fields:
                    continue
                self.oblig(b, frozenset(fld(down(t, v["n"]), f["n"], i) for t in P), Ty(a["crate"], f["t"]), starts, ends, avoid, cuts | cut,
                           "%s/%s" % (label, v["n"]) + ("" if f["n"] == "0" and len(v["f"]) == 1 else "." + f["n"]), res)

    def line(self, b, p):
        for x in reversed(p):
            l = b.blocks[x]["t"].get("ln")
            if l:
                return l
        return 0

    def edges(self, b, P, variant):
        """(edges taken when P is `variant`, edges not taken) over all switches on P's discriminant"""
        if isinstance(P, tuple):
            P = frozenset([P])
        yes, no = [], set()
        for u in b.reachable():
            t = b.blocks[u]["t"]
            if t["k"] != "switch":
                continue
            d = b.term(t["d"], u)
            if d[0] != "discr" or d[1] not in P:
                continue
            names = b.discr_names(u)
            if not names:
                continue
            inv = {n: v for v, n in names.items()}
            if variant is None:
                yes.append((u, None))
                continue
            tgt = t["o"]
            for v, x in t["v"]:
                if v == inv.get(variant):
                    tgt = x
            for x in b.succ(u):
                if x != tgt:
                    no.add((u, x))
            yes.append((u, tgt))
        return yes, no

    # ---- functions
    def covers(self, body, j):
        key = (body.h, j)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True
        if not body.blocks or j > body.argc:
            self.memo[key] = False
            return False
        b = prep(body, thr=False)
        ty = body.ty(j)
        if not self.has(ty):
            self.memo[key] = False
            return False
        res = []
        exc = {c.bb for c in b.calls() if self.excuse(b, c)}
        for u in b.reachable():
            if b.blocks[u]["t"]["k"] == "switch":
                pass
        for bb in b.reachable():
            if any(self.excuse_guard(g, b) for g in b.guards(bb)):
                exc.add(bb)
        P = frozenset([("arg", j)]) if not (body.k == "closure") else frozenset([("arg", j)])
        self.oblig(b, P, ty, [0], set(b.returns()), exc, frozenset(), body.names.get(j, "arg%d" % j), res)
        good = sum(1 for r in res if r[1])
        ok = bool(res) and good >= 0.6 * len(res)
        self.memo[key] = ok
        if ok:
            self.visited.add(body.path)
            self.obligations += [(body, l, o, w, m) for l, o, w, m in res]
        else:
            self.failed = getattr(self, "failed", [])
            self.failed.append((body, j, res))
        return ok
