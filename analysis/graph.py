"""Queries over the call graph of the workspace."""
from common import *


class Call:
    __slots__ = ("fn", "block", "term", "name", "rname", "key", "atys", "dty", "virtual", "span", "param")

    def where(self):
        return "%s:%s" % (self.fn.name, self.span)


def operand_ty(f, o):
    pl = o.get("m") or o.get("c")
    if pl is not None:
        if len(pl) == 1:
            return f.locals[pl[0]]
        t = None
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == "f":
                t = f.facts.types[e[2]]
        last = pl[-1]
        if isinstance(last, list) and last[0] == "f":
            return t
        if last == "*":
            b = f.locals[pl[0]] if len(pl) == 2 else None
            return b.to if b is not None else t
        return t
    k = o.get("k")
    if isinstance(k, dict) and "ty" in k:
        return f.facts.types[k["ty"]]
    return None


def calls(f):
    for i, b in enumerate(f.blocks):
        t = b["t"]
        if t["k"] != "call":
            continue
        k = t["f"].get("k") if isinstance(t["f"], dict) else None
        fn = k.get("fn") if isinstance(k, dict) else None
        if not fn:
            continue
        c = Call()
        c.fn, c.block, c.term = f, i, t
        c.name = fn["name"]
        r = fn.get("r") or {}
        c.rname = r.get("name") or fn["name"]
        c.key = r.get("key")
        c.virtual = r.get("kind") == "virtual"
        c.param = not r
        c.atys = [operand_ty(f, a) for a in t["a"]]
        c.dty = f.facts.types[t["dty"]] if "dty" in t else None
        c.span = t.get("sp", "")
        yield c


def fnrefs(f):
    """Functions and closures mentioned other than as callees."""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if "fn" in x and isinstance(x["fn"], dict) and "name" in x["fn"]:
                out.append(x["fn"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for b in f.blocks:
        for s in b["s"]:
            walk(s)
        if b["t"]["k"] == "call":
            walk(b["t"]["a"])
    return out


class Graph:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.p
        self.cache = {}
        self.byparent = {}
        self.impls = {}
        self.ids = {}
        for cn, c in self.p.crates.items():
            for f in c.fns.values():
                if not f.local:
                    continue
                if "::{closure" in f.name:
                    self.byparent.setdefault((cn, f.name[:f.name.rindex("::{closure")]), []).append(f)
                if f.impl_trait:
                    self.impls.setdefault(f.impl_trait + "::" + f.name.split("::")[-1], []).append(f)

    def succ(self, f):
        k = (f.facts.name, f.key)
        if k in self.cache:
            return self.cache[k]
        out = {}
        for c in calls(f):
            for g in self.targets(c):
                out[(g.facts.name, g.key)] = g
        for r in fnrefs(f):
            g = self.p.lookup((r.get("r") or {}).get("key"), f.facts) if (r.get("r") or {}).get("key") else None
            if g is not None and g.local:
                out[(g.facts.name, g.key)] = g
        for g in self.byparent.get((f.facts.name, f.name), ()):
            out[(g.facts.name, g.key)] = g
        self.cache[k] = list(out.values())
        return self.cache[k]

    def targets(self, c):
        """Local functions a call may run."""
        if c.key is not None and not c.virtual:
            g = self.p.lookup(c.key, c.fn.facts)
            return [g] if g is not None and g.local else []
        if c.virtual:
            return self.impls.get(c.name, [])
        gs = [g for g in self.p.by_name(c.rname) if g.local] if c.rname else []
        return gs[:1]

    def reach(self, roots, stop=lambda f: False):
        """{fn key: (fn, predecessor)}"""
        seen = {}
        work = []
        for r in roots:
            k = (r.facts.name, r.key)
            if k not in seen:
                seen[k] = (r, None)
                work.append(r)
        while work:
            f = work.pop()
            for g in self.succ(f):
                k = (g.facts.name, g.key)
                if k in seen or stop(g):
                    continue
                seen[k] = (g, f)
                work.append(g)
        return seen

    def path(self, seen, f):
        out = []
        while f is not None:
            out.append(f.name)
            f = seen[(f.facts.name, f.key)][1]
        return " <- ".join(out)


def mentions(t, pred, skip=(), d=0):
    """Some type inside t satisfies pred; not looking into adts in skip."""
    if t is None or d > 8:
        return False
    if pred(t):
        return True
    if t.adt in skip:
        return False
    subs = list(t.args or ())
    if t.to is not None:
        subs.append(t.to)
    return any(mentions(x, pred, skip, d + 1) for x in subs if x is not None)
