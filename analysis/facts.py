"""Loads the facts exported by the compiler driver."""
import json
import os


class Ty:
    __slots__ = ("s", "k", "adt", "args", "to", "mut", "bits", "n", "d", "defn")

    def __repr__(self):
        return self.s

    def is_int(self):
        return self.k in ("int", "uint", "char")

    def is_ref(self):
        return self.k in ("ref", "ptr")

    def strip(self):
        t = self
        while t.k in ("ref", "ptr"):
            t = t.to
        return t


class Fn:
    __slots__ = ("key", "name", "span", "argc", "local", "kind", "parent", "pub", "unsafe",
                 "impl_self", "impl_trait", "in_trait", "locals", "names", "blocks", "crate", "facts",
                 "rpo", "wto", "preds", "heads", "live", "borrowed", "spread", "raw", "coroutine")

    def __repr__(self):
        return "<fn %s>" % self.key


class CrateFacts:
    pass


def _mktypes(raw):
    out = [Ty() for _ in raw]
    for t, d in zip(out, raw):
        t.s = d["s"]
        t.k = d["k"]
        t.adt = d.get("adt")
        t.args = [out[i] for i in d.get("args", [])]
        t.to = out[d["to"]] if "to" in d else None
        t.mut = d.get("mut")
        t.bits = d.get("bits")
        t.n = d.get("n")
        t.defn = d.get("def")
        t.d = d
    return out


class Program:
    def __init__(self, facts_dir, crates=None):
        self.crates = {}
        self.fns = {}
        self.adts = {}
        self.consts = {}
        self.statics = {}
        for f in sorted(os.listdir(facts_dir)):
            if not f.endswith(".json"):
                continue
            cname = f[:-5]
            if crates and cname not in crates:
                continue
            with open(os.path.join(facts_dir, f)) as fh:
                d = json.load(fh)
            self._load(cname, d)

    def _load(self, cname, d):
        c = CrateFacts()
        c.name = cname
        c.types = _mktypes(d["types"])
        c.fns = {}
        c.impls = d["impls"]
        c.adts = d["adts"]
        c.raw = d
        self.crates[cname] = c
        for p, a in d["adts"].items():
            if p not in self.adts:
                na = {"k": a["k"], "pub": a.get("pub"), "variants": []}
                for v in a["variants"]:
                    na["variants"].append({"name": v["name"],
                                           "discr": int(v["discr"]) if "discr" in v else None,
                                           "fields": [(x["name"], x["ty"], x.get("pub")) for x in v["fields"]]})
                self.adts[p] = na
        for p, s in d.get("statics", {}).items():
            self.statics.setdefault(p, (s, c))
        for p, s in d.get("consts", {}).items():
            self.consts.setdefault(p, (s, c))
        for k, b in d["functions"].items():
            f = Fn()
            f.key = k
            f.name = b["name"]
            f.span = b["span"]
            f.argc = b["argc"]
            f.local = b["local"]
            f.kind = b["kind"]
            f.parent = b.get("parent")
            f.pub = b.get("pub")
            f.unsafe = b.get("unsafe")
            f.impl_self = b.get("impl_self")
            f.impl_trait = b.get("impl_trait")
            f.in_trait = b.get("in_trait")
            f.spread = b.get("spread")
            f.coroutine = b.get("coroutine")
            f.locals = [c.types[l["ty"]] for l in b["locals"]]
            f.names = [l.get("name") for l in b["locals"]]
            f.blocks = b["blocks"]
            f.crate = cname
            f.facts = c
            f.raw = b
            f.rpo = None
            if f.coroutine:
                unfold(f)
            c.fns[k] = f
            if k not in self.fns or (f.local and not self.fns[k].local):
                if cname.endswith("-bin"):
                    self.fns.setdefault(k, f)
                else:
                    self.fns[k] = f

    def lookup(self, key, crate):
        """Function body for key as seen from crate (a CrateFacts)."""
        f = crate.fns.get(key)
        if f is not None:
            return f
        f = self.fns.get(key)
        if f is not None:
            return f
        if "<" in key and (key.endswith(">") or "@" in key):
            # instance of another workspace crate's generic: its own body
            f = self.fns.get(key[:key.index("<")])
            if f is not None and f.local:
                return f
        return None

    def by_name(self, name, crate=None):
        out = []
        for cn, c in self.crates.items():
            if crate and cn != crate:
                continue
            for f in c.fns.values():
                if f.name == name and f.local:
                    out.append(f)
        return out

    def adt(self, path):
        return self.adts.get(path)


def unfold(f):
    """Body of an async block as a plain sequence: what it keeps across its
    suspension points become fields of its own, and it starts at the start.
    Suspending (an inner future being pending) is left to the callers."""
    own = set()
    for b in f.blocks[:1]:
        for s in b["s"]:
            u = (s.get("r") or {}).get("use", {})
            pl = u.get("c") or u.get("m")
            if pl and pl[0] == 1 and len(pl) == 2 and len(s["p"]) == 1:
                own.add(s["p"][0])

    def walk(x):
        if isinstance(x, list):
            if x and isinstance(x[0], int) and not isinstance(x[0], bool) and x[0] in own and len(x) >= 4 and x[1] == "*" \
                    and isinstance(x[2], list) and x[2][0] == "v" and isinstance(x[3], list) and x[3][0] == "f":
                return [x[0], "*", ["f", 1000 * (x[2][1] + 1) + x[3][1]] + x[3][2:]] + [walk(y) for y in x[4:]]
            return [walk(y) for y in x]
        if isinstance(x, dict):
            return {k: walk(v) for k, v in x.items()}
        return x
    out = []
    for b in f.blocks:
        nb = walk(b)
        nb["s"] = [s for s in nb["s"] if not ("setd" in s and s["p"][0] in own)]
        for s in nb["s"]:
            d = (s.get("r") or {}).get("discr")
            if d and d[0] in own and len(d) == 2:
                s["r"] = {"use": {"k": {"v": {"int": 0}}}}
        out.append(nb)
    f.blocks = out


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [b for _, b in t["vs"]] + ([t["else"]] if t.get("else") is not None else [])
    if k in ("drop", "assert", "yield", "codrop"):
        return [t["t"]] if t.get("t") is not None else []
    if k == "call":
        return [t["t"]] if t.get("t") is not None else []
    return []


def _sccs(nodes, sc, rpo):
    index, low, onst, st, out = {}, {}, set(), [], []
    for root in sorted(nodes, key=lambda b: rpo[b]):
        if root in index:
            continue
        work = [(root, iter([v for v in sc[root] if v in nodes]))]
        index[root] = low[root] = len(index)
        st.append(root)
        onst.add(root)
        while work:
            u, it = work[-1]
            adv = False
            for v in it:
                if v not in index:
                    index[v] = low[v] = len(index)
                    st.append(v)
                    onst.add(v)
                    work.append((v, iter([w for w in sc[v] if w in nodes])))
                    adv = True
                    break
                if v in onst:
                    low[u] = min(low[u], index[v])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[u])
            if low[u] == index[u]:
                c = []
                while True:
                    v = st.pop()
                    onst.discard(v)
                    c.append(v)
                    if v == u:
                        break
                out.append(c)
    out.reverse()
    return out


def _wto(nodes, sc, rpo):
    """Weak topological order: loop bodies are contiguous."""
    out = []
    for c in _sccs(nodes, sc, rpo):
        if len(c) == 1:
            out.append(c[0])
        else:
            h = min(c, key=lambda b: rpo[b])
            out.append(h)
            out.extend(_wto(set(c) - {h}, sc, rpo))
    return out


def prepare(f):
    """Computes RPO, loop heads, liveness for a function."""
    if f.rpo is not None:
        return
    n = len(f.blocks)
    sc = [succs(b["t"]) for b in f.blocks]
    seen = [0] * n
    order = []
    back = set()
    stack = [(0, iter(sc[0]))]
    seen[0] = 1
    while stack:
        u, it = stack[-1]
        for v in it:
            if seen[v] == 0:
                seen[v] = 1
                stack.append((v, iter(sc[v])))
                break
            elif seen[v] == 1:
                back.add(v)
        else:
            seen[u] = 2
            order.append(u)
            stack.pop()
    order.reverse()
    f.rpo = {b: i for i, b in enumerate(order)}
    f.heads = back
    f.wto = {b: i for i, b in enumerate(_wto(set(order), sc, f.rpo))}
    preds = {b: [] for b in order}
    for b in order:
        for s in sc[b]:
            preds[s].append(b)
    f.preds = preds
    # borrowed locals
    bor = set()
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]

    def rd(b, l):
        if l not in dfn[b]:
            use[b].add(l)

    def place_r(b, p):
        rd(b, p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "i":
                rd(b, e[1])

    def place_w(b, p):
        if len(p) == 1:
            if p[0] not in use[b]:
                dfn[b].add(p[0])
        else:
            place_r(b, p)

    def opnd(b, o):
        if "c" in o:
            place_r(b, o["c"])
        elif "m" in o:
            place_r(b, o["m"])

    def rval(b, r):
        if "use" in r:
            opnd(b, r["use"])
        elif "repeat" in r:
            opnd(b, r["repeat"])
        elif "ref" in r:
            place_r(b, r["ref"])
            if "*" not in r["ref"]:
                bor.add(r["ref"][0])
        elif "cast" in r:
            opnd(b, r["cast"])
        elif "bin" in r:
            opnd(b, r["a"])
            opnd(b, r["b"])
        elif "un" in r:
            opnd(b, r["a"])
        elif "discr" in r:
            place_r(b, r["discr"])
        elif "agg" in r:
            for o in r["agg"]:
                opnd(b, o)

    for b in order:
        for s in f.blocks[b]["s"]:
            if "dead" in s:
                continue
            if "setd" in s:
                place_r(b, s["p"])
                continue
            rval(b, s["r"])
            place_w(b, s["p"])
        t = f.blocks[b]["t"]
        k = t["k"]
        if k == "switch":
            opnd(b, t["d"])
        elif k == "drop":
            place_r(b, t["p"])
        elif k == "call":
            opnd(b, t["f"])
            for a in t["a"]:
                opnd(b, a)
            place_w(b, t["d"])
        elif k == "assert":
            opnd(b, t["c"])
        elif k == "return":
            rd(b, 0)
        elif k == "yield":
            pass
    live = {b: set(use[b]) for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            o = set()
            for s in sc[b]:
                o |= live[s]
            nl = use[b] | (o - dfn[b])
            if nl != live[b]:
                live[b] = nl
                ch = True
    f.live = live
    f.borrowed = bor
