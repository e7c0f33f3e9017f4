"""Forward abstract interpreter over MIR facts.

Memory is a finite map from roots (locals, heap objects named by symbols) to
abstract values; numeric facts are kept in a separate relational component.
States are kept apart when they differ in known enum variants / booleans /
ghost type-states (trace partitioning) and joined otherwise.  Loops are solved
by fixpoint iteration with phi symbols at loop heads.
"""
import heapq
import sys
from num import Lin, Num, SymTab, Id, ZERO, ONE, join_num
from values import *
import facts as F_

sys.setrecursionlimit(20000)


class Bottom(Exception):
    pass


class AnalysisLimit(Exception):
    pass


class State:
    __slots__ = ("mem", "num", "origin")

    def __init__(self, mem, num):
        self.mem = mem
        self.num = num
        self.origin = None

    def copy(self):
        return State(dict(self.mem), self.num.copy())

    def ids(self):
        s = set()
        for r, v in self.mem.items():
            if r[0] == "H":
                s.add(int(r[1]))
            s |= v.sym_ids()
        return s

    def mentions(self, i):
        for r, v in self.mem.items():
            if i in v.sym_ids():
                return True
            if r[0] == "H" and int(r[1]) == i:
                return True
        n = self.num
        if i in n.eqs:
            return True
        for p, r in n.eqs.items():
            if r.coef(i):
                return True
        for g in n.ge:
            if g.coef(i):
                return True
        return False

    def g(self, name, default=None):
        v = self.mem.get(("G", name))
        if v is None:
            return default
        return v.x if isinstance(v, K) else v

    def setg(self, name, val):
        self.mem[("G", name)] = val if isinstance(val, Val) else K(val)


def reached(ip, st, v, d=0):
    """The aggregates that can be reached from a value."""
    while isinstance(v, R) and d < 9:
        v = ip.read(st, v.root, v.path, None)
        d += 1
    if isinstance(v, A):
        yield v
        if d < 9:
            for x in v.fields.values():
                if isinstance(x, (A, R)):
                    yield from reached(ip, st, x, d + 1)


def progress(key):
    """How far the unrolled iterations of a partition have come."""
    return sum(s.x for r, s in key if r[0] == "G" and r[1][0] == "at")


class CallSite:
    __slots__ = ("ip", "fn", "frame", "block", "term", "callee", "name", "rname", "key", "args", "span", "dty",
                 "depth", "targs", "atys", "kind", "stack", "ops")

    def where(self):
        return "%s:%s" % (self.fn.name, self.span)


class Exit:
    __slots__ = ("state", "ret")

    def __init__(self, state, ret):
        self.state = state
        self.ret = ret


def _roots(v, out):
    if isinstance(v, R):
        out.add(v.root)
    elif isinstance(v, A):
        for x in v.fields.values():
            _roots(x, out)
    elif isinstance(v, S):
        if isinstance(v.base, tuple):
            out.add(v.base[1])
        else:
            _roots(v.base, out)
    elif isinstance(v, RS):
        for x in v.refs:
            _roots(x, out) if isinstance(x, Val) else out.add(x[0])
    elif isinstance(v, T):
        for x in v.args:
            _roots(x, out) if isinstance(x, Val) else None


class Interp:
    def __init__(self, prog, models, rules=(), max_depth=24, max_parts=160, max_disj=6):
        self.max_disj = max_disj
        self.bcount = {}
        self.p = prog
        self.st = SymTab()
        self.models = models
        self.rules = list(rules)
        self.max_depth = max_depth
        self.max_parts = max_parts
        self.frames = {}
        self.frame_info = []
        self.wheres = {}
        self.trace = False
        self.stats = {"blocks": 0, "joins": 0, "calls_inlined": 0, "calls_modelled": 0, "calls_default": 0,
                      "functions": set(), "default_names": {}, "sites": set()}
        self.stack = []
        self.fullwrite = False
        self.fullread = False
        self.unroll = False
        self.limit_blocks = 200000

    # ---------------------------------------------------------------- names
    def frame(self, parent, block, key):
        t = (parent, block, key)
        i = self.frames.get(t)
        if i is None:
            i = len(self.frame_info)
            self.frames[t] = i
            self.frame_info.append(t)
        return i

    def where(self, *t):
        i = self.wheres.get(t)
        if i is None:
            i = len(self.wheres)
            self.wheres[t] = i
        return i

    def sym(self, name, ty=None, prov=(), nonneg=None):
        if nonneg is None:
            nonneg = bool(ty is not None and (ty.k in ("uint", "char", "bool")))
        return self.st.get(name, ty, nonneg, prov)

    def make(self, sid, ty):
        """Value for symbol sid at type ty."""
        if ty is not None:
            if ty.is_int():
                return I(Lin.sym(sid))
            if ty.k == "bool":
                self.st.info[sid].nonneg = True
                return B("eq", Lin.sym(sid) - 1)
            if ty.k == "tuple" and not ty.args:
                return UNIT
            inf = self.st.info[sid]
            if inf.ty is None:
                inf.ty = ty
        return O(sid)

    def fresh(self, st, frame, block, tag, ty, prov=(), nonneg=None):
        """Symbol for a program site; an older instance in the state is renamed."""
        name = ("ret", frame, block, tag)
        old = self.st.by_name.get(name)
        if old is not None and self._mentions_derived(st, old):
            on = self.st.get(("old", Id(old)), self.st.info[old].ty, self.st.info[old].nonneg, self.st.info[old].prov)
            if self._mentions_derived(st, on):
                sn = self.st.get(("sum", Id(old)), self.st.info[old].ty, self.st.info[old].nonneg)
                self.rename_state(st, {on: sn})
                st.num = st.num.project(lambda s: not self._derived_from(s, sn))
            self.rename_state(st, {old: on})
        s = self.sym(name, ty, prov, nonneg)
        if prov:
            self.st.info[s].prov = frozenset(prov)
        return s

    def _derived_from(self, s, b):
        if s == b:
            return True
        return any(self._derived_from(x, b) for x in self.st.info[s].ids)

    def _derived_set(self, i):
        out = {i}
        todo = [i]
        d = self.st.derived
        while todo:
            x = todo.pop()
            for y in d.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out

    def _mentions_derived(self, st, i):
        ds = self._derived_set(i)
        for r, v in st.mem.items():
            if not ds.isdisjoint(v.sym_ids()):
                return True
            if r[0] == "H" and int(r[1]) in ds:
                return True
        n = st.num
        for p, r in n.eqs.items():
            if p in ds or any(s in ds for s, _ in r.t):
                return True
        for g in n.ge:
            if any(s in ds for s, _ in g.t):
                return True
        return False

    def rename_state(self, st, m):
        memo = {}
        mem = {}
        for r, v in st.mem.items():
            if r[0] == "H":
                r = ("H", Id(self.st.rename(int(r[1]), m, memo)))
            mem[r] = v.rename(self.st, m, memo)
        st.mem = mem
        st.num = st.num.rename(m, memo)

    # --------------------------------------------------------------- memory
    def root_default(self, root):
        if root[0] == "H":
            i = int(root[1])
            return self.make(i, self.st.info[i].ty)
        if root[0] == "SLV":
            return root[1]
        return UNDEF

    def read_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            return self.root_default(root)
        return v

    def nv(self, st, v):
        """Refine an opaque enum value whose discriminant is known."""
        if isinstance(v, O):
            d = self.st.by_name.get(("discr", Id(v.id)))
            if d is not None:
                c = st.num.const(Lin.sym(d))
                if c is not None:
                    ty = self.st.info[v.id].ty
                    vi = self.variant_of(ty, c)
                    if vi is not None:
                        return A(ty.adt, vi, {}, v.id)
        return v

    def variant_of(self, ty, d):
        if ty is None or ty.k != "enum":
            return None
        a = self.p.adt(ty.adt)
        if a is None:
            return None
        for i, v in enumerate(a["variants"]):
            if v["discr"] is None:
                if i == d:
                    return i
            elif v["discr"] == d or (v["discr"] < 0 and d == v["discr"] + 2 ** 64) or (v["discr"] >= 2**63 and d == v["discr"]-2**64):
                return i
        return None

    def discr_const(self, adt, variant):
        a = self.p.adt(adt) if isinstance(adt, str) else None
        if a is None or variant >= len(a["variants"]):
            return variant
        d = a["variants"][variant]["discr"]
        return variant if d is None else d

    def discr_sym(self, sid):
        return self.sym(("discr", Id(sid)), None, (), True)

    def discr(self, st, v):
        v = self.nv(st, v)
        if isinstance(v, A) and v.variant is not None:
            return I(self.discr_const(v.adt, v.variant))
        if isinstance(v, O):
            return I(Lin.sym(self.discr_sym(v.id)))
        if isinstance(v, A) and v.base is not None:
            return I(Lin.sym(self.discr_sym(v.base)))
        return I(Lin.sym(self.sym(("discr?", v), None, (), True)))

    def get_elem(self, st, v, e, ty):
        v = self.nv(st, v)
        if e[0] == "idx":
            return self.get_index(st, v, e[1], ty)
        variant, idx = e
        if isinstance(v, A):
            if idx in v.fields:
                return v.fields[idx]
            if v.base is not None:
                vr = variant if variant is not None else v.variant
                return self.make(self.sym(("fld", Id(v.base), vr, idx), ty), ty)
            return self.make(self.sym(("fldu", v, variant, idx), ty), ty)
        if isinstance(v, O):
            return self.make(self.sym(("fld", Id(v.id), variant, idx), ty), ty)
        return self.make(self.sym(("fldx", v, variant, idx), ty), ty)

    def get_index(self, st, v, lin, ty):
        c = st.num.const(lin)
        if isinstance(v, A) and c is not None and c in v.fields:
            return v.fields[c]
        if isinstance(v, C) and c is not None and 0 <= c < len(v.b):
            return I(v.b[c])
        if isinstance(v, S):
            pos = st.num.norm(v.lo + lin)
            base = v.base
            cc = st.num.const(pos)
            if isinstance(base, tuple) and base[0] == "P":
                pv = self.read(st, base[1], base[2], None)
                return self.elem_of(st, pv, pos, ty)
            return self.elem_of(st, base, pos, ty)
        return self.elem_of(st, v, st.num.norm(lin), ty)

    def elem_of(self, st, v, pos, ty):
        c = st.num.const(pos)
        if isinstance(v, C) and c is not None and 0 <= c < len(v.b):
            return I(v.b[c])
        if isinstance(v, A) and c is not None and c in v.fields:
            return v.fields[c]
        v = self.models.content(self, st, v)
        prov = ()
        if isinstance(v, T) and v.op == "ck" and isinstance(v.args[1], I):
            pos = st.num.norm(pos + v.args[1].lin)
            v = v.args[0]
        s = self.sym(("elem", v, pos), ty)
        inf = self.st.info[s]
        cl = self.models.byte_label(self, st, v, pos, pos + 1)
        if cl:
            inf.prov = frozenset([cl])
        return self.make(s, ty)

    def set_elem(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        v = self.nv(st, v)
        if e[0] == "idx":
            c = st.num.const(e[1])
            if isinstance(v, A) and c is not None:
                old = v.fields.get(c)
                return v.with_(c, self.set_elem(st, old if old is not None else UNDEF, path[1:], val))
            return O(self.sym(("wridx", v, e[1], val)))
        variant, idx = e
        if isinstance(v, A):
            old = v.fields.get(idx)
            if old is None and len(path) > 1:
                old = self.get_elem(st, v, e, None)
            nv = self.set_elem(st, old if old is not None else UNDEF, path[1:], val)
            f = dict(v.fields)
            f[idx] = nv
            vr = v.variant if variant is None else variant
            return A(v.adt, vr, f, v.base)
        base = v.id if isinstance(v, O) else None
        ty = self.st.info[base].ty if base is not None else None
        old = UNDEF
        if len(path) > 1 and base is not None:
            old = self.get_elem(st, v, e, None)
        nv = self.set_elem(st, old, path[1:], val)
        adt = ty.adt if ty is not None and ty.adt else "?"
        return A(adt, variant, {idx: nv}, base)

    def read(self, st, root, path, ty):
        if root[0] == "RS":
            vals = [self.read(st, r, p + tuple(path), ty) for r, p in root[1]]
            if all(x == vals[0] for x in vals):
                return vals[0]
            return self.make(self.sym(("rsread", root[1], tuple(path)), ty), ty)
        v = self.read_root(st, root)
        n = len(path)
        for i, e in enumerate(path):
            v = self.get_elem(st, v, e, ty if i == n - 1 else None)
        v = self.nv(st, v)
        if isinstance(v, O) and ty is not None:
            inf = self.st.info[v.id]
            if inf.ty is None:
                inf.ty = ty
            if ty.is_int() or ty.k == "bool":
                return self.make(v.id, ty)
        return v

    def write(self, st, root, path, val):
        if root[0] == "RS":
            for r, p in root[1]:
                self.write(st, r, p + tuple(path), O(self.sym(("rswrite", r, p, tuple(path), val))))
            return
        if root[0] == "SLV":
            self.models.slice_write(self, st, root[1])
            return
        if not path:
            st.mem[root] = val
            return
        v = self.read_root(st, root)
        st.mem[root] = self.set_elem(st, v, tuple(path), val)

    # ------------------------------------------------------- place handling
    def resolve(self, st, fn, frame, place, want_ref=False):
        """-> (root, path, ty)"""
        T_ = fn.facts.types
        root = ("L", frame, place[0])
        path = ()
        ty = fn.locals[place[0]]
        variant = None
        for e in place[1:]:
            if e == "*":
                v = self.read(st, root, path, ty)
                ty = ty.to if ty is not None and ty.to is not None else None
                root, path = self.deref(st, v, ty)
                variant = None
            elif e[0] == "f":
                ty = T_[e[2]]
                path = path + ((variant, e[1]),)
                variant = None
            elif e[0] == "v":
                variant = e[1]
            elif e[0] == "i":
                iv = self.read(st, ("L", frame, e[1]), (), fn.locals[e[1]])
                lin = iv.lin if isinstance(iv, I) else Lin.sym(self.sym(("idx?", iv), None, (), True))
                path = path + (("idx", lin),)
                ty = ty.to if ty is not None else None
            elif e[0] == "ci":
                off = e[1]
                if e[3]:
                    v = self.read(st, root, path, ty)
                    ln = self.models.length(self, st, v, ty)
                    lin = ln - off
                else:
                    lin = Lin(off)
                path = path + (("idx", lin),)
                ty = ty.to if ty is not None else None
            elif e[0] == "sub":
                v = self.read(st, root, path, ty)
                ln = self.models.length(self, st, v, ty)
                if e[3]:
                    hi = ln - e[2]
                else:
                    hi = Lin(e[2])
                if isinstance(v, S):
                    sv = S(v.base, v.lo + e[1], hi - e[1])
                else:
                    sv = S(("P", root, path), Lin(e[1]), hi - e[1])
                root, path = ("SLV", sv), ()
        return root, path, ty

    def deref(self, st, v, ty):
        if isinstance(v, R):
            return v.root, v.path
        if isinstance(v, RS):
            return ("RS", v.refs), ()
        if isinstance(v, (S, C)):
            return ("SLV", v), ()
        if isinstance(v, O):
            d = self.sym(("deref", Id(v.id)), ty)
            return ("H", Id(d)), ()
        if isinstance(v, A) and "box" in v.fields:
            return v.fields["box"].root, v.fields["box"].path
        if isinstance(v, A) and v.base is not None:
            d = self.sym(("deref", Id(v.base)), ty)
            return ("H", Id(d)), ()
        d = self.sym(("derefx", v), ty)
        return ("H", Id(d)), ()

    # ------------------------------------------------------------ operands
    def operand(self, st, fn, frame, o):
        if "c" in o or "m" in o:
            pl = o.get("c") or o.get("m")
            root, path, ty = self.resolve(st, fn, frame, pl)
            return self.read(st, root, path, ty)
        if "k" in o:
            return self.const(st, fn, o["k"])
        return self.make(self.sym(("rt",)), None)

    def opty(self, fn, o):
        if "c" in o or "m" in o:
            pl = o.get("c") or o.get("m")
            T_ = fn.facts.types
            ty = fn.locals[pl[0]]
            for e in pl[1:]:
                if e == "*":
                    ty = ty.to if ty is not None else None
                elif e[0] == "f":
                    ty = T_[e[2]]
                elif e[0] in ("i", "ci"):
                    ty = ty.to if ty is not None else None
            return ty
        if "k" in o and "ty" in o["k"]:
            return fn.facts.types[o["k"]["ty"]]
        return None

    def const(self, st, fn, k):
        ty = fn.facts.types[k["ty"]] if "ty" in k else None
        if "fn" in k:
            return F(k["fn"])
        if "closure" in k:
            return A(("closure", k["closure"]), None, {})
        v = k.get("v")
        if v is None:
            return self.make(self.sym(("const", str(k.get("def")), ty.s if ty else ""), ty), ty)
        return self.cval(st, v, ty, k)

    def plain(self, v, d=0):
        """A constant made of text and numbers only."""
        if not isinstance(v, dict) or d > 4:
            return False
        if "str" in v or "bytes" in v or "int" in v:
            return d > 0 or "int" not in v
        if "ref" in v:
            return self.plain(v["ref"], d + 1)
        if "arr" in v:
            return all(self.plain(x, d + 1) for x in v["arr"])
        return "f" in v and "var" not in v and all(self.plain(x, d + 1) for x in v["f"])

    def cval(self, st, v, ty, k):
        if "int" in v:
            if ty is not None and ty.k == "bool":
                return TRUE if v["int"] else FALSE
            if ty is not None and not ty.is_int():
                # single-scalar aggregate; keep it as opaque constant
                if ty.k == "enum":
                    vi = self.variant_of(ty, int(v["int"]))
                    if vi is not None:
                        return A(ty.adt, vi, {})
                return self.make(self.sym(("kint", ty.s, int(v["int"])), ty), ty)
            return I(int(v["int"]))
        if "str" in v:
            return C(v["str"].encode())
        if "bytes" in v:
            return C(bytes(v["bytes"]))
        if "ref" in v:
            inner = self.cval(st, v["ref"], ty.to if ty is not None else None, k)
            if isinstance(inner, C):
                return inner
            s = self.sym(("constref", inner, ty.s if ty else ""), ty.to if ty is not None else None)
            root = ("H", Id(s))
            st.mem.setdefault(root, inner)
            return R(root)
        if "arr" in v:
            et = ty.to if ty is not None and ty.k in ("array", "slice") else None
            vals = [self.cval(st, x, et, k) for x in v["arr"]]
            if et is not None and et.k == "uint" and et.bits == 8 and all(isinstance(x, I) for x in vals):
                return C(bytes(x.lin.c for x in vals))
            return A("array", None, {i: x for i, x in enumerate(vals)})
        if "var" in v:
            return A(ty.adt if ty else "?", v["var"], {i: self.cval(st, x, None, k) for i, x in enumerate(v.get("f", []))})
        if "f" in v:
            if ty is not None and ty.k == "tuple" and not v["f"]:
                return UNIT
            return A((ty.adt if ty is not None and ty.adt else "tuple"), None,
                     {i: self.cval(st, x, None, k) for i, x in enumerate(v["f"])})
        if "static" in v:
            s = self.sym(("static", v["static"]), ty.to if ty is not None else None)
            root = ("H", Id(s))
            d = self.p.statics.get(v["static"])
            if root not in st.mem and d is not None and d[0] and not d[0].get("mut") and self.plain(d[0].get("v")):
                st.mem[root] = self.cval(st, d[0]["v"], d[1].types[d[0]["ty"]], k)
            return R(root)
        if "zst" in v:
            if ty is None or (ty.k == "tuple" and not ty.args):
                return UNIT
            if ty.k == "closure":
                return A(("closure", ty.d.get("key") or ty.defn), None, {})
            if ty.k == "enum":
                return A(ty.adt, 0, {})
            return A(ty.adt if ty.adt else ty.s, None, {})
        d = str(k.get("def") or k.get("promoted"))
        return self.make(self.sym(("const", d, ty.s if ty else ""), ty), ty)

    # ------------------------------------------------------------- rvalues
    def rvalue(self, st, fn, frame, block, si, r, dty):
        T_ = fn.facts.types
        if "use" in r:
            return self.operand(st, fn, frame, r["use"])
        if "ref" in r:
            pl = r["ref"]
            if len(pl) > 1 and pl[-1] == "*":
                # reborrow: keep slice values
                root, path, ty = self.resolve(st, fn, frame, pl[:-1])
                v = self.read(st, root, path, ty)
                if isinstance(v, (S, C, RS)):
                    return v
                if isinstance(v, R):
                    return R(v.root, v.path, bool(r.get("mut")))
            root, path, ty = self.resolve(st, fn, frame, pl)
            if root[0] == "SLV":
                v = root[1]
                if not path:
                    return v
                ev = self.read(st, root, path, ty)
                if isinstance(ev, O):
                    return R(("H", Id(ev.id)))
                s = self.sym(("elref", v, path), ty)
                st.mem[("H", Id(s))] = ev
                return R(("H", Id(s)))
            if root[0] == "RS":
                return RS([(a, b + tuple(path)) for a, b in root[1]])
            return R(root, path, bool(r.get("mut")))
        if "bin" in r:
            a = self.operand(st, fn, frame, r["a"])
            b = self.operand(st, fn, frame, r["b"])
            return self.binop(st, fn, frame, block, si, r["bin"], a, b, T_[r["ty"]] if "ty" in r else None)
        if "un" in r:
            a = self.operand(st, fn, frame, r["a"])
            if r["un"] == "Not":
                if isinstance(a, B):
                    return a.neg()
                return self.make(self.sym(("not", a), dty), dty)
            if r["un"] == "Neg":
                if isinstance(a, I):
                    return I(-a.lin)
            if r["un"] == "PtrMetadata":
                return I(self.models.length(self, st, a, None))
            return self.make(self.sym(("un", r["un"], a), dty), dty)
        if "cast" in r:
            ck = r["ck"]
            if ck == "BoxDerefTransmute":
                pl = r["cast"].get("c") or r["cast"].get("m")
                if pl and len(pl) > 1:
                    bx = self.operand(st, fn, frame, {"c": pl[:-1]})
                    if isinstance(bx, A) and "box" in bx.fields:
                        return bx.fields["box"]
            a = self.operand(st, fn, frame, r["cast"])
            fr, to = T_[r["from"]], T_[r["to"]]
            return self.cast(st, fn, frame, block, si, a, ck, fr, to)
        if "discr" in r:
            root, path, ty = self.resolve(st, fn, frame, r["discr"])
            v = self.read(st, root, path, ty)
            if isinstance(v, O):
                inf = self.st.info[v.id]
                if inf.ty is None or inf.ty.k != "enum":
                    inf.ty = ty
            return self.discr(st, v)
        if "agg" in r:
            vals = [self.operand(st, fn, frame, o) for o in r["agg"]]
            ak = r["ak"]
            if ak == "adt":
                var = r.get("variant") if r.get("enum") else None
                return A(r["adt"], var, {i: v for i, v in enumerate(vals)})
            if ak == "tuple":
                if not vals:
                    return UNIT
                return A("tuple", None, {i: v for i, v in enumerate(vals)})
            if ak == "array":
                if vals and all(isinstance(v, I) and v.lin.is_const() for v in vals) and T_[r["ty"]].to is not None and T_[r["ty"]].to.bits == 8:
                    return C(bytes(v.lin.c & 255 for v in vals))
                return A("array", None, {i: v for i, v in enumerate(vals)})
            if ak in ("closure", "coroutine"):
                return A((ak, r["key"]), None, {i: v for i, v in enumerate(vals)})
            if ak == "rawptr":
                return vals[0]
            return A(ak, None, {i: v for i, v in enumerate(vals)})
        if "repeat" in r:
            v = self.operand(st, fn, frame, r["repeat"])
            n = r.get("n")
            s = self.fresh(st, frame, block, ("rep", si), dty)
            ob = A("array", None, {"rep": v, "content": O(s)}, s)
            if n is not None:
                ob = ob.with_("len", I(int(n)))
                if dty is not None and dty.to is not None and dty.to.bits == 8:
                    ob = ob.with_("valid", I(0)).with_("fillc", EMPTY)
            return ob
        if "tls" in r:
            return R(("H", Id(self.sym(("tls", str(r["tls"]))))))
        s = self.fresh(st, frame, block, ("rv", si), dty)
        return self.make(s, dty)

    def cast(self, st, fn, frame, block, si, a, ck, fr, to):
        if ck == "IntToInt":
            if isinstance(a, B):
                c = self.decide(st, a)
                if c is not None:
                    return I(1 if c else 0)
                op, x = a.k
                if op == "eq" and x.c == -1 and len(x.t) == 1 and x.t[0][1] == 1:
                    return I(Lin.sym(x.t[0][0]))
                return I(Lin.sym(self.sym(("b2i", a), None, (), True)))
            if isinstance(a, A) and a.variant is not None:
                return I(self.discr_const(a.adt, a.variant))
            if isinstance(a, O):
                return self.discr(st, a)
            if isinstance(a, I):
                fb = fr.bits if fr.bits else 32
                tb = to.bits if to.bits else 32
                if tb >= fb:
                    return a
                c = st.num.const(a.lin)
                if c is not None and 0 <= c < 2 ** tb:
                    return a
                if st.num.entails_ge(a.lin) and st.num.entails_ge(Lin(2 ** tb - 1) - a.lin):
                    return a
                return I(Lin.sym(self.sym(("trunc", a.lin, tb), to)))
            return a
        if ck in ("PointerCoercion",):
            # unsize etc: keep the pointer
            if isinstance(a, F) and to.k == "fnptr":
                return a
            if to.k in ("ref", "ptr") and fr.k in ("ref", "ptr") and to.to is not None and fr.to is not None:
                if fr.to.k == "array" and to.to.k == "slice":
                    if isinstance(a, R):
                        v = self.read(st, a.root, a.path, fr.to)
                        if isinstance(v, C):
                            return v
                        n = Lin(int(fr.to.n)) if fr.to.n is not None else self.models.length(self, st, v, fr.to)
                        return S(("P", a.root, a.path), ZERO, n)
                    if isinstance(a, O):
                        root, path = self.deref(st, a, fr.to)
                        n = Lin(int(fr.to.n)) if fr.to.n is not None else self.models.length(self, st, a, fr.to)
                        return S(("P", root, path), ZERO, n)
            return a
        if ck in ("PtrToPtr", "Transmute", "BoxDerefTransmute", "FnPtrToPtr"):
            if to.k in ("ref", "ptr") and isinstance(a, A) and "box" in a.fields:
                return a.fields["box"]
            if isinstance(a, A) and a.base is None and len(a.fields) == 1 and 0 in a.fields and to.k in ("ref", "ptr"):
                return a.fields[0]
            if isinstance(a, (R, S, C, RS)) and to.k in ("struct",):
                return A(to.adt, None, {0: a})
            if isinstance(a, (R, S, C, RS, A, O)):
                return a
            if isinstance(a, I) and to.is_int():
                return a
        s = self.fresh(st, frame, block, ("cast", si), to)
        return self.make(s, to)

    def binop(self, st, fn, frame, block, si, op, a, b, ty):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        ov = op.endswith("WithOverflow")
        if isinstance(a, I) and isinstance(b, I):
            x, y = a.lin, b.lin
            res = None
            if base == "Add":
                res = x + y
            elif base == "Sub":
                res = x - y
            elif base == "Mul":
                cx, cy = st.num.const(x), st.num.const(y)
                if cx is not None:
                    res = y.scale(cx)
                elif cy is not None:
                    res = x.scale(cy)
                else:
                    res = Lin.sym(self.sym(("mul", st.num.norm(x), st.num.norm(y)), ty))
            if res is not None:
                if ov:
                    if base == "Sub" and ty is not None and ty.k == "uint":
                        o = B("ge", y - x - 1)
                    else:
                        cr = st.num.const(res)
                        if cr is not None and ty is not None and ty.bits:
                            lo, hi = (0, 2 ** ty.bits - 1) if ty.k == "uint" else (-2 ** (ty.bits - 1), 2 ** (ty.bits - 1) - 1)
                            o = FALSE if lo <= cr <= hi else TRUE
                        else:
                            o = B("eq", Lin.sym(self.sym(("ovf", base, st.num.norm(x), st.num.norm(y), ty.bits if ty is not None else None), None, (), True)) - 1)
                    return A("tuple", None, {0: I(res), 1: o})
                return I(res)
            if base == "Eq":
                return B("eq", x - y)
            if base == "Ne":
                return B("ne", x - y)
            if base == "Lt":
                return B("ge", y - x - 1)
            if base == "Le":
                return B("ge", y - x)
            if base == "Gt":
                return B("ge", x - y - 1)
            if base == "Ge":
                return B("ge", x - y)
            cx, cy = st.num.const(x), st.num.const(y)
            if cx is not None and cy is not None:
                if base == "Div" and cy:
                    return I(cx // cy)
                if base == "Rem" and cy:
                    return I(cx % cy)
                if base == "Shl":
                    return I((cx << cy) & (2 ** (ty.bits or 64) - 1))
                if base == "Shr":
                    return I(cx >> cy)
                if base == "BitAnd":
                    return I(cx & cy)
                if base == "BitOr":
                    return I(cx | cy)
                if base == "BitXor":
                    return I(cx ^ cy)
            s = self.sym(("op", base, st.num.norm(x), st.num.norm(y)), ty)
            if base == "BitAnd" and cy is not None:
                st.num.add_ge(Lin(cy) - Lin.sym(s))
            if base == "Rem" and cy:
                st.num.add_ge(Lin(cy - 1) - Lin.sym(s))
            if base in ("Div", "Shr") and cy is not None:
                st.num.add_ge(x - Lin.sym(s))
            return I(Lin.sym(s))
        if isinstance(a, B) and isinstance(b, B):
            ca, cb = self.decide(st, a), self.decide(st, b)
            if base in ("Eq", "Ne"):
                neg = base == "Ne"
                if ca is not None and cb is not None:
                    return TRUE if (ca == cb) != neg else FALSE
                if ca is not None:
                    r = b if ca else b.neg()
                    return r.neg() if neg else r
                if cb is not None:
                    r = a if cb else a.neg()
                    return r.neg() if neg else r
            if base == "BitAnd":
                if ca is False or cb is False:
                    return FALSE
                if ca is True:
                    return b
                if cb is True:
                    return a
            if base == "BitOr":
                if ca is True or cb is True:
                    return TRUE
                if ca is False:
                    return b
                if cb is False:
                    return a
            s = self.sym(("bop", base, a, b), None, (), True)
            return B("eq", Lin.sym(s) - 1)
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, R) and isinstance(b, R) and base in ("Eq", "Ne") and (a.root, a.path) == (b.root, b.path):
                return TRUE if base == "Eq" else FALSE
            s = self.sym(("cmp", base, a, b), None, (), True)
            return B("eq", Lin.sym(s) - 1)
        s = self.fresh(st, frame, block, ("bin", si), ty)
        v = self.make(s, ty)
        if ov:
            return A("tuple", None, {0: v, 1: B("eq", Lin.sym(self.sym(("ovf?", Id(s)), None, (), True)) - 1)})
        return v

    # ---------------------------------------------------------- predicates
    def decide(self, st, b):
        if isinstance(b, B):
            op, x = b.k
            if op == "c":
                return x
            n = st.num
            if op == "ge":
                if n.entails_ge(x):
                    return True
                if n.entails_ge((-x) - 1):
                    return False
            elif op == "eq":
                if n.eq(x, ZERO):
                    return True
                if n.entails_ne(x):
                    return False
            elif op == "ne":
                if n.entails_ne(x):
                    return True
                if n.eq(x, ZERO):
                    return False
        return None

    def assume(self, st, b, truth=True):
        """Returns False if contradictory."""
        if not truth:
            b = b.neg()
        op, x = b.k
        if op == "c":
            return bool(x)
        n = st.num
        x0 = n.norm(x)
        if op == "ge":
            n.add_ge(x)
        elif op == "eq":
            n.add_eq(x)
        else:
            n.add_ne(x)
            # two-variant enums / booleans
            if len(x0.t) == 1 and x0.t[0][1] in (1, -1):
                self._ne_discr(st, x0)
        if n.bot:
            return False
        # discriminant refinement inside memory
        for s, k in x.t:
            inf = self.st.info[s]
            if inf.name[0] == "discr":
                self._refine(st, int(inf.name[1]))
        return not st.num.bot

    def _ne_discr(self, st, x):
        s, k = x.t[0]
        inf = self.st.info[s]
        if inf.name[0] == "discr":
            b = int(inf.name[1])
            ty = self.st.info[b].ty
            if ty is None or ty.k != "enum":
                return
            a = self.p.adt(ty.adt)
            if a is None:
                return
            alive = []
            for i, v in enumerate(a["variants"]):
                d = i if v["discr"] is None else v["discr"]
                t = st.num.copy()
                if not t.entails_ne(Lin.sym(s) - d):
                    alive.append(d)
            if not alive:
                st.num.bot = True
            elif len(alive) == 1:
                st.num.add_eq(Lin.sym(s) - alive[0])
        elif inf.nonneg:
            # boolean symbols range over {0,1}
            if inf.ty is not None and inf.ty.k == "bool" or inf.name[0] in ("cmp", "bop", "isb"):
                c = -x.c if k == 1 else x.c
                if c == 1:
                    st.num.add_eq(Lin.sym(s))
                elif c == 0:
                    st.num.add_eq(Lin.sym(s) - 1)

    def _refine(self, st, sid):
        """Symbol sid's discriminant became known: expose the variant in memory."""
        d = self.st.by_name.get(("discr", Id(sid)))
        c = st.num.const(Lin.sym(d))
        if c is None:
            return
        ty = self.st.info[sid].ty
        vi = self.variant_of(ty, c)
        if vi is None:
            if ty is not None and ty.k == "enum" and self.p.adt(ty.adt):
                st.num.bot = True
            return
        new = A(ty.adt, vi, {}, sid)
        for r, v in list(st.mem.items()):
            if sid in v.sym_ids():
                nv = self._subst_val(v, sid, new)
                if nv is not v:
                    st.mem[r] = nv

    def _subst_val(self, v, sid, new):
        if isinstance(v, O):
            return new if v.id == sid else v
        if isinstance(v, A) and sid in v.sym_ids():
            ch = False
            f = {}
            for k, x in v.fields.items():
                nx = self._subst_val(x, sid, new)
                if nx is not x:
                    ch = True
                f[k] = nx
            if ch:
                return A(v.adt, v.variant, f, v.base)
        return v

    # ----------------------------------------------------- partition keys
    def vkey(self, v):
        if isinstance(v, A):
            sub = []
            for k, x in v.k[2]:
                s = self.vkey(x)
                if s is not None:
                    sub.append((k, s))
            if self.unroll and v.adt == "iter" and isinstance(v.fields.get("idx"), I) and v.fields["idx"].lin.is_const():
                sub.append(("idx", int(v.fields["idx"].lin.c)))
            if v.variant is not None:
                return (v.variant, tuple(sub))
            if sub:
                return ("-", tuple(sub))
            return None
        if isinstance(v, B):
            if v.k[0] == "c":
                return v.k[1]
            return None
        if isinstance(v, K):
            return v
        if self.unroll and isinstance(v, I) and v.lin.is_const() and 0 <= v.lin.c <= 3:
            return int(v.lin.c)
        return None

    def key(self, st):
        out = []
        for r, v in st.mem.items():
            if r[0] == "H" and self.st.info[int(r[1])].name[0] == "constref":
                continue
            s = self.vkey(v)
            if s is not None:
                out.append((r, s))
        out.sort(key=lambda x: repr(x[0]))
        return tuple(out)

    # ---------------------------------------------------------------- join
    def same(self, a, b):
        return a.mem == b.mem and a.num.same(b.num)

    def join(self, a, b, where, head):
        """a: old state, b: new state.  Same partition key."""
        self.stats["joins"] += 1
        if a.mem == b.mem and a.num.same(b.num):
            return a
        st = self.st

        # rename phi symbols of this place in b (and in a unless it is the stored head state)
        def own(s):
            n = st.info[s].name
            return n[0] == "phi" and n[1] == where
        bi = [s for s in b.ids() | self._num_ids(b.num) if own(s)]
        if bi:
            b = b.copy()
            m = {}
            for s in bi:
                m[s] = st.get(("phi'", Id(s)), st.info[s].ty, st.info[s].nonneg, st.info[s].prov)
            self.rename_state(b, m)
        if not head:
            ai = [s for s in a.ids() | self._num_ids(a.num) if own(s)]
            if ai:
                a = a.copy()
                m = {}
                for s in ai:
                    m[s] = st.get(("phi'", Id(s)), st.info[s].ty, st.info[s].nonneg, st.info[s].prov)
                self.rename_state(a, m)
        phis = []
        mem = {}
        roots = list(a.mem.keys())
        for r in b.mem:
            if r not in a.mem:
                roots.append(r)
        for r in roots:
            va, vb = a.mem.get(r), b.mem.get(r)
            if va is None or vb is None:
                if r[0] == "H":
                    n = st.info[int(r[1])].name[0]
                    if n in ("heap", "constref", "elref"):
                        mem[r] = va if va is not None else vb
                        continue
                    d = self.root_default(r)
                    va = d if va is None else va
                    vb = d if vb is None else vb
                elif r[0] == "G":
                    continue
                else:
                    continue
            if va is vb or va == vb:
                mem[r] = va
            else:
                mem[r] = self.joinv(a, b, va, vb, where, (r,), phis)
        num = join_num(a.num, b.num, [(p, x, y) for p, x, y in phis])
        out = State(mem, num)
        self.gc(out)
        return out

    def _num_ids(self, n):
        return n.ids()

    def phi(self, where, path, ty, prov, nonneg=False, of=()):
        s = self.st.get(("phi", where, path), ty, nonneg)
        inf = self.st.info[s]
        if not inf.unk:
            inf.unk = any(self.st.info[i].unk for v in of for i in v.sym_ids())
        if not prov <= inf.prov:
            inf.prov = inf.prov | prov
        if inf.ty is None:
            inf.ty = ty
        return s

    def vprov(self, v):
        p = frozenset()
        for i in v.sym_ids():
            p |= self.st.info[i].prov
        return p

    def joinv(self, a, b, va, vb, where, path, phis):
        if va == vb:
            return va
        prov = self.vprov(va) | self.vprov(vb)
        if isinstance(va, I) and isinstance(vb, I):
            la, lb = va.lin, vb.lin
            if a.num.norm(la) == b.num.norm(lb) and a.num.norm(la) == la:
                return va
            nn = a.num.entails_ge(la) and b.num.entails_ge(lb)
            s = self.phi(where, path, None, prov, nn, (va, vb))
            if not nn and self.st.info[s].nonneg:
                self.st.info[s].nonneg = False
            phis.append((s, la, lb))
            return I(Lin.sym(s))
        if isinstance(va, B) and isinstance(vb, B):
            s = self.phi(where, path, None, prov, True, (va, vb))
            out = B("eq", Lin.sym(s) - 1)

            def bl(x):
                op, l = x.k
                if op == "c":
                    return ONE if l else ZERO
                if op == "eq" and l.c == -1 and len(l.t) == 1 and l.t[0][1] == 1:
                    return Lin.sym(l.t[0][0])
                return None
            xa, xb = bl(va), bl(vb)
            if xa is not None and xb is not None:
                phis.append((s, xa, xb))
            return out
        if isinstance(va, R) and isinstance(vb, R):
            if (va.root, va.path) == (vb.root, vb.path):
                return R(va.root, va.path, va.mut or vb.mut)
            return RS([(va.root, va.path), (vb.root, vb.path)])
        if isinstance(va, RS) or isinstance(vb, RS):
            rs = []
            ok = True
            for v in (va, vb):
                if isinstance(v, R):
                    rs.append((v.root, v.path))
                elif isinstance(v, RS):
                    rs.extend(v.refs)
                else:
                    ok = False
            if ok and len(set(rs)) <= 6:
                return RS(rs)
        if isinstance(va, S) and isinstance(vb, S) and va.base == vb.base:
            lo = self.joinv(a, b, I(va.lo), I(vb.lo), where, path + ("lo",), phis)
            ln = self.joinv(a, b, I(va.ln), I(vb.ln), where, path + ("ln",), phis)
            return S(va.base, lo.lin, ln.lin)
        if isinstance(va, T) or isinstance(vb, T):
            r = self.models.join_content(self, a, b, va, vb, where, path, phis)
            if r is not None:
                return r
        # aggregates
        if isinstance(va, (A, O)) and isinstance(vb, (A, O)) and (isinstance(va, A) or isinstance(vb, A)):
            aa = va if isinstance(va, A) else None
            ab = vb if isinstance(vb, A) else None
            ad = (aa or ab).adt
            vr = (aa or ab).variant
            okt = (aa is None or ab is None or aa.adt == ab.adt or "?" in (aa.adt, ab.adt)) and \
                  (aa is None or ab is None or aa.variant == ab.variant) and \
                  (vr is None or (aa is not None and ab is not None))
            if okt:
                ba = aa.base if aa is not None else va.id
                bb = ab.base if ab is not None else vb.id
                if ba == bb:
                    base = ba
                else:
                    if ba is None or bb is None:
                        base = ba if ba is not None else bb
                        # fields missing on one side are then unknown
                        base = self.phi(where, path + ("base",), self._basety(ba, bb), prov, False, (va, vb))
                    else:
                        base = self.phi(where, path + ("base",), self._basety(ba, bb), prov, False, (va, vb))
                keys = set()
                if aa is not None:
                    keys |= set(aa.fields)
                if ab is not None:
                    keys |= set(ab.fields)
                if ba != bb:
                    keys |= set(self.models.attr_names(self, ba, bb))
                f = {}
                for k in sorted(keys, key=lambda x: (isinstance(x, str), x)):
                    fa = self._fld(a, va, k, vr, vb)
                    fb = self._fld(b, vb, k, vr, va)
                    if fa is None or fb is None:
                        continue
                    f[k] = self.joinv(a, b, fa, fb, where, path + (k,), phis)
                sq = f.get("seq")
                if isinstance(sq, O) and "flat" in f and isinstance(f.get("len"), I) and self.st.info[sq.id].name[0] == "phi":
                    f["seq"] = T("seqof", f["flat"], f["len"], sq)
                if base is not None and aa is not None and ab is not None and aa.base is None and ab.base is None:
                    # both fully explicit
                    if set(aa.fields) == set(ab.fields):
                        base = None
                return A(ad, vr, f, base)
        if isinstance(va, O) and isinstance(vb, O):
            s = self.phi(where, path, self._basety(va.id, vb.id), prov, False, (va, vb))
            names = self.models.attr_names(self, va.id, vb.id)
            if names:
                f = {}
                for k in names:
                    fa = self._fld(a, va, k, None, vb)
                    fb = self._fld(b, vb, k, None, va)
                    if fa is not None and fb is not None:
                        f[k] = self.joinv(a, b, fa, fb, where, path + (k,), phis)
                ty = self.st.info[s].ty
                return A(ty.adt if ty is not None and ty.adt else "?", None, f, s)
            return O(s)
        ty = None
        for v in (va, vb):
            if isinstance(v, O):
                ty = self.st.info[v.id].ty
        if isinstance(va, U) or isinstance(vb, U):
            return UNDEF
        return O(self.phi(where, path, ty, prov, False, (va, vb)))

    def _basety(self, x, y):
        for i in (x, y):
            if i is not None and self.st.info[i].ty is not None:
                return self.st.info[i].ty
        return None

    def _fld(self, st, v, k, variant, other):
        """Field k of v with a default derived from the base; other gives the type."""
        if isinstance(v, A) and k in v.fields:
            return v.fields[k]
        if isinstance(k, str):
            return self.models.attr(self, st, v, k)
        base = v.base if isinstance(v, A) else v.id
        if base is None:
            return None
        ex = other.fields.get(k) if isinstance(other, A) else None
        s = self.sym(("fld", Id(base), variant, k), None)
        if isinstance(ex, I):
            return I(Lin.sym(s))
        if isinstance(ex, B):
            return B("eq", Lin.sym(s) - 1)
        return O(s)

    def gc(self, st):
        """Forget numeric facts about symbols that can no longer be observed."""
        live = set()
        for r, v in st.mem.items():
            live |= v.sym_ids()
            if r[0] == "H":
                live.add(int(r[1]))
        memo = {}
        info = self.st.info

        def keep(s):
            if s in live:
                return True
            r = memo.get(s)
            if r is None:
                n = info[s]
                if n.name[0] in ("ret", "phi", "phi'", "old", "sum"):
                    r = False
                elif n.ids:
                    r = all(keep(x) for x in n.ids)
                else:
                    r = True
                memo[s] = r
            return r
        st.num = st.num.project(keep)

    # ---------------------------------------------------------------- run
    def run(self, fn, frame, st0):
        F_.prepare(fn)
        self.stats["functions"].add(fn.key)
        pend = {0: [st0]}
        heap = [(0, 0)]
        stored = {}
        visits = {}
        exits = []
        ver = {}
        feeds = {}
        st0.origin = None
        queued = {0}
        while heap:
            _, b = heapq.heappop(heap)
            queued.discard(b)
            # states of superseded loop iterations are covered by newer ones
            sts = [s for s in pend.pop(b, []) if s.origin is None or ver.get(s.origin[0]) == s.origin[1]]
            if not sts:
                continue
            # group by key
            groups = {}
            live = fn.live[b]
            for s in sts:
                # drop dead locals
                dead = [r for r in s.mem if r[0] == "L" and r[1] == frame and r[2] not in live and r[2] not in fn.borrowed]
                for r in dead:
                    del s.mem[r]
                cand = [r for r in s.mem if r[0] == "L" and r[1] == frame and r[2] not in live]
                if cand:
                    cs_ = set(cand)
                    used = set()
                    for r, v in s.mem.items():
                        if r not in cs_:
                            _roots(v, used)
                    todo = [r for r in cand if r in used]
                    while todo:
                        r = todo.pop()
                        if r in cs_:
                            cs_.discard(r)
                            nu = set()
                            _roots(s.mem[r], nu)
                            todo.extend(x for x in nu if x in cs_)
                    for r in cs_:
                        del s.mem[r]
                k = self.key(s)
                groups.setdefault(k, []).append(s)
            nparts = len(groups)
            if nparts > self.max_parts:
                raise AnalysisLimit("too many partitions (%d) in %s bb%d" % (nparts, fn.key, b))
            for k, s in self.merge(groups, frame, b, b in fn.heads):
                if b in fn.heads:
                    old = stored.get((b, k))
                    if old is None:
                        feeds[(b, k)] = {}
                    og = s.origin
                    same_ = og is not None and og[0][0] == b
                    if not same_ or progress(og[0][1]) < progress(k):
                        # entered from outside (or through a merge)
                        fd = feeds[(b, k)]
                        ok_ = og[0] if og is not None else None
                        if old is not None and ok_ is not None and set(fd) == {ok_} and fd[ok_] != og[1] \
                                and (same_ or fn.wto[og[0][0]] < fn.wto[b]):
                            # only a superseded iteration of an enclosing loop fed this one: start over
                            old = None
                            visits[(b, k)] = 0
                            feeds[(b, k)] = {}
                        feeds[(b, k)][ok_] = og[1] if og is not None else 0
                    if old is not None:
                        w2 = self.where(frame, b, k, "h")
                        if s.mem == old.mem and s.num.implies(old.num):
                            continue
                        n = self.join(old, s, w2, True)
                        if n.mem == old.mem and n.num.implies(old.num):
                            continue
                        visits[(b, k)] = visits.get((b, k), 0) + 1
                        if visits[(b, k)] > 6:
                            n = self.widen(old, n)
                            if self.same(n, old):
                                continue
                        if visits[(b, k)] > 40:
                            raise AnalysisLimit("no fixpoint in %s bb%d" % (fn.key, b))
                        s = n
                    stored[(b, k)] = s
                    s = s.copy()
                    ver[(b, k)] = ver.get((b, k), 0) + 1
                    s.origin = ((b, k), ver[(b, k)])
                org = s.origin
                self.stats["blocks"] += 1
                self.bcount[fn.key] = self.bcount.get(fn.key, 0) + 1
                if self.stats["blocks"] > self.limit_blocks:
                    raise AnalysisLimit("block budget exceeded")
                for (nb, ns) in self.step(fn, frame, b, s, exits):
                    if ns.num.bot:
                        continue
                    ns.origin = org
                    pend.setdefault(nb, []).append(ns)
                    if nb not in queued:
                        queued.add(nb)
                        heapq.heappush(heap, (fn.wto[nb], nb))
        # merge exits by key
        groups = {}
        exits = [s for s in exits if s.origin is None or ver.get(s.origin[0]) == s.origin[1]]
        for s in exits:
            dead = [r for r in s.mem if r[0] == "L" and r[1] == frame and r[2] != 0]
            rv = s.mem.get(("L", frame, 0))
            if rv is None:
                rv = UNIT
            for r in dead:
                del s.mem[r]
            s.mem[("L", frame, 0)] = rv
            groups.setdefault(self.key(s), []).append(s)
        out = []
        for k, s in self.merge(groups, frame, "exit", False):
            rv = s.mem.pop(("L", frame, 0))
            out.append(Exit(s, rv))
        return out

    def merge(self, groups, frame, b, head):
        """Join the states of each partition; a bounded number of distinct
        states is kept apart except at loop heads."""
        for k, ss in groups.items():
            if len(ss) > 1:
                us = []
                for s in ss:
                    if not any(self.same(s, u) for u in us):
                        us.append(s)
                ss = us
            if not head and len(ss) <= self.max_disj:
                for s in ss:
                    yield k, s
                continue
            w = self.where(frame, b, k)
            s = ss[0]
            org = s.origin
            for x in ss[1:]:
                s = self.join(s, x, w, False)
                if x.origin != org:
                    org = None
            s.origin = org
            yield k, s

    def widen(self, old, new):
        """Keep only numeric facts of old that still hold."""
        n = Num(self.st)
        for p, r in new.num.eqs.items():
            n.add_eq(Lin.sym(p) - r)
        for g in new.num.ge:
            if g in old.num.ge:
                n.add_ge(g)
        for g in new.num.ne:
            if g in old.num.ne:
                n.add_ne(g)
        return State(self.forget(old, new.mem), n)

    def forget(self, old, mem):
        """Drops places of earlier iterations that nothing leads to any more."""
        new = {r for r in mem if r[0] == "H" and r not in old.mem}
        if not new:
            return mem
        used, live = set(), set()
        for r, v in mem.items():
            if r not in new:
                _roots(v, used)
                live |= v.sym_ids()
        todo = [r for r in used if r in new]
        while todo:
            r = todo.pop()
            if r in new:
                new.discard(r)
                nu = set()
                _roots(mem[r], nu)
                live |= mem[r].sym_ids()
                todo.extend(x for x in nu if x in new)
        info = self.st.info

        def gone(s, d=0):
            n = info[s]
            if n.name[0] in ("phi'", "sum"):
                return s not in live
            return d < 20 and any(gone(x, d + 1) for x in n.ids)
        return {r: v for r, v in mem.items() if r not in new or not gone(int(r[1]))}

    def step(self, fn, frame, b, st, exits):
        blk = fn.blocks[b]
        for si, s in enumerate(blk["s"]):
            if "dead" in s:
                st.mem.pop(("L", frame, s["dead"]), None)
                continue
            if "setd" in s:
                root, path, ty = self.resolve(st, fn, frame, s["p"])
                v = self.read(st, root, path, ty)
                f = v.fields if isinstance(v, A) else {}
                self.write(st, root, path, A(ty.adt if ty else "?", s["setd"], dict(f), v.base if isinstance(v, A) else None))
                continue
            pl = s["p"]
            if len(pl) == 1:
                dty = fn.locals[pl[0]]
                v = self.rvalue(st, fn, frame, b, si, s["r"], dty)
                st.mem[("L", frame, pl[0])] = v
                for rl in self.rules:
                    rl.on_assign(self, fn, frame, b, st, pl, s, v)
            else:
                root, path, ty = self.resolve(st, fn, frame, pl)
                v = self.rvalue(st, fn, frame, b, si, s["r"], ty)
                for rl in self.rules:
                    rl.on_store(self, fn, frame, b, st, root, path, v, s)
                self.write(st, root, path, v)
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "return":
            exits.append(st)
            return []
        if k == "switch":
            return self.switch(fn, frame, b, st, t)
        if k == "assert":
            c = self.operand(st, fn, frame, t["c"])
            for rl in self.rules:
                rl.on_assert(self, fn, frame, b, st, t, c)
            if isinstance(c, B):
                if not self.assume(st, c, bool(t["e"])):
                    return []
            if t["t"] is None:
                return []
            return [(t["t"], st)]
        if k == "drop":
            for rl in self.rules:
                rl.on_drop(self, fn, frame, b, st, t)
            self.models.drop(self, fn, frame, b, st, t)
            if len(t["p"]) == 1 and t["p"][0] not in fn.borrowed:
                st.mem.pop(("L", frame, t["p"][0]), None)
            return [(t["t"], st)]
        if k == "call":
            out = []
            for ns, rv in self.call(fn, frame, b, st, t):
                if t.get("t") is None:
                    continue
                root, path, ty = self.resolve(ns, fn, frame, t["d"])
                self.write(ns, root, path, rv)
                out.append((t["t"], ns))
            return out
        return []

    def switch(self, fn, frame, b, st, t):
        v = self.operand(st, fn, frame, t["d"])
        out = []
        if isinstance(v, B):
            c = self.decide(st, v)
            vs = dict((x, y) for x, y in t["vs"])
            fb = vs.get(0)
            tb = vs.get(1, t.get("else"))
            if fb is None:
                fb = t.get("else")
            if c is not True:
                s2 = st.copy() if c is None else st
                if c is False or self.assume(s2, v, False):
                    out.append((fb, s2))
            if c is not False:
                if c is True or self.assume(st, v, True):
                    out.append((tb, st))
            for nb, ns in out:
                for rl in self.rules:
                    rl.on_branch(self, fn, frame, b, ns, v)
            return out
        if isinstance(v, I):
            lin = v.lin
            c = st.num.const(lin)
            if c is not None:
                for x, y in t["vs"]:
                    if x == c:
                        return [(y, st)]
                return [(t["else"], st)] if t.get("else") is not None else []
            rest = st
            for x, y in t["vs"]:
                s2 = rest.copy()
                if self.assume(s2, B("eq", lin - x), True):
                    out.append((y, s2))
            if t.get("else") is not None:
                ok = True
                for x, y in t["vs"]:
                    if not self.assume(rest, B("ne", lin - x), True):
                        ok = False
                        break
                if ok:
                    out.append((t["else"], rest))
            return out
        for x, y in t["vs"]:
            out.append((y, st.copy()))
        if t.get("else") is not None:
            out.append((t["else"], st))
        return out

    # ---------------------------------------------------------------- call
    def call(self, fn, frame, b, st, t):
        T_ = fn.facts.types
        f = t["f"]
        args = [self.operand(st, fn, frame, a) for a in t["a"]]
        cs = CallSite()
        cs.ip = self
        cs.fn = fn
        cs.frame = frame
        cs.block = b
        cs.term = t
        cs.span = t.get("sp", fn.span)
        cs.args = args
        cs.ops = t["a"]
        cs.dty = T_[t["dty"]]
        cs.depth = len(self.stack)
        cs.stack = tuple(self.stack)
        cs.atys = [self.opty(fn, a) for a in t["a"]]
        fv = self.operand(st, fn, frame, f)
        if isinstance(fv, F):
            cl = fv.aux
            if "k" not in f:
                # function value from elsewhere: types belong to another crate table
                pass
        else:
            return self.call_value(cs, st, fv, args)
        return self.dispatch(cs, st, cl, args)

    def dispatch(self, cs, st, cl, args):
        r = cl.get("r") or {}
        cs.callee = cl
        cs.name = cl["name"]
        cs.rname = r.get("name") or cl["name"]
        cs.key = r.get("key")
        cs.kind = r.get("kind")
        cs.args = args
        T_ = cs.fn.facts.types
        ta = r.get("args") if r.get("args") is not None else cl.get("args", [])
        cs.targs = [T_[i] if isinstance(i, int) and i < len(T_) else None for i in cl.get("args", [])]
        self.stats["sites"].add((cs.fn.key, cs.block))
        if cl.get("ctor"):
            res = A(cl["adt"], cl.get("variant") if self._is_enum(cl["adt"]) else None, {i: v for i, v in enumerate(args)})
            return [(st, res)]
        for rl in self.rules:
            o = rl.on_call(self, cs, st)
            if o is not None:
                return self._after(cs, o)
        m = self.models.find(self, cs, st)
        if m is not None:
            self.stats["calls_modelled"] += 1
            o = m(self, cs, st)
            if o is not None:
                return self._after(cs, o)
        o = self.try_inline(cs, st, args)
        if o is not None:
            return self._after(cs, o)
        self.stats["calls_default"] += 1
        self.stats["default_names"][cs.rname] = self.stats["default_names"].get(cs.rname, 0) + 1
        for rl in self.rules:
            if rl.on_default(self, cs, st) is False:
                return []
        o = self.models.default(self, cs, st)
        return self._after(cs, o)

    def _is_enum(self, adt):
        a = self.p.adt(adt)
        return a is not None and a["k"] == "enum"

    def _after(self, cs, outs):
        res = []
        for s, v in outs:
            if s.num.bot:
                continue
            keep = True
            for rl in self.rules:
                if rl.after_call(self, cs, s, v) is False:
                    keep = False
            if keep:
                res.append((s, v))
        return res

    def try_inline(self, cs, st, args):
        if cs.key is None:
            return None
        if cs.kind not in (None, "item", "closure_once", "fnptr", "clone", "other"):
            return None
        g = self.p.lookup(cs.key, cs.fn.facts)
        if g is None or g.coroutine:
            return None
        if cs.name.startswith("core::ops::function::Fn") and "{closure#" in g.key and len(args) == 2 \
                and isinstance(args[1], A) and args[1].adt in ("tuple", "unit"):
            return self.call_closure(cs, st, args[0], [args[1].fields[i] for i in sorted(k for k in args[1].fields if isinstance(k, int))])
        return self.inline(cs, st, g, args)

    def inline(self, cs, st, g, args):
        if any(k == g.key for k in self.stack) or len(self.stack) >= self.max_depth:
            for rl in self.rules:
                o = rl.on_recursion(self, cs, st, g)
                if o is not None:
                    return o
            return None
        self.stats["calls_inlined"] += 1
        fr = self.frame(cs.frame, cs.block, g.key)
        if g.raw.get("spread") is not None and len(args) == g.argc - 0 and isinstance(args[-1], A) is False:
            pass
        avals = list(args)
        if len(avals) != g.argc:
            # closure bodies called with a tuple of arguments
            if len(avals) == 2 and isinstance(avals[1], A) and avals[1].adt in ("tuple", "unit"):
                tup = avals[1]
                avals = [avals[0]] + [tup.fields[i] for i in sorted(k for k in tup.fields if isinstance(k, int))]
            elif len(avals) == 2 and g.argc == 1:
                avals = avals[:1]
        if len(avals) != g.argc:
            return None
        for i, a in enumerate(avals):
            st.mem[("L", fr, i + 1)] = a
        self.stack.append(g.key)
        try:
            ex = self.run(g, fr, st)
        finally:
            self.stack.pop()
        return [(e.state, e.ret) for e in ex]

    def call_value(self, cs, st, fv, args):
        """Call through a value (closure, fn pointer)."""
        cs.callee = {"name": "<indirect>"}
        cs.name = cs.rname = "<indirect>"
        cs.key = None
        cs.kind = None
        cs.targs = []
        while isinstance(fv, R):
            fv = self.read(st, fv.root, fv.path, None)
        if isinstance(fv, F):
            return self.dispatch(cs, st, fv.aux, args)
        return self._after(cs, self.models.default(self, cs, st))

    def call_closure(self, cs, st, clo, argvals):
        """Invoke a closure / fn value with a list of argument values."""
        v = clo
        ref = None
        while isinstance(v, R):
            ref = v
            v = self.read(st, v.root, v.path, None)
        if isinstance(v, F):
            return self.dispatch(cs, st, v.aux, argvals)
        if isinstance(v, A) and isinstance(v.adt, tuple) and v.adt[0] == "closure":
            g = self.p.lookup(v.adt[1], cs.fn.facts)
            if g is None:
                return None
            selfty = g.locals[1]
            if selfty.is_ref():
                if ref is None:
                    s = self.sym(("heap", "clo", cs.frame, cs.block))
                    root = ("H", Id(s))
                    st.mem[root] = v
                    sv = R(root, (), True)
                else:
                    sv = ref
            else:
                sv = v
            return self.inline(cs, st, g, [sv] + list(argvals))
        return None

    def iterate(self, cs, st, body):
        """Fixpoint of a loop inside a library operation.  body(state) returns
        [(state, leaves the loop?, value)]; the result is the leaving states."""
        pend = [(None, 0, st)]
        stored, visits, ver, exits = {}, {}, {}, {}
        while pend:
            ok_, vn, s = pend.pop(0)
            if ok_ is not None and ver.get(ok_) != vn:
                continue
            k = self.key(s)
            old = stored.get(k)
            if old is not None:
                w = self.where(cs.frame, cs.block, k, "it")
                if s.mem == old.mem and s.num.implies(old.num):
                    continue
                n = self.join(old, s, w, True)
                if n.mem == old.mem and n.num.implies(old.num):
                    continue
                visits[k] = visits.get(k, 0) + 1
                if visits[k] > 8:
                    n = self.widen(old, n)
                    if self.same(n, old):
                        continue
                if visits[k] > 40:
                    raise AnalysisLimit("no fixpoint in iteration at %s" % cs.rname)
                s = n
            stored[k] = s
            ver[k] = ver.get(k, 0) + 1
            exits[k] = []
            for ns, leaves, val in body(s.copy()):
                if ns.num.bot:
                    continue
                if leaves:
                    exits[k].append((ns, val))
                else:
                    pend.append((k, ver[k], ns))
        return [x for l in exits.values() for x in l]

    # ------------------------------------------------------------- entries
    def entry(self, fn, setup=None):
        """Analyse fn with unconstrained arguments.  setup(ip, st, args) may
        refine; it returns a list of initial states (or None)."""
        F_.prepare(fn)
        fr = self.frame(None, 0, fn.key)
        st = State({}, Num(self.st))
        args = []
        for i in range(fn.argc):
            ty = fn.locals[i + 1]
            v = self.arg_value(st, fn, i, ty)
            args.append(v)
        sts = [st]
        if setup is not None:
            r = setup(self, st, args)
            if r is not None:
                sts = r
        out = []
        for s in sts:
            for i, a in enumerate(args):
                if ("L", fr, i + 1) not in s.mem:
                    s.mem[("L", fr, i + 1)] = a
            self.stack.append(fn.key)
            try:
                out.extend(self.run(fn, fr, s))
            finally:
                self.stack.pop()
        return out, args

    def arg_value(self, st, fn, i, ty):
        lab = ("arg", i)
        if ty.k == "ref" and ty.to is not None and ty.to.k not in ("slice", "str", "dyn"):
            s = self.sym(("argref", fn.key, i), ty.to, (lab,))
            return R(("H", Id(s)), (), bool(ty.mut))
        s = self.sym(("arg", fn.key, i), ty, (lab,))
        return self.make(s, ty)


class Rule:
    """Base class of observers."""

    def on_call(self, ip, cs, st):
        return None

    def on_default(self, ip, cs, st):
        """A call about which nothing is known. False ends the path, as nothing after it can be decided."""

    def after_call(self, ip, cs, st, ret):
        return None

    def on_recursion(self, ip, cs, st, g):
        return None

    def on_assign(self, ip, fn, frame, b, st, pl, s, v):
        pass

    def on_store(self, ip, fn, frame, b, st, root, path, v, s):
        pass

    def on_assert(self, ip, fn, frame, b, st, t, c):
        pass

    def on_branch(self, ip, fn, frame, b, st, v):
        pass

    def on_drop(self, ip, fn, frame, b, st, t):
        pass
