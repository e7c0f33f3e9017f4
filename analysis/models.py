"""Models of library operations used by the analysed crates."""
from num import Lin, Id, ZERO, ONE
from values import *

RES = "core::result::Result"
OPT = "core::option::Option"
POLL = "core::task::poll::Poll"


def ok(v):
    return A(RES, 0, {0: v})


def err(v):
    return A(RES, 1, {0: v})


def some(v):
    return A(OPT, 1, {0: v})


NONE = A(OPT, 0, {})

INT_ATTRS = {"len", "pos", "end", "start", "stop", "count", "bytes", "n", "cap", "valid", "idx", "rest", "k", "hi", "rtotal", "lastn"}
CONTAINERS = {
    "bytes::bytes::Bytes": ("len",),
    "bytes::bytes_mut::BytesMut": ("len",),
    "alloc::vec::Vec": ("len",),
    "std::fs::File": ("pos", "end"),
    "olio::fs::read::ReadPos": ("pos",),
    "olio::fs::read::ReadSlice": ("pos", "start", "stop"),
}


WRAPPERS = ("olio::mem::handle::MemHandle", "alloc::sync::Arc", "alloc::rc::Rc")


def _is_buffer(ip, i):
    ty = ip.st.info[i].ty
    return ty is None or not (ty.is_int() or ty.k == "bool")


# what the system answers
OUTSIDE = ("std::fs::", "std::env::", "std::time::", "std::process::", "std::thread::", "std::net::", "std::os::", "std::sys::",
           "tempfile::", "memmap::", "rand::", "libc::", "clap::")


class Models:
    def __init__(self):
        self.exact = {}
        self.suffix = {}
        self.assumptions = set()

    # ------------------------------------------------------------ registry
    def reg(self, *names):
        def d(f):
            for n in names:
                self.exact[n] = f
            return f
        return d

    def find(self, ip, cs, st):
        m = self.exact.get(cs.rname)
        if m is None and cs.name != cs.rname:
            m = self.exact.get(cs.name)
            # do not shadow workspace implementations of a trait method
            if m is not None and cs.key is not None:
                g = ip.p.lookup(cs.key, cs.fn.facts)
                if g is not None and g.local:
                    m = None
        if m is None and cs.kind is None:
            m = self.exact.get(cs.name)
        return m

    # ------------------------------------------------------------- helpers
    def rd(self, ip, st, v):
        """Follow references to the referred value."""
        n = 0
        while isinstance(v, (R, RS)) and n < 8:
            if isinstance(v, RS):
                return ip.read(st, ("RS", v.refs), (), None)
            v = ip.read(st, v.root, v.path, None)
            n += 1
        return v

    def place(self, ip, st, v, ty=None):
        """Place a reference value points to (following nested references)."""
        n = 0
        while n < 8:
            if isinstance(v, R):
                x = ip.read(st, v.root, v.path, None)
                if isinstance(x, (R, RS)):
                    v = x
                    n += 1
                    continue
                if isinstance(x, A) and "box" in x.fields:
                    v = x.fields["box"]
                    n += 1
                    continue
                return v.root, v.path
            if isinstance(v, A) and "box" in v.fields:
                v = v.fields["box"]
                continue
            return ip.deref(st, v, ty)
        return ip.deref(st, v, ty)

    def attr(self, ip, st, v, k):
        if isinstance(v, (R, RS)):
            v = self.rd(ip, st, v)
        if isinstance(v, A):
            if k in v.fields:
                return v.fields[k]
            if k == "len" and v.adt == "array":
                return I(len([x for x in v.fields if isinstance(x, int)]))
            b = v.base
        elif isinstance(v, O):
            b = v.id
        elif isinstance(v, C):
            if k == "len":
                return I(len(v.b))
            return v
        elif isinstance(v, S):
            if k == "len":
                return I(v.ln)
            b = None
        else:
            b = None
        if b is None:
            if k in INT_ATTRS:
                return I(Lin.sym(ip.sym(("attrx", v, k), None, (), True)))
            return O(ip.sym(("attrx", v, k)))
        if k in INT_ATTRS:
            return I(Lin.sym(ip.sym(("attr", Id(b), k), None, (), True)))
        if k in ("content", "seq"):
            return O(b)
        if k == "flat":
            if isinstance(v, A) and "seq" in v.fields:
                return self.cnorm(ip, st, T("flat", v.fields["seq"]))
            return T("flat", O(b))
        return O(ip.sym(("attr", Id(b), k)))

    def lin(self, ip, st, v, k):
        x = self.attr(ip, st, v, k)
        return x.lin if isinstance(x, I) else Lin.sym(ip.sym(("lin?", x), None, (), True))

    def setattrs(self, ip, st, v, **kw):
        """New value with attributes set."""
        if isinstance(v, A):
            f = dict(v.fields)
            f.update(kw)
            return A(v.adt, v.variant, f, v.base)
        if isinstance(v, O):
            ty = ip.st.info[v.id].ty
            return A(ty.adt if ty is not None and ty.adt else "?", None, dict(kw), v.id)
        return A("?", None, dict(kw), ip.sym(("wrap", v)))

    def attr_names(self, ip, ia, ib):
        for i in (ia, ib):
            if i is not None:
                ty = ip.st.info[i].ty
                if ty is not None and ty.adt in CONTAINERS:
                    return CONTAINERS[ty.adt]
        return ()

    def unwrap(self, ip, st, v):
        """Through shared-ownership wrappers."""
        for _ in range(3):
            if isinstance(v, A) and "inner" in v.fields and v.adt in WRAPPERS:
                v = v.fields["inner"]
            elif isinstance(v, (A, O)) and "content" not in getattr(v, "fields", ()):
                b = v.base if isinstance(v, A) else v.id
                ty = ip.st.info[b].ty if b is not None else None
                if ty is None or ty.adt not in WRAPPERS:
                    return v
                v = ip.get_elem(st, v, (None, "inner"), None)
            else:
                return v
            if isinstance(v, (R, RS)):
                v = self.rd(ip, st, v)
        return v

    def length(self, ip, st, v, ty=None):
        v = self.rd(ip, st, v) if isinstance(v, (R, RS)) else v
        v = self.unwrap(ip, st, v)
        if isinstance(v, S):
            return v.ln
        if isinstance(v, C):
            return Lin(len(v.b))
        if ty is not None and ty.k == "array" and ty.n is not None:
            return Lin(int(ty.n))
        if isinstance(v, O):
            t = ip.st.info[v.id].ty
            if t is not None and t.k == "array" and t.n is not None:
                return Lin(int(t.n))
            if t is not None and t.k == "ref" and t.to is not None and t.to.k in ("slice", "str"):
                v = O(ip.sym(("deref", Id(v.id)), t.to))
        return self.lin(ip, st, v, "len")

    # ----------------------------------------------------- content algebra
    def content(self, ip, st, v):
        if isinstance(v, (R, RS)):
            v = self.rd(ip, st, v)
        v = self.unwrap(ip, st, v)
        if isinstance(v, S):
            b = v.base
            if isinstance(b, tuple):
                pv = ip.read(st, b[1], b[2], None)
                if isinstance(pv, A) and "fillc" in pv.fields and isinstance(pv.fields.get("valid"), I):
                    # the part that was filled
                    fl = pv.fields["valid"].lin
                    if st.num.eq(v.lo + v.ln, fl) or ip.decide(st, B("ge", fl - v.lo - v.ln)):
                        return self.mkck(ip, st, pv.fields["fillc"], v.lo, v.ln, fl)
                c = self.content(ip, st, pv)
                full = self.length(ip, st, pv)
            else:
                c = self.content(ip, st, b)
                full = self.length(ip, st, b)
            return self.mkck(ip, st, c, v.lo, v.ln, full)
        if isinstance(v, A):
            if "fillc" in v.fields and isinstance(v.fields.get("valid"), I) and isinstance(v.fields.get("len"), I) \
                    and st.num.eq(v.fields["valid"].lin, v.fields["len"].lin):
                return v.fields["fillc"]
            if "content" in v.fields:
                return v.fields["content"]
            if v.base is not None:
                return O(v.base)
            return v
        return v

    def mkck(self, ip, st, c, lo, ln, full=None):
        n = st.num
        if isinstance(c, T) and c.op == "ck":
            return self.mkck(ip, st, c.args[0], c.args[1].lin + lo, ln, None)
        cl, ch = n.const(lo), n.const(ln)
        if isinstance(c, C) and cl is not None and ch is not None:
            return C(c.b[cl:cl + ch])
        if full is None:
            full = self.clen(ip, st, c)
        if n.eq(lo, ZERO) and n.eq(ln, full):
            return c
        if n.eq(ln, ZERO):
            return EMPTY
        return T("ck", c, I(n.norm(lo)), I(n.norm(ln)))

    def clen(self, ip, st, c):
        n = st.num
        if isinstance(c, O):
            return self.length(ip, st, c)
        if isinstance(c, C):
            return Lin(len(c.b))
        if isinstance(c, S):
            return c.ln
        if isinstance(c, T):
            if c.op == "empty":
                return ZERO
            if c.op == "ck":
                return c.args[2].lin
            if c.op == "app":
                return self.clen(ip, st, c.args[0]) + self.clen(ip, st, c.args[1])
            if c.op in ("pre", "flat"):
                d = self.cnorm(ip, st, c)
                if d != c:
                    return self.clen(ip, st, d)
                if c.op == "flat" and isinstance(c.args[0], O):
                    return self.lin(ip, st, c.args[0], "bytes")
            if c.op == "farg":
                n = self.farg_len(ip, st, c)
                if n is not None:
                    return n
            return Lin.sym(ip.sym(("clen", c), None, (), True))
        if isinstance(c, A):
            return self.length(ip, st, c)
        return Lin.sym(ip.sym(("clen", c), None, (), True))

    def seqcount(self, ip, st, s):
        if isinstance(s, T):
            if s.op == "vempty":
                return ZERO
            if s.op == "vapp":
                return self.seqcount(ip, st, s.args[0]) + 1
            if s.op == "seqof":
                return s.args[1].lin
            if s.op == "heads":
                return Lin.sym(ip.sym(("headcount", s.args[0]), None, (), True))
            if s.op == "hl":
                return Lin.sym(ip.sym(("hlen", s.args[0]), None, (), True))
        if isinstance(s, (O, A)):
            return self.lin(ip, st, s, "len")
        return Lin.sym(ip.sym(("count", s), None, (), True))

    def cnorm(self, ip, st, c):
        """Normal form of a content term."""
        if isinstance(c, O):
            nm = ip.st.info[c.id].name
            if nm[0] == "elem" and isinstance(nm[2], Lin) and _is_buffer(ip, c.id) and st.num.eq(nm[2], ZERO) \
                    and st.num.eq(self.seqcount(ip, st, nm[1]), ONE):
                return self.cnorm(ip, st, T("flat", nm[1]))
            return c
        if isinstance(c, T):
            if c.op == "pre":
                seq, k = c.args
                if st.num.eq(k.lin, ZERO):
                    return EMPTY
                if st.num.eq(k.lin, self.seqcount(ip, st, seq)):
                    return self.cnorm(ip, st, T("flat", seq))
                return c
            if c.op == "flat":
                seq = c.args[0]
                if isinstance(seq, T) and seq.op == "vempty":
                    return EMPTY
                if isinstance(seq, T) and seq.op == "seqof":
                    return self.cnorm(ip, st, seq.args[0])
                if isinstance(seq, T) and seq.op == "vapp":
                    return self.append(ip, st, self.cnorm(ip, st, T("flat", seq.args[0])), seq.args[1])
                if st.num.eq(self.seqcount(ip, st, seq), ZERO):
                    if isinstance(seq, O):
                        st.num.add_eq(self.lin(ip, st, seq, "bytes"))
                    return EMPTY
                return c
            if c.op == "app":
                a = self.cnorm(ip, st, c.args[0])
                b = self.cnorm(ip, st, c.args[1])
                if a == c.args[0] and b == c.args[1]:
                    return c
                return self.append(ip, st, a, b)
            if c.op == "ck":
                return self.mkck(ip, st, self.cnorm(ip, st, c.args[0]), c.args[1].lin, c.args[2].lin)
        return c

    def append(self, ip, st, c, x):
        n = st.num
        c = self.cnorm(ip, st, c)
        if x == EMPTY or (isinstance(x, C) and not x.b):
            return c
        if n.eq(self.clen(ip, st, x), ZERO):
            return c
        if isinstance(x, T) and x.op == "app":
            return self.append(ip, st, self.append(ip, st, c, x.args[0]), x.args[1])
        # elements of a sequence in order
        if isinstance(x, O):
            nm = ip.st.info[x.id].name
            if nm[0] == "elem" and _is_buffer(ip, x.id):
                seq, idx = nm[1], nm[2]
                last, pre = c, None
                if isinstance(c, T) and c.op == "app":
                    pre, last = c.args
                if isinstance(last, T) and last.op == "pre" and last.args[0] == seq and n.eq(last.args[1].lin, idx):
                    m = T("pre", seq, I(n.norm(idx + 1)))
                    return m if pre is None else T("app", pre, m)
                if n.eq(idx, ZERO):
                    x = T("pre", seq, I(1))
        if c == EMPTY:
            return x
        # adjacent chunks
        last, pre = c, None
        if isinstance(c, T) and c.op == "app":
            pre, last = c.args
        if isinstance(last, T) and last.op == "ck" and isinstance(x, T) and x.op == "ck" and last.args[0] == x.args[0] \
                and n.eq(last.args[1].lin + last.args[2].lin, x.args[1].lin):
            m = self.mkck(ip, st, x.args[0], last.args[1].lin, last.args[2].lin + x.args[2].lin)
            return m if pre is None else T("app", pre, m)
        if isinstance(last, C) and isinstance(x, C):
            m = C(last.b + x.b)
            return m if pre is None else T("app", pre, m)
        return self.fold_line(ip, st, T("app", c, x))

    def fold_line(self, ip, st, c):
        return c

    def renorm(self, ip, st, seq):
        """The sequence has been consumed: rewrite complete prefixes."""
        for r, v in list(st.mem.items()):
            nv = self._renorm(ip, st, v, seq)
            if nv is not v:
                st.mem[r] = nv

    def _renorm(self, ip, st, v, seq):
        if isinstance(v, A):
            f = None
            for k, x in v.fields.items():
                y = self._renorm(ip, st, x, seq)
                if y is not x:
                    if f is None:
                        f = dict(v.fields)
                    f[k] = y
            return v if f is None else A(v.adt, v.variant, f, v.base)
        if isinstance(v, T) and v.op in ("pre", "app", "ck"):
            y = self.cnorm(ip, st, v)
            return v if y == v else y
        return v

    def ceq(self, ip, st, a, b):
        """Contents provably equal."""
        a = self.cnorm(ip, st, a)
        b = self.cnorm(ip, st, b)
        return self._ceq(ip, st, a, b)

    def _ceq(self, ip, st, a, b):
        if a == b:
            return True
        if isinstance(a, I) and isinstance(b, I):
            return st.num.eq(a.lin, b.lin)
        if isinstance(a, Lin) and isinstance(b, Lin):
            return st.num.eq(a, b)
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args):
            if a.op == "ck":
                if st.num.eq(a.args[2].lin, ZERO) and st.num.eq(b.args[2].lin, ZERO):
                    return True
            return all(self._ceq(ip, st, x, y) if isinstance(x, Val) and isinstance(y, Val) else x == y
                       for x, y in zip(a.args, b.args))
        for x, y in ((a, b), (b, a)):
            if x == EMPTY and st.num.eq(self.clen(ip, st, y), ZERO):
                return True
            if isinstance(x, T) and x.op == "ck" and not isinstance(y, T):
                if self._ceq(ip, st, x.args[0], y) and st.num.eq(x.args[1].lin, ZERO) and \
                        st.num.eq(x.args[2].lin, self.clen(ip, st, y)):
                    return True
            if isinstance(x, T) and x.op == "app":
                if st.num.eq(self.clen(ip, st, x.args[1]), ZERO) and self._ceq(ip, st, x.args[0], y):
                    return True
                if st.num.eq(self.clen(ip, st, x.args[0]), ZERO) and self._ceq(ip, st, x.args[1], y):
                    return True
        if isinstance(a, O) and isinstance(b, O):
            na, nb = ip.st.info[a.id].name, ip.st.info[b.id].name
            if na[0] == "elem" and nb[0] == "elem" and na[1] == nb[1]:
                return st.num.eq(na[2], nb[2])
        return False

    def join_content(self, ip, a, b, va, vb, where, path, phis):
        def pk(v):
            if v == EMPTY:
                return (None, ZERO)
            if isinstance(v, T) and v.op == "pre":
                return (v.args[0], v.args[1].lin)
            if isinstance(v, T) and v.op == "flat":
                return (v.args[0], None)
            return None
        pa, pb = pk(va), pk(vb)
        if pa and pb and (pa[0] is None or pb[0] is None or pa[0] == pb[0]):
            seq = pa[0] if pa[0] is not None else pb[0]
            if seq is not None:
                ka = pa[1] if pa[1] is not None else self.seqcount(ip, a, seq)
                kb = pb[1] if pb[1] is not None else self.seqcount(ip, b, seq)
                k = ip.joinv(a, b, I(ka), I(kb), where, path + ("k",), phis)
                return T("pre", seq, k)
        if isinstance(va, T) and isinstance(vb, T) and va.op == "ck" and vb.op == "ck" and va.args[0] == vb.args[0]:
            lo = ip.joinv(a, b, va.args[1], vb.args[1], where, path + ("lo",), phis)
            ln = ip.joinv(a, b, va.args[2], vb.args[2], where, path + ("ln",), phis)
            return T("ck", va.args[0], lo, ln)
        # empty vs chunk: the empty chunk just before the other one
        for x, y, sx, sy, sw in ((va, vb, a, b, False), (vb, va, b, a, True)):
            if x == EMPTY and isinstance(y, T) and y.op == "ck":
                l1 = y.args[1]
                if all(i in _known_ids(ip, sx) or ip.st.info[i].name[0] not in ("ret", "phi", "old") for i in l1.sym_ids()):
                    ln = ip.joinv(a, b, I(0) if not sw else y.args[2], y.args[2] if not sw else I(0), where, path + ("ln",), phis)
                    return T("ck", y.args[0], l1, ln)
        if isinstance(va, T) and isinstance(vb, T) and va.op == "app" and vb.op == "app" \
                and (min(_depth(va), _depth(vb)) <= 3 or (va.args[0] == vb.args[0] and _is_lines(va.args[1]))):
            x = ip.joinv(a, b, va.args[0], vb.args[0], where, path + ("a0",), phis)
            y = ip.joinv(a, b, va.args[1], vb.args[1], where, path + ("a1",), phis)
            return T("app", x, y)
        # c vs app(c, ck): treat c as app(c, empty chunk)
        for x, y, sw in ((va, vb, False), (vb, va, True)):
            if isinstance(y, T) and y.op == "app" and y.args[0] == x and (_depth(x) <= 2 or _is_lines(y.args[1])) \
                    and isinstance(y.args[1], T) and y.args[1].op in ("pre", "flat"):
                z = y.args[1]
                sy = a if sw else b
                k = z.args[1] if z.op == "pre" else I(self.seqcount(ip, sy, z.args[0]))
                kk = ip.joinv(a, b, k if sw else I(0), I(0) if sw else k, where, path + ("k",), phis)
                return T("app", x, T("pre", z.args[0], kk))
            if isinstance(y, T) and y.op == "app" and y.args[0] == x and _depth(x) <= 2 and isinstance(y.args[1], T) and y.args[1].op == "ck":
                ck = y.args[1]
                ln = ip.joinv(a, b, I(0) if not sw else ck.args[2], ck.args[2] if not sw else I(0), where, path + ("ln",), phis)
                return T("app", x, T("ck", ck.args[0], ck.args[1], ln))
        return O(ip.phi(where, path, None, ip.vprov(va) | ip.vprov(vb), False, (va, vb)))

    def src_pos(self, ip, st, src):
        """Current read position of the reader whose data is `src`."""
        if isinstance(src, O):
            v = st.mem.get(("H", src.id))
            if isinstance(v, A) and "pos" in v.fields and isinstance(v.fields["pos"], I):
                return v.fields["pos"].lin
        return None

    def byte_label(self, ip, st, c, lo, hi):
        a, b = st.num.const(lo), st.num.const(hi)
        if a is None or b is None:
            return None
        if isinstance(c, T) and c.op == "ck":
            x = st.num.const(c.args[1].lin)
            if x is None:
                return None
            return self.byte_label(ip, st, c.args[0], lo + x, hi + x)
        if isinstance(c, O):
            return ("bytes", c.id, int(a), int(b))
        return None

    def prov(self, ip, st, v, d=0):
        """Provenance labels of a value (through references)."""
        p = set(ip.vprov(v))
        if d > 5:
            return p
        if isinstance(v, (R, RS)):
            x = self.rd(ip, st, v)
            p |= self.prov(ip, st, x, d + 1)
        elif isinstance(v, S):
            c = self.content(ip, st, v)
            if isinstance(c, T) and c.op == "ck":
                lb = self.byte_label(ip, st, c.args[0], c.args[1].lin, c.args[1].lin + c.args[2].lin)
                if lb:
                    return {lb}
            p |= set(ip.vprov(c))
        elif isinstance(v, A):
            for x in v.fields.values():
                p |= self.prov(ip, st, x, d + 1)
        return p

    def slice_write(self, ip, st, sl, tag="written"):
        if isinstance(sl, S) and isinstance(sl.base, tuple):
            _, root, path = sl.base
            v = ip.read(st, root, path, None)
            c = O(ip.sym((tag, self.content(ip, st, v))))
            kw = dict(fillc=EMPTY, valid=I(0)) if isinstance(v, A) and "fillc" in v.fields else {}
            for k in ("flat", "seq"):
                if isinstance(v, A) and k in v.fields:
                    kw[k] = O(ip.sym((tag, v.fields[k])))
            ip.write(st, root, path, self.setattrs(ip, st, v, content=c, **kw))

    def drop(self, ip, fn, frame, b, st, t):
        pass

    # ------------------------------------------------------------- default
    def argprov(self, ip, st, cs):
        p = set()
        for a in cs.args:
            p |= self.prov(ip, st, a)
        return p

    def default(self, ip, cs, st):
        prov = self.argprov(ip, st, cs)
        if cs.term.get("t") is None:
            return []
        new = not self.environment(ip, cs)
        self.havoc_args(ip, cs, st, prov, new=new)
        return self.fresh_result(ip, cs, st, prov, tag="?r" if new else "r")

    def environment(self, ip, cs):
        """Meant to be arbitrary, as opposed to not understood."""
        if self._env is None:
            import os
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "environment.txt")) as fh:
                self._env = {l.strip() for l in fh if not l.startswith("#")}
        n = cs.rname or ""
        return n in self._env or n.lstrip("<&").startswith(OUTSIDE) or n.startswith("<indirect") or n.split("::")[0].lstrip("<&") in ip.p.crates

    _env = None

    def havoc_args(self, ip, cs, st, prov=(), only=None, new=False):
        for i, a in enumerate(cs.args):
            if only is not None and i not in only:
                continue
            if isinstance(a, S) and i < len(cs.atys) and cs.atys[i].k == "ref" and not cs.atys[i].mut:
                continue
            self._havoc(ip, cs, st, a, ("?hv" if new else "hv", i), prov, 0)

    def _havoc(self, ip, cs, st, a, tag, prov, d):
        if d > 8:
            return
        if isinstance(a, R):
            if a.mut:
                v = ip.read(st, a.root, a.path, None)
                ty = None
                if isinstance(v, O):
                    ty = ip.st.info[v.id].ty
                elif isinstance(v, A) and v.base is not None:
                    ty = ip.st.info[v.base].ty
                if isinstance(v, (R, RS)):
                    self._havoc(ip, cs, st, v, tag + ("*",), prov, d + 1)
                    return
                s = ip.fresh(st, cs.frame, cs.block, tag, ty, prov)
                if isinstance(v, A) and isinstance(v.adt, str) and v.variant is None and ty is None:
                    ip.write(st, a.root, a.path, A(v.adt, None, {}, s))
                elif isinstance(v, I):
                    ip.write(st, a.root, a.path, I(Lin.sym(s)))
                else:
                    ip.write(st, a.root, a.path, O(s))
        elif isinstance(a, A):
            for k, x in a.fields.items():
                self._havoc(ip, cs, st, x, tag + (k,), prov, d + 1)
        elif isinstance(a, S):
            self.slice_write(ip, st, a, "?hv" if str(tag[0]).startswith("?") else "written")

    def fresh_result(self, ip, cs, st, prov=(), tag="r", ty=None, errs=True):
        ty = ty or cs.dty
        if ty.k == "enum" and ty.adt == RES and len(ty.args) >= 2:
            outs = []
            if ty.args[0].k != "never":
                so = st.copy()
                v = ip.make(ip.fresh(so, cs.frame, cs.block, tag + "ok", ty.args[0], prov), ty.args[0])
                outs.append((so, ok(v)))
            v = ip.make(ip.fresh(st, cs.frame, cs.block, tag + "err", ty.args[1], prov), ty.args[1])
            outs.append((st, err(v)))
            return outs
        if ty.k == "enum" and ty.adt == OPT and len(ty.args) >= 1:
            so = st.copy()
            v = ip.make(ip.fresh(so, cs.frame, cs.block, tag + "some", ty.args[0], prov), ty.args[0])
            return [(so, some(v)), (st, NONE)]
        v = ip.make(ip.fresh(st, cs.frame, cs.block, tag, ty, prov), ty)
        return [(st, v)]

    def result(self, ip, cs, st, okv, on_ok=None, on_err=None, prov=()):
        """Two outcomes: Ok(okv) / Err(fresh)."""
        ty = cs.dty
        et = ty.args[1] if ty.k == "enum" and len(ty.args) > 1 else None
        se = st.copy()
        outs = []
        if on_ok is not None:
            r = on_ok(st)
            if r is not None:
                okv = r
        outs.append((st, ok(okv)))
        ev = ip.make(ip.fresh(se, cs.frame, cs.block, "err", et, prov), et)
        if on_err is not None:
            on_err(se)
        outs.append((se, err(ev)))
        return outs


def _depth(c):
    n = 0
    while isinstance(c, T) and c.op == "app":
        n += 1
        c = c.args[0]
    return n


def _is_lines(c):
    """Some of the lines of a header map."""
    return isinstance(c, T) and c.op in ("pre", "flat") and isinstance(c.args[0], T) and c.args[0].op == "hl"


def _known_ids(ip, st):
    return st.ids()


M = Models()
reg = M.reg
